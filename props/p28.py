"""P28: settings given to the public objects are the ones used, by whatever route they were given."""
import copy

import numpy as np

from rvlib import fits, gen, ref1d

TECHNIQUE = ('runtime monitor: a reference state machine (given values, documented defaults) is run beside every public settings object over random sequences of '
             'constructions, setAttr calls and copies; models, fits and profiles made from settings given by different routes are compared with each other')
NOTE = 'Held on the sequences observed: after every step all attributes are compared with the reference, and models of equal settings with each other (bitwise or 1e-12).'
RULE = ('random subsets of the documented settings of each public class, given on construction or in one to three later setAttr calls, with falsy values and unknown '
        'keywords; random pairs of configurations for the routes; distinct: class, route, falsy values, unknown keywords')
MIN = {'step': 600, 'object': 250, 'copy': 150, 'route': 40, 'profile': 60, 'spectrum': 60, 'fit': 12, 'fit1d': 20}
N = {'quick': (10, 30, 60, 14), 'thorough': (120, 300, 600, 100)}
F, I, B, S, A, O = 'float', 'int', 'bool', 'str', 'array', 'any'
MC = dict(cpuFrac=(F, 0.75), nCPUs=(I, None), nWalkers=(I, 2000), nSteps=(I, 100), nBurn=(I, 50), scale_param_a=(F, 3.), nEff=(I, 10), minAF=(F, 0.2),
          maxAF=(F, 0.5), NoThread=(B, False), runAllSteps=(B, False), overwrite=(B, True), **{k: (S, None) for k in (
              'filename_log', 'filename_sampler', 'filename_sampler_h5', 'filename_bestfit_model', 'filename_plot_trace_burnin', 'filename_plot_trace',
              'filename_plot_param_corner', 'filename_plot_bestfit')})
GB = dict(z=(F, None), n=(F, None), re_arcsec=(F, None), q=(F, None), re_mass_arcsec=(F, None), q_mass=(F, None), q0=(F, 0.19), delt_PA=(F, None),
          generate_model=(B, False), spec2D=(O, None))
GAL = dict({k: v for k, v in GB.items() if k != 'generate_model'}, field=(S, None), maskname=(S, None), ID=(I, None), RA=(F, None), DEC=(F, None), Av=(F, None),
           lmass=(F, None), lage=(F, None), ltau=(F, None), lsfr=(F, None), Av_neb=(F, None), sersicRA=(F, None), sersicDEC=(F, None), sersicPA=(F, None),
           spec1D=(O, None), pstamp=(O, None), dither=(B, True), debug=(B, False), generate_model=(B, False))
SP = dict(wave=(A, None), flux=(A, None), flux_err=(A, None), spec_mask=(A, None), units_wave=(S, 'angstroms'), units_flux=(S, 'flam'), spec_type=(S, 'wave'))
OBS = dict(SP, band=(S, None), slit_PA=(F, None))
S1 = dict(OBS, extraction_method=(S, 'optimal'), extraction_spatial_profile=(A, None), units_spatial=(S, 'arcsec'), trim_obswave_range=(A, None),
          trim_restwave_range=(A, None), num_mask_edge=(I, 10))
S2 = dict(OBS, dlam=(F, None), m0=(F, None), m_lims=(A, None), lam0=(F, None), ypos=(F, None), yoffset=(F, 0.), y_width=(F, None), spec_weight=(A, None),
          band_cutoff=(F, None), band_cutoff_units=(S, 'timesMedianErr'), no_continuum_subtraction=(B, False), row_snr_cut=(F, 2.), weighting_type=(S, 'up-edges'),
          linegroup_name=(S, None), linenames_arr=(A, None), restwave_arr=(A, None), flux_ratio_arr=(A, None), trim_obswave_range=(A, None),
          trim_restwave_range=(A, None), wave_full_range_rest=(A, None), wave_line_range_rest=(A, None), mask_lines_wave_range_rest=(A, None),
          **{k: (S, None) for k in ('band_cutoff_param_filename', 'linenames_param_filename', 'restwave_param_filename', 'wave_full_range_rest_param_filename',
                                    'wave_line_range_rest_param_filename', 'mask_lines_wave_range_rest_param_filename')})
PSF = dict(PSF_FWHM=(F, None), yspace_dither_arc=(F, None))
INS = dict(instrument_name=(S, None), band=(S, None), pixscale=(F, None))
KO = dict(nSubpixels=(I, 2), pad_factor=(F, 0.5), do_position_wave_shift=(B, False), do_inst_res_conv_effective=(B, False), absvalsigma=(B, False),
          adaptive_upsample_wave=(B, True), adaptive_upsample_factor=(F, 3.), sigma_floor=(B, True))
TS = dict(theta=(A, None), theta_vary=(A, None), theta_names=(A, None), theta_names_nice=(A, None), theta_bounds=(O, None), theta_linked_posteriors=(A, None))
FID = dict(TS, theta=(A, np.zeros(5)), theta_vary=(A, np.array([True]*3 + [False]*2)), theta_names=(A, ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']))
del FID['theta_names_nice']
LM = dict(names_arr=(A, None), vel_disp=(F, None), z=(F, None), flux_arr=(A, None), cont_coeff=(A, None), cont_order=(I, 1), shape1D=('gauss', 'gaussian'))
# class: (module, settings, fixed constructor arguments)
CLASSES = {
    'MCMC2DOptions': ('fit', MC, {}), 'MCMCResults': ('fit.fit_core', {k: (A, None) for k in ('bestfit_theta', 'err_theta_1sig', 'err_theta_2sig', 'percent_oppsign')}, {}),
    'GalaxyBasic': ('galaxy', GB, {}), 'Galaxy': ('galaxy', GAL, {}), 'Spectrum': ('galaxy', SP, {}), 'ObsSpectrum': ('galaxy', OBS, {}),
    'ObsSpectrum1D': ('galaxy', S1, {}), 'ObsSpectrum2DBasic': ('galaxy', OBS, {}), 'ObsSpectrum2D': ('galaxy', S2, {}),
    'Pstamp': ('galaxy', dict(pstamp=(A, None), pstamp_hdr=(O, None), img_PA=(F, None)), {}),
    'PSFGaussian': ('instrument', PSF, {}), 'PSFMoffat': ('instrument', dict(PSF, PSF_beta=(F, 2.5)), {}),
    'Instrument': ('instrument', INS, dict(PSF_type='Gaussian', PSF_FWHM=0.5)), 'Imager': ('instrument', INS, dict(PSF_type='moffat', PSF_FWHM=0.5)),
    'Spectrograph': ('instrument', dict(INS, slit_width=(F, None), slit_length=(F, None), instrument_resolution=(F, None)), dict(PSF_type='Gaussian', PSF_FWHM=0.5)),
    'KinModel2DOptions': ('model', KO, {}), 'Theta2DSettings': ('model', TS, {}), 'Theta2DSettingsFiducial': ('model', FID, {}),
    'EmissionLinesSpectrum1DModel': ('model.emission_lines_model', LM, {}),
    'VelArctanProfile': ('model', dict(theta=(A, np.zeros(2)), name=(S, 'VelArctanProfile')), {}),
    'DispConstProfile': ('model', dict(theta=(A, np.zeros(1)), name=(S, 'DispConstProfile')), {}),
    'KinProfileFiducial': ('model', dict(theta=(A, None), name=(S, 'VelArctanDispConstProfile'), theta_names=(A, None), theta_names_nice=(A, None)), {}),
}


def cases(tier, seed):
    a, b, c, d = N[tier]
    out = [{'kind': 'settings', 'cls': k, 'seed': i, 'base': seed} for k in CLASSES for i in range(a)]
    out += [{'kind': 'profiles', 'seed': i, 'base': seed} for i in range(c//3)]
    out += [{'kind': 'spectra', 'seed': i, 'base': seed} for i in range(c//2)]
    out += [{'kind': 'psf', 'seed': i, 'base': seed} for i in range(c//2)]
    for i in range(b):
        r = gen.rng_for('P28r', seed, i)
        c1 = gen.cfg2d(r, nsub=gen.pick(r, [1, 2]), nrows=int(r.integers(5, 9)))
        while True:
            c2 = gen.cfg2d(r, nsub=gen.pick(r, [1, 2]), nrows=int(r.integers(5, 9)), vprof='arctan', dprof='const', PSF_type=c1['PSF_type'])
            if gen.grid_ok(c2):
                break
        out.append({'kind': 'route', 'cfg': c2, 'other': c1, 'seed': i})
    for i in range(d):
        out.append({'kind': 'fit', 'cfg': fits.fit_cfg(gen.rng_for('P28f', seed, i), nrows=int(gen.rng_for('P28n', i).integers(5, 9))), 'seed': i})
    for i in range(2*d):
        r = gen.rng_for('P28one', seed, i)
        out.append({'kind': 'fit1d', 'cfg': ref1d.cfg(r, range='explicit', snr=gen.pick(r, [40., 100.]), pad=gen.uni(r, 50., 80.), extra=60., edges=[0, 0]), 'seed': i})
    return out


def run(case, mon):
    {'settings': settings, 'profiles': profiles, 'spectra': spectra, 'psf': psf, 'route': route, 'fit': fit, 'fit1d': fit1d}[case['kind']](case, mon)


def get_class(name):
    import importlib
    for m in ('misfit', 'misfit.' + CLASSES[name][0], 'misfit.model.kin_classes', 'misfit.model.kin_model'):
        if hasattr(importlib.import_module(m), name):
            return getattr(importlib.import_module(m), name)
    raise ImportError(name)


def value(kind, r):
    falsy = r.random() < 0.25
    if kind == F:
        return 0. if falsy else float(np.round(r.uniform(-3., 9.), 4))
    if kind == I:
        return 0 if falsy else int(r.integers(1, 500))
    if kind == B:
        return bool(r.random() < 0.5)
    if kind == S:
        return '' if falsy else 'v%d' % r.integers(1000)
    if kind == 'gauss':
        return 'gaussian'
    if kind == A:
        return gen.pick(r, [np.zeros(3), np.zeros(1)]) if falsy else r.standard_normal(int(r.integers(1, 6)))
    return gen.pick(r, [None, {'a': 1}, [[0., 1.], None], 'x'])


def compare(mon, obj, ref, what):
    for k, v in ref.items():
        got = getattr(obj, k, '<no attribute>')
        ok = fits.equal(got, v) and (isinstance(v, np.ndarray) or type(got) is type(v) or isinstance(got, np.ndarray))
        mon.check('settings', ok, '%s: %s is not the value given (or the documented default)' % (what, k), got=got, want=v)


def settings(case, mon):
    name = case['cls']
    mod, table, fixed = CLASSES[name]
    cls = get_class(name)
    r = gen.rng_for('P28s', name, case['base'], case['seed'])
    default = {k: v[1] for k, v in table.items()}
    compare(mon, cls(**fixed), default, name + '()')
    mon.ev('object')
    ref = dict(default)

    def subset():
        keys = [k for k in table if r.random() < gen.pick(r, [0.15, 0.5, 1.])]
        r.shuffle(keys)
        return {k: value(table[k][0], r) for k in keys}
    kw = subset()
    extra = {'no_such_setting': 3} if r.random() < 0.5 else {}
    before = copy.deepcopy(kw)
    x = cls(**dict(fixed, **kw, **extra))
    ref.update(kw)
    mon.ev('step')
    mon.ev('object')
    mon.sig(name, 'construct', bool(extra), any(v is None or (not isinstance(v, np.ndarray) and not v) for v in kw.values()))
    compare(mon, x, ref, name + '(...)')
    others = []
    for step in range(int(r.integers(1, 5))):
        if r.random() < 0.35:
            # a copy goes its own way
            y = x.copy() if hasattr(x, 'copy') and r.random() < 0.7 else copy.deepcopy(x)
            compare(mon, y, ref, 'copy of ' + name)
            mon.ev('copy')
            for k in ref:
                v = getattr(y, k)
                if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
                    v += 17.5
                elif isinstance(v, list) and v:
                    v[0] = 'changed'
                elif isinstance(v, dict):
                    v['changed'] = 1
            compare(mon, x, ref, name + ' after changing a copy')
        elif not hasattr(x, 'setAttr'):
            continue
        else:
            more = subset()
            before.update(copy.deepcopy(more))
            kw.update(more)
            x.setAttr(**dict(more, **({'no_such_setting': 1} if r.random() < 0.3 else {})))
            ref.update(more)
            compare(mon, x, ref, name + '.setAttr')
            mon.sig(name, 'setAttr', step)
        mon.ev('step')
        # another one is not involved
        z = cls(**fixed)
        compare(mon, z, default, 'another %s()' % name)
        for k, v in default.items():
            w = getattr(z, k)
            if isinstance(w, np.ndarray) and w.size:
                w[...] = True if w.dtype.kind == 'b' else 99.     # the defaults of one object belong to it
            elif isinstance(w, list) and w:
                w[0] = 'changed'
        others.append(z)
        mon.ev('object')
    mon.check('values', not fits.changed(fits.snap(before), fits.snap(kw)), name + ' modifies the values it was given')


def profiles(case, mon):
    from misfit.galaxy import Galaxy
    from misfit.model.kin_classes import DispConstProfile, IntensityProfile, IntensityProfileFiducial, KinProfile, KinProfileFiducial, VelArctanProfile
    from misfit.model.kin_classes import IntProfileExpZ, IntProfileExpZScale, IntProfileSersic, IntensityProfileSersicExpScale
    r = gen.rng_for('P28p', case['base'], case['seed'])
    va, rt, s = r.uniform(-400, 400), r.uniform(0.05, 2.), r.uniform(5., 200.)
    x, z = r.uniform(-3, 3, 30), r.uniform(-1, 1, 30)
    vel = va*2/np.pi*np.arctan(x/rt)
    for v in (VelArctanProfile(theta=np.array([va, rt])), VelArctanProfile(theta=[va, rt], name='mine')):
        mon.close('velocity', v.vel(x, z), vel, rtol=1e-12, msg='a velocity profile does not use the theta given')
        d = DispConstProfile(theta=np.array([s]))
        mon.close('dispersion', d.sigma(x, z), np.full(30, s), rtol=1e-12, msg='a dispersion profile does not use the theta given')
        k = KinProfile(velProfile=v, dispProfile=d)
        mon.close('velocity', k.vel(x, z), vel, rtol=1e-12, msg='the profile given is not used')
        mon.close('dispersion', k.sigma(x, z), np.full(30, s), rtol=1e-12, msg='the profile given is not used')
        th = np.array([0.4*va, rt*2, s+3., 0.3, 1.2])
        th0 = th.copy()
        k.update_theta(th)
        mon.close('updated', k.vel(x, z), 0.4*va*2/np.pi*np.arctan(x/rt/2), rtol=1e-12, msg='update_theta')
        mon.close('updated', k.sigma(x, z), np.full(30, s+3.), rtol=1e-12, msg='update_theta')
        mon.same('pure', th, th0, 'update_theta modifies theta')
    f, g = KinProfileFiducial(), KinProfileFiducial()
    f.update_theta(np.array([va, rt, s, 0., 1.]))
    g.update_theta(np.array([1., 1., 1., 0., 1.]))
    mon.close('fiducial', f.vel(x, z), vel, rtol=1e-12, msg='fiducial profile')
    mon.close('fiducial', f.sigma(x, z), np.full(30, s), rtol=1e-12, msg='fiducial profile')

    class Flat(VelArctanProfile):
        def vel(self, r, z):
            return 0.*r + self.theta[0]
    h = KinProfileFiducial(velProfile=Flat(theta=np.zeros(1)))
    h.update_theta(np.array([va, s, 0., 1.]))
    mon.close('given', h.vel(x, z), np.full(30, va), rtol=1e-12, msg='a velocity profile given to the fiducial one is not used')
    mon.close('given', h.sigma(x, z), np.full(30, s), rtol=1e-12, msg='parameters are not distributed after the profiles given')
    # intensity: structure of the galaxy, and components given
    n, re, q0 = r.uniform(0.5, 4.), r.uniform(0.1, 1.), r.uniform(0.1, 0.4)
    gal, gal2 = Galaxy(n=n, re_arcsec=re, q0=q0), Galaxy(n=1., re_arcsec=0.33, q0=0.2)
    R = np.abs(x) + 0.01

    def want(n, re, z0):
        return np.exp(-(2*n-0.324)*((R/re)**(1./n)-1.))*np.exp(-np.abs(z)/z0)
    pairs = [(IntensityProfileFiducial(gal), 1.), (IntensityProfileSersicExpScale(gal), 1.676),
             (IntensityProfile(gal, intProfile_r=IntProfileSersic(gal), intProfile_z=IntProfileExpZ(gal)), 1.),
             (IntensityProfile(gal, intProfile_r=IntProfileSersic(gal), intProfile_z=IntProfileExpZScale(gal)), 1.676),
             (IntensityProfileFiducial(gal, intProfile_z=IntProfileExpZScale(gal)), 1.676),
             (IntensityProfileSersicExpScale(gal, intProfile_z=IntProfileExpZ(gal)), 1.),
             (IntensityProfileSersicExpScale(gal, intProfile_r=IntProfileSersic(gal), intProfile_z=IntProfileExpZScale(gal)), 1.676)]
    for p, k in pairs:
        mon.close('intensity', p.int(R, z), want(n, re, q0*re/k), rtol=1e-11, msg='intensity profile of the galaxy')
        p.update_values(gal2)
        mon.close('intensity', p.int(R, z), want(1., 0.33, 0.066/k), rtol=1e-11, msg='intensity profile after another galaxy was set')
        p.update_values(gal)
        mon.close('intensity', p.int(R, z), want(n, re, q0*re/k), rtol=1e-11, msg='intensity profile after the galaxy was set again')

    class Own(object):
        """A component with only the methods the profiles use."""
        def update_values(self, galaxy):
            self.w = galaxy.re_arcsec

        def int(self, r):
            return 1./(1.+(r/self.w)**2)
    for cls, k in ((IntensityProfileFiducial, 1.), (IntensityProfileSersicExpScale, 1.676)):
        p = cls(gal, intProfile_r=Own())
        mon.close('given', p.int(R, z), np.exp(-np.abs(z)*k/(q0*re))/(1.+(R/re)**2), rtol=1e-11, msg='%s: a radial component given is not used' % cls.__name__)
        p = cls(gal, intProfile_z=Own())
        mon.close('given', p.int(R, z), want(n, re, 1e300)/(1.+(z/re)**2), rtol=1e-11, msg='%s: a vertical component given is not used' % cls.__name__)
        p.update_values(gal2)
        mon.close('given', p.int(R, z), want(1., 0.33, 1e300)/(1.+(z/0.33)**2), rtol=1e-11, msg='%s: a vertical component given is not updated' % cls.__name__)
    a = IntProfileSersic(gal, Ie=3.5)
    mon.close('intensity', a.int(R), 3.5*want(n, re, 1e300), rtol=1e-11, msg='Ie given to the Sersic profile is not used')
    mon.ev('profile', 10)
    mon.sig('profiles', n < 1, va < 0)


def spectra(case, mon):
    """A spectrum handed to a galaxy: rest wavelengths, and a default mask only if none was given."""
    from misfit.galaxy import Galaxy, GalaxyBasic, ObsSpectrum1D, ObsSpectrum2D, ObsSpectrum2DBasic, Pstamp
    r = gen.rng_for('P28w', case['base'], case['seed'])
    ny, nw, z = int(r.integers(1, 9)), int(r.integers(2, 40)), gen.pick(r, [0., r.uniform(0, 7)])
    wave = np.sort(r.uniform(4e3, 2.4e4, nw))
    given = r.random() < 0.5
    for cls, shape, route in ((ObsSpectrum1D, (nw,), 1), (ObsSpectrum2D, (ny, nw), 2), (ObsSpectrum2DBasic, (ny, nw), 2), (ObsSpectrum2D, (ny, nw), 3)):
        mask = (r.random(shape) < 0.7).astype(float)
        kw = dict(wave=wave.copy(), flux=r.standard_normal(shape), flux_err=np.ones(shape), band=gen.pick(r, ['K', 'H']), slit_PA=12.)
        if given:
            kw['spec_mask'] = mask.copy()
        s = cls(**{k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
        g = Galaxy(z=z) if route < 3 else GalaxyBasic(z=z, generate_model=True)
        (g.set_spectrum_1D if route == 1 else g.set_spectrum_2D)(s)
        t = g.spec1D if route == 1 else g.spec2D
        mon.ev('spectrum')
        mon.sig('spectrum', cls.__name__, given, z == 0)
        mon.close('restwave', t.restwave, wave/(1+z), rtol=1e-13, msg='rest wavelengths')
        mon.same('obswave', t.obswave, wave, 'observed wavelengths')
        mon.same('mask', t.spec_mask, mask if given else np.ones(shape), 'mask of the spectrum')
        for k in ('wave', 'flux', 'flux_err', 'band', 'slit_PA'):
            mon.same('spectrum', getattr(t, k), kw[k], 'setting a spectrum changes '+k)
        # set again, after the redshift was changed
        g.setAttr(z=z+0.5)
        (g.set_spectrum_1D if route == 1 else g.set_spectrum_2D)(s)
        mon.close('restwave', t.restwave, wave/(1.5+z), rtol=1e-13, msg='rest wavelengths after the redshift changed')
        mon.same('mask', t.spec_mask, mask if given else np.ones(shape), 'mask of the spectrum set again')
    v = ObsSpectrum2D(wave=wave-1e4, spec_type='velocity', flux=np.ones((ny, nw)))
    Galaxy(z=z).set_spectrum_2D(v)
    mon.same('velocity', v.wave, wave-1e4, 'velocities of a spectrum were changed')
    p = Pstamp(pstamp=np.ones((4, 5)), img_PA=3.)
    g = Galaxy()
    g.set_pstamp(p)
    mon.check('pstamp', g.pstamp is p, 'the postage stamp is not the one set')


def psf(case, mon):
    """PSF settings given to an instrument reach its PSF, and changing one later counts."""
    from misfit import instrument as im
    r = gen.rng_for('P28i', case['base'], case['seed'])
    typ = gen.pick(r, ['Gaussian', 'gaussian', ' GAUSSIAN ', 'Moffat', 'moffat', 'Moffat '])
    cls = getattr(im, gen.pick(r, ['Instrument', 'Spectrograph', 'Imager']))
    kw = dict(PSF_FWHM=gen.uni(r, 0.3, 1.5), yspace_dither_arc=gen.pick(r, [None, 2.7]))
    if r.random() < 0.7:
        kw['PSF_beta'] = gen.uni(r, 2., 5.)
    ins = cls(PSF_type=typ, instrument_name='a', pixscale=0.18, **kw)
    moffat = 'moffat' in typ.lower()
    xs, ys = np.arange(21)*0.1-1., np.arange(25)*0.1-1.2
    X, Y = np.meshgrid(xs, ys)

    def kernel(fwhm, beta):
        rr = X**2+Y**2
        if moffat:
            return (1+rr/(fwhm/2)**2*(2**(1/beta)-1))**(-beta)
        return np.exp(-4*np.log(2)*rr/fwhm**2)

    def measured(P, **k):
        return np.array(P.generate_conv_stamp(xs, ys, **k))
    mon.ev('route')
    mon.sig('psf', cls.__name__, typ.strip().lower(), kw['yspace_dither_arc'] is None, 'PSF_beta' in kw)
    for k in ('PSF_FWHM', 'yspace_dither_arc') + (('PSF_beta',) if moffat else ()):
        mon.check('psf', getattr(ins.PSF, k) == kw.get(k, 2.5), '%s given to the instrument is not that of its PSF' % k, got=getattr(ins.PSF, k), want=kw.get(k))
    mon.check('psf type', isinstance(ins.PSF, im.PSFMoffat if moffat else im.PSFGaussian), 'the PSF is not of the type given')
    other = cls(PSF_type='Gaussian', PSF_FWHM=9.)
    mon.check('psf', ins.PSF is not other.PSF and ins.PSF.PSF_FWHM == kw['PSF_FWHM'], 'instruments share a PSF')
    c = ins.copy()
    c.PSF.setAttr(PSF_FWHM=3.3)
    mon.check('copy', ins.PSF.PSF_FWHM == kw['PSF_FWHM'], 'a copied instrument shares its PSF')
    if kw['yspace_dither_arc'] is None:
        for f, b in ((kw['PSF_FWHM'], kw.get('PSF_beta', 2.5)), (kw['PSF_FWHM']*1.7, 3.1)):
            ins.PSF.setAttr(PSF_FWHM=f, **({'PSF_beta': b} if moffat else {}))
            for k1, ff in ((measured(ins.PSF), f), (measured(ins.PSF, PSF_FWHM=0.4), 0.4), (measured(ins.PSF), f)):
                w = kernel(ff, b)
                mon.close('kernel', k1/k1.max(), w/w.max(), rtol=1e-9, msg='the kernel is not that of the current PSF settings')
    mon.check('psf type', isinstance(cls(PSF_type='triangle', PSF_FWHM=1.).PSF, im.PSFGaussian), 'an unknown PSF type is not taken as Gaussian')


def wave_of(c):
    return np.asarray(gen.wave_array(c))


def route(case, mon):
    """The same settings on construction, by setAttr on objects that were used with other ones, or on copies: the same model."""
    from misfit import KinModel2D, KinModel2DOptions, Theta2DSettings
    from misfit.model import AperModel2D
    c, o = case['cfg'], case['other']
    r = gen.rng_for('P28route', case['seed'])
    theta = gen.theta_of(c)[0]
    want = gen.run_model(c).model
    mon.ev('route')
    mon.sig('route', c['iprof'], c['spec_type'], c['PSF_type'].strip().lower(), c['nsub'], c['generate_model'])
    # objects made (and used) with other settings
    km0, g, ins, th0 = gen.build(o)
    km0.make_model(galaxy=g, instrument=ins, theta_fitting=th0)
    first = km0.model.copy()
    if r.random() < 0.5:
        g, ins = g.copy(), ins.copy()
    new = gen.make_galaxy(c)
    gk = ('z', 'n', 're_arcsec', 'q', 'q0', 'delt_PA', 're_mass_arcsec', 'q_mass', 'generate_model')
    g.setAttr(**{k: getattr(new, k) for k in gk})
    g.set_spectrum_2D(new.spec2D)
    ik = ('pixscale', 'slit_width', 'slit_length', 'instrument_resolution', 'band')
    ref = gen.make_instrument(c)
    ins.setAttr(**{k: getattr(ref, k) for k in ik})
    ins.PSF.setAttr(PSF_FWHM=c['FWHM'], yspace_dither_arc=c['yspace'], PSF_beta=c['beta'])
    kw = dict(nSubpixels=c['nsub'], pad_factor=c['pad'], absvalsigma=c['absval'], adaptive_upsample_wave=c['adaptive'], adaptive_upsample_factor=c['factor'],
              sigma_floor=c['floor'], do_position_wave_shift=c.get('posshift', False))
    opt = km0.kinModelOptions if r.random() < 0.5 else KinModel2DOptions()
    opt.setAttr(**kw)
    names = ['p%d' % i for i in range(len(theta))]
    st = Theta2DSettings()
    st.setAttr(theta=theta.copy(), theta_vary=np.zeros(len(theta), dtype=bool), theta_names=names, theta_names_nice=names, theta_bounds=[None]*len(theta))
    kin, inten = gen.make_profiles(c, g)
    late = r.random() < 0.5
    km = KinModel2D(g, thetaSettings=st, kinProfile=kin, intensityProfile=inten, kinModelOptions=opt, **({} if late else dict(spec_type=c['spec_type'], no_scale=True)))
    if late:
        km.setAttr(spec_type=c['spec_type'], no_scale=True)
    km.make_model(galaxy=g, instrument=ins, theta_fitting=[])
    mon.close('setAttr', km.model, want, rtol=1e-12, msg='the model of settings given by setAttr differs')
    if r.random() < 0.5:
        mon.same('earlier', km0.model, first, 'an earlier model changed with the settings')
    # free parameters by setAttr
    vary = r.random(len(theta)) < 0.5
    st2 = Theta2DSettings(theta=np.where(vary, theta*0.7+0.1, theta), theta_vary=np.ones(len(theta), dtype=bool), theta_names=names, theta_names_nice=names)
    k2, i2 = gen.make_profiles(c, g)
    km2 = KinModel2D(g, thetaSettings=st2, kinProfile=k2, intensityProfile=i2, kinModelOptions=opt, spec_type=c['spec_type'], no_scale=True)
    km2.setAttr(theta_vary=vary)
    mon.check('n free', km2.n_free_param == int(vary.sum()), 'the number of free parameters does not follow theta_vary', got=km2.n_free_param, want=int(vary.sum()))
    km2.make_model(galaxy=g, instrument=ins, theta_fitting=theta[vary])
    mon.close('setAttr vary', km2.model, want, rtol=1e-12, msg='the model with other free parameters differs')
    # the aperture model itself
    k3, i3 = gen.make_profiles(c, g)
    k3.update_theta(theta)
    a = AperModel2D(galaxy=g, instrument=ins, theta=theta.copy(), spec_type=c['spec_type'], kinProfile=k3, intensityProfile=i3, **kw)
    mon.close('aperture model', a.model, want, rtol=1e-12, msg='AperModel2D with the same settings differs')


def fit(case, mon):
    """A fit uses the profiles, options and parameter settings it was given, and doesn't modify them."""
    from misfit import FitEmissionLines2D, KinModel2DOptions, MCMC2DOptions, Theta2DSettings
    c = case['cfg']
    r = gen.rng_for('P28fit', case['seed'])
    data = fits.data_for(c, r)
    vary = [True, True, True, bool(r.random() < 0.5), bool(r.random() < 0.5)]
    th = gen.theta_of(c)[0]
    bounds = fits.bounds_for(c)
    A_ = fits.make_fit(c, [np.copy(x) for x in data], vary, nWalkers=16)
    mon.ev('fit')
    mon.sig('fit', tuple(vary), c['iprof'])
    opt, st, mc = gen.make_options(c), A_.thetaSettings, MCMC2DOptions(nWalkers=16, nSteps=7, nBurn=3, nCPUs=1, NoThread=True)
    st = Theta2DSettings(theta=th.copy(), theta_vary=np.array(vary), theta_names=list(fits.NAMES), theta_names_nice=list(fits.NAMES), theta_bounds=copy.deepcopy(bounds))
    g = fits.prepared_galaxy(c, [np.copy(x) for x in data])
    kin, inten = gen.make_profiles(c, g)
    f = FitEmissionLines2D(galaxy=g, instrument=gen.make_instrument(dict(c, FWHM=0.33)), skip_fit_prep_calcs=True,
                           thetaSettings=Theta2DSettings(theta=th*0., theta_vary=np.ones(5, dtype=bool), theta_names=list(fits.NAMES), theta_names_nice=list(fits.NAMES),
                                                         theta_bounds=[[-1., 1.]]*5))
    ins = gen.make_instrument(c)
    f.setAttr(instrument=ins, kinProfile=kin, intensityProfile=inten, kinModelOptions=opt, thetaSettings=st, mcmcOptions=mc, usetex=False)
    before = [fits.snap(x) for x in (ins, opt, st, mc, g)]
    f.setup_model()
    t = th[np.array(vary)]*1.07 + 0.01
    for F_ in (A_, f):
        F_.make_model(theta_fitting=t)
    mon.close('fit setAttr', f.kinModel.model, A_.kinModel.model, rtol=1e-12, msg='the model of a fit with settings given by setAttr differs')
    full = th.copy()
    full[np.array(vary)] = t
    cc = dict(c, Va=float(full[0]), rt=float(full[1]), sigma0=float(full[2]), m0_shift=float(full[3]), z=float(full[4]), wave=wave_of(c).tolist())
    km, kg, ki, kt = gen.build(cc, galaxy=fits.prepared_galaxy(c, [np.copy(x) for x in data]), no_scale=False)
    km.make_model(galaxy=kg, instrument=ki, theta_fitting=kt)
    mon.close('fit settings', f.kinModel.model, km.model, rtol=1e-9, msg='the model of a fit is not that of the profiles and options given')
    # another velocity profile, given in both ways
    from misfit.model.kin_classes import KinProfileFiducial, VelArctanProfile

    class Half(VelArctanProfile):
        def vel(self, r, z):
            return 0.5*VelArctanProfile.vel(self, r, z)
    own = KinProfileFiducial(velProfile=Half())
    q = fits.make_fit(c, [np.copy(x) for x in data], vary, kin=own, setup=False)
    if r.random() < 0.5:
        q = fits.make_fit(c, [np.copy(x) for x in data], vary, setup=False)
        q.setAttr(kinProfile=own)
    q.setup_model()
    t2 = t.copy()
    t2[0] *= 2.
    q.make_model(theta_fitting=t2)
    mon.close('fit profile', q.kinModel.model, km.model, rtol=1e-9, msg='the velocity profile given to a fit is not that of its model')
    mon.same('starting', f.kinModel.theta_init, th, 'the starting values are not those given')
    mon.same('free', [f.kinModel.n_free_param, list(np.asarray(f.kinModel.theta_vary, dtype=int))], [sum(vary), list(np.array(vary, dtype=int))], 'the free parameters are not those given')
    for x, b, nm in zip((ins, opt, st, mc, g), before, ('instrument', 'kinModelOptions', 'thetaSettings', 'mcmcOptions', 'galaxy')):
        ch = fits.changed(b, fits.snap(x))
        mon.check('fit pure', not ch, 'setting up a fit and making its model modifies the %s given: %s' % (nm, ch[:5]))
    mon.check('fit keeps', f.mcmcOptions.nWalkers == 16 and f.mcmcOptions.nSteps == 7 and f.usetex is False, 'options of the fit are not those given')
    for tt in (t, t*1.02):
        a, b = A_.thetaPrior.log_prior(tt), f.thetaPrior.log_prior(tt)
        mon.check('prior', a == b, 'the prior is not that of the bounds given', got=b, want=a)
    # line set and results given on construction
    from misfit import MCMCResults
    g3 = fits.prepared_galaxy(c, [np.copy(x) for x in data])
    lines = (g3.spec2D.linenames_arr, g3.spec2D.restwave_arr, g3.spec2D.flux_ratio_arr)
    g3.spec2D.linenames_arr = g3.spec2D.restwave_arr = g3.spec2D.flux_ratio_arr = None
    k3, i3 = gen.make_profiles(c, g3)
    img, res = gen.make_instrument(c), MCMCResults(bestfit_theta=t.copy())
    e = FitEmissionLines2D(galaxy=g3, instrument=gen.make_instrument(c), instrument_img=img, kinProfile=k3, intensityProfile=i3, kinModelOptions=gen.make_options(c),
                           linenames_arr=list(lines[0]), restwave_arr=np.array(lines[1]), flux_ratio_arr=np.array(lines[2]), thetaSettings=copy.deepcopy(st),
                           mcmcOptions=MCMC2DOptions(nWalkers=18), mcmc_results=res, theta_linked_posteriors=[1, 1, 0, 0, 0], usetex=False, skip_fit_prep_calcs=True)
    mon.check('fit given', e.instrument_img is img and e.mcmc_results is res and list(e.theta_linked_posteriors) == [1, 1, 0, 0, 0] and e.mcmcOptions.nWalkers == 18
              and e.usetex is False and e.kinProfile is k3 and e.intensityProfile is i3 and A_.mcmcOptions.nWalkers == 16, 'objects given to the fit are not those it has')
    e.setup_model()
    e.make_model(theta_fitting=t)
    mon.close('fit lines', e.kinModel.model, A_.kinModel.model, rtol=1e-12, msg='the lines given to the fit are not those of its model')
    mon.same('fit lines', [list(e.restwave_arr), list(e.flux_ratio_arr)], [list(lines[1]), list(lines[2])], 'the lines of the fit are not those given')
    h = f.copy()
    h.make_model(theta_fitting=t*0.9)
    h.thetaSettings.theta += 3.
    h.mcmcOptions.setAttr(nSteps=1)
    mon.close('copy', f.kinModel.model, A_.kinModel.model, rtol=1e-12, msg='a fit changed with its copy')
    mon.same('copy', f.thetaSettings.theta, th, 'a copied fit shares its settings')
    mon.ev('copy')


def fit1d(case, mon):
    """A 1D fit starts from the values it was given and fits with the options it was given; its results survive later changes of other settings."""
    c = case['cfg']
    r = gen.rng_for('P28fit1d', case['seed'])
    d = ref1d.raw(c)
    tz, td, tf, tc = ref1d.truth(c)
    w0, n = ref1d.TABLE[c['names'][0]][0][0], len(c['names'])
    sig = td/ref1d.C_KMS*(1+tz)
    mon.sig('fit1d', tuple(c['names']), c['order'])

    def best(f):
        return np.array([f.z, f.vel_disp] + list(f.flux_arr))

    def start(f, z, dl, zg, what):
        q = f.lmfit_result.params['z']
        mon.check(what, abs(q.init_value-z) <= 1.001e-2*dl/w0, 'the redshift fit does not start from the value given', start=q.init_value, want=z)
        # (which line of the group the range refers to makes a difference below 1%)
        mon.close(what+' range', [q.min-zg, q.max-zg], [-dl/w0, dl/w0], rtol=1e-2, msg='the range of the redshift is not that of del_obs_lam')
    A_ = ref1d.fitter(c, d, mon)
    mon.check('galaxy z', A_.z == A_.galaxy.z == c['z'], 'the initial redshift is not that of the galaxy', got=A_.z)
    guess = {k: A_.__dict__[k] for k in ('vel_disp', 'flux_arr', 'cont_order')}
    A_.fit(noErrors=True, noPlot=True)
    mon.ev('fit1d')
    start(A_, c['z'], 20., c['z'], 'start')
    q = A_.lmfit_result.params
    mon.close('start others', [q['vel_disp'].init_value] + [q['flux%i' % i].init_value for i in range(n)], [guess['vel_disp']] + list(guess['flux_arr']), rtol=1e-9,
              msg='the fit does not start from the values given')
    mon.check('parameters', sorted(q) == sorted(['z', 'vel_disp'] + ['flux%i' % i for i in range(n)] + ['cont_coeff%i' % i for i in range(c['order']+1)]),
              'the parameters of the fit are not those of the settings given', got=list(q))
    ind, mask = ref1d.ref_mask(c, d)
    sg = ref1d.fisher(c, d, ind, mask)[1][:2+n]
    strong = tf[0]/sg[2] > 15.
    # an initial redshift, and range, given on construction, or later
    zg = float(tz + r.uniform(-0.7, 0.7)*sig)
    dl = float(max(r.uniform(12., 45.), 1.3*abs(tz-c['z'])*w0, 1.3*abs(zg-c['z'])*w0))
    routes = {'constructor': ref1d.fitter(c, d, mon, z=zg, del_obs_lam=dl, num_MC=11), 'setAttr': ref1d.fitter(c, d, mon)}
    routes['setAttr'].setAttr(z=zg)
    routes['setAttr'].setAttr(del_obs_lam=dl, num_MC=11)
    for k, f in routes.items():
        mon.check('z given', f.z == zg and f.del_obs_lam == dl and f.num_MC == 11, 'settings of the 1D fit are not those given', route=k, got=f.z, want=zg)
        f.fit(noErrors=True, noPlot=True)
        mon.ev('fit1d')
        start(f, zg, dl, c['z'], 'start given')
        if strong:
            mon.check('same fit', np.all(np.abs(best(f)-best(A_)) < 0.1*sg), 'the fit depends on its initial redshift', got=best(f), want=best(A_), sg=sg)
    mon.same('routes', best(routes['constructor']), best(routes['setAttr']), 'the fit depends on how its settings were given')
    # a line far from the galaxy's redshift is found from the redshift given
    off = float(r.choice([-1, 1])*r.uniform(9., 16.)/w0)
    cg = dict(c, z=tz-off)
    f = ref1d.fitter(c, d, mon, g=ref1d.galaxy(cg, d), z=float(tz + r.uniform(-0.3, 0.3)*sig))
    f.fit(noErrors=True, noPlot=True)
    if strong:
        mon.ev('far')
        # fewer pixels may be left in the window of the other redshift
        mon.check('far', np.all(np.abs(best(f)[:2]-[tz, td]) < 8.*sg[:2]), 'a line near the redshift given is not found', got=best(f), want=[tz, td], sg=sg)
    # results survive changes of other settings
    f = routes['constructor']
    was = np.append(best(f), f.cont_coeff)
    f.setAttr(num_MC=7)
    f.setAttr(cont_order=c['order']+1, vel_disp=f.vel_disp)
    mon.same('results', np.append(best(f), f.cont_coeff), was, 'changing other settings changes the results of the 1D fit')
    chi = f.lmfit_result.chisqr
    f.fit(noErrors=True, noPlot=True)
    mon.ev('fit1d')
    mon.check('order', len(f.cont_coeff) == c['order']+2 and 'cont_coeff%i' % (c['order']+1) in f.lmfit_result.params, 'the continuum order given is not used')
    if strong:
        mon.check('order chi2', f.lmfit_result.chisqr <= chi*(1+1e-3)+0.05, 'a higher continuum order fits worse', got=f.lmfit_result.chisqr, was=chi)
    if case['seed'] % 4 == 0:
        try:
            ref1d.fitter(c, d, mon, shape1D='lorentz')
            mon.check('shape', False, 'an unsupported line shape is accepted')
        except ValueError:
            mon.check('shape', True, '')
