"""P27: with do_position_wave_shift, light off the centre of the slit is shifted in wavelength by where it enters the slit."""
import numpy as np

from rvlib import gen, ref2d, refap
from rvlib.core import observe

TECHNIQUE = 'runtime monitor: every model event compared with an independent executable reference model (offsets fitted independently)'
NOTE = ('Held on the models observed, compared pixel by pixel to 2e-5 of the peak; rows whose light has no single well defined position '
        '(two equally good Gaussians, or narrower than the grid) are counted as inconclusive, not judged.')
RULE = ('random galaxies off the axes of the slit, slits, PSFs, resolutions and options, built through KinModel2D, updates from another theta, '
        'AperModel2D, the mock module and the rotation correction; non-trivial: the offsets change the model by more than 1e-4 of its peak; '
        'distinct: the combination of options and regimes')
MIN = {'model': 40, 'shifted': 25, 'rotation': 8}
ASSUMPTIONS = ['uniform wavelengths, no dithered images; light with a well defined position in each row of the slit']
N = {'quick': (60, 25, 10, 10, 16), 'thorough': (700, 300, 100, 100, 200)}


def config(r, **force):
    while True:
        c = gen.cfg2d(r, spec_type='wave', **force)
        c = dict(c, slit_width=gen.uni(r, 2.5, 7)*c['pixscale'], resol=gen.uni(r, 20, 110), yspace=None, posshift=True,
                 delt_PA=gen.pick(r, [gen.uni(r, -90, 90), gen.uni(r, -75, -15), gen.uni(r, 15, 75), gen.uni(r, 90, 180), 0., 90.]),
                 sigma0=max(abs(c['sigma0']), 12.))
        c['q'] = gen.pick(r, [c['q'], gen.uni(r, 0.3, 0.7)])
        if gen.grid_ok(c):
            return c


def cases(tier, seed):
    out = []
    a, b, d, e, f = N[tier]
    for i in range(a):
        out.append({'kind': 'direct', 'cfg': config(gen.rng_for('P27a', seed, i)), 'seed': i})
    for i in range(b):
        out.append({'kind': 'update', 'cfg': config(gen.rng_for('P27b', seed, i)), 'seed': i})
    for i in range(d):
        out.append({'kind': 'aper', 'cfg': config(gen.rng_for('P27c', seed, i)), 'seed': i})
    for i in range(e):
        r = gen.rng_for('P27d', seed, i)
        out.append({'kind': 'mock', 'cfg': config(r, vprof='arctan', dprof='const', iprof='exp', absval=False, adaptive=True, factor=3.,
                    floor=True, m0_off=0., beta=2.5, lines=[5008.24, 4960.295], ratios=[1., 0.33557], nrows=11), 'seed': i})
    for i in range(f):
        r = gen.rng_for('P27e', seed, i)
        while True:
            c = refap.cfg(r, rot=True)
            c.update(xc=0., resol=round(gen.uni(r, 20, 110), 2))
            if refap.rot_ok(c):
                break
        out.append({'kind': 'rotation', 'cfg': c, 'seed': i})
    return out


def reference(c, mon):
    geo = ref2d.Geometry(c)
    dv, vague = ref2d.slit_shift(c, geo)
    if vague > 1e-6:
        mon.ev('inconclusive')
        return None
    plain = ref2d.model(c, geo=geo)
    geo.V = geo.V + dv[None, :, None]
    want = ref2d.model(c, geo=geo)
    if np.abs(want - plain).max() > 1e-4*want.max():
        mon.ev('shifted')
        mon.sig(*gen.sig2d(c))
    return want


def judge(mon, want, model, key):
    mon.ev('model')
    if want is not None:
        mon.close(key, model, want, rtol=2e-5, msg='2D model with position-wavelength shifts differs from the reference')


def run(case, mon):
    from misfit import KinModel2D
    from misfit.model import AperModel2D, AperModel1DRot
    c = case['cfg']
    rng = gen.rng_for('P27run', case['seed'])
    if case['kind'] == 'rotation':
        sap, rms, ratio, eps, vague = refap.rot(c, shift=True)
        g, ins = refap.objects(c)
        kin, inten = refap.profiles(c, g)
        m = AperModel1DRot(galaxy=g, instrument=ins, theta=[c['vs'], c['Va'], c['rt']], kinProfile=kin, intensityProfile=inten,
                           pad_factor=c['pad'], do_position_wave_shift=True, **refap.kwargs(c))
        mon.ev('rotation')
        if vague > 1e-6:
            mon.ev('inconclusive')
            return
        mon.sig('rotation', c['vprof'], c['iprof'], c['FWHM'] > 0, c['method'], c['q'] <= c['q0'], int(c['delt_PA']//30))
        mon.close('rotation', [m.sigma_aper, m.disp_aper_ratio], [sap, ratio], rtol=max(eps, 1e-5),
                  msg='aperture RMS velocity with position-wavelength shifts differs from the documented integral')
        first = m.disp_aper_ratio
        m.calc_aper_correction(recalc=True)
        mon.same('recalculated', m.disp_aper_ratio, first, 'the correction with position-wavelength shifts differs when it is calculated again')
        return
    if case['kind'] == 'mock':
        from misfit.mock.generate_basic import generate_mock_slit_obs
        from misfit.general import io
        import os
        import misfit
        c2 = dict(c)
        f = os.path.join(os.path.dirname(misfit.__file__), 'lib', 'line_wavelengths_ratios.dat')
        c2['lines'] = [io.read_restwave(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
        c2['ratios'] = [io.read_line_ratio(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
        c2['wave'] = gen.wave_array(c).tolist()
        m = generate_mock_slit_obs(z=c['z'], ID=3, Va=c['Va'], rt=c['rt'], sigma0=c['sigma0'], yshift=c['m0_shift'], n=c['n'],
                                   re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['delt_PA'], wave=gen.wave_array(c),
                                   pixscale=c['pixscale'], instrument_resolution=c['resol'], slit_width=c['slit_width'],
                                   slit_length=(c['nrows']-0.5)*c['pixscale'], nymin=1, PSF_FWHM=c['FWHM'], PSF_type=c['PSF_type'], band='K',
                                   line_primary='OIII5008', linegroup_name='OIII', spec_type='wave', nSubpixels=c['nsub'],
                                   pad_factor=c['pad'], do_position_wave_shift=True)
        judge(mon, reference(c2, mon), m, 'mock')
        return
    want = reference(c, mon)
    theta, nv, nd = gen.theta_of(c)
    if case['kind'] == 'direct':
        km, gal, ins, th = gen.build(c, vary=rng.random(len(theta)) < 0.5)
        with observe(KinModel2D, 'make_model', after=lambda t, a, k, r: judge(mon, want, a[0].model, 'make_model')):
            km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
        # the option changes only what it is meant to: without it, or for a galaxy the slit sees as symmetric, there is no shift
        off = gen.run_model(dict(c, posshift=False)).model
        mon.ev('off')
        mon.close('off', off, ref2d.model(c), rtol=3e-7, msg='the model without shifts differs from the reference')
        # the same galaxy, in another orientation, in the same process
        again = gen.run_model(c).model
        mon.same('repeatable', again, km.model, 'the model differs when made again')
        for x, d in gen.twins(rng, c, 1):      # nothing is kept of a model that differs in one thing only
            mon.note(twin=x)
            judge(mon, reference(d, mon), gen.run_model(d).model, 'twin')
        if rng.random() < 0.3:
            mon.raises('velocity', ValueError, lambda: gen.run_model(dict(c, spec_type='velocity')),
                       'shifts of spectra in velocity (not supported) are not rejected')
    elif case['kind'] == 'update':
        vary = rng.random(len(theta)) < 0.7
        vary[-2:] |= rng.random(2) < 0.6
        km, gal, ins, th = gen.build(c, vary=vary)
        km.make_model(galaxy=gal, instrument=ins, theta_fitting=km.theta[vary] + 0.)
        with observe(KinModel2D, 'update_model', after=lambda t, a, k, r: judge(mon, want, a[0].model, 'update_model')):
            km.update_model(theta_fitting=th)
            if rng.random() < 0.5:
                km.update_model(theta_fitting=th)
    else:
        gal, ins = gen.make_galaxy(c), gen.make_instrument(c)
        kin, inten = gen.make_profiles(c, gal)
        ap = AperModel2D(galaxy=gal, instrument=ins, theta=theta.copy(), kinProfile=kin, intensityProfile=inten, nSubpixels=c['nsub'],
                         pad_factor=c['pad'], absvalsigma=c['absval'], adaptive_upsample_wave=c['adaptive'],
                         adaptive_upsample_factor=c['factor'], sigma_floor=c['floor'], spec_type='wave', do_position_wave_shift=True)
        judge(mon, want, ap.model, 'aper')


def warmup():
    c = config(gen.rng_for('P27warm'))
    gen.run_model(c)
