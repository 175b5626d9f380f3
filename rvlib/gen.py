"""Seeded workload generators and builders: a configuration is a JSON-able dict."""
import numpy as np

C_KMS = 299792.458
LINES = {'HA6565': 6564.60, 'NII6550': 6549.86, 'NII6585': 6585.27, 'HB4863': 4862.71}


def rng_for(*parts):
    import zlib
    return np.random.default_rng([zlib.crc32(str(p).encode()) for p in parts])


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def uni(rng, lo, hi, nd=4):
    return round(float(rng.uniform(lo, hi)), nd)


def far_from_int(x, tol=1e-3):
    return abs(x - round(x)) > tol


def cfg2d(rng, small=True, **force):
    """A random configuration of galaxy + instrument + options for the 2D model."""
    for _ in range(1000):
        c = _cfg2d(rng, small)
        c.update(force)
        c = finish_cfg(c)
        if grid_ok(c):
            return c
    raise RuntimeError('no configuration found for %r' % force)


def _cfg2d(rng, small):
    c = {}
    c['n'] = pick(rng, [0.5, 1., 1., uni(rng, 0.4, 4.)])
    c['q0'] = pick(rng, [0.19, 0.19, uni(rng, 0.05, 0.4)])
    c['q'] = pick(rng, [uni(rng, 0.2, 0.98), uni(rng, 0.2, 0.98), 1.0, uni(rng, 0.02, 0.3), c['q0']])
    c['delt_PA'] = pick(rng, [0., 90., -90., uni(rng, -90, 90), uni(rng, -90, 90), uni(rng, -180, 360)])
    c['z'] = uni(rng, 0.5, 3.5)
    c['Va'] = pick(rng, [uni(rng, -400, 400), uni(rng, 50, 300), 0.])
    c['rt'] = pick(rng, [uni(rng, 0.05, 1.), uni(rng, 0.2, 2.), 0.01])
    c['sigma0'] = pick(rng, [uni(rng, 20, 120), uni(rng, 20, 120), uni(rng, 0.5, 30.), 0.])
    c['m0_shift'] = pick(rng, [0., uni(rng, -1.5, 1.5), uni(rng, -0.4, 0.4)])
    c['pixscale'] = pick(rng, [0.18, 0.18, uni(rng, 0.08, 0.4)])
    c['nrows'] = int(rng.integers(5, 13 if small else 18))
    c['m0_off'] = pick(rng, [0., 0., uni(rng, -2, 2), 1.])
    c['re'] = uni(rng, 0.7, 4.)*c['pixscale']
    c['slit_width'] = uni(rng, 1.2, 5.5)*c['pixscale']
    c['resol'] = pick(rng, [uni(rng, 15, 70), uni(rng, 15, 70), 0.])
    c['PSF_type'] = pick(rng, ['Gaussian', 'Gaussian', 'Moffat', 'moffat', ' GAUSSIAN '])
    c['beta'] = pick(rng, [2.5, uni(rng, 1.6, 5.)])
    c['FWHM'] = pick(rng, [uni(rng, 1.5, 5)*c['pixscale'], uni(rng, 1.5, 5)*c['pixscale'], 0.])
    c['yspace'] = None
    c['nsub'] = pick(rng, [1, 2, 2, 3])
    c['pad'] = pick(rng, [0.5, 0.5, 1., uni(rng, 0., 1.5)])
    c['absval'] = pick(rng, [False, False, True])
    c['adaptive'] = pick(rng, [True, True, False])
    c['factor'] = pick(rng, [3., 3., 2., 5., 4.])
    c['floor'] = pick(rng, [True, True, False])
    c['spec_type'] = pick(rng, ['wave', 'wave', 'wave', 'velocity'])
    c['nwave'] = int(rng.integers(12, 34))
    c['dv'] = pick(rng, [uni(rng, 20, 60), uni(rng, 20, 60), uni(rng, 60, 120)])   # km/s per wavelength bin
    c['wave_off'] = uni(rng, -3, 3)                # line centre, in bins from the middle of the array
    c['lines'] = pick(rng, [[6564.60], [6564.60], [5008.24, 4960.295], [6564.60, 6549.86, 6585.27]])
    c['ratios'] = [1.] + [uni(rng, 0.1, 1.2) for _ in c['lines'][1:]]
    c['iprof'] = pick(rng, ['exp', 'exp', 'expscale', 'ring'])
    c['vprof'] = pick(rng, ['arctan', 'arctan', 'arctan', 'power', 'solid'])
    c['vbeta'] = uni(rng, 0.2, 1.5)
    c['dprof'] = pick(rng, ['const', 'const', 'const', 'expdecl'])
    c['drs'] = uni(rng, 0.3, 2.)
    c['generate_model'] = pick(rng, [True, False])
    return c


def finish_cfg(c):
    c = dict(c)
    if c['dprof'] != 'const':          # the options on small dispersions are for one-parameter profiles
        c['adaptive'] = False
        c['floor'] = False
        c['sigma0'] = abs(c['sigma0']) if c['sigma0'] != 0. else 40.
    return c


def subgrid(c):
    dy = c['pixscale']/c['nsub']
    nx = int(np.ceil(c['slit_width']/dy))
    return dy, nx, c['slit_width']/nx


def grid_ok(c):
    """Avoid round-off ties in the number of grid points, and models too large for a quick check."""
    dy, nx, dx = subgrid(c)
    if not far_from_int(c['slit_width']/dy):
        return False
    # steep intensities and power-law velocities are not smooth in the centre: a grid point there would be a matter of round-off (r = 0 or 1e-17)
    m0 = (c['m0'] if 'm0' in c else (c['nrows']-1)/2. + c['m0_off']) + c['m0_shift']
    steep = (c['n'] > 1.3 and c['iprof'] != 'ring') or c['vprof'] == 'power'
    if steep and c['nrows']*c['nsub'] % 2 and nx % 2 and not far_from_int((m0+0.5)*c['nsub']-0.5):
        return False
    if c['FWHM'] > 0:
        for d in (dx, dy):
            if not far_from_int(c['FWHM']*c['pad']/d + 0.5) or not far_from_int(c['FWHM']/d):
                return False
    ny = c['nrows']*c['nsub']
    p = 2*c['FWHM']*c['pad']
    fac = c['factor'] if c['adaptive'] else 1.
    return ny*(ny+p/dy)*(nx+p/dx)*c['nwave']*fac < 4.e6


def wave_array(c):
    if 'wave' in c:
        return np.array(c['wave'], dtype=float)
    n = c['nwave']
    x = np.arange(n) - (n-1)/2. - c['wave_off']
    if c['spec_type'] == 'velocity':
        return x*c['dv']
    lam0 = c['lines'][0]*(1.+c['z'])
    return lam0*(1. + x*c['dv']/C_KMS)


def theta_of(c):
    """theta, names and number of velocity/dispersion parameters."""
    v = {'arctan': [c['Va'], c['rt']], 'power': [c['Va'], c['rt'], c['vbeta']], 'solid': [c['Va']]}[c['vprof']]
    d = {'const': [c['sigma0']], 'expdecl': [c['sigma0'], c['drs']]}[c['dprof']]
    return np.array(v + d + [c['m0_shift'], c['z']], dtype=float), len(v), len(d)


def make_profiles(c, galaxy):
    from misfit.model.kin_classes import (KinProfile, KinProfileFiducial, VelProfile, DispProfile, VelArctanProfile,
                                          DispConstProfile, IntensityProfileFiducial, IntensityProfileSersicExpScale)

    if c['vprof'] == 'arctan' and c['dprof'] == 'const':
        kin = KinProfileFiducial()
    else:
        class Power(VelProfile):
            def __init__(self):
                super(Power, self).__init__()
                self.theta = np.zeros(3)

            def vel(self, r, z):
                return self.theta[0]*(r/(r+self.theta[1]))**self.theta[2]

        class Solid(VelProfile):
            def __init__(self):
                super(Solid, self).__init__()
                self.theta = np.zeros(1)

            def vel(self, r, z):
                return self.theta[0]*r/(1.+np.abs(z))

        class ExpDecl(DispProfile):
            def __init__(self):
                super(ExpDecl, self).__init__()
                self.theta = np.zeros(2)

            def sigma(self, r, z):
                return self.theta[0]*np.exp(-r/(5.*self.theta[1]))
        v = {'arctan': VelArctanProfile, 'power': Power, 'solid': Solid}[c['vprof']]()
        d = {'const': DispConstProfile, 'expdecl': ExpDecl}[c['dprof']]()
        kin = KinProfile(velProfile=v, dispProfile=d)
    if c['iprof'] == 'exp':
        inten = IntensityProfileFiducial(galaxy)
    elif c['iprof'] == 'expscale':
        inten = IntensityProfileSersicExpScale(galaxy)
    else:
        class Ring(IntensityProfileFiducial):
            def int(self, r, z):
                return ring_int(c, r, z)
        inten = Ring(galaxy)
    return kin, inten


def ring_int(c, r, z):
    return (0.1 + np.exp(-0.5*((r-0.7*c['re'])/(0.3*c['re']))**2))*np.exp(-(z/(0.5*c['re']))**2)


def make_instrument(c):
    from misfit.instrument import Spectrograph
    return Spectrograph(instrument_name='rv', band='K', pixscale=c['pixscale'], PSF_type=c['PSF_type'], PSF_FWHM=c['FWHM'],
                        PSF_beta=c['beta'], yspace_dither_arc=c['yspace'], slit_width=c['slit_width'],
                        slit_length=c['nrows']*c['pixscale'], instrument_resolution=c['resol'])


def make_galaxy(c, flux=None, err=None):
    """Galaxy with an (already trimmed) 2D spectrum."""
    from misfit.galaxy import Galaxy, ObsSpectrum2D
    wave = wave_array(c)
    gal = Galaxy(ID=1, z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['delt_PA'],
                 re_mass_arcsec=c.get('re_mass', 1.1*c['re']), q_mass=c.get('q_mass', c['q']),
                 generate_model=c['generate_model'] and flux is None)
    kw = {}
    shape = (c['nrows'], len(wave))
    if not gal.generate_model:
        kw = dict(flux=np.ones(shape) if flux is None else flux, flux_err=np.ones(shape) if err is None else err)
    spec = ObsSpectrum2D(band='K', wave=wave, spec_type=c['spec_type'],
                         linenames_arr=['L%d' % i for i in range(len(c['lines']))],
                         restwave_arr=np.array(c['lines']), flux_ratio_arr=np.array(c['ratios']), **kw)
    spec.shape = [c['nrows'], len(wave)]
    spec.m0 = c['m0'] if 'm0' in c else (c['nrows']-1)/2. + c['m0_off']
    gal.set_spectrum_2D(spec)
    return gal


def make_options(c):
    from misfit import KinModel2DOptions
    return KinModel2DOptions(nSubpixels=c['nsub'], pad_factor=c['pad'], absvalsigma=c['absval'],
                             adaptive_upsample_wave=c['adaptive'], adaptive_upsample_factor=c['factor'],
                             sigma_floor=c['floor'], do_position_wave_shift=c.get('posshift', False))


def build(c, vary=None, no_scale=True, galaxy=None, instrument=None, flux=None, err=None, **kw):
    """-> (kinModel, galaxy, instrument, theta_fitting)"""
    from misfit import KinModel2D, Theta2DSettings
    gal = make_galaxy(c, flux=flux, err=err) if galaxy is None else galaxy
    ins = make_instrument(c) if instrument is None else instrument
    theta, nv, nd = theta_of(c)
    if vary is None:
        vary = np.zeros(len(theta), dtype=bool)
    vary = np.asarray(vary, dtype=bool)
    init = theta.copy()
    init[vary] = 0.5*init[vary] + 0.123       # free parameters start elsewhere
    init[-1] = theta[-1] if not vary[-1] else theta[-1] + 0.001
    kin, inten = make_profiles(c, gal)
    st = Theta2DSettings(theta=init, theta_vary=vary, theta_names=['p%d' % i for i in range(len(theta))],
                         theta_names_nice=['p%d' % i for i in range(len(theta))], theta_bounds=[None]*len(theta))
    km = KinModel2D(gal, thetaSettings=st, kinProfile=kin, intensityProfile=inten, kinModelOptions=make_options(c),
                    spec_type=c['spec_type'], no_scale=no_scale, **kw)
    return km, gal, ins, theta[vary]


def run_model(c, **kw):
    km, gal, ins, th = build(c, **kw)
    km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
    return km


def sig2d(c):
    """What makes a 2D configuration distinct: all its qualitative choices and coarse regimes."""
    th_s = abs(c['sigma0'])/c['dv']
    return (c['spec_type'], c['nsub'], c['PSF_type'].strip().lower(), c['FWHM'] > 0, c['resol'] > 0, c['adaptive'], c['floor'],
            c['absval'], c['iprof'], c['vprof'], c['dprof'], len(c['lines']), c['generate_model'],
            'edge' if c['q'] <= c['q0'] else 'face' if c['q'] == 1 else 'incl', int(c['delt_PA']//45), c['nrows'] % 2,
            int(np.sign(c['Va'])), int(np.sign(c['sigma0'])), 'zero' if th_s == 0 else 'under' if th_s < 0.4 else 'res', c['pad'] > 0.7)


def twins(r, c, k=6):
    """Configurations which differ from c in one thing only (by a little, or without changing any array size)."""
    w = wave_array(c)
    f, g = 1. + 10.**r.uniform(-5, -2), 1. + 10.**r.uniform(-6, -3.5)
    one = {'q': min(c['q']*f, 1.) if c['q'] < 1 else 0.99, 'delt_PA': c['delt_PA']+r.uniform(0.01, 3.), 'n': c['n']*f, 're': c['re']*f, 'q0': c['q0']*f,
           'Va': c['Va']*f+1e-3, 'rt': c['rt']*f, 'sigma0': c['sigma0']*f, 'm0_shift': c['m0_shift']+r.uniform(1e-5, 0.3),
           'm0_off': c['m0_off']+r.uniform(1e-5, 0.3), 'slit_width': c['slit_width']*f, 'resol': c['resol']*g, 'FWHM': c['FWHM']*g,
           'beta': c['beta']*f, 'pad': c['pad']+0.5, 'nsub': c['nsub'] % 3 + 1, 'adaptive': c['dprof'] == 'const' and not c['adaptive'], 'floor': c['dprof'] == 'const' and not c['floor'],
           'PSF_type': 'Gaussian' if 'offat' in c['PSF_type'] else 'Moffat', 'iprof': 'exp' if c['iprof'] != 'exp' else 'expscale',
           'ratios': [1.] + [x*1.3 for x in c['ratios'][1:]], 'lines': [c['lines'][0]] + [x*(1+1e-4) for x in c['lines'][1:]]}
    if c['spec_type'] == 'wave':      # another sampling, or range, with as many channels
        mid = w.mean()
        one['wave'] = pick(r, [mid + (w-mid)*f, w + (f-1.)*(w[1]-w[0])*100., mid + (w-mid)*(1+r.uniform(0.05, 0.3))]).tolist()
    else:
        one['wave'] = (w*f).tolist()
    names = [x for x in one if one[x] != c.get(x) and not (x in ('FWHM', 'resol', 'sigma0') and c[x] == 0)]
    out = []
    for x in r.permutation(names):
        d = finish_cfg(dict(c, **{'wave': w.tolist(), str(x): one[str(x)]}))
        if d != c and grid_ok(d) and len(out) < k:
            out.append((str(x), d))
    return out
