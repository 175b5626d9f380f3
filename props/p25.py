"""P25: IFU cubes against a reference, the slit models, rotated galaxies and their own history."""
import numpy as np

from rvlib import fits, gen, ref2d
from rvlib.core import observe

TECHNIQUE = 'runtime monitor: cube events compared with a reference model, with slit models of the same object (metamorphic) and with fresh instances'
NOTE = ('Held on the cubes observed; compared spaxel by spaxel to 3e-7 of the peak with the reference in rvlib/ref2d.py, to 1e-9 with rotated '
        'and fresh ones, and to 1e-6 with the slit model summed over the same columns (up to the flux normalisation of the PSF).')
RULE = ('random configurations (all profiles, samplings, PSFs, dispersion options) made as cubes directly, by updates and by the mock module; '
        'non-trivial: the cube has flux; distinct: gen.sig2d and how the cube was made')
MIN = {'cube': 60, 'slit': 20, 'rotated': 15, 'mock': 8}
ASSUMPTIONS = ['wavelength arrays are uniformly sampled', 'cube and slit are compared for slits of whole columns symmetric about the object']
N = {'quick': (60, 36, 30, 16), 'thorough': (500, 300, 250, 100)}


def ok3(c):
    n = c['nrows']*c['nsub']
    p = 2*c['FWHM']*c['pad']*c['nsub']/c['pixscale']
    return n*(n+p)**2*c['nwave']*(c['factor'] if c['adaptive'] else 1.) < 5.e6


def cfg(r, **kw):
    for _ in range(2000):
        nr = kw.get('nrows') or int(r.integers(5, 12))
        c = gen.cfg2d(r, **dict(kw, nrows=nr))
        if ok3(c) and gen.grid_ok(dict(c, slit_width=c['nrows']*c['pixscale']*(1-0.003/c['nrows']))) and gen.grid_ok(c):
            # no ties of the PSF and padding sizes on the square field either
            d = c['pixscale']/c['nsub']
            if c['FWHM'] > 0 and not (gen.far_from_int(c['FWHM']*c['pad']/d+0.5) and gen.far_from_int(c['FWHM']/d)):
                continue
            return c
    raise RuntimeError('no configuration')


def cases(tier, seed):
    a, b, d, e = N[tier]
    out = []
    for i in range(a):
        out.append({'kind': 'cube', 'cfg': cfg(gen.rng_for('P25a', seed, i)), 'seed': i})
    for i in range(b):
        r = gen.rng_for('P25b', seed, i)
        c = None
        while c is None:
            px = gen.pick(r, [0.125, 0.25, 0.5])
            try:
                c = cfg(r, pixscale=px, re=gen.uni(r, 0.7, 3.)*px, pad=gen.pick(r, [1., 1.2, 1.5]), resol=0., nsub=gen.pick(r, [1, 2]),
                        slit_width=2.3*px, FWHM=0. if r.random() < 0.6 else gen.uni(r, 1.2, 3.1)*px)
            except RuntimeError:
                pass
        out.append({'kind': 'slit', 'cfg': c, 'ncol': int(r.integers(0, (c['nrows']-1)//2+1))*2 + c['nrows'] % 2, 'seed': i})
    for i in range(d):
        r = gen.rng_for('P25c', seed, i)
        out.append({'kind': 'rotated', 'cfg': cfg(r, m0_off=0., m0_shift=0.), 'seed': i})
    for i in range(e):
        r = gen.rng_for('P25d', seed, i)
        c = cfg(r, vprof='arctan', dprof='const', iprof='exp', absval=False, adaptive=True, factor=3., floor=True, yspace=None, m0_off=0.,
                beta=2.5, lines=[5008.24, 4960.295], ratios=[1., 0.33557], nsub=gen.pick(r, [1, 2]))
        out.append({'kind': 'mock', 'cfg': c, 'nymin': gen.pick(r, [1, c['nrows'], c['nrows']+2]), 'seed': i})
    return out


def judge(mon, c, got, key, how):
    want = ref2d.model(c, want='cube', slit=c['nrows']*c['pixscale'])
    mon.ev('cube')
    if np.abs(want).max() > 0:
        mon.sig(how, *gen.sig2d(c))
    n = c['nrows']
    if not mon.check('shape', np.shape(got) == (len(gen.wave_array(c)), n, n), 'cube of shape %s' % (np.shape(got),), cfg=c):
        return
    mon.close(key, got, want, rtol=3e-7, msg='IFU cube differs from the reference')


def make_cube(c, **kw):
    km, gal, ins, th = gen.build(c, **kw)
    km.make_3D_int_model(galaxy=gal, instrument=ins, theta_fitting=th)
    return km


def run(case, mon):
    c = case['cfg']
    r = gen.rng_for('P25run', case['seed'])
    {'cube': cube, 'slit': slit, 'rotated': rotated, 'mock': mock}[case['kind']](case, c, r, mon)


def cube(case, c, r, mon):
    from misfit import KinModel2D
    theta, nv, nd = gen.theta_of(c)
    vary = r.random(len(theta)) < 0.7
    km, gal, ins, th = gen.build(c, vary=vary)
    before = fits.snap(gal), fits.snap(ins)
    first = km.theta[vary] + 0.
    update = bool(r.random() < 0.6)
    km.make_3D_int_model(galaxy=gal, instrument=ins, theta_fitting=first if update else th)
    if update:
        old = np.array(km.model_cube)
        kept = km.model_cube
        with observe(KinModel2D, 'update_3D_int_model', after=lambda t, a, k, x: judge(mon, c, a[0].model_cube, 'update', 'update')):
            km.update_3D_int_model(theta_fitting=th)
        mon.check('earlier cube kept', np.array_equal(kept, old, equal_nan=True), 'updating modifies the cube returned before')
        fresh = make_cube(c).model_cube
        mon.close('update as new', np.array(km.model_cube), fresh, rtol=1e-9, msg='updated cube differs from a new one')
        again = bool(r.random() < 0.5)
        if again:       # making again on the same instance
            km.make_3D_int_model(galaxy=gal, instrument=ins, theta_fitting=th)
            mon.close('again', np.array(km.model_cube), fresh, rtol=1e-9, msg='cube made again differs')
    else:
        judge(mon, c, km.model_cube, 'make', 'make')
    after = fits.snap(gal), fits.snap(ins)
    ch = [fits.changed(b, a) for b, a in zip(before, after)]
    mon.check('inputs unchanged', not any(ch), 'making a cube modifies galaxy or instrument: %s' % ch, cfg=c)
    bad = np.append(th, 1.)
    mon.raises('wrong number', ValueError, lambda: km.update_3D_int_model(theta_fitting=bad), 'wrong number of free parameters accepted')


def slit(case, c, r, mon):
    k, n = case['ncol'], c['nrows']
    k = min(max(k, 1 if n % 2 else 2), n)
    w = k*c['pixscale']
    dy = c['pixscale']/c['nsub']
    if int(np.ceil(w/dy)) != k*c['nsub']:
        mon.note(tie=1)
        return
    km = make_cube(c)
    cb = np.array(km.model_cube)
    m = gen.run_model(dict(c, slit_width=w)).model
    if not mon.check('cube shape', cb.shape == (m.shape[1], n, n), 'cube of shape %s for a slit model %s' % (cb.shape, m.shape)):
        return
    lo = (n-k)//2
    s = cb[:, :, lo:lo+k].sum(axis=2).T*dy
    mon.ev('slit')
    if np.abs(m).max() == 0:
        mon.note(no_flux=1)
        return
    mon.sig('slit', k == n, k <= 2, c['nsub'], n % 2, c['FWHM'] > 0, c['PSF_type'].strip().lower(), c['vprof'], c['dprof'], c['adaptive'], c['spec_type'])
    if c['FWHM'] == 0.:
        mon.close('slit', s, m, rtol=1e-9, msg='cube summed over the slit differs from the slit model', k=k)
        return
    # (the flux lost at the edges of the padded field is given back in proportion: one factor)
    f = np.sum(s*m)/np.sum(m*m)
    mon.close('slit of convolved cube', s, f*m, rtol=1e-7, msg='convolved cube summed over the slit is not proportional to the slit model', k=k, factor=f)
    if k == n:
        mon.close('whole field', f, 1., rtol=1e-9, msg='the slit as wide as the field differs from the cube')


def rotated(case, c, r, mon):
    a = np.array(make_cube(c).model_cube)
    mon.ev('rotated')
    mon.sig('rot', c['nsub'], c['nrows'] % 2, c['FWHM'] > 0, c['iprof'], c['vprof'], c['dprof'], int(c['delt_PA']//45), c['spec_type'], c['adaptive'])
    b = np.array(make_cube(dict(c, delt_PA=c['delt_PA']+90.)).model_cube)
    want = np.transpose(a[:, :, :], (0, 2, 1))[:, :, ::-1]       # b[i, j] = a[n-1-j, i]
    # (delta-function lines: a round-off may move a point into the next wavelength bin)
    if c['sigma0'] == 0. and not c['floor']:
        mon.note(delta=1)
        a, b, want = a.sum(axis=0), b.sum(axis=0), want.sum(axis=0)
    mon.close('rotated by 90', b, want, rtol=1e-8, scale=np.abs(a).max(), msg='the cube of the galaxy rotated by 90 deg is not the rotated cube')
    d = np.array(make_cube(dict(c, delt_PA=c['delt_PA']+180.)).model_cube)
    if a.ndim == 2:
        d = d.sum(axis=0)
    mon.close('rotated by 180', d, a[..., ::-1, ::-1], rtol=1e-8, scale=np.abs(a).max(), msg='the cube of the galaxy rotated by 180 deg is not the flipped cube')


def mock(case, c, r, mon):
    from misfit.mock.generate_basic import generate_mock_IFU_cube, generate_mock_basis
    from misfit.general import io
    import os
    import misfit
    kw = dict(z=c['z'], ID=3, Va=c['Va'], rt=c['rt'], sigma0=c['sigma0'], yshift=c['m0_shift'], n=c['n'], re_arcsec=c['re'], q=c['q'],
              q0=c['q0'], delt_PA=c['delt_PA'], wave=gen.wave_array(c), pixscale=c['pixscale'], instrument_resolution=c['resol'],
              slit_width=c['slit_width'], slit_length=(c['nrows']-0.5)*c['pixscale'], nymin=case['nymin'], PSF_FWHM=c['FWHM'],
              PSF_type=c['PSF_type'], band='K', line_primary='OIII5008', linegroup_name='OIII', spec_type=c['spec_type'],
              nSubpixels=c['nsub'], pad_factor=c['pad'])
    c2 = dict(c)
    own = gen.rng_for('P25own', case['seed']).random(2) < 0.5
    if own[0]:
        from misfit.model.kin_classes import KinProfile, VelProfile, DispConstProfile

        class Saturating(VelProfile):
            def __init__(self):
                super(Saturating, self).__init__()
                self.theta = np.zeros(2)

            def vel(self, r, z):
                return self.theta[0]*(r/(r+self.theta[1]))
        kw['kinProfile'] = KinProfile(velProfile=Saturating(), dispProfile=DispConstProfile())
        c2.update(vprof='power', vbeta=1.)
    if own[1]:
        from misfit import Galaxy
        c2['iprof'] = gen.pick(r, ['expscale', 'ring'])
        kw['intensityProfile'] = gen.make_profiles(c2, Galaxy(n=1.3, q0=0.19, re_arcsec=0.3, q=0.5, z=1.))[1]
    mon.note(own_profiles=int(own.sum()))
    cb = np.array(generate_mock_IFU_cube(**kw))
    n = max(c['nrows'], case['nymin'])
    if np.ceil(case['nymin']*c['pixscale']/c['pixscale']) != case['nymin']:
        mon.note(tie=1)
        return
    c2.update(wave=gen.wave_array(c).tolist(), nrows=n)
    if c['spec_type'] == 'wave':
        f = os.path.join(os.path.dirname(misfit.__file__), 'lib', 'line_wavelengths_ratios.dat')
        c2['lines'] = [io.read_restwave(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
        c2['ratios'] = [io.read_line_ratio(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
    mon.ev('mock')
    judge(mon, c2, cb, 'mock', 'mock')
    if case['seed'] % 2:
        d = generate_mock_IFU_cube(debug=True, **kw)
        mon.check('debug', len(d) == 4 and np.array_equal(np.array(d[0]), cb, equal_nan=True), 'the cube returned with debug=True differs')
        km, gal, ins = generate_mock_basis(debug=True, **kw)
        km.make_3D_int_model(galaxy=gal, instrument=ins, theta_fitting=[])
        I, V, IV2 = (np.array(a, dtype=float) for a in d[1:4])
        ok = I.shape == V.shape == IV2.shape and I.ndim == 3
        if mon.check('debug', ok, 'the intensity and velocity arrays returned with debug=True have different shapes', shapes=[I.shape, V.shape, IV2.shape]):
            f = np.isfinite(I) & np.isfinite(V)
            c['nsub'] > 1 or mon.close('debug', np.where(f, IV2, 0.), np.where(f, I*V**2, 0.), rtol=1e-9, scale=max(np.abs(np.where(f, I*V**2, 0.)).max(), 1e-300),
                      msg='the third array returned with debug=True is not intensity x velocity^2')
            mon.same('debug', [I, V], [np.array(km.I_wide, dtype=float), np.array(km.V_wide, dtype=float)], 'the arrays returned with debug=True are not those of the model')


def warmup():
    make_cube(cfg(gen.rng_for('warm')))
