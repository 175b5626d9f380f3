"""P01: every 2D model produced is compared with an independent reference of the forward model."""
import numpy as np

from rvlib import gen, ref2d
from rvlib.core import observe

RULE = ('random galaxy/instrument/theta/option configurations (all qualitative options mixed), each built through KinModel2D '
        'directly, through updates from another theta, through AperModel2D or through the mock module, or in groups that differ in one thing only; non-trivial: the '
        'reference model has flux; distinct: the combination of options and regimes (gen.sig2d)')
TECHNIQUE = 'runtime monitor: every model event compared with an independent executable reference model'
NOTE = ('Held on the models observed (hundreds of random configurations quick, thousands thorough), compared pixel by pixel to 3e-7 of '
        'the peak; trusts the reference in rvlib/ref2d.py, uniform wavelength sampling.')
MIN = {'model': 40}
ASSUMPTIONS = ['wavelength arrays are uniformly sampled', 'grid sizes away from round-off ties of slit/pixel ratios']
N = {'quick': (90, 40, 16, 18, 8, 40), 'thorough': (900, 400, 100, 120, 40, 400)}


def cases(tier, seed):
    out = []
    a, b, d, e, f, g = N[tier]
    for i in range(a):
        out.append({'kind': 'direct', 'cfg': gen.cfg2d(gen.rng_for('P01a', seed, i)), 'seed': i})
    for i in range(b):
        out.append({'kind': 'update', 'cfg': gen.cfg2d(gen.rng_for('P01b', seed, i)), 'seed': i})
    for i in range(d):
        r = gen.rng_for('P01c', seed, i)
        out.append({'kind': 'mock', 'cfg': gen.cfg2d(r, vprof='arctan', dprof='const', iprof='exp', absval=False, adaptive=True,
                    factor=3., floor=True, yspace=None, m0_off=0., beta=2.5, lines=[5008.24, 4960.295],
                    ratios=[1., 0.33557], nrows=13, nsub=gen.pick(r, [1, 2])), 'seed': i})
    for i in range(e):
        r = gen.rng_for('P01d', seed, i)
        out.append({'kind': 'aper', 'cfg': gen.cfg2d(r), 'xc': gen.uni(r, -0.3, 0.3), 'rebin': bool(i % 3), 'seed': i})
    for i in range(f):
        r = gen.rng_for('P01e', seed, i)
        c = gen.cfg2d(r, PSF_type=gen.pick(r, ['Gaussian', 'Moffat']))
        c['yspace'] = gen.uni(r, 1.2, 2.)*c['FWHM'] if c['FWHM'] > 0 else None
        out.append({'kind': 'direct', 'cfg': c, 'seed': i})
    for i in range(g):
        r = gen.rng_for('P01f', seed, i)
        out.append({'kind': 'twins', 'cfg': gen.cfg2d(r, nrows=int(r.integers(5, 9)), nsub=gen.pick(r, [1, 2])), 'seed': i})
    return out


def judge(mon, c, model, key, **kw):
    want = ref2d.model(c, **kw)
    mon.ev('model')
    if np.abs(want).max() > 0:
        mon.sig(*gen.sig2d(c))
    mon.close(key, model, want, rtol=3e-7, msg='2D model differs from the reference')


def run(case, mon):
    from misfit import KinModel2D
    from misfit.model import AperModel2D
    c = case['cfg']
    rng = gen.rng_for('P01run', case['seed'])
    if case['kind'] == 'direct':
        theta, nv, nd = gen.theta_of(c)
        vary = rng.random(len(theta)) < 0.5
        km, gal, ins, th = gen.build(c, vary=vary)
        with observe(KinModel2D, 'make_model', after=lambda t, a, k, r: judge(mon, c, a[0].model, 'make_model')):
            km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
    elif case['kind'] == 'update':
        theta, nv, nd = gen.theta_of(c)
        vary = rng.random(len(theta)) < 0.7
        km, gal, ins, th = gen.build(c, vary=vary)
        first = km.theta[vary] + 0.
        km.make_model(galaxy=gal, instrument=ins, theta_fitting=first)
        with observe(KinModel2D, 'update_model', after=lambda t, a, k, r: judge(mon, c, a[0].model, 'update_model')):
            km.update_model(theta_fitting=th)
            if rng.random() < 0.5:
                km.update_model(theta_fitting=th)
    elif case['kind'] == 'twins':       # nothing is kept of other models that differ from this one in one thing only
        for name, d in [('', c)] + gen.twins(rng, c):
            mon.note(twin=name)
            mon.ev('twin')
            judge(mon, d, gen.run_model(d).model, 'twin')
    elif case['kind'] == 'aper':
        gal, ins = gen.make_galaxy(c), gen.make_instrument(c)
        kin, inten = gen.make_profiles(c, gal)
        theta, nv, nd = gen.theta_of(c)
        ap = AperModel2D(galaxy=gal, instrument=ins, theta=theta.copy(), kinProfile=kin, intensityProfile=inten,
                         nSubpixels=c['nsub'], pad_factor=c['pad'], absvalsigma=c['absval'],
                         adaptive_upsample_wave=c['adaptive'], adaptive_upsample_factor=c['factor'],
                         sigma_floor=c['floor'], spec_type=c['spec_type'], xc=case['xc'], rebin_output=case['rebin'])
        judge(mon, c, ap.model, 'aper', xc=case['xc'], rebin=case['rebin'])
    else:
        from misfit.mock.generate_basic import generate_mock_slit_obs
        with observe(KinModel2D, 'make_model', after=lambda t, a, k, r: judge(mon, c, a[0].model, 'mock_make')):
            m = generate_mock_slit_obs(z=c['z'], ID=3, Va=c['Va'], rt=c['rt'], sigma0=c['sigma0'], yshift=c['m0_shift'],
                                       n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['delt_PA'],
                                       wave=gen.wave_array(c), pixscale=c['pixscale'], instrument_resolution=c['resol'],
                                       slit_width=c['slit_width'], slit_length=(c['nrows']-0.5)*c['pixscale'], nymin=1,
                                       PSF_FWHM=c['FWHM'], PSF_type=c['PSF_type'], band='K', line_primary='OIII5008',
                                       linegroup_name='OIII', spec_type=c['spec_type'], nSubpixels=c['nsub'],
                                       pad_factor=c['pad'])
        from misfit.general import io
        import os
        import misfit
        f = os.path.join(os.path.dirname(misfit.__file__), 'lib', 'line_wavelengths_ratios.dat')
        c2 = dict(c)
        if c['spec_type'] == 'wave':
            c2['lines'] = [io.read_restwave(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
            c2['ratios'] = [io.read_line_ratio(f, linename=ln) for ln in ('OIII5008', 'OIII4960')]
            c2['wave'] = gen.wave_array(c).tolist()
        judge(mon, c2, m, 'mock')


def warmup():
    c = gen.cfg2d(gen.rng_for('warm'), small=True)
    gen.run_model(c)
