"""P04: history independence and purity of model calls."""
import copy

import numpy as np

from rvlib import fits, gen
from rvlib.core import observe

TECHNIQUE = 'runtime monitor: history checker (after every call of a random sequence, compare with a fresh instance; snapshots of inputs)'
NOTE = ('Held on the call sequences observed; compared to 1e-9 of the peak with a freshly built instance after every call, and inputs '
        'compared bitwise with snapshots before the call.')
RULE = ('random sequences of make/update/deepcopy/3D calls, interleaved over several models sharing galaxy, instrument and options; '
        'non-trivial: a call after at least one other call; distinct: (operation, previous operation, options)')
MIN = {'call': 300, 'default': 20}
N = {'quick': (70, 24), 'thorough': (600, 100)}


def cases(tier, seed):
    a, b = N[tier]
    out = []
    for i in range(a):
        r = gen.rng_for('P04a', seed, i)
        c = gen.cfg2d(r, nsub=gen.pick(r, [1, 2]), nrows=int(r.integers(5, 10)))
        out.append({'kind': 'sequence', 'cfg': c, 'scaled': bool(r.random() < 0.5 and c['spec_type'] == 'wave'), 'seed': i})
    for i in range(b):
        r = gen.rng_for('P04b', seed, i)
        out.append({'kind': 'defaults', 'cfg': fits.fit_cfg(r, iprof='exp', nrows=int(r.integers(5, 9))), 'seed': i})
    return out


def with_theta(c, theta, nv, nd):
    d = dict(c)
    d['Va'] = float(theta[0])
    if c['vprof'] != 'solid':
        d['rt'] = float(theta[1])
    if c['vprof'] == 'power':
        d['vbeta'] = float(theta[2])
    d['sigma0'] = float(theta[nv])
    if nd > 1:
        d['drs'] = float(theta[nv+1])
    d['m0_shift'], d['z'] = float(theta[-2]), float(theta[-1])
    return d


def new_theta(c, r, nv, nd):
    t = gen.theta_of(c)[0]
    t[0] += r.uniform(-60, 60)
    if c['vprof'] != 'solid':
        t[1] *= r.uniform(0.6, 1.6)
    if c['vprof'] == 'power':
        t[2] *= r.uniform(0.7, 1.3)
    t[nv] = gen.pick(r, [t[nv], r.uniform(10, 90), r.uniform(0.5, 15.)])
    if nd > 1:
        t[nv+1] *= r.uniform(0.7, 1.4)
    # (also steps much smaller than a pixel, as those of a minimizer or a sampler)
    t[-2] += gen.pick(r, [0., r.uniform(-1, 1), r.uniform(-3e-4, 3e-4)])
    t[-1] += gen.pick(r, [0., r.uniform(-3e-4, 3e-4), r.uniform(-3e-7, 3e-7)])
    return t


def run(case, mon):
    (sequence if case['kind'] == 'sequence' else defaults)(case, mon)


def sequence(case, mon):
    from misfit import KinModel2D, Theta2DSettings
    c = case['cfg']
    r = gen.rng_for('P04run', case['seed'])
    theta0, nv, nd = gen.theta_of(c)
    n = len(theta0)
    c = dict(c, wave=gen.wave_array(c).tolist())
    data = None
    if case['scaled']:
        c['generate_model'] = False
        data = fits.data_for(dict(c), r)

    def fresh_gal():
        return gen.make_galaxy(c) if data is None else fits.prepared_galaxy(c, [np.copy(x) for x in data])

    shared_gal, shared_ins, shared_opt = fresh_gal(), gen.make_instrument(c), gen.make_options(c)
    pristine = (fits.snap(shared_gal), fits.snap(shared_ins), fits.snap(shared_opt))

    def new_model(shared, nsub=None):
        vary = r.random(n) < 0.6
        gal = shared_gal if shared else fresh_gal()
        st = Theta2DSettings(theta=new_theta(c, r, nv, nd), theta_vary=vary, theta_names=['p%d' % i for i in range(n)],
                             theta_names_nice=['p%d' % i for i in range(n)], theta_bounds=[None]*n)
        kin, inten = gen.make_profiles(c, gal)
        ins = shared_ins if shared else gen.make_instrument(c)
        km = KinModel2D(gal, thetaSettings=st, kinProfile=kin, intensityProfile=inten,
                        kinModelOptions=shared_opt if shared and nsub is None else gen.make_options(dict(c, nsub=nsub or c['nsub'])), spec_type=c['spec_type'], no_scale=data is None)
        return {'km': km, 'vary': vary, 'st': st, 'stsnap': fits.snap(st), 'full': st.theta.copy(), 'gal': gal, 'ins': ins,
                'cube': False, 'prev': 'new', 'made': False, 'nsub': nsub or c['nsub']}

    models = [new_model(True), new_model(True), new_model(False)]
    other = dict(c, nsub=3 - min(c['nsub'], 2))
    if gen.grid_ok(other):      # shares the instrument and galaxy, but has another sampling
        models.append(new_model(True, nsub=other['nsub']))
    if data is None and c['nrows']*c['nsub'] <= 14:
        m3 = new_model(True)
        m3['cube'] = True
        models.append(m3)
    for step in range(10):
        m = models[int(r.integers(len(models)))]
        op = 'make' if not m['made'] else gen.pick(r, ['make', 'update', 'update', 'deepcopy'])
        full = new_theta(c, r, nv, nd) if r.random() < 0.8 else m['full'].copy()
        full[~m['vary']] = m['full'][~m['vary']]
        tf = full[m['vary']].copy()
        tf0 = tf.copy()
        if op == 'deepcopy':
            m = dict(m, km=m['km'].copy())
            models.append(m)
        km = m['km']
        before = [fits.snap(shared_gal), fits.snap(shared_ins), fits.snap(shared_opt), m['stsnap'], fits.snap(m['gal']), fits.snap(m['ins'])]
        if m['cube']:
            if op == 'make':
                km.make_3D_int_model(galaxy=m['gal'], instrument=m['ins'], theta_fitting=tf)
            else:
                km.update_3D_int_model(theta_fitting=tf)
            got = np.array(km.model_cube)
        else:
            if op == 'make':
                km.make_model(galaxy=m['gal'], instrument=m['ins'], theta_fitting=tf)
            else:
                km.update_model(theta_fitting=tf)
            got = np.array(km.model)
        m.update(full=full, made=True)
        mon.ev('call')
        mon.sig(op, m['prev'], m['cube'], data is not None, c['FWHM'] > 0, c['adaptive'], c['resol'] > 0, c['vprof'])
        m['prev'] = op
        # inputs untouched
        after = [fits.snap(shared_gal), fits.snap(shared_ins), fits.snap(shared_opt), fits.snap(m['st']), fits.snap(m['gal']), fits.snap(m['ins'])]
        for nm, b, a in zip(('galaxy', 'instrument', 'options', 'thetaSettings', 'own galaxy', 'own instrument'), before, after):
            ch = fits.changed(b, a)
            mon.check('inputs unchanged', not ch, '%s modified by %s: %s' % (nm, op, ch[:5]))
        mon.same('theta unchanged', tf, tf0, 'theta_fitting modified by %s' % op)
        # same as a fresh instance
        cc = dict(with_theta(c, full, nv, nd), nsub=m['nsub'])
        if data is None:
            k2, g2, i2, th2 = gen.build(cc)
        else:
            k2, g2, i2, th2 = gen.build(cc, galaxy=fresh_gal(), no_scale=False)
        if m['cube']:
            k2.make_3D_int_model(galaxy=g2, instrument=i2, theta_fitting=th2)
            want = k2.model_cube
        else:
            k2.make_model(galaxy=g2, instrument=i2, theta_fitting=th2)
            want = k2.model
        mon.close('fresh', got, want, rtol=1e-9, msg='model after %s differs from that of a fresh instance' % op, step=step)
        # the other models are unchanged
        if not m['cube']:
            m['last'] = got
        for o in models:
            if o is not m and o.get('last') is not None and not o['cube']:
                mon.same('others', o['km'].model, o['last'], 'a model changed when another one was calculated')
    for nm, b, o in zip(('galaxy', 'instrument', 'options'), pristine, (shared_gal, shared_ins, shared_opt)):
        ch = fits.changed(b, fits.snap(o))
        mon.check('inputs unchanged', not ch, '%s modified by the sequence: %s' % (nm, ch[:5]))


def defaults(case, mon):
    """Objects created with default arguments don't influence each other."""
    from misfit import FitEmissionLines2D, KinModel2D, Theta2DSettings
    from misfit.mock.generate_basic import generate_mock_basis
    c = case['cfg']
    r = gen.rng_for('P04def', case['seed'])
    data = fits.data_for(c, r)
    c2 = dict(c, re=c['re']*1.7, n=1.3*c['n'], q0=c['q0']*0.8)

    def settings(th):
        return Theta2DSettings(theta=np.array(th), theta_vary=np.array([True, True, True, False, False]), theta_names=fits.NAMES,
                               theta_names_nice=fits.NAMES, theta_bounds=fits.bounds_for(c))
    th = gen.theta_of(c)[0]
    th2 = th + np.array([50., 0.2, 12., 0., 0.])
    which = case['seed'] % 3
    if which == 0:
        def mk(cc, t):
            g = fits.prepared_galaxy(cc, [np.copy(x) for x in data])
            k = KinModel2D(g, thetaSettings=settings(t), no_scale=True)
            i = gen.make_instrument(cc)
            k.make_model(galaxy=g, instrument=i, theta_fitting=t[:3])
            return k
        up = lambda k, t: k.update_model(theta_fitting=t[:3])    # noqa: E731
        get = lambda k: k.model   # noqa: E731
    elif which == 1:
        def mk(cc, t):
            g = fits.prepared_galaxy(cc, [np.copy(x) for x in data])
            f = FitEmissionLines2D(galaxy=g, instrument=gen.make_instrument(cc), thetaSettings=settings(t), skip_fit_prep_calcs=True)
            f.setup_model()
            f.make_model(theta_fitting=t[:3])
            return f
        up = lambda k, t: k.update_model(theta_fitting=t[:3])    # noqa: E731
        get = lambda k: k.kinModel.model   # noqa: E731
    else:
        def mk(cc, t):
            k, g, i = generate_mock_basis(z=cc['z'], ID=3, Va=t[0], rt=t[1], sigma0=t[2], yshift=t[3], n=cc['n'], re_arcsec=cc['re'],
                                          q=cc['q'], q0=cc['q0'], delt_PA=cc['delt_PA'], wave=gen.wave_array(c), pixscale=cc['pixscale'],
                                          instrument_resolution=cc['resol'], slit_width=cc['slit_width'], slit_length=1., nymin=7,
                                          PSF_FWHM=cc['FWHM'], PSF_type=cc['PSF_type'], band='K', linegroup_name='Halpha')
            k._gi = (g, i)
            k.make_model(galaxy=g, instrument=i, theta_fitting=[])
            return k
        up = lambda k, t: k.make_model(galaxy=k._gi[0], instrument=k._gi[1], theta_fitting=[])   # noqa: E731
        get = lambda k: k.model   # noqa: E731
    alone1 = np.array(get(mk(c, th)))
    a = mk(c, th)
    b = mk(c2, th2)
    mon.ev('default', 2)
    mon.sig('defaults', which)
    mon.same('first stays', get(a), alone1, 'model of an instance changed by creating another one')
    t3 = th + np.array([-30., 0.1, 5., 0., 0.])
    ref2 = np.array(get(b))
    up(a, t3 if which < 2 else th)
    mon.same('second stays', get(b), ref2, 'model of an instance changed by updating another one')
    if which < 2:
        f = mk(c, t3)
        mon.close('update as fresh', get(a), get(f), rtol=1e-9, msg='update with defaults differs from a fresh instance')
    else:
        mon.close('update as fresh', get(a), alone1, rtol=1e-9, msg='model depends on another mock')
    if which == 1:
        sb, sa0 = fits.snap(b.mcmcOptions), fits.snap(mk(c, th).mcmcOptions)
        a.mcmcOptions.setAttr(nWalkers=17, nSteps=3, filename_log='x')
        a.kinModelOptions.setAttr(nSubpixels=1, sigma_floor=False)
        a.mcmc_results.bestfit_theta = np.ones(3)
        mon.check('options not shared', not fits.changed(sb, fits.snap(b.mcmcOptions)), 'mcmcOptions defaults are shared')
        mon.check('results not shared', b.mcmc_results.bestfit_theta is None, 'mcmc_results defaults are shared')
        mon.check('model options not shared', b.kinModelOptions.nSubpixels == 2, 'kinModelOptions defaults are shared')
        d = mk(c, th)
        mon.check('options not shared', not fits.changed(sa0, fits.snap(d.mcmcOptions)), 'new instance has modified default mcmcOptions')
        mon.same('new after', get(d), np.array(get(mk(c, th))), 'defaults changed')
        mon.same('new after', get(d), alone1, 'a new instance with defaults depends on earlier ones')


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
