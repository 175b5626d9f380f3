"""P07: mapping of free and fixed parameters, prior bounds and initial walkers."""
import itertools

import numpy as np

from rvlib import fits, gen

TECHNIQUE = 'runtime monitor: profile objects that record the parameters they are evaluated with; oracles on theta, prior and walker events'
NOTE = 'All 2^n free/fixed patterns of the fiducial parameters observed, random patterns of custom profiles; prior and walker events exact.'
RULE = ('every free/fixed pattern x make/update/wrong length, prior at/inside/outside every bound, walkers of random bounds, one fit set up repeatedly '
        'with other patterns and bounds; distinct: pattern x '
        'profile sizes x operation')
MIN = {'setup': 120, 'theta': 300, 'prior': 1500, 'walkers': 60, 'wrong_length': 200, 'profile_eval': 300}
N = {'quick': (40, 90), 'thorough': (400, 1200)}
C = {'quick': 40, 'thorough': 400}


def cases(tier, seed):
    a, b = N[tier]
    out = []
    for i, vary in enumerate(itertools.product([False, True], repeat=5)):
        r = gen.rng_for('P07p', seed, i)
        out.append({'kind': 'pattern', 'cfg': fits.fit_cfg(r, nrows=5, nsub=1, iprof='exp'), 'vary': list(vary), 'nv': 2, 'nd': 1, 'seed': i})
    for i in range(a):
        r = gen.rng_for('P07q', seed, i)
        nv, nd = int(r.integers(1, 5)), int(r.integers(1, 4))
        out.append({'kind': 'pattern', 'cfg': fits.fit_cfg(r, nrows=5, nsub=1, iprof='exp', adaptive=False, floor=False),
                    'vary': [bool(x) for x in r.random(nv+nd+2) < 0.5], 'nv': nv, 'nd': nd, 'seed': 100+i})
    for i in range(b):
        r = gen.rng_for('P07w', seed, i)
        n = int(r.integers(3, 9))
        out.append({'kind': 'bounds', 'n': n, 'vary': [bool(x) for x in r.random(n) < 0.6], 'seed': i})
    for i in range(C[tier]):
        r = gen.rng_for('P07s', seed, i)
        out.append({'kind': 'setup', 'cfg': fits.fit_cfg(r, nrows=5, nsub=1, iprof='exp', adaptive=False, floor=False), 'own': gen.pick(r, [None, None, 'flat', 'custom']),
                    'seed': i})
    return out


def run(case, mon):
    {'pattern': pattern, 'bounds': bounds, 'setup': setup}[case['kind']](case, mon)


def setup(case, mon):
    """One fit object set up repeatedly, with other patterns and bounds each time."""
    from misfit.fit import fit_core
    from misfit.model.kin_classes import Theta2DSettings, ThetaPriorFlat
    c, r = case['cfg'], gen.rng_for('P07s2', case['seed'])
    data = fits.data_for(c, r)
    th0 = gen.theta_of(c)[0]
    n = len(th0)

    class Own(object):
        name = 'own'

        def log_prior(self, theta_fitting=None):
            return -0.5*float(np.sum(np.asarray(theta_fitting)**2))
    fit, seen = None, []
    for step in range(4):
        mon.ev('setup')
        vary = r.random(n) < 0.6
        if step == 3:
            vary = seen[1]           # the same pattern again, with other bounds
        seen.append(vary)
        w = r.uniform(0.2, 1., n)*np.array([100.] + [0.2]*(n-4) + [30., 1., 5e-4])
        th = th0 + r.uniform(-0.3, 0.3, n)*w
        bd = [[float(th[i] - w[i]*r.uniform(0.5, 1.)), float(th[i] + w[i]*r.uniform(0.5, 1.))] for i in range(n)]
        mon.sig('setup', step, case['own'], int(vary.sum()))
        names = ['p%d' % i for i in range(n)]
        st = Theta2DSettings(theta=th.copy(), theta_vary=vary.copy(), theta_names=names, theta_names_nice=names, theta_bounds=[list(b) for b in bd])
        if fit is None:
            fit = fits.make_fit(c, data, vary, bounds=bd, setup=False, theta=th)
            if case['own'] == 'custom':
                fit.thetaPrior = Own()
            elif case['own'] == 'flat':
                fit.thetaPrior = ThetaPriorFlat(theta=th.copy(), theta_vary=vary.copy(), theta_bounds=[[x - 7., y + 7.] for x, y in bd])
        before = fits.snap(st)
        fit.setAttr(thetaSettings=st)
        fit.setup_model()
        free = np.where(vary)[0]
        lo, hi = np.array(bd).T[:, free]
        mon.same('setup theta', np.array(fit.kinModel.theta, dtype=float), th, 'parameters of the model after setup %d' % step)
        mon.check('setup theta', fit.kinModel.n_free_param == len(free), 'number of free parameters after setup %d' % step)
        for _ in range(3):
            x = lo + r.random(len(free))*(hi-lo)
            mon.ev('prior')
            if case['own'] == 'custom':
                mon.close('own prior', fit.thetaPrior.log_prior(theta_fitting=x), -0.5*np.sum(x**2), rtol=1e-12, msg='a given prior is replaced by setup')
                continue
            got = fit.thetaPrior.log_prior(theta_fitting=x)
            mon.check('setup prior', got == 0., 'log prior %r inside the current bounds, after setup %d' % (got, step), x=x, lo=lo, hi=hi)
            for j in range(len(free)):
                for edge, o in ((lo[j], -1), (hi[j], 1)):
                    y = x.copy()
                    y[j] = edge + o*0.01*(hi-lo)[j]
                    got = fit.thetaPrior.log_prior(theta_fitting=y)
                    mon.check('setup prior', got == -np.inf, 'log prior %r outside of the current bounds of parameter %d, after setup %d' % (got, free[j], step),
                              x=y, lo=lo, hi=hi)
        ch = fits.changed(before, fits.snap(st))
        mon.check('setup pure', not ch, 'setup modifies the settings: %s' % ch[:4])
        if len(free) and case['own'] != 'custom':
            pos = np.array(fit_core.init_walker_pos(fit, ndim=len(free), nwalkers=60))
            tol = 1e-12*np.maximum(np.abs(lo), np.abs(hi))
            mon.check('setup walkers', pos.shape == (60, len(free)) and np.all(pos >= lo-tol) and np.all(pos <= hi+tol) and
                      np.all(np.ptp(pos, axis=0) > 0.7*(hi-lo)), 'initial walkers do not fill the current bounds, after setup %d' % step)


def recording(nv, nd, log):
    from misfit.model.kin_classes import DispProfile, KinProfile, VelProfile

    class V(VelProfile):
        def __init__(self):
            super(V, self).__init__()
            self.theta = np.zeros(nv)

        def vel(self, r, z):
            log['v'].append(np.array(self.theta, dtype=float))
            return 40.*np.arctan(r) + sum(self.theta)*0.01*r/(1+r)

    class D(DispProfile):
        def __init__(self):
            super(D, self).__init__()
            self.theta = np.zeros(nd)

        def sigma(self, r, z):
            log['d'].append(np.array(self.theta, dtype=float))
            return 0.*r + 45. + 0.01*sum(self.theta)
    return KinProfile(velProfile=V(), dispProfile=D())


def pattern(case, mon):
    from misfit import KinModel2D, Theta2DSettings, KinModel2DOptions
    from misfit.fit import fit_core
    c, nv, nd = case['cfg'], case['nv'], case['nd']
    r = gen.rng_for('P07run', case['seed'])
    n = nv+nd+2
    vary = np.array(case['vary'])
    nfree = int(vary.sum())
    gal, ins = gen.make_galaxy(dict(c, generate_model=True)), gen.make_instrument(c)

    def th():
        t = r.uniform(10., 100., n)
        t[-2], t[-1] = r.uniform(-1, 1), c['z'] + r.uniform(-3e-4, 3e-4)
        return t
    init = th()
    log = {'v': [], 'd': []}
    vv = gen.pick(r, [vary, list(case['vary']), vary.astype(int)])

    def new(t, v):
        st = Theta2DSettings(theta=t.copy(), theta_vary=v, theta_names=['p%d' % i for i in range(n)],
                             theta_names_nice=['p%d' % i for i in range(n)], theta_bounds=[None]*n)
        return KinModel2D(gal, thetaSettings=st, kinProfile=recording(nv, nd, log), no_scale=True,
                          kinModelOptions=KinModel2DOptions(nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False))
    km = new(init, vv)
    mon.same('n_free', km.n_free_param, nfree, 'number of free parameters')
    tf0 = fit_core.initialize_fitting_theta(km.theta_init, km.theta_vary)
    mon.same('initial', np.asarray(tf0, dtype=float), init[vary], 'initial fitting parameters are not the free ones of theta')
    made = False
    for step in range(5):
        wrong = [k for k in (nfree-1, nfree+1, nfree+2) if k >= 0]
        for k in wrong[:2 + (step == 0)]:
            mon.ev('wrong_length')
            before = np.array(km.theta, dtype=float)
            calls = [lambda: km.make_model(galaxy=gal, instrument=ins, theta_fitting=np.full(k, 30.))]
            if made:
                calls.append(lambda: km.update_model(theta_fitting=np.full(k, 30.)))
            for f in calls:
                mon.raises('wrong length', ValueError, f, '%d parameters instead of %d' % (k, nfree))
            mon.same('wrong length changes nothing', np.array(km.theta, dtype=float), before, 'rejected parameters were used')
        full = init.copy()
        full[vary] = th()[vary]
        tf = full[vary].copy()
        tf = tf.tolist() if r.random() < 0.3 else tf
        log['v'], log['d'] = [], []
        if not made or r.random() < 0.4:
            km.make_model(galaxy=gal, instrument=ins, theta_fitting=tf)
            op = 'make'
        else:
            km.update_model(theta_fitting=tf)
            op = 'update'
        made = True
        mon.ev('theta')
        mon.sig(op, ''.join(str(int(x)) for x in vary), nv, nd)
        mon.same('theta', np.array(km.theta, dtype=float), full, 'theta after %s is not the free parameters in their places' % op)
        mon.check('profiles evaluated', len(log['v']) > 0 and len(log['d']) > 0, 'profiles were not evaluated by %s' % op)
        for x in log['v']:
            mon.ev('profile_eval')
            mon.same('velocity part', x, full[:nv], 'velocity profile evaluated with the wrong part of theta')
        for x in log['d']:
            mon.ev('profile_eval')
            mon.same('dispersion part', x, full[nv:nv+nd], 'dispersion profile evaluated with the wrong part of theta')
        k2 = new(full, np.zeros(n, dtype=bool))
        k2.make_model(galaxy=gal, instrument=ins, theta_fitting=[])
        mon.close('model', km.model, k2.model, rtol=1e-10, msg='model differs from the one with all parameters fixed at these values')
        # composite parameters reach the model: m0_shift by a whole row, z as a wavelength shift
    full2 = full.copy()
    full2[-2] += 1.
    if c['FWHM'] == 0. and c['resol'] == 0.:
        k3 = new(full2, np.zeros(n, dtype=bool))
        k3.make_model(galaxy=gal, instrument=ins, theta_fitting=[])
        mon.close('m0_shift', k3.model[1:], k2.model[:-1], rtol=1e-5, msg='m0_shift is not the second last parameter, in rows')


def bounds(case, mon):
    from misfit import FitEmissionLines2D
    from misfit.fit import fit_core
    from misfit.model.kin_classes import ThetaPriorFlat
    r = gen.rng_for('P07b', case['seed'])
    n, vary = case['n'], np.array(case['vary'])
    lo = r.uniform(-300, 100, n)*10**r.uniform(-3, 0.5, n)
    hi = lo + r.uniform(0.01, 300, n)*10**r.uniform(-3, 0.5, n)
    bd = [gen.pick(r, [list, tuple, np.array])([lo[i], hi[i]]) for i in range(n)]
    for i in range(n):
        if not vary[i] and r.random() < 0.7:
            bd[i] = None
    th = np.where(vary, 0.5*(lo+hi), 1e9)      # fixed ones outside of their bounds: ignored
    pr = ThetaPriorFlat(theta=th, theta_vary=vary, theta_bounds=bd)
    free = np.where(vary)[0]

    def prior(x, want, what):
        x0 = np.array(x, dtype=float)
        got = pr.log_prior(theta_fitting=x)
        mon.ev('prior')
        mon.sig('prior', what, len(free))
        mon.check('prior', got == want, 'log prior %r, expected %r (%s)' % (got, want, what), x=x0, lo=lo[free], hi=hi[free])
        mon.same('prior pure', np.array(x, dtype=float), x0, 'log_prior modifies the parameters')

    for _ in range(4):
        prior(lo[free] + r.random(len(free))*(hi-lo)[free], 0., 'inside')
    prior(lo[free].copy(), 0., 'at the lower bounds')
    prior(hi[free].copy(), 0., 'at the upper bounds')
    for j in range(len(free)):
        for edge, out in ((lo[free[j]], -1), (hi[free[j]], 1)):
            x = lo[free] + r.random(len(free))*(hi-lo)[free]
            x[j] = edge
            prior(x.copy(), 0., 'at a bound')
            x[j] = np.nextafter(edge, out*np.inf)
            prior(x.copy(), -np.inf, 'just outside a bound')
            x[j] = edge + out*10**r.uniform(-2, 4)
            prior(x.copy(), -np.inf, 'outside one bound')
        x = lo[free] + r.random(len(free))*(hi-lo)[free]
        x[j] = np.nan
        prior(x, -np.inf, 'NaN')
    if len(free) == 0:
        return
    # walkers
    fake = FitEmissionLines2D.__new__(FitEmissionLines2D)
    fake.thetaPrior = pr

    class K(object):
        theta_names = ['p%d' % i for i in range(n)]
        theta_vary = vary
        theta = th
        n_free_param = len(free)
    fake.kinModel = K()
    nw = int(gen.pick(r, [200, 400, 1000]))
    pos = np.array(fit_core.init_walker_pos(fake, ndim=len(free), nwalkers=nw))
    mon.ev('walkers')
    mon.sig('walkers', n, len(free))
    if not mon.same('walker shape', list(pos.shape), [nw, len(free)], 'initial walkers'):
        return
    tol = 1e-12*np.maximum(np.abs(lo), np.abs(hi))[free]
    mon.check('walkers inside', np.all(pos >= lo[free]-tol) and np.all(pos <= hi[free]+tol), 'initial walkers outside of the bounds')
    for p in pos[:20]:
        mon.check('walkers prior', np.isfinite(pr.log_prior(theta_fitting=np.clip(p, lo[free], hi[free]))), 'walker starts with zero probability')
    u = (pos - lo[free])/(hi-lo)[free]
    mon.check('walkers spread', np.all(u.min(axis=0) < 0.1) and np.all(u.max(axis=0) > 0.9), 'walkers are not spread over the bounds',
              umin=u.min(axis=0), umax=u.max(axis=0))
    mon.check('walkers uniform', np.all(np.abs(u.mean(axis=0)-0.5) < 6*0.289/np.sqrt(nw)) and
              np.all(np.abs(u.std(axis=0)-0.289) < 6*0.13/np.sqrt(nw)), 'walkers are not uniform', mean=u.mean(axis=0))
    mon.check('walkers distinct', len(np.unique(u[:, 0])) == nw, 'walkers start at the same position')
    if len(free) > 1:
        cc = np.corrcoef(u.T) - np.eye(len(free))
        mon.check('walkers independent', np.abs(cc).max() < 6.5/np.sqrt(nw), 'walker coordinates are correlated')


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
