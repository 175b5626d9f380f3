"""P08: log probability of the sampler = prior x likelihood of the full fit."""
import math
import pickle

import numpy as np

from rvlib import fits, gen

TECHNIQUE = 'runtime monitor: differential oracle over recorded log-probability events (full fit, pruned copy, pickled copies, worker processes, fresh model)'
NOTE = 'Held on the evaluation histories observed; values agree to 1e-9 (relative to the sum of absolute terms), -inf exactly.'
RULE = ('random fits (patterns, bounds, options), log probability at random sequences of parameters inside/at/outside the bounds, through the full '
        'fit, the pruned copy, pickles and forked processes; distinct: route x region x pattern')
MIN = {'lnprob': 1500, 'outside': 200}
N = {'quick': 60, 'thorough': 700}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P08', seed, i)
        c = fits.fit_cfg(r, nsub=gen.pick(r, [1, 2]), nrows=int(r.integers(5, 9)), iprof=gen.pick(r, ['exp', 'expscale']))
        c['sigma0'] = abs(c['sigma0']) or 30.
        out.append({'kind': 'history', 'cfg': c, 'vary': [bool(x) for x in r.random(5) < 0.65], 'bad': bool(i % 10 == 9), 'seed': i})
    return out


def reference(c, data, theta, vary, x, bounds):
    free = np.where(vary)[0]
    for j, i in enumerate(free):
        if not bounds[i][0] <= x[j] <= bounds[i][1]:
            return -np.inf, 1.
    full = np.array(theta, dtype=float)
    full[free] = x
    d = dict(c, Va=full[0], rt=full[1], sigma0=full[2], m0_shift=full[3], z=full[4], wave=gen.wave_array(c).tolist())
    km, gal, ins, th = gen.build(d, no_scale=False, galaxy=fits.prepared_galaxy(c, [np.copy(a) for a in data]))
    km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
    flux, err, mask, weight, nosky = data
    w = mask > 0
    q = weight[w]*((flux[w]-km.model[w])/err[w])**2
    t = q + np.log10(2*math.pi*err[w]**2)
    v = -0.5*math.fsum(t) if np.all(np.isfinite(t)) else np.nan
    return (v if np.isfinite(v) else -np.inf), (float(np.sum(np.abs(t))) if np.isfinite(v) else 1.)


class GaussPrior(object):
    """A user's own prior: Gaussian within the bounds."""

    def __init__(self, theta, vary, bounds):
        self.name = 'GaussPrior'
        self.theta, self.theta_vary, self.theta_bounds = theta, vary, bounds

    def log_prior(self, theta_fitting=None):
        v, k = 0., 0
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                lo, hi = self.theta_bounds[i]
                if not lo <= theta_fitting[k] <= hi:
                    return -np.inf
                v -= 0.5*((theta_fitting[k]-lo)/(hi-lo)*3.)**2
                k += 1
        return v


def _child(conn, blob, xs):
    from misfit.fit import fit_core
    f = pickle.loads(blob)
    conn.send([float(fit_core.lnprob(np.array(x), f)) for x in xs])
    conn.close()


def run(case, mon):
    from misfit.fit import fit_core
    c = case['cfg']
    r = gen.rng_for('P08run', case['seed'])
    data = fits.data_for(c, r)
    vary = np.array(case['vary'])
    if not vary.any():
        vary[0] = True
    if case['bad']:
        data[0][2, data[4][0]] = np.nan
        data[2][2, data[4][0]] = 1.
    theta = gen.theta_of(c)[0]
    bd = fits.bounds_for(c, r)
    fit = fits.make_fit(c, [np.copy(a) for a in data], vary, bounds=bd, theta=theta)
    prior = None
    if case['seed'] % 3 == 1:
        prior = fit.thetaPrior = GaussPrior(theta.copy(), vary.copy(), bd)
        fit.setup_model()
    pruned = fit_core.make_pruned_fitEmis2D_class(fit)
    blob = pickle.dumps(pruned)
    copies = {'full': fit, 'pruned': pruned, 'pickled': pickle.loads(blob), 'copy': pruned.copy()}
    free = np.where(vary)[0]
    lo, hi = np.array([bd[i][0] for i in free]), np.array([bd[i][1] for i in free])
    pts = []
    for _ in range(5):
        pts.append(('inside', lo + r.random(len(free))*(hi-lo)))
    pts.append(('lower', lo.copy()))
    pts.append(('upper', hi.copy()))
    for _ in range(2):
        x = lo + r.random(len(free))*(hi-lo)
        j = int(r.integers(len(free)))
        x[j] = gen.pick(r, [lo[j]-1e-9*max(1, abs(lo[j])), hi[j]+1e-9*max(1, abs(hi[j])), lo[j]-(hi-lo)[j], hi[j]+5*(hi-lo)[j]])
        pts.append(('outside', x))
    refs = [reference(c, data, theta, vary, x, bd) for _, x in pts]
    if prior is not None:
        refs = [(v + prior.log_prior(theta_fitting=x), s) for (v, s), (_, x) in zip(refs, pts)]
    hist = [(k, name) for name in copies for k in range(len(pts))]
    hist = [hist[i] for i in r.permutation(len(hist))] + [(int(r.integers(len(pts))), gen.pick(r, list(copies))) for _ in range(8)]
    snaps = fits.snap(fit.galaxy)
    for k, name in hist:
        where, x = pts[k]
        want, scale = refs[k]
        xx = x.copy()
        got = fit_core.lnprob(xx, copies[name])
        mon.ev('lnprob')
        if where == 'outside':
            mon.ev('outside')
        mon.sig(name, where, len(free), case['bad'], np.isfinite(want))
        mon.check('not nan', not np.isnan(got), 'log probability is NaN')
        if want == -np.inf:
            mon.check('zero probability', got == -np.inf, 'log probability %r (%s) should be -inf' % (got, where), route=name)
        else:
            mon.close('lnprob', float(got), want, rtol=1e-9, scale=scale, msg='log probability through %s (%s)' % (name, where), prior=prior is not None)
        mon.same('pure', xx, x, 'lnprob modifies the parameters')
        if prior is None and where != 'outside' and want != -np.inf and name == 'full':
            mon.close('llike', fit.kinModel.model_llike(), want, rtol=1e-9, scale=scale, msg='likelihood left in the fit')
    mon.check('data unchanged', not fits.changed(snaps, fits.snap(fit.galaxy)), 'sampling modifies the fitted galaxy',
              changed=fits.changed(snaps, fits.snap(fit.galaxy))[:5])
    # as in a worker process, which gets a pickle of the pruned copy after it was used here
    if case['seed'] % 4 == 0:
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        a, b = ctx.Pipe()
        p = ctx.Process(target=_child, args=(b, pickle.dumps(copies['pruned']), [x for _, x in pts]))
        p.daemon = False
        p.start()
        b.close()
        got = a.recv()
        p.join()
        for (where, x), g, (want, scale) in zip(pts, got, refs):
            mon.ev('lnprob')
            mon.sig('process', where)
            mon.close('lnprob in a process', g, want, rtol=1e-9, scale=scale, msg='log probability in another process (%s)' % where)


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
