"""P20: posterior summaries of recorded chains."""
import numpy as np

from rvlib import fits, gen

TECHNIQUE = ('runtime monitor: recorded chains (sampled and synthetic) are analysed by the real code; an offline checker recomputes limits, derived '
             'columns and the density at the reported best fit; metamorphic re-analyses (order, shift, scale, repetition)')
NOTE = 'Held on the chains analysed: limits and derived columns to 1e-9; best fits are density maxima within the tolerance of the peak search.'
RULE = ('random chains (normal, skewed, uniform, edge, bimodal, coarse, single-valued, real MCMC) for random patterns of free parameters, profiles, '
        'linked groups and options, seeded; distinct: (shapes of the columns, pattern, linked, absvalsigma, profile)')
MIN = {'analysis': 120, 'column': 400, 'peak': 300, 'joint': 15, 'repeat': 40, 'reorder': 20, 'shift': 20}
N = {'quick': (130, 8), 'thorough': (900, 50)}
UNIMODAL = ('normal', 'skewed', 'edge')


def cases(tier, seed):
    a, b = N[tier]
    out = []
    for i in range(a):
        r = gen.rng_for('P20', seed, i)
        c = fits.fit_cfg(r, nsub=1, nrows=5, nwave=12, adaptive=False, vprof=gen.pick(r, ['arctan', 'arctan', 'arctan', 'power', 'solid']),
                         iprof=gen.pick(r, ['exp', 'expscale']))
        c['absval'] = bool(r.random() < 0.5)
        n = len(gen.theta_of(c)[0])
        vary = [bool(x) for x in r.random(n) < 0.65]
        if not any(vary):
            vary[int(r.integers(n))] = True
        kinds = [gen.pick(r, ['normal', 'normal', 'skewed', 'uniform', 'edge', 'bimodal', 'coarse', 'signs', 'single' if r.random() < 0.3 else 'normal'])
                 for _ in range(n)]
        nf = sum(vary)
        free = [j for j in range(nf)]
        linked = None
        u = r.random()
        if nf >= 2 and u < 0.35:
            k = int(r.integers(2, min(nf, 3)+1))
            linked = [sorted(int(x) for x in r.permutation(nf)[:k])]
            rest = [j for j in free if j not in linked[0]]
            if len(rest) >= 2 and r.random() < 0.5:
                linked.append(rest[:2])
        elif nf >= 2 and u < 0.45:
            linked = ['all']
        elif vary[0] and u < 0.6 and kinds[0] != 'single':
            linked = [[0, nf]]      # V_a with V_RE
            kinds[0] = 'normal'
            if vary[1]:
                kinds[1] = 'normal'
        if linked is not None:
            kinds = ['normal' if k in ('single', 'coarse', 'uniform', 'bimodal', 'signs') else k for k in kinds]
        if linked == [[0, nf]] and not (vary[1] if c['vprof'] != 'solid' else False):
            linked = None           # exactly proportional: no joint density
        if linked is None and vary[-2] and r.random() < 0.5:
            kinds[-2] = 'zero'      # m0_shift: its histogram peaks (nearly) at zero
        out.append({'kind': 'chain', 'cfg': c, 'vary': vary, 'cols': kinds, 'linked': linked, 'nW': int(r.integers(10, 30)), 'nS': int(r.integers(15, 50)),
                    'usetex': bool(r.random() < 0.3), 'seed': i, 'rs': int(r.integers(1 << 30))})
    for i in range(b):
        r = gen.rng_for('P20m', seed, i)
        c = fits.fit_cfg(r, nsub=1, nrows=5, nwave=12, adaptive=False, iprof='exp')
        c['sigma0'] = abs(c['sigma0']) or 30.
        vary = [bool(x) for x in r.random(5) < 0.6]
        vary[int(r.integers(5))] = True
        out.append({'kind': 'mcmc', 'cfg': c, 'vary': vary, 'linked': None, 'cols': ['mcmc']*5, 'usetex': False, 'nW': 2*(sum(vary)+4), 'nS': 12, 'seed': i,
                    'rs': int(r.integers(1 << 30))})
    return out


def column(r, kind, n, lo, hi):
    """n samples inside [lo, hi]; smooth kinds are stratified, so that their density has one clear peak"""
    from scipy.special import ndtri
    u = (np.arange(n) + 0.5)/n
    w = hi - lo
    if kind == 'single':
        return np.full(n, lo + 0.4*w)
    if kind == 'normal':
        x = lo + w*(r.uniform(0.4, 0.6) + 0.12*ndtri(u)*r.uniform(0.15, 1.))
    elif kind == 'skewed':
        x = lo + w*(0.1 + 0.08*(-np.log(u))**0.7)
    elif kind == 'edge':
        x = lo + w*0.15*-np.log(u)
    elif kind == 'uniform':
        x = lo + w*r.random(n)
    elif kind == 'bimodal':
        x = np.where(r.random(n) < r.uniform(0.5, 0.8), lo + w*(0.3 + 0.05*r.standard_normal(n)), lo + w*(0.75 + 0.05*r.standard_normal(n)))
    elif kind == 'coarse':
        x = lo + w*r.integers(0, 9, n)/8.
    elif kind == 'signs':
        x = 0.3*w*r.standard_normal(n) + 0.05*w
    elif kind == 'zero':
        # (a smooth peak half a standard deviation from zero; the highest bin of the histogram is at 1e-5 of the range)
        x = 0.1*w*ndtri(u)
        for _ in range(400):
            y = 0.1*w*r.standard_normal(n)
            h, e = np.histogram(y, bins=50)
            k = int(np.argmax(h))
            if abs(e[k]+e[k+1]) > 0.06*w:
                x = y - 0.5*(e[k]+e[k+1]) + 1e-5*w
                break
    return np.clip(r.permutation(x), lo, hi)


def derived(c, theta):
    """V_RE, V_22, sigma_RE, sigma_22 per sample; theta: (samples, parameters)"""
    out = []
    re = 1.1*c['re']
    for kind in ('v', 's'):
        for rad in (re, 2.2/1.676*re):
            if kind == 's':
                out.append(theta[:, -3])
            elif c['vprof'] == 'arctan':
                out.append(2/np.pi*theta[:, 0]*np.arctan(rad/theta[:, 1]))
            elif c['vprof'] == 'power':
                out.append(theta[:, 0]*(rad/(rad+theta[:, 1]))**theta[:, 2])
            else:
                out.append(theta[:, 0]*rad)
    return np.array(out).T


def bounds(c):
    th = gen.theta_of(c)[0]
    n = len(th)
    b = [[th[0]-90., th[0]+120.]] + [[0.02, 1.6]]*(n-4) + [[0., 110.], [-1.1, 0.8], [th[-1]-0.001, th[-1]+0.0012]]
    return b[:n] if n > 4 else [b[0]] + b[-3:]


def density(x, pts):
    """Gaussian kernel density with Scott's bandwidth; x: (dim, n), pts: (dim, m)"""
    x, pts = np.atleast_2d(x), np.atleast_2d(pts)
    d, n = x.shape
    cov = np.atleast_2d(np.cov(x))*n**(-2./(d+4))
    L = np.linalg.cholesky(cov)
    a, b = np.linalg.solve(L, x), np.linalg.solve(L, pts)
    q = ((b[:, :, None] - a[:, None, :])**2).sum(axis=0)
    return np.exp(-0.5*q).mean(axis=1)/np.sqrt((2*np.pi)**d)/np.prod(np.diag(L))


def make(case, data, chain, lnp):
    n = chain.shape[2]
    fit = fits.make_fit(case['cfg'], [np.copy(a) for a in data], case['vary'], bounds=bounds(case['cfg']), linked=case['linked'])
    fit.usetex = case['usetex']
    if case['linked'] is not None:
        fit.theta_linked_posteriors = case['linked']
    attach(fit, chain, lnp)
    return fit


def attach(fit, chain, lnp):
    n = chain.shape[2]
    fit.sampler_dict = {'chain': chain.copy(), 'lnprobability': lnp.copy(), 'flatchain': chain.reshape(-1, n).copy(),
                        'flatlnprobability': lnp.reshape(-1).copy(), 'nIter': chain.shape[1], 'nParam': n, 'nCPU': 1, 'nWalkers': chain.shape[0],
                        'acceptance_fraction': np.full(chain.shape[0], 0.3), 'acor_time': np.full(n, 1.), 'fitEmis2D': None}


def result(fit):
    m = fit.mcmc_results
    return {'best': np.array(m.bestfit_theta, dtype=float), 'e1': np.array(m.err_theta_1sig, dtype=float), 'e2': np.array(m.err_theta_2sig, dtype=float),
            'opp': np.array(m.percent_oppsign, dtype=float), 'fit': np.array(m.bestfit_theta_fitting, dtype=float), 'names': list(m.theta_names),
            'flat': np.array(fit.sampler_dict['flatchain']), 'model': np.array(fit.kinModel.model)}


def run(case, mon):
    c, vary = case['cfg'], np.array(case['vary'])
    r = np.random.default_rng(case['rs'])
    data = fits.data_for(c, r)
    bd = bounds(c)
    free = np.where(vary)[0]
    n, nW, nS = len(free), case['nW'], case['nS']
    theta0 = gen.theta_of(c)[0]
    if case['kind'] == 'mcmc':
        fit = fits.make_fit(c, [np.copy(a) for a in data], vary, bounds=bd, nWalkers=nW, nBurn=3, nSteps=nS, nEff=None)
        np.random.seed(case['rs'] % 99999)
        fit.run_mcmc()
        chain, lnp = np.array(fit.sampler_dict['chain']), np.array(fit.sampler_dict['lnprobability'])
    else:
        chain = np.stack([column(r, case['cols'][i], nW*nS, *(bd[i] if not (case['cols'][i] == 'signs' and i == len(vary)-3) else [-60., 110.]))
                          .reshape(nW, nS) for i in free], axis=2)
        lnp = -r.exponential(3., (nW, nS))
        fit = make(case, data, chain, lnp)
    fit.analyze_results()
    res = result(fit)
    mon.ev('analysis')
    mon.sig(c['vprof'], n, case['linked'] and len(str(case['linked'])), c['absval'], *sorted(set(case['cols'][i] for i in free)))
    isig = len(vary)-3
    jsig = int(vary[:isig].sum()) if vary[isig] else None
    flat = chain.reshape(-1, n).copy()
    if c['absval'] and jsig is not None:
        flat[:, jsig] = np.abs(flat[:, jsig])
    full = np.tile(theta0, (len(flat), 1))
    full[:, free] = flat
    want = np.column_stack([flat, derived(c, full)])
    ok = mon.check('columns', res['flat'].shape == want.shape, 'shape of the analysed chain', got=res['flat'].shape, want=want.shape)
    if not ok:
        return
    for j in range(want.shape[1]):
        mon.close('columns', res['flat'][:, j], want[:, j], rtol=1e-10, msg='column %d of the analysed chain' % j, free=n)
    names = [fit.thetaSettings.theta_names[i] for i in free] + ['V_RE', 'V_22', 'sigma_RE', 'sigma_22']
    mon.check('names', res['names'] == names, 'names of the columns', got=res['names'], want=names)
    mon.check('names', len(fit.mcmc_results.theta_names_nice) == len(names), 'number of nice names')
    expect = chain.copy()
    if c['absval'] and jsig is not None:
        expect[..., jsig] = np.abs(expect[..., jsig])
    mon.same('chain', fit.sampler_dict['chain'], expect, 'the analysis modifies the chain')
    mon.same('chain', fit.sampler_dict['lnprobability'], lnp, 'the analysis modifies the log probabilities')
    summary(case, mon, res, want, n)
    # best-fit model
    fitth = np.array(theta0)
    fitth[free] = res['fit']
    mon.same('fitted', res['fit'], res['best'][:n], 'fitted part of the best fit')
    mon.close('theta', fit.kinModel.theta, fitth, rtol=1e-12, msg='parameters of the best-fit model')
    mon.close('theta', fit.kinModel.bestfit.theta, fitth, rtol=1e-12, msg='parameters of the saved best fit')
    if np.all(np.isfinite(fitth)) and abs(fitth[1]) > 1e-9:
        fresh = fits.make_fit(c, [np.copy(a) for a in data], vary, bounds=bd)
        fresh.make_model(theta_fitting=res['fit'].copy())
        mon.close('model', res['model'], fresh.kinModel.model, rtol=1e-9, msg='best-fit model is not the model at the best-fit parameters')
        mon.close('model', fit.kinModel.bestfit.model, fresh.kinModel.model, rtol=1e-9, msg='saved best-fit model')
        # the saved best fit stays what it is when the model is evaluated elsewhere
        kept = fits.snap(fit.kinModel.bestfit, skip=('bestfit',))
        bm, bt = np.array(fit.kinModel.bestfit.model), np.array(fit.kinModel.bestfit.theta)
        other = np.array([0.5*(bd[i][0]+bd[i][1]) + 0.21*(bd[i][1]-bd[i][0]) for i in free])
        fit.update_model(theta_fitting=other)
        mon.ev('kept')
        mon.same('kept', np.array(fit.kinModel.bestfit.theta), bt, 'parameters of the saved best fit change with the model')
        mon.same('kept', np.array(fit.kinModel.bestfit.model), bm, 'the saved best-fit model changes with the model')
        ch = fits.changed(kept, fits.snap(fit.kinModel.bestfit, skip=('bestfit',)))
        mon.check('kept', not ch, 'the saved best fit changes with the model: %s' % ch[:4])
        fit.update_model(theta_fitting=res['fit'].copy())
    # repeat, reorder, shift, scale
    fit.analyze_results()
    compare(mon, 'repeat', result(fit), res, 'repeated analysis')
    if case['kind'] == 'mcmc':
        return
    p = r.permutation(nW*nS)
    chain2, lnp2 = chain.reshape(-1, n)[p].reshape(chain.shape), lnp.reshape(-1)[p].reshape(lnp.shape)
    f2 = make(case, data, chain2, lnp2)
    f2.analyze_results()
    r2 = result(f2)
    compare(mon, 'reorder', dict(r2, flat=res['flat']), res, 'reordered chain', tol=1e-6)
    # the same fit object with another chain: nothing is left of the first one
    attach(f2, chain, lnp)
    f2.analyze_results()
    compare(mon, 'repeat', result(f2), res, 'after the analysis of another chain')
    shiftable(case, mon, data, chain, lnp, res, free, vary, r)


def compare(mon, key, a, b, what, tol=1e-9):
    mon.ev(key)
    for k in ('flat', 'e1', 'e2', 'opp', 'best', 'model'):
        if k == 'model' or tol > 1e-8 and k in ('best', 'e1', 'e2'):
            sp = np.ptp(b['flat'], axis=0)
            if k == 'model':
                if tol <= 1e-8:
                    mon.close(key, a[k], b[k], rtol=1e-8, msg='%s: %s differs' % (what, k))
            else:
                mon.close(key, a[k].T, b[k].T, rtol=0., atol=tol*sp + 1e-3*tol, scale=0., msg='%s: %s differs' % (what, k))
        else:
            mon.close(key, a[k], b[k], rtol=tol, msg='%s: %s differs' % (what, k))


def percentile(x, p):
    s = np.sort(x)
    t = p/100.*(len(s)-1)
    k = min(int(np.floor(t)), len(s)-2)
    return s[k] + (t-k)*(s[k+1]-s[k])


def summary(case, mon, res, flat, n):
    best = res['best']
    m = flat.shape[1]
    if not mon.check('summary shape', best.shape == (m,) and res['e1'].shape == (m, 2) and res['e2'].shape == (m, 2), 'shape of the summary',
                     got=[best.shape, res['e1'].shape], want=m):
        return
    linked = []
    for g in case['linked'] or []:
        linked.append(list(range(n)) if g == 'all' else g)
    inlinked = {j for g in linked for j in g}
    for j in range(m):
        x = flat[:, j]
        mon.ev('column')
        sp = np.ptp(x)
        sc = max(sp, 1e-12*abs(x[0]))
        tol = 0.
        for key, lo, hi in (('e1', 15.865, 84.135), ('e2', 2.275, 97.725)):
            a, b = percentile(x, lo), percentile(x, hi)
            mon.close('limits', [best[j]-res[key][j, 0], best[j]+res[key][j, 1]], [a, b], rtol=0., atol=1e-9*sc + 1e-12*abs(a) + tol, scale=0.,
                      msg='%s limits of column %d' % (key, j), n=n, linked=j in inlinked)
        o = 100.*np.mean(x*np.sign(best[j]) < 0)
        mon.close('opposite', res['opp'][j], o, rtol=0., atol=1e-9, scale=0., msg='percentage of opposite sign, column %d' % j)
        if sp <= 1e-12*np.abs(x).max():
            mon.close('constant', best[j], x[0], rtol=1e-9, msg='best value of constant column %d' % j)
            continue
        if j in inlinked:
            continue
        mon.ev('peak')
        mon.check('range', x.min()-0.1*sp <= best[j] <= x.max()+0.1*sp, 'best value of column %d is far outside the samples' % j, best=best[j],
                  range=[x.min(), x.max()])
        h = np.std(x, ddof=1)*len(x)**-0.2
        g = best[j] + h*np.concatenate([[0.], np.array([-1., 1.])*0.3, np.array([-1., 1.])*0.15])
        g = np.concatenate([g, np.linspace(x.min(), x.max(), 400)])
        d = density(x, g)
        # a step of 0.3 bandwidths changes the density near a peak by < 5%, and by more elsewhere than the search tolerance
        mon.check('peak', d[0] >= d[1:5].max()*(1-2e-3) - 2e-4, 'best value of column %d is no maximum of the density' % j, best=best[j], h=h, d=d[:5])
        kind = case['cols'][np.where(case['vary'])[0][j]] if j < n else 'derived'
        if kind in UNIMODAL:
            mon.check('highest', d[0] >= 0.995*d.max() - 2e-4, 'best value of column %d (%s) is not the density peak' % (j, kind), best=best[j],
                      at=g[np.argmax(d)], ratio=d[0]/d.max())
    for g in linked:
        mon.ev('joint')
        x = flat[:, g].T
        b = best[g]
        rng = np.random.default_rng(1)
        s = np.std(x, axis=1, ddof=1)*x.shape[1]**(-1./(len(g)+4))
        pts = np.column_stack([b] + [b + 0.25*s*v for v in rng.standard_normal((40, len(g)))])
        d = density(x, pts)
        mon.check('joint peak', d[0] >= 0.99*d.max(), 'best values of linked columns %s are no maximum of their joint density' % g, best=b,
                  ratio=d[0]/d.max(), at=pts[:, np.argmax(d)])
        lo, hi = x.min(axis=1), x.max(axis=1)
        mon.check('joint range', np.all(b >= lo-0.1*(hi-lo)) and np.all(b <= hi+0.1*(hi-lo)), 'linked best values outside the samples', best=b)


def shiftable(case, mon, data, chain, lnp, res, free, vary, r):
    """Shifting m0_shift or z samples shifts only their summary; scaling V_a scales V_a, V_RE, V_22."""
    c, n = case['cfg'], len(free)
    if case['linked'] is not None:
        return
    i0 = len(vary)-2
    jobs = []
    if vary[i0]:
        jobs.append(('shift', int(vary[:i0].sum()), uni(r, 0.2, 0.9)))
    if vary[0]:
        jobs.append(('scale', 0, gen.pick(r, [0.5, 1.7, -1.])))
    for what, j, f in jobs:
        ch = chain.copy()
        ch[..., j] = ch[..., j] + f if what == 'shift' else ch[..., j]*f
        f2 = make(case, data, ch, lnp)
        f2.analyze_results()
        b = result(f2)
        mon.ev('shift')
        sp = np.ptp(b['flat'], axis=0) + 1e-300
        want, e1 = res['best'].copy(), res['e1'].copy()
        cols = [j] if what == 'shift' else [0, n, n+1]
        smooth = {k: k < n and case['cols'][free[k]] in UNIMODAL for k in cols}
        for k in range(len(want)):
            if k in cols:
                want[k] = want[k] + f if what == 'shift' else want[k]*f
                if what == 'scale':
                    e1[k] = (e1[k] if f > 0 else e1[k][::-1])*abs(f)
                if not smooth[k]:
                    continue         # several density peaks: which is found is up to the search
            tol = 1e-9*sp[k] if k not in cols else 1e-2*sp[k] + 2e-4
            mon.close(what, b['best'][k], want[k], rtol=1e-12, atol=tol, msg='best value of column %d after %s of column %d by %g' % (k, what, j, f))
            mon.close(what, b['e1'][k], e1[k], rtol=1e-9, atol=2*tol, msg='1 sigma errors of column %d after %s of column %d by %g' % (k, what, j, f))


def uni(r, a, b):
    return round(float(r.uniform(a, b)), 3)


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
