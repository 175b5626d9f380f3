"""P19: recorded MCMC runs, judged against every log-probability event of the run."""
import os

import numpy as np

from rvlib import core, fits, gen
from props import p08

TECHNIQUE = ('runtime monitor: log-probability calls of real emcee runs are hooked; the recorded chain is checked offline against that event log '
             '(provenance, order, exactly once), an independent likelihood and metamorphic re-runs')
NOTE = 'Held on the recorded runs: every chain entry traced to its evaluation; log probabilities agree with an independent model to 1e-8.'
RULE = ('random small fits, patterns of free parameters, walkers, burn-in, steps, processes, output files and stopping options, seeded; '
        'distinct: (free pattern, burn-in, steps, processes, files, stop)')
MIN = {'discard': 30, 'move': 150, 'run': 20, 'sample': 1500, 'reference': 60, 'rerun': 40, 'stop': 6}
N = {'quick': (16, 19), 'thorough': (150, 90)}


def small(r):
    while True:
        c = fits.fit_cfg(r, nsub=1, nrows=int(r.integers(5, 8)), iprof=gen.pick(r, ['exp', 'expscale']))
        c['nwave'] = min(c['nwave'], 26)
        c['sigma0'] = abs(c['sigma0']) or 30.
        if len(c['lines']) == 1 and gen.grid_ok(c):
            return c


def cases(tier, seed):
    a, b = N[tier]
    out = []
    for i in range(a):
        r = gen.rng_for('P19a', seed, i)
        vary = [bool(x) for x in r.random(5) < 0.55]
        if not any(vary):
            vary[2] = True
        n = sum(vary)
        out.append({'kind': 'run', 'cfg': small(r), 'vary': vary, 'nW': int(2*(n + 1 + r.integers(0, 4))), 'nBurn': gen.pick(r, [0, 2, 3, 5]),
                    'nSteps': int(r.integers(4, 9)), 'a': gen.pick(r, [2., 3., 1.5, 5.]), 'seed': i, 'rs': int(r.integers(1 << 30))})
    for i in range(b):
        r = gen.rng_for('P19b', seed, i)
        vary = [False]*5
        tuned = i % 3 == 1
        for j in r.permutation(3)[:gen.pick(r, [2, 3] if tuned else [1, 2])]:
            vary[int(j)] = True
        c = small(r)
        c.update(nrows=5, nwave=12, FWHM=min(c['FWHM'], c['pixscale']), adaptive=False, nsub=1)
        out.append({'kind': 'stop', 'cfg': c, 'vary': vary, 'nW': int(2*(2 + r.integers(1, 5))), 'nBurn': gen.pick(r, [0, 3]), 'nSteps': int(r.integers(58, 72)),
                    'a': gen.pick(r, [2., 3., 1.5, 5.]), 'nEff': gen.pick(r, [0.3, 2., 8., 12., None]), 'AF': gen.pick(r, [[0.02, 0.98], [0.02, 0.98], [0.2, 0.5], [0.6, 0.9], [None, 0.5]]),
                    'all': bool(r.random() < 0.15), 'seed': i, 'rs': int(r.integers(1 << 30))})
        if tuned:
            out[-1].update(tuned=True, all=False, AF=[0.02, 0.98], nW=2*(n3(vary) + 1))
    return out


def n3(vary):
    return int(np.sum(vary)) + 1


def make(case, data, bd, **mc):
    kw = dict(nWalkers=case['nW'], nBurn=case['nBurn'], nSteps=case['nSteps'], scale_param_a=case['a'], nEff=None, minAF=None, maxAF=None)
    kw.update(mc)
    return fits.make_fit(case['cfg'], [np.copy(a) for a in data], case['vary'], bounds=bd, **kw)


def mcmc(fit, rs, log=None, cuts=None):
    """run with the given random state; log: list which gets (theta, value) of every log-probability event; cuts: {number of steps to discard: None},
    gets the sampler dictionaries made from the same sampler without its first steps"""
    from misfit.fit import fit_core
    np.random.seed(rs)
    orig = fit_core.lnprob
    if log is not None:
        def lnprob(theta, *a, **k):
            v = orig(theta, *a, **k)
            log.append((np.array(theta, dtype=float), float(v)))
            return v
        fit_core.lnprob = lnprob
    import emcee
    made, init = [], emcee.EnsembleSampler.__init__

    def record(self, *a, **k):
        made.append(self)
        init(self, *a, **k)
    if cuts is not None:
        emcee.EnsembleSampler.__init__ = record
    try:
        fit.run_mcmc()
    finally:
        fit_core.lnprob, emcee.EnsembleSampler.__init__ = orig, init
    if made:
        from misfit.fit import fit_io
        for b in list(cuts):
            cuts[b] = fit_io.make_emcee_sampler_dict(made[-1], fitEmis2D=fit, nBurn=b)
    return fit.sampler_dict


def run(case, mon):
    c = case['cfg']
    r = np.random.default_rng(case['rs'])
    data = fits.data_for(c, r)
    bd = fits.bounds_for(c, r)
    if case['kind'] == 'stop':
        return stop(case, mon, data, bd)
    vary = np.array(case['vary'])
    n, nW, nS, nB = int(vary.sum()), case['nW'], case['nSteps'], case['nBurn']
    rs = case['rs'] % 100000
    log, cuts = [], {k: None for k in (1, 2, nS-1)}
    fit = make(case, data, bd)
    before = {k: fits.snap(getattr(fit, k)) for k in ('galaxy', 'instrument', 'thetaSettings', 'mcmcOptions')}
    d = mcmc(fit, rs, log, cuts=cuts)
    mon.ev('run')
    mon.sig(tuple(case['vary']), nB, nS, nW)
    discards(mon, cuts, d, nS, n)
    stretch(mon, d, case['a'], nW)
    for k, v in before.items():
        ch = fits.changed(v, fits.snap(getattr(fit, k)))
        mon.check('pure', not ch, 'sampling modifies the fit: %s %s' % (k, ch[:4]))
    if not shapes(mon, d, nW, nS, n):
        return
    mon.check('iterations', d['nIter'] == nS and d['nParam'] == n and d['nWalkers'] == nW, 'counts in the sampler dictionary',
              got=[d['nIter'], d['nParam'], d['nWalkers']], want=[nS, n, nW])
    trace(mon, d, log, nW, nB, nS)
    inside(mon, d, vary, bd)
    # recorded log probabilities against an independent model
    theta = gen.theta_of(c)[0]
    ch, lp = d['chain'], d['lnprobability']
    for _ in range(6):
        w, t = int(r.integers(nW)), int(r.integers(nS))
        want, scale = p08.reference(c, data, theta, vary, ch[w, t], bd)
        mon.ev('reference')
        if np.isfinite(want):
            mon.close('log probability', lp[w, t], want, rtol=1e-8, scale=scale, msg='recorded log probability is not that of the recorded parameters')
        else:
            mon.check('log probability', lp[w, t] == -np.inf, 'recorded log probability should be -inf', got=lp[w, t])
    # the same again: fully reproducible; with files; with processes; burn-in only discards
    tmp = mon.tmp
    files = dict(filename_log=os.path.join(tmp, 'a.log'), filename_sampler=os.path.join(tmp, 'a.pickle'),
                 filename_sampler_h5=os.path.join(tmp, 'a.h5'))
    if case['seed'] % 3 == 0:
        files.update(filename_plot_trace=os.path.join(tmp, 'a_trace.png'), filename_plot_trace_burnin=os.path.join(tmp, 'a_burn.png'))
    rerun(mon, d, mcmc(make(case, data, bd), rs), 'again')
    ff = make(case, data, bd, **files)
    df = mcmc(ff, rs)
    rerun(mon, d, df, 'with output files')
    for k in files:
        if k == 'filename_plot_trace_burnin' and nB == 0:
            continue
        mon.check('files', os.path.exists(files[k]) and os.path.getsize(files[k]) > 0, 'output file %s missing or empty' % k)
    import emcee
    h5 = emcee.backends.HDFBackend(files['filename_sampler_h5'], name='mcmc', read_only=True)
    mon.same('h5', np.transpose(h5.get_chain(), (1, 0, 2)), d['chain'], 'the chain in the HDF5 file differs')
    mon.same('h5', h5.get_log_prob().T, d['lnprobability'], 'log probabilities in the HDF5 file differ')
    from misfit.fit import fit_io
    ld = fit_io.loadpickle(files['filename_sampler'])
    for k in ('chain', 'lnprobability', 'flatchain', 'flatlnprobability', 'acceptance_fraction'):
        mon.same('pickle', ld[k], df[k], 'saved sampler dictionary differs in %s' % k)
    # a second run with the same files replaces the first
    df2 = mcmc(make(case, data, bd, **files), rs)
    rerun(mon, d, df2, 'overwriting files')
    h5 = emcee.backends.HDFBackend(files['filename_sampler_h5'], name='mcmc', read_only=True)
    mon.same('h5', np.transpose(h5.get_chain(), (1, 0, 2)), d['chain'], 'the chain in the overwritten HDF5 file differs')
    if case['seed'] % 2:
        # not overwriting: the steps in the file are kept, and the new ones added to them
        da = mcmc(make(case, data, bd, overwrite=False, filename_sampler_h5=files['filename_sampler_h5']), rs+1)
        mon.ev('appended')
        if mon.check('appended', np.shape(da['chain']) == (nW, 2*nS, n), 'shape of the chain after adding to that in the HDF5 file', got=np.shape(da['chain'])):
            h5 = emcee.backends.HDFBackend(files['filename_sampler_h5'], name='mcmc', read_only=True)
            mon.same('appended', np.transpose(h5.get_chain(), (1, 0, 2)), da['chain'], 'the chain in the HDF5 file differs from that returned')
            for k in ('chain', 'lnprobability'):
                mon.same('appended', da[k][:, :nS], d[k], '%s: the steps in the file were changed although overwrite=False' % k)
            inside(mon, da, vary, bd)
            shapes(mon, da, nW, 2*nS, n)
    if case['seed'] % 2 == 0:
        dp = mcmc(make(case, data, bd, nCPUs=2, NoThread=False), rs)
        rerun(mon, d, dp, 'with 2 processes')
        mon.check('processes', dp['nCPU'] == 2, 'number of processes recorded', got=dp['nCPU'])
    if nB:
        k = dict(case, nBurn=0, nSteps=nB+nS)
        full = mcmc(make(k, data, bd), rs)
        mon.ev('rerun')
        mon.close('burn-in', full['chain'][:, nB:], d['chain'], rtol=1e-10, msg='burn-in steps are not just left out of the chain')
        mon.close('burn-in', full['lnprobability'][:, nB:], d['lnprobability'], rtol=1e-10, msg='burn-in: log probabilities')
    # the same fit object again (new random numbers) isn't affected by the first run
    rerun(mon, d, mcmc(fit, rs), 'the same fit object again')
    other = mcmc(fit, rs+1)
    mon.check('random', not np.array_equal(other['chain'], d['chain']), 'another random state gives the same chain')


def shapes(mon, d, nW, nS, n):
    want = {'chain': (nW, nS, n), 'lnprobability': (nW, nS), 'flatchain': (nW*nS, n), 'flatlnprobability': (nW*nS,), 'acceptance_fraction': (nW,)}
    ok = True
    for k, v in want.items():
        ok &= mon.check('shape', np.shape(d[k]) == v, 'shape of %s' % k, got=np.shape(d[k]), want=v)
    if ok:
        a = np.column_stack([d['chain'].reshape(-1, n), d['lnprobability'].reshape(-1)])
        b = np.column_stack([d['flatchain'], d['flatlnprobability']])
        a, b = a[np.lexsort(a.T[::-1])], b[np.lexsort(b.T[::-1])]
        mon.same('flat', b, a, 'the flattened chain does not hold exactly the samples of the chain with their log probabilities')
    return ok


def discards(mon, cuts, d, nS, n):
    for b, e in cuts.items():
        if e is None:
            mon.note(no_sampler_hook=True)
            continue
        mon.ev('discard')
        for k in ('chain', 'lnprobability'):
            mon.same('discard', e[k], d[k][:, b:], '%s of the sampler dictionary without the first %d steps' % (k, b))
        if mon.check('discard', np.shape(e['flatchain']) == (d['chain'].shape[0]*(nS-b), n), 'shape of the flat chain without the first steps'):
            x, y = np.column_stack([e['flatchain'], e['flatlnprobability']]), np.column_stack([d['chain'][:, b:].reshape(-1, n), d['lnprobability'][:, b:].reshape(-1)])
            mon.same('discard', x[np.lexsort(x.T[::-1])], y[np.lexsort(y.T[::-1])], 'flat chain without the first %d steps' % b)


def stretch(mon, d, a, nW):
    """Each proposal lies on the line through the walker and another one, stretched by 1/a ... a."""
    ch = np.asarray(d['chain'])
    n = ch.shape[2]
    if n < 2:
        return
    for w in range(nW):
        for t in range(1, ch.shape[1]):
            x0, x1 = ch[w, t-1], ch[w, t]
            if np.array_equal(x0, x1):
                continue
            # the other walker is one of the previous or the current step
            o = np.concatenate([np.delete(ch[:, t-1], w, axis=0), np.delete(ch[:, t], w, axis=0)])
            sp = np.ptp(ch[:, t-1:t+1].reshape(-1, n), axis=0) + 1e-300
            u, v = (x1-o)/sp, (x0-o)/sp
            z = np.sum(u*v, axis=1)/np.maximum(np.sum(v*v, axis=1), 1e-300)
            off = np.linalg.norm(u - z[:, None]*v, axis=1)/np.maximum(np.linalg.norm(v, axis=1), 1e-300)
            k = off < 1e-6
            mon.ev('move')
            mon.check('stretch', np.any(k & (z > (1-1e-6)/a) & (z < (1+1e-6)*a)), 'a walker did not move along the line through another one, stretched by '
                      '1/a ... a', a=a, z=z[k][:4], walker=w, step=t)


def inside(mon, d, vary, bd):
    free = np.where(vary)[0]
    ch = d['chain']
    for j, i in enumerate(free):
        mon.check('inside', ch[..., j].min() >= bd[i][0] and ch[..., j].max() <= bd[i][1], 'samples of parameter %d outside the prior bounds' % i,
                  got=[ch[..., j].min(), ch[..., j].max()], want=bd[i])
    mon.check('finite', np.all(np.isfinite(ch)) and np.all(np.isfinite(d['lnprobability'])), 'non-finite sample or log probability recorded')


def trace(mon, d, log, nW, nB, nS):
    """Provenance of each chain entry in the event log."""
    if not log:
        mon.note(no_hook=True)
        return
    idx = {}
    for e, (th, v) in enumerate(log):
        idx.setdefault(th.tobytes(), []).append((e, v))
    ch, lp = np.asarray(d['chain']), d['lnprobability']
    exact = len(log) == nW*(1 + nB + nS)
    moved = np.zeros(nW)
    last = np.full(nW, -1)
    prevmax = -1
    for t in range(nS):
        new = []
        for w in range(nW):
            mon.ev('sample')
            hit = idx.get(np.ascontiguousarray(ch[w, t]).tobytes())
            if not mon.check('provenance', hit is not None, 'recorded parameters were never evaluated', walker=w, step=t):
                return
            e = [x for x in hit if x[1] == lp[w, t]]
            if not mon.check('paired', len(e) > 0, 'recorded log probability is not the one evaluated for these parameters', walker=w, step=t,
                             got=lp[w, t], want=hit[0][1]):
                return
            e = e[0][0]
            if t == 0 or not np.array_equal(ch[w, t], ch[w, t-1]):
                if t > 0:
                    moved[w] += 1
                    new.append(e)
                    if exact:
                        mon.check('step', e//nW == 1 + nB + t, 'sample recorded in step %d was evaluated in step %d' % (t, e//nW - 1 - nB), walker=w)
                elif exact:
                    mon.check('step', e//nW <= 1 + nB, 'first recorded sample was evaluated later', walker=w)
                    if e//nW == 1 + nB:
                        moved[w] += 1
                mon.check('order', e > last[w], 'samples of a walker are recorded out of order', walker=w, step=t)
                last[w] = e
        if new:
            mon.check('order', min(new) > prevmax, 'steps are recorded out of order', step=t)
            prevmax = max(new)
    mon.check('evaluations', len(log) >= nW*(1 + nB + nS) - nW, 'fewer evaluations than walkers x steps: steps are repeated', got=len(log))
    if exact:
        mon.close('acceptance', np.asarray(d['acceptance_fraction'])*nS, moved, rtol=0., atol=1e-6, msg='acceptance fraction is not that of the chain')


def rerun(mon, d, e, what):
    mon.ev('rerun')
    mon.sig('rerun', what)
    for k in ('chain', 'lnprobability', 'flatchain', 'flatlnprobability', 'acceptance_fraction'):
        mon.same('reproducible', e[k], d[k], '%s: %s differs with the same random state' % (what, k))


def stop(case, mon, data, bd):
    from emcee.autocorr import integrated_time
    vary = np.array(case['vary'])
    n, nW = int(vary.sum()), case['nW']
    lo, hi = case['AF']
    if case.get('tuned'):
        # the limit which the least converged parameter reaches about half way
        x = np.transpose(mcmc(make(case, data, bd, runAllSteps=True), case['rs'] % 100000)['chain'], (1, 0, 2))
        with np.errstate(all='ignore'):
            q = [k/np.max(integrated_time(x[:k+1], tol=10, quiet=True)) for k in range(52, len(x)-2)]
        case = dict(case, nEff=float(np.median(q)))
        if not np.isfinite(case['nEff']):
            return
        mon.ev('tuned stop')
    fit = make(case, data, bd, nEff=case['nEff'], minAF=lo, maxAF=hi, runAllSteps=case['all'])
    log = []
    d = mcmc(fit, case['rs'] % 100000, log)
    mon.ev('run')
    T = d['chain'].shape[1]
    if not shapes(mon, d, nW, T, n):
        return
    mon.check('iterations', d['nIter'] == T <= case['nSteps'], 'number of steps', got=[d['nIter'], T], want=case['nSteps'])
    trace(mon, d, log, nW, case['nBurn'], T)
    inside(mon, d, vary, bd)
    x = np.transpose(d['chain'], (1, 0, 2))
    off = case['all'] or case['nEff'] is None or lo is None or hi is None
    mon.ev('stop')
    mon.sig('stop', off, T < case['nSteps'], n, case['nEff'])
    moves = (np.abs(np.diff(x, axis=0)).sum(axis=2) > 0).sum(axis=1)      # accepted in steps 1, 2, ...
    first = float(d['acceptance_fraction'].mean())*nW*T - moves.sum()

    def tau(k):
        with np.errstate(all='ignore'):
            return float(np.max(integrated_time(x[:k+1], tol=10, quiet=True)))

    def crit(k):
        af = (first + moves[:k].sum())/(nW*(k+1.))
        t = tau(k)
        if not np.isfinite(t):
            return False, af, t
        return (lo < af < hi and k > t*case['nEff']), af, t
    if off:
        mon.check('no early stop', T == case['nSteps'], 'stopped after %d steps although early stopping is off' % T)
        return
    if T < case['nSteps']:
        k = T-1
        ok, af, t = crit(k)
        mon.check('stopped', T >= 50, 'stopped before the minimum number of steps', steps=T)
        mon.check('stopped', ok, 'stopped early although the criteria do not hold', steps=T, acceptance=af, autocorrelation=t, nEff=case['nEff'], limits=[lo, hi])
    for k in range(49, T-1):
        ok, af, t = crit(k)
        if ok and k > t*case['nEff']*1.001 and lo*1.001 < af < hi*0.999:
            mon.check('continued', False, 'did not stop at step %d although the criteria hold' % (k+1), acceptance=af, autocorrelation=t, nEff=case['nEff'])
            break


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
    import matplotlib.pyplot  # noqa: F401
