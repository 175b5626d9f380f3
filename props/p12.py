"""P12: fit weights are a normalized per-row profile of the chosen kind."""
import numpy as np

from rvlib import gen, prep

TECHNIQUE = ('runtime monitor on calculate_fit_weights (prepared synthetic observations and adversarial arrays), judged by an independent reference of each '
             'weighting and by relations (flux/error scale)')
NOTE = 'Held on the spectra observed; up-edges and uniform weights agree to 1e-10, the optimal profile with an independent Gaussian fit to 1e-3.'
RULE = ('prepared slit observations and random (row S/N, masks, skylines, low rows) spectra for each weighting type; distinct: kind, rows, '
        'number of low rows, masks')
MIN = {'weights': 600, 'up-edges': 150, 'optimal': 60, 'none': 60, 'low rows': 200}
N = {'quick': 160, 'thorough': 2500}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P12', seed, i)
        wt = ['up-edges', 'optimal', 'up-edges', 'none'][i % 4]
        kw = dict(weighting=wt)
        if wt == 'optimal':
            kw.update(snr=gen.pick(r, [12., 30., 80.]), cover=gen.pick(r, ['full', 'wide']), nocont=False, cont=gen.uni(r, 0., 0.4))
        out.append({'kind': 'prep', 'cfg': prep.cfg(r, **kw), 'seed': i})
    for i in range(3*N[tier]):
        out.append({'kind': 'arrays', 'weighting': ['up-edges', 'optimal', 'up-edges', 'none'][i % 4], 'seed': i, 'base': seed})
    return out


def gauss_ref(y, e):
    """Best Gaussian A exp(-(x-mu)^2/2 s^2) of a profile: (chi2, model), from a grid of (mu, s) then least squares."""
    from scipy.optimize import least_squares
    x = np.arange(len(y), dtype=float)
    ok = np.isfinite(y/e)
    best = None
    for mu in np.linspace(0, len(y)-1, max(len(y), 4)):
        for s in np.geomspace(0.5, 2.*len(y), 12):
            g = np.exp(-0.5*((x-mu)/s)**2)
            a = np.sum((y*g/e**2)[ok])/np.sum((g*g/e**2)[ok])
            c2 = np.sum(((a*g-y)/e)[ok]**2)
            if best is None or c2 < best[0]:
                best = (c2, a, mu, s)

    def f(p):
        return np.where(ok, (p[0]*best[1]*np.exp(-0.5*((x-p[1])/p[2])**2)-y)/e, 0.)
    o = least_squares(f, [1., best[2], best[3]], x_scale=[1., 1., best[3]], max_nfev=2000, xtol=1e-12, ftol=1e-12)
    return 2*o.cost, o.x[0]*best[1]*np.exp(-0.5*((x-o.x[1])/o.x[2])**2)


def judge(mon, s, wt, tag):
    flux, err, sky = s.flux, s.flux_err, s.mask_sky
    n = flux.shape[0]
    w, M = np.asarray(s.fitting_weight_profile, dtype=float), np.asarray(s.fitting_weight_matrix, dtype=float)
    low = np.asarray(s.low_snr_row_inds, dtype=int)
    mon.ev('weights')
    mon.ev(wt)
    mon.ev('low rows', len(low))
    mon.sig(tag, wt, min(n, 30), min(len(low), 10), bool(np.any(sky == 0)))
    if not mon.check('shape', w.shape == (n,) and M.shape == flux.shape, 'shapes of the weights', got=[w.shape, M.shape], want=flux.shape):
        return None
    mon.same('constant along rows', M, np.repeat(w[:, None], flux.shape[1], axis=1), 'the weight matrix is not the row profile')
    if not mon.check('non-negative', np.all(w >= 0) and np.all(np.isfinite(w)), 'weights are negative or not finite', w=w):
        return None
    if wt == 'none':
        mon.close('none', w, np.full(n, 1./n), rtol=1e-12, msg='uniform weights')
        return w
    mon.check('low rows', np.all(w[low] == 0.), 'low S/N rows have weight', w=w, low=low)
    if len(low) == n:
        mon.check('all low', np.all(w == 0.), 'weights without any good row', w=w)
        return w
    mon.close('normalized', w.sum(), 1., rtol=1e-10, msg='sum of the weights')
    keep = np.setdiff1d(np.arange(n), low)
    if wt == 'up-edges':
        with np.errstate(all='ignore'):
            iv = np.sqrt(np.sum((err*sky)**2, axis=1))/np.abs(np.sum(flux*sky, axis=1))
        want = np.zeros(n)
        want[keep] = iv[keep]/iv[keep].sum()
        if np.all(np.isfinite(want)):
            mon.close('up-edges', w, want, rtol=1e-10, msg='weights are not 1/(row S/N)')
            k1 = keep[np.argmin(iv[keep])]
            mon.check('up-edges order', w[k1] == w[keep].min(), 'the best row does not have the lowest weight')
    return w


def run(case, mon):
    {'prep': run_prep, 'arrays': run_arrays}[case['kind']](case, mon)


def run_prep(case, mon):
    c = case['cfg']
    d = prep.raw(c)
    gal, ins = prep.make(c, d)
    gal.spec2D.fit_prep_calcs(gal, ins)
    s = gal.spec2D
    w = judge(mon, s, c['weighting'], 'prep')
    if w is None:
        return
    if c['weighting'] == 'optimal':
        optimal(mon, s, w)
    # the error scale doesn't matter, nor does the flux scale
    for a, b in ((3., 1.), (1., 0.2), (1e-3, 1e2)):
        s.flux, s.flux_incl_cont, s.flux_err = s.flux*a, s.flux_incl_cont*a, s.flux_err*b
        s.calculate_fit_weights()
        if not np.all(np.isfinite(w)):
            return
        mon.ev('scaled')
        mon.close('scaled', s.fitting_weight_profile, w, rtol=1e-10 if c['weighting'] != 'optimal' else 2e-3, scale=np.max(w) if w.max() > 0 else 1.,
                  msg='weights depend on the flux or error scale', a=a, b=b)
        s.flux, s.flux_incl_cont, s.flux_err = s.flux/a, s.flux_incl_cont/a, s.flux_err/b


def optimal(mon, s, w):
    y = np.abs(np.sum(s.flux_incl_cont*s.mask_sky, axis=1))
    e = np.abs(np.sum(s.flux_err*s.mask_sky, axis=1))
    low = np.asarray(s.low_snr_row_inds, dtype=int)
    if len(low) == len(w):
        return
    c2, g = gauss_ref(y, e)
    keep = np.setdiff1d(np.arange(len(w)), low)
    want = np.zeros(len(w))
    want[keep] = g[keep]/g[keep].sum()
    # only where the Gaussian is clearly determined
    ok = np.isfinite(y/e)
    null = np.sum((y/e)[ok]**2)
    peak = int(np.argmax(g))
    if null > 30*max(c2, len(y)) and 2 <= peak < len(y)-2 and len(y) >= 8:
        mon.ev('optimal profile')
        mon.close('optimal', w, want, rtol=1e-2, msg='optimal weights are not the Gaussian profile of the object', chi2=c2)


def run_arrays(case, mon):
    from misfit.galaxy import ObsSpectrum2D
    r = gen.rng_for('P12a', case['base'], case['seed'])
    wt = case['weighting']
    nr, nw = int(r.integers(3 if wt != 'optimal' else 10, 30)), int(r.integers(3, 25))
    y = np.arange(nr)
    mu, sg = r.uniform(0.3, 0.7)*nr, r.uniform(0.12, 0.25)*nr
    prof = np.exp(-0.5*((y-mu)/sg)**2)
    err = r.uniform(0.8, 1.2, (nr, nw))*gen.pick(r, [0.01, 0.05, 0.2])
    u = gen.pick(r, [1., 1., 1e-18, 1e5])
    flux = prof[:, None]*r.uniform(0.8, 1.2, nw)[None, :] + err*r.standard_normal((nr, nw))
    if wt == 'up-edges' and r.random() < 0.5:
        flux *= r.choice([-1., 1.], nr)[:, None]
    sky = np.ones((nr, nw))
    k = r.choice(nw, size=int(r.integers(0, nw//3+1)), replace=False)
    sky[:, k] = 0.
    flux[:, k] += 30.*r.standard_normal((nr, len(k)))
    if wt != 'optimal':
        sky[r.random((nr, nw)) < 0.1] = 0.
    low = np.where(r.random(nr) < gen.pick(r, [0., 0.2, 0.5, 1.]))[0]
    low = np.union1d(low, np.where(sky.sum(axis=1) == 0)[0]).astype(int)      # rows without data have no S/N
    s = ObsSpectrum2D(band='K', wave=np.linspace(2e4, 2.01e4, nw), flux=flux*u, flux_err=err*u, weighting_type=wt, mask_sky=sky)
    s.spec_mask = np.ones((nr, nw))
    s.flux_incl_cont = flux*u
    s.low_snr_row_inds = low
    before = [np.copy(a) for a in (s.flux, s.flux_err, s.mask_sky, s.spec_mask, s.low_snr_row_inds)]
    s.calculate_fit_weights()
    mon.check('pure', all(np.array_equal(a, b) for a, b in zip(before, (s.flux, s.flux_err, s.mask_sky, s.spec_mask, s.low_snr_row_inds))),
              'calculating weights modifies the spectrum')
    w = judge(mon, s, wt, 'arrays')
    if wt == 'optimal' and w is not None:
        optimal(mon, s, w)


def warmup():
    c = prep.cfg(gen.rng_for('warm'))
    gal, ins = prep.make(c)
    gal.spec2D.fit_prep_calcs(gal, ins)
