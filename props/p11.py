"""P11: masks exclude exactly the missing, skyline, low S/N and edge pixels."""
import numpy as np

from rvlib import core, gen, prep

TECHNIQUE = ('runtime monitor on the masking steps of the preparation (prepared synthetic observations, and the mask methods on random adversarial '
             'arrays), judged by an independent reference of each mask')
NOTE = 'Held on the arrays observed; masks are compared exactly, except where a decision is within 1e-9 of its threshold.'
RULE = ('prepared slit observations; random S/N row patterns (runs of low/high rows, zero errors, masks); random skyline columns and cutoffs; random 1D '
        'masks, lengths and num_edge; distinct: qualitative choices and patterns')
MIN = {'prepared': 100, 'sky': 300, 'low snr': 300, 'edges': 200, 'low rows': 300, 'sky columns': 100}
N = {'quick': 300, 'thorough': 5000}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P11', seed, i)
        out.append({'kind': 'prep', 'cfg': prep.cfg(r, weighting='none', nsky=int(r.integers(0, 9))), 'seed': i})
    for i in range(2*N[tier]):
        out.append({'kind': 'arrays', 'seed': i, 'base': seed})
    for i in range(N[tier]):
        out.append({'kind': 'edges', 'seed': i, 'base': seed})
    return out


def run(case, mon):
    {'prep': run_prep, 'arrays': run_arrays, 'edges': run_edges}[case['kind']](case, mon)


def check_sky(mon, mask_qual, err, med, cut, mask_sky, wh_sky, wh_nosky):
    mon.ev('sky')
    col = np.sqrt(np.sum((err*mask_qual)**2, axis=0))
    clear = np.abs(col - cut*med) > 1e-9*cut*med
    sky = col >= cut*med
    mon.ev('sky columns', int(sky.sum()))
    wh_sky, wh_nosky = np.asarray(wh_sky, dtype=int), np.asarray(wh_nosky, dtype=int)
    got = np.zeros(len(col), dtype=bool)
    got[wh_sky] = True
    mon.same('sky', got[clear], sky[clear], 'skyline columns')
    mon.same('partition', np.sort(np.concatenate([wh_sky, wh_nosky])), np.arange(len(col)), 'wh_sky and wh_nosky are no partition')
    want = mask_qual.copy()
    want[:, got] = 0.
    mon.same('mask_sky', mask_sky, want, 'skyline mask')
    return got


def check_low(mon, flux, err, mask_calc, cut, mask_qual, rows, mask_low=None, tag=''):
    mon.ev('low snr')
    want, margin = prep.ref_low_rows(flux, err, mask_calc, cut)
    if margin < 1e-9:
        return
    mon.ev('low rows', len(want))
    rows = np.asarray(rows, dtype=int)
    mon.same('low rows' + tag, np.sort(rows), want, 'low S/N rows')
    if mask_low is not None:
        m = mask_qual.copy()
        m[want] = 0.
        mon.same('mask_low_snr', mask_low, m, 'low S/N mask')


def run_prep(case, mon):
    from misfit.galaxy import ObsSpectrum2D
    c = case['cfg']
    d = prep.raw(c)
    gal, ins = prep.make(c, d)
    st = {}

    def before_sky(a, k):
        s = a[0]
        st['q'] = np.copy(s.spec_mask if s.mask_qual is None else s.mask_qual)
        st['err'], st['flux'] = np.copy(s.flux_err), np.copy(s.flux)

    def after_low(tok, a, k, r):
        s = a[0]
        st['low'] = np.copy(s.mask_low_snr)
        st['rows'] = np.copy(s.low_snr_row_inds)
        st['sky'] = np.copy(s.mask_sky)
        st['lists'] = (np.copy(s.wh_sky), np.copy(s.wh_nosky))

    with core.observe(ObsSpectrum2D, 'get_skyline_mask', before=before_sky), core.observe(ObsSpectrum2D, 'get_low_snr_mask', after=after_low):
        gal.spec2D.fit_prep_calcs(gal, ins)
    s = gal.spec2D
    mon.ev('prepared')
    mon.sig(*prep.sig(c))
    f, l, m, cut = prep.ranges(c)
    w, z1 = d['wave'], 1+c['z']
    k = (w >= max(f[0], l[0])*z1) & (w <= min(f[1], l[1])*z1)
    mask, m1 = prep.ref_input_mask(c, d)
    med = prep.ref_median_error(d, mask)
    mon.close('median', s.median_flux_error, med, rtol=1e-10, msg='median error')
    mon.close('cutoff', s.band_cutoff, cut, rtol=0., msg='skyline cutoff')
    q = mask[:, k]
    mon.same('quality', st['q'], q, 'mask of missing and edge pixels')
    got = check_sky(mon, q, st['err'], med, cut, st['sky'], *st['lists'])
    mon.check('missing kept out', np.all(st['sky'] <= q) and np.all(st['low'] <= q), 'a mask includes excluded pixels again')
    check_low(mon, st['flux'], st['err'], st['sky'], c['snr_cut'], q, st['rows'], st['low'])
    # the prepared spectrum
    lo, hi = int(s.full_l_ind), int(s.full_r_ind)
    mon.same('trimmed quality', s.mask_qual, q[lo:hi], 'trimmed mask of missing pixels')
    mon.same('trimmed sky', s.mask_sky, st['sky'][lo:hi], 'trimmed skyline mask')
    mon.same('trimmed low', s.mask_low_snr, st['low'][lo:hi], 'trimmed low S/N mask')
    mon.same('fit mask', s.spec_mask, (q*st['low'])[lo:hi], 'the fitted mask is not the missing and low S/N mask')
    mon.check('only excludes', np.all(s.spec_mask <= d['mask'][lo:hi][:, k]), 'the mask includes pixels masked in the input')
    check_low(mon, s.flux, s.flux_err, s.mask_sky, c['snr_cut'], s.mask_qual, s.low_snr_row_inds, tag=' trimmed')
    mon.same('lists', np.sort(np.asarray(s.wh_sky, dtype=int)), np.where(got)[0], 'skyline columns after trimming')


def run_arrays(case, mon):
    """The mask methods of a spectrum with adversarial rows and columns."""
    from misfit.galaxy import ObsSpectrum2D
    r = gen.rng_for('P11a', case['base'], case['seed'])
    nr, nw = int(r.integers(1, 26)), int(r.integers(3, 30))
    err = np.exp(r.normal(0., 0.3, (nr, nw)))
    cut = gen.pick(r, [1., 2., 2., 5.])
    # runs of rows with high/low S/N
    high = np.zeros(nr, dtype=bool)
    i = 0
    state = bool(r.integers(2))
    lens = gen.pick(r, [[1, 2, 3, 4, 5], [1, 2], [3, 6, 9], [25]])
    while i < nr:
        n = int(gen.pick(r, lens))
        high[i:i+n] = state
        state = not state
        i += n
    snr = np.where(high, cut*r.uniform(1.05, 5., nr), cut*r.uniform(0., 0.95, nr))*r.choice([-1., 1.], nr)
    if r.random() < 0.2:
        snr[int(r.integers(nr))] = 0.
    mask = (r.random((nr, nw)) > 0.1).astype(float) if r.random() < 0.6 else np.ones((nr, nw))
    if r.random() < 0.3:
        mask[int(r.integers(nr))] = 0.
    kc = r.choice(nw, size=int(r.integers(0, 4)), replace=False) if nw > 4 else []
    err[:, kc] *= gen.pick(r, [2.5, 10., 1.2])
    band_cut = gen.pick(r, [1.5, 2., 3.])
    shape = err.copy()
    s = ObsSpectrum2D(band='K', wave=np.linspace(2e4, 2.01e4, nw), flux=np.zeros((nr, nw)), flux_err=err, spec_mask=mask, band_cutoff=band_cut,
                      row_snr_cut=cut)
    s.spec_weight = np.ones((nr, nw))
    s.median_flux_error = float(np.median(np.sqrt(np.sum((err*mask)**2, axis=0))))
    mq = mask.copy()
    s.get_skyline_mask(full=True)
    mon.same('input mask kept', s.spec_mask, mq, 'the mask methods modify the mask')
    check_sky(mon, mq, err, s.median_flux_error, band_cut, s.mask_sky, s.wh_sky, s.wh_nosky)
    # flux giving the wanted S/N of the rows with this mask
    with np.errstate(all='ignore'):
        tot = np.sqrt(np.sum((err*s.mask_sky)**2, axis=1))
        n = s.mask_sky.sum(axis=1)
        flux = np.where(n > 0, snr*tot/np.maximum(n, 1), 1.)[:, None]*np.ones((nr, nw))
    flux = flux*1. + np.where(s.mask_sky == 0., 50.*r.standard_normal((nr, nw)), 0.)
    s.flux = flux.copy()
    before = (s.flux.copy(), s.flux_err.copy(), s.mask_qual.copy(), s.mask_sky.copy())
    s.get_low_snr_mask()
    check_low(mon, flux, shape, s.mask_sky, cut, s.mask_qual, s.low_snr_row_inds, s.mask_low_snr)
    mon.check('pure', all(np.array_equal(a, b) for a, b in zip(before, (s.flux, s.flux_err, s.mask_qual, s.mask_sky))), 'the S/N mask modifies its inputs')
    runs = prep.ref_runs(list(np.where(high)[0]))
    mon.sig('arrays', min(nr, 8), len(runs), min([len(x) for x in runs] or [0]), high[0], high[-1], len(kc) > 0)


def run_edges(case, mon):
    from misfit.galaxy import ObsSpectrum1D
    r = gen.rng_for('P11e', case['base'], case['seed'])
    n = int(gen.pick(r, [1, 3, 8, 15, 40, 120]))
    mask = np.ones(n)
    a, b = (int(r.integers(0, n)) if r.random() < 0.6 else 0), (int(r.integers(0, n)) if r.random() < 0.6 else 0)
    mask[:a] = 0.
    if b:
        mask[n-b:] = 0.
    mask[r.random(n) < gen.pick(r, [0., 0.1, 0.5])] = 0.
    ne = int(gen.pick(r, [1, 3, 5, 10, 200]))
    s = ObsSpectrum1D(wave=np.linspace(2e4, 2.1e4, n), flux=r.standard_normal(n), flux_err=np.ones(n), spec_mask=mask.copy(), num_mask_edge=ne)
    s.mask_edges()
    mon.ev('edges')
    want = mask.copy()
    u = np.where(mask == 1)[0]
    if len(u):
        for i in range(n):
            if (u[0] > 0 and u[0] <= i < u[0]+ne) or (u[-1] < n-1 and u[-1]-ne < i <= u[-1]):
                want[i] = 0.
    mon.sig('edges', n, ne, len(u) == 0, len(u) and u[0] > 0, len(u) and u[-1] < n-1)
    mon.same('edges', s.spec_mask, want, 'masked edges of the 1D spectrum')


def warmup():
    c = prep.cfg(gen.rng_for('warm'))
    gal, ins = prep.make(c)
    gal.spec2D.fit_prep_calcs(gal, ins)
