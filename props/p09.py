"""P09: spectrum preparation keeps all arrays aligned with the observed pixels."""
import copy

import numpy as np

from rvlib import core, fits, gen, prep

TECHNIQUE = ('runtime monitor over prepared synthetic observations: every observed pixel carries a unique error value, so the monitor recognizes the '
             'observed row/column of each pixel after every preparation step and checks all arrays against the raw input')
NOTE = 'Held on the observations prepared (exact identification of pixels); kept rows and columns are decided exactly.'
RULE = ('random slit observations (line group or explicit lines, ranges, redshift, dither, position, missing data, masks, weights, continuum, '
        'units) through fit_prep_calcs; distinct: qualitative choices of the observation')
MIN = {'prepared': 120, 'pixels': 20000, 'steps': 400, 'second call': 100, 'trim': 100, 'dither limits': 3}
N = {'quick': 500, 'thorough': 8000}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P09', seed, i)
        out.append({'kind': 'prep', 'cfg': prep.cfg(r), 'seed': i})
    for i in range(N[tier]//2):
        r = gen.rng_for('P09trim', seed, i)
        out.append({'kind': 'trim', 'cfg': prep.cfg(r), 'seed': i})
    return out


def identify(err, raw):
    """Observed (rows, columns) of an array of errors, or None."""
    fin = np.isfinite(raw) & (raw != 0.)
    ii, jj = np.where(fin)
    o = np.argsort(raw[fin])
    vals, ii, jj = raw[fin][o], ii[o], jj[o]
    k = np.clip(np.searchsorted(vals, err), 0, len(vals)-1)
    hit = vals[k] == err
    rows, cols = np.full(err.shape, -1), np.full(err.shape, -1)
    rows[hit], cols[hit] = ii[k][hit], jj[k][hit]
    rr, cc = np.full(err.shape[0], -1), np.full(err.shape[1], -1)
    for i in range(err.shape[0]):
        u = np.unique(rows[i][rows[i] >= 0])
        if len(u) > 1:
            return None
        rr[i] = u[0] if len(u) else -1
    for j in range(err.shape[1]):
        u = np.unique(cols[:, j][cols[:, j] >= 0])
        if len(u) > 1:
            return None
        cc[j] = u[0] if len(u) else -1
    return rr, cc


def fill(idx):
    """Indices of fully missing rows or columns from their neighbours (contiguous)."""
    k = np.where(idx >= 0)[0]
    if len(k) == 0:
        return None
    return np.arange(len(idx)) + (idx[k[0]]-k[0])


def aligned(mon, step, s, d, c, rows, cols):
    """All arrays of s refer to these observed rows and columns."""
    sub = np.ix_(rows, cols)
    raw_f, raw_e = d['flux'][sub], d['err'][sub]
    mon.ev('steps')
    mon.ev('pixels', raw_f.size)
    mon.same(step + ' wave', s.wave, d['wave'][cols], 'wavelengths of the columns')
    mon.close(step + ' restwave', s.restwave, d['wave'][cols]/(1.+c['z']), rtol=1e-12, msg='rest wavelengths of the columns')
    mon.same(step + ' obswave', s.obswave, d['wave'][cols], 'observed wavelengths of the columns')
    if not mon.check(step + ' shapes', all(np.shape(a) == raw_f.shape for a in (s.flux, s.flux_err, s.spec_mask, s.spec_weight)),
                     'shapes of the arrays', want=raw_f.shape, got=[np.shape(a) for a in (s.flux, s.flux_err, s.spec_mask, s.spec_weight)]):
        return
    fin = np.isfinite(raw_e) & (raw_e != 0.)
    mon.same(step + ' error', s.flux_err[fin], raw_e[fin], 'errors of the pixels')
    if d['weight'] is not None:
        mon.same(step + ' weight', s.spec_weight, d['weight'][sub], 'weights of the pixels')
    bad = ~np.isfinite(raw_f) | ~np.isfinite(raw_e)
    mon.check(step + ' missing', np.all(s.spec_mask[bad] == 0.), 'missing pixels are not masked', n=int(np.sum(s.spec_mask[bad] != 0.)))
    mon.check(step + ' finite', np.all(np.isfinite(s.flux)) and np.all(np.isfinite(s.flux_err)), 'prepared arrays contain non-finite values')
    mon.check(step + ' input mask', np.all(s.spec_mask[d['mask'][sub] == 0.] == 0.), 'masked input pixels become unmasked')
    if d['weight'] is not None:
        mon.check(step + ' zero weight', np.all(s.spec_mask[d['weight'][sub] == 0.] == 0.), 'pixels without weight become unmasked')
    good = np.isfinite(raw_f)
    if getattr(s, 'flux_incl_cont', None) is not None and np.shape(s.flux_incl_cont) == raw_f.shape:
        mon.same(step + ' flux', s.flux_incl_cont[good], raw_f[good], 'continuum-included flux of the pixels')
        scale = np.max(np.abs(raw_f[good])) if good.any() else 1.
        mon.close(step + ' continuum', s.flux[good], raw_f[good]-s.cont_model[good], rtol=1e-12, scale=scale, msg='flux = input - continuum')
    else:
        mon.check(step + ' continuum arrays', False, 'continuum arrays are missing or misshapen')


def run(case, mon):
    {'prep': run_prep, 'trim': run_trim}[case['kind']](case, mon)


def run_prep(case, mon):
    from misfit.galaxy import ObsSpectrum2D
    c = case['cfg']
    d = prep.raw(c)
    gal, ins = prep.make(c, d)
    s = gal.spec2D
    f, l, m, cut = prep.ranges(c)
    z1 = 1+c['z']
    w = d['wave']
    allrows = np.arange(c['nrows'])
    full_cols = np.where((w >= f[0]*z1) & (w <= f[1]*z1))[0]
    line_cols = full_cols[(w[full_cols] >= l[0]*z1) & (w[full_cols] <= l[1]*z1)]
    ypos0 = s.ypos
    isnap = fits.snap(ins)
    gsnap = fits.snap(gal, skip=('spec1D', 'spec2D'))

    def after_cont(tok, a, k, r):
        aligned(mon, 'continuum', a[0], d, c, allrows, full_cols)

    def after_trim(tok, a, k, r):
        aligned(mon, 'wavelength trim', a[0], d, c, allrows, line_cols)

    with core.observe(ObsSpectrum2D, 'subtract_continuum', after=after_cont), \
            core.observe(ObsSpectrum2D, 'trim_spectrum_wavelength', after=after_trim):
        s.fit_prep_calcs(gal, ins)
    mon.ev('prepared')
    mon.sig(*prep.sig(c))
    mon.check('same object', gal.spec2D is s and s.prepared_for_fitting is True, 'galaxy holds the prepared spectrum')
    ident = identify(np.asarray(s.flux_err), d['err'])
    if not mon.check('identified', ident is not None, 'rows/columns of the prepared spectrum mix observed rows/columns'):
        return
    rows, cols = fill(ident[0]), fill(ident[1])
    if rows is None or cols is None:
        return
    mon.check('rows contiguous', np.all((ident[0] < 0) | (ident[0] == rows)), 'kept rows are not contiguous', rows=ident[0])
    mon.check('columns contiguous', np.all((ident[1] < 0) | (ident[1] == cols)), 'kept columns are not contiguous', cols=ident[1])
    mon.same('columns', cols, line_cols, 'kept columns are not those within the line range')
    if len(cols) != len(line_cols):
        return
    lo, n = int(rows[0]), len(rows)
    aligned(mon, 'prepared', s, d, c, rows, line_cols)
    # frame of the trimmed spectrum
    mon.same('ypos', s.ypos, ypos0 - lo, 'ypos in the trimmed frame')
    mon.same('full_l_ind', int(s.full_l_ind), lo, 'first kept row')
    mon.same('full_r_ind', int(s.full_r_ind), lo+n, 'end of the kept rows')
    mon.same('m0', int(s.m0), int(s.full_m0)-lo, 'm0 in the trimmed frame')
    mon.same('m_lims', list(np.asarray(s.m_lims)), [0, n], 'm_lims')
    mon.same('n_spatial', int(s.n_spatial), n, 'n_spatial')
    mon.check('object kept', 0 <= s.m0 < n and abs(s.full_m0 - ypos0) <= 2.5, 'the object is not within the kept rows', m0=s.m0, n=n, ypos=s.ypos)
    if c['dither']:
        # no further than half way to the negative images if these are clear
        if c['snr'] >= 30. and not c['nocont'] and c['noise'] <= 1. and c['cover'] in ('full', 'wide') and len(s.wh_nosky) > 8 and not c['nsky']:
            mon.ev('dither limits')
            mon.check('dither limits', s.full_m0-lo <= c['yoff']/2.+2 and lo+n-1-s.full_m0 <= c['yoff']/2.+2,
                      'kept rows reach beyond half of the dither', lo=lo, hi=lo+n, m0=s.full_m0, offset=c['yoff'])
        mon.check('symmetric', lo == 0 or lo+n >= c['nrows']-1 or (s.full_m0-lo) == (lo+n-s.full_m0),
                  'kept rows are not around the object', lo=lo, hi=lo+n, m0=s.full_m0)
    else:
        mon.check('undithered rows', lo == 0 and n >= c['nrows']-1, 'rows of an undithered observation are trimmed', lo=lo, n=n)
    for name in ('mask_qual', 'mask_sky', 'mask_low_snr', 'fitting_weight_matrix'):
        mon.check('shape ' + name, np.shape(getattr(s, name)) == (n, len(line_cols)), 'shape of %s' % name, got=np.shape(getattr(s, name)))
    mon.check('shape profile', np.shape(s.fitting_weight_profile) == (n,), 'shape of the weight profile')
    mon.same('column lists', np.sort(np.concatenate([np.asarray(s.wh_sky, dtype=int), np.asarray(s.wh_nosky, dtype=int)])),
             np.arange(len(line_cols)), 'wh_sky and wh_nosky do not partition the columns')
    li = np.asarray(s.low_snr_row_inds, dtype=int)
    mon.check('row list', len(np.unique(li)) == len(li) and (len(li) == 0 or (li.min() >= 0 and li.max() < n)), 'low S/N rows', rows=li)
    if gal.spec1D is not None:
        prof = np.exp(-0.5*((np.arange(c['nrows'])-c['y0'])/c['sigy'])**2)
        mon.same('extraction profile', gal.spec1D.extraction_spatial_profile, prof[rows], 'extraction profile follows the kept rows')
        if not c['nocont']:
            mon.same('1D wave', gal.spec1D.wave, w[full_cols], '1D wavelengths follow the full range')
            mon.same('1D flux', gal.spec1D.flux, d['f1'][full_cols], '1D flux follows the full range')
    want_lines = prep.LINES[c['group']]
    mon.same('lines', np.asarray(s.restwave_arr), np.array(want_lines), 'lines of the spectrum')
    mon.close('dlam', s.dlam, c['dlam'], rtol=1e-9, msg='wavelength step')
    if c['delt_PA'] is not None:
        mon.same('delt_PA', gal.delt_PA, c['delt_PA'], 'a given delt_PA is changed')
    ch = fits.changed(isnap, fits.snap(ins))
    mon.check('instrument', not ch, 'the instrument is modified', changed=ch)
    ch = fits.changed(gsnap, fits.snap(gal, skip=('spec1D', 'spec2D')), ignore=('.delt_PA',))
    mon.check('galaxy', not ch, 'the galaxy is modified', changed=ch)
    # a second call does nothing
    before = fits.snap(gal)
    s.fit_prep_calcs(gal, ins)
    mon.ev('second call')
    ch = fits.changed(before, fits.snap(gal))
    mon.check('second call', not ch, 'preparing again changes the spectrum', changed=ch)
    if case['seed'] % 5 == 0:
        g2 = copy.deepcopy(gal)
        s.fit_prep_calcs(g2, ins)
        mon.check('galaxy updated', g2.spec2D is s, 'the galaxy does not get the prepared spectrum')


def run_trim(case, mon):
    """The trimming methods on their own: copies, observed or rest-frame ranges."""
    c = case['cfg']
    d = prep.raw(c)
    r = gen.rng_for('P09t', case['seed'])
    gal, ins = prep.make(c, d)
    w, z1 = d['wave'], 1+c['z']
    s2, s1 = gal.spec2D, gal.spec1D
    if s2.spec_weight is None:
        s2.spec_weight = np.ones(s2.flux.shape)
        d['weight'] = np.ones(s2.flux.shape)
    # ranges: at pixels exactly, between, beyond the coverage
    a, b = sorted(r.uniform(w[0]-20, w[-1]+20, 2))
    mode = gen.pick(r, ['between', 'exact', 'edge'])
    if mode == 'exact':
        i, j = sorted(r.integers(0, len(w), 2))
        a, b = float(w[i]), float(w[j])
    elif mode == 'edge':
        a = w[0]-5.
    if not (w[0]-30 <= a <= b):
        return
    wh = np.where((w >= a) & (w <= b))[0]
    before = fits.snap(gal)
    rest = bool(r.integers(2)) and mode != 'exact'
    ra = [a/z1, b/z1] if gen.pick(r, [True, False]) else np.array([a, b])/z1
    kw = dict(trim_restwave_range=ra) if rest else dict(trim_obswave_range=[a, b])
    t2 = s2.trim_spectrum_wavelength(gal, **kw)
    t1 = s1.trim_spectrum_wavelength(gal, **kw)
    mon.ev('trim')
    mon.sig('trim', mode, rest, len(wh) > 0, len(wh) == len(w))
    ch = fits.changed(before, fits.snap(gal))
    mon.check('trim copies', not ch, 'trimming a copy changes the original', changed=ch)
    if len(wh):
        for nm, got, want in (('wave', t2.wave, w[wh]), ('flux', t2.flux, d['flux'][:, wh]), ('err', t2.flux_err, d['err'][:, wh]),
                              ('mask', t2.spec_mask, d['mask'][:, wh]), ('weight', t2.spec_weight, d['weight'][:, wh]),
                              ('1D wave', t1.wave, w[wh]), ('1D flux', t1.flux, d['f1'][wh]), ('1D err', t1.flux_err, d['e1'][wh]),
                              ('1D mask', t1.spec_mask, d['m1'][wh])):
            mon.same('trim ' + nm, got, want, 'trimmed %s' % nm)
        mon.close('trim rest', t2.restwave, w[wh]/z1, rtol=1e-12, msg='rest wavelengths after trimming')
        mon.close('trim rest 1D', t1.restwave, w[wh]/z1, rtol=1e-12, msg='1D rest wavelengths after trimming')
        mon.close('trim range', np.array(t2.trim_restwave_range)*z1, np.array([a, b]), rtol=1e-12, msg='recorded range')
        # in place
        s2.trim_spectrum_wavelength(gal, inplace=True, **kw)
        for nm in ('wave', 'restwave', 'obswave', 'flux', 'flux_err', 'spec_mask', 'spec_weight'):
            mon.same('trim in place ' + nm, getattr(s2, nm), getattr(t2, nm), 'trimmed in place %s' % nm)
    else:
        mon.check('trim empty', t2.flux is None and t2.wave is None and t1.flux is None, 'no coverage gives no arrays')


def warmup():
    c = prep.cfg(gen.rng_for('warm'))
    gal, ins = prep.make(c)
    gal.spec2D.fit_prep_calcs(gal, ins)
