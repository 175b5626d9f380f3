"""Raw (observed) 2D + 1D spectra for the preparation steps, and independent references for these steps."""
import numpy as np

from . import gen

C_KMS = 2.99792458e5
GROUPS = {'Halpha': (6564.60, 'K'), 'Hbeta': (4862.71, 'H'), 'OIII': (5008.24, 'H')}
LINES = {'Halpha': [6564.60], 'Hbeta': [4862.71], 'OIII': [5008.24, 4960.295]}
RATIOS = {'Halpha': [1.], 'Hbeta': [1.], 'OIII': [1., 0.333333]}
FULL = {'Halpha': (6454.60, 6674.60), 'Hbeta': (4787.71, 4932.71), 'OIII': (4880.24, 5118.24)}
LINE = {'Halpha': (6555.60, 6573.60), 'Hbeta': (4856.71, 4868.71), 'OIII': (5002.29, 5015.24)}
MASK = {'Halpha': (6533.60, 6599.60), 'Hbeta': (4852.71, 4872.71), 'OIII': (4928.24, 5038.24)}
CUTOFF = {'K': 2., 'H': 3., 'J': 3., 'Y': 3.}


def cfg(rng, **kw):
    c = {}
    pick, uni = gen.pick, gen.uni
    c['group'] = pick(rng, ['Halpha', 'Halpha', 'Hbeta', 'OIII'])
    c['explicit'] = pick(rng, [False, False, True])       # explicit lines, ranges and cutoff instead of the tables'
    c['z'] = uni(rng, 1.3, 2.5)
    c['dlam'] = uni(rng, 1.5, 3.)
    c['dither'] = pick(rng, [True, True, False])
    c['nrows'] = int(rng.integers(34, 52))
    c['pixscale'] = pick(rng, [0.18, 0.1799, 0.2])
    c['yoff'] = int(rng.integers(11, 16))                 # dither offset [rows]
    c['y0'] = c['nrows']/2. + uni(rng, -3, 3)
    c['sigy'] = uni(rng, 1.3, 3.)
    c['FWHM'] = uni(rng, 0.4, 0.7)
    c['vel'] = uni(rng, -120, 120)                        # velocity gradient over one sigma_y
    c['siglam'] = uni(rng, 50, 140)                       # km/s
    c['snr'] = pick(rng, [6., 12., 30., 80.])             # collapsed S/N per row, of the central row
    c['cont'] = uni(rng, -0.2, 1.5)                       # continuum per pixel / line peak, centre
    c['slope'] = uni(rng, -0.8, 0.8)                      # relative change over the full range
    c['same_slope'] = pick(rng, [True, False])
    c['noise'] = 1.
    c['nsky'] = int(rng.integers(0, 7))
    c['sky_on_line'] = bool(rng.random() < 0.3)
    c['nbad'] = pick(rng, [0, 5, 40])                     # scattered missing pixels
    c['usermask'] = pick(rng, [False, False, True])
    c['weight'] = pick(rng, [None, 'zeros', 'ones'])
    c['user1'] = pick(rng, [False, False, True])
    c['edge'] = pick(rng, ['', '', 'l', 'r', 'lr'])       # columns without data at the edges
    c['nedge'] = int(rng.integers(3, 20))
    c['cover'] = pick(rng, ['full', 'full', 'full', 'wide', 'left', 'right'])
    c['units'] = pick(rng, [1., 1., 1e-18, 1e3])
    c['weighting'] = pick(rng, ['up-edges', 'up-edges', 'optimal', 'none'])
    c['snr_cut'] = pick(rng, [2., 2., 1., 4.])
    c['ypos_off'] = uni(rng, -0.9, 0.9)
    c['nocont'] = pick(rng, [False, False, False, True])
    c['no1d'] = False
    c['delt_PA'] = pick(rng, [None, uni(rng, -80, 80)])
    c['dseed'] = int(rng.integers(2**31))
    c['e1'] = pick(rng, [1., 1., 3., 8.])                 # errors of the 1D spectrum in terms of those of the summed rows
    c.update(kw)
    if c['cover'] in ('left', 'right') or c['nocont']:
        # only a constant can be subtracted: keep its residual below the line
        c['slope'] *= 0.05
        c['cont'] = min(max(c['cont'], 0.), 0.05) if c['nocont'] else c['cont']
        if c['weighting'] == 'optimal' and c['dither'] and 'weighting' not in kw:
            c['weighting'] = 'up-edges'        # if the position is not found, too few rows remain to fit a profile
    if c['weighting'] == 'optimal' and c['snr'] < 12. and 'weighting' not in kw:
        c['weighting'] = 'none'
    return c


def ranges(c):
    g = c['group']
    f, l, m = FULL[g], LINE[g], MASK[g]
    cut = CUTOFF[GROUPS[g][1]]
    if c['explicit']:
        lam = GROUPS[g][0]
        f, l, m, cut = (lam-95., lam+88.), (lam-9.5, lam+8.), (lam-25., lam+24.), 2.5
        if g == 'OIII':
            f, m = (lam-130., lam+88.), (lam-75., lam+24.)
    return np.array(f), np.array(l), np.array(m), cut


def wave_of(c):
    f, l, m, _ = ranges(c)
    ex = {'full': (-3., -3.), 'wide': (25., 25.), 'left': (10., None), 'right': (None, 10.)}[c['cover']]
    r = gen.rng_for('wave', c['dseed'])
    lo = f[0] - ex[0] if ex[0] is not None else l[0] - 4. + float(r.uniform(-1, 1))
    hi = f[1] + ex[1] if ex[1] is not None else l[1] + 4. + float(r.uniform(-1, 1))
    lo, hi = lo*(1+c['z']), hi*(1+c['z'])
    return np.arange(lo, hi, c['dlam'])


def raw(c):
    """dict of the observed arrays: flux, err, mask, weight (or None), wave, f1, e1, truth..."""
    r = gen.rng_for('raw', c['dseed'])
    f, l, m, cut = ranges(c)
    wave = wave_of(c)
    nr, nw = c['nrows'], len(wave)
    y = np.arange(nr)
    lam0 = LINES[c['group']][0]*(1+c['z'])
    prof = np.exp(-0.5*((y-c['y0'])/c['sigy'])**2)
    vel = c['vel']*np.arctan((y-c['y0'])/c['sigy'])

    def emission(prof, vel):
        e = np.zeros((nr, nw))
        for rw, ra in zip(LINES[c['group']], RATIOS[c['group']]):
            cen = rw*(1+c['z'])*(1+vel/C_KMS)
            s = c['siglam']/C_KMS*lam0
            e += ra*prof[:, None]*np.exp(-0.5*((wave[None, :]-cen[:, None])/s)**2)
        return e
    line = emission(prof, vel)
    if c['dither']:
        for s in (-1, 1):
            line -= 0.5*emission(np.exp(-0.5*((y-c['y0']-s*c['yoff'])/c['sigy'])**2),
                                 c['vel']*np.arctan((y-c['y0']-s*c['yoff'])/c['sigy']))
    # errors: unique per pixel, so that a pixel can be recognized
    inl = (wave >= l[0]*(1+c['z'])) & (wave <= l[1]*(1+c['z']))
    nl = max(int(inl.sum()), 1)
    tot = c['siglam']/C_KMS*lam0*np.sqrt(2*np.pi)/c['dlam']
    e0 = tot/c['snr']/np.sqrt(nl)
    col = r.uniform(0.85, 1.1, nw)
    sky = np.zeros(nw, dtype=bool)
    ok = np.ones(nw, dtype=bool) if c['sky_on_line'] else np.abs(wave-lam0) > 4*c['siglam']/C_KMS*lam0
    if c['nsky']:
        k = r.choice(np.where(ok)[0], size=min(c['nsky'], int(ok.sum())//4), replace=False)
        sky[k] = True
        if len(k) > 2:
            sky[np.minimum(k[:2]+1, nw-1)] = True
    col[sky] *= r.uniform(1.4, 8., int(sky.sum()))
    err = e0*col[None, :]*r.uniform(0.9, 1.15, nr)[:, None]*r.uniform(0.97, 1.03, (nr, nw))
    # continuum
    x = (wave-lam0)/((f[1]-f[0])*(1+c['z']))
    b = c['cont']*np.exp(-0.5*((y-c['y0'])/(1.3*c['sigy']))**2)
    if c['dither']:
        for s in (-1, 1):
            b = b - 0.5*c['cont']*np.exp(-0.5*((y-c['y0']-s*c['yoff'])/(1.3*c['sigy']))**2)
    b = b + 0.05*c['cont']
    if c['same_slope']:
        cont = b[:, None] + c['cont']*c['slope']*x[None, :]
    else:
        cont = b[:, None]*(1 + c['slope']*x[None, :])
    noise = err*r.standard_normal((nr, nw))*c['noise']
    flux = line + cont + noise
    k = np.arange(max(int(round(c['y0']-2*c['sigy'])), 0), min(int(round(c['y0']+2*c['sigy']))+1, nr))
    f1 = flux[k].sum(axis=0)/len(k)
    e1 = np.sqrt((err[k]**2).sum(axis=0))
    f1, e1 = f1.copy(), e1.copy()*r.uniform(0.98, 1.02, nw)
    if c.get('e1', 1.) != 1.:
        e1 *= c['e1']
        f1[sky] += 2*e1[sky]*np.sign(f1[sky])*c['noise']
    mask = np.ones((nr, nw))
    weight = None
    if c['weight'] is not None:
        weight = r.uniform(0.5, 1.5, (nr, nw))
    # missing data
    missing = np.zeros((nr, nw), dtype=bool)
    for side in c['edge']:
        n = min(c['nedge'], nw//3)
        cols = slice(0, n) if side == 'l' else slice(nw-n, nw)
        flux[:, cols], missing[:, cols] = np.nan, True
        err[:, cols] = np.nan if r.random() < 0.5 else 0.
        f1[cols], e1[cols] = 0., 0.
    if c['nbad']:
        ii, jj = r.integers(0, nr, c['nbad']), r.integers(0, nw, c['nbad'])
        for n, (i, j) in enumerate(zip(ii, jj)):
            if missing[i, j]:
                continue
            missing[i, j] = True
            w = n % 4
            if w == 0:
                flux[i, j] = np.nan
            elif w == 1:
                flux[i, j] = gen.pick(r, [np.inf, -np.inf, np.nan])
                err[i, j] = np.nan
            elif w == 2:
                err[i, j] = gen.pick(r, [np.inf, np.nan])
            elif weight is not None:
                weight[i, j] = 0.
                flux[i, j] = 1e3
            else:
                mask[i, j] = 0.
                flux[i, j] = -1e3
        j = r.choice(nw, size=min(3, nw), replace=False)
        if c['edge'] and nw > 60:
            f1[j[0]], e1[j[0]] = np.nan, np.nan
            e1[j[1]] = 0.
    if c['usermask']:
        extra = r.random((nr, nw)) < 0.02
        mask[extra] = 0.
    m1 = np.ones(nw)
    if c.get('user1'):
        m1[r.random(nw) < 0.03] = 0.
    u = c['units']
    return {'flux': flux*u, 'err': err*u, 'mask': mask, 'weight': weight, 'wave': wave, 'f1': f1*u, 'e1': e1*u,
            'line': line*u, 'cont': cont*u, 'missing': missing, 'sky': sky, 'lam0': lam0, 'm1': m1}


def cp(a):
    return None if a is None else np.copy(a)


def make(c, d=None):
    """-> galaxy, instrument with copies of the arrays of d."""
    from misfit.galaxy import Galaxy, ObsSpectrum1D, ObsSpectrum2D, Pstamp
    from misfit.instrument import Spectrograph
    d = raw(c) if d is None else d
    ins = Spectrograph(instrument_name='rv', band=GROUPS[c['group']][1], pixscale=c['pixscale'], PSF_type='Gaussian',
                       PSF_FWHM=c['FWHM'], yspace_dither_arc=c['yoff']*c['pixscale'] if c['dither'] else None, slit_width=0.7,
                       slit_length=c['nrows']*c['pixscale'], instrument_resolution=37.)
    gal = Galaxy(ID=1, field='RV', maskname='rv_1', z=c['z'], n=1., re_arcsec=0.5, q=0.6, sersicPA=30., delt_PA=c['delt_PA'],
                 dither=c['dither'])
    gal.set_pstamp(Pstamp(img_PA=12.))
    f, l, m, cut = ranges(c)
    kw = {}
    if c['explicit']:
        kw = dict(linenames_arr=['X%d' % i for i in range(len(LINES[c['group']]))], restwave_arr=np.array(LINES[c['group']]),
                  flux_ratio_arr=np.array(RATIOS[c['group']]), wave_full_range_rest=f, wave_line_range_rest=l,
                  mask_lines_wave_range_rest=m, band_cutoff=cut)
    else:
        kw = dict(linegroup_name=c['group'])
    s2 = ObsSpectrum2D(band=GROUPS[c['group']][1], wave=cp(d['wave']), flux=cp(d['flux']), flux_err=cp(d['err']),
                       spec_mask=cp(d['mask']), spec_weight=cp(d['weight']), ypos=c['y0']+c['ypos_off'], slit_PA=70., no_continuum_subtraction=c['nocont'],
                       weighting_type=c['weighting'], row_snr_cut=c['snr_cut'], **kw)
    gal.set_spectrum_2D(s2)
    if not c['no1d']:
        s1 = ObsSpectrum1D(band=GROUPS[c['group']][1], wave=cp(d['wave']), flux=cp(d['f1']), flux_err=cp(d['e1']),
                           spec_mask=cp(d['m1']),
                           extraction_spatial_profile=np.exp(-0.5*((np.arange(c['nrows'])-c['y0'])/c['sigy'])**2))
        gal.set_spectrum_1D(s1)
    return gal, ins


def sig(c):
    return (c['group'], c['explicit'], c['dither'], c['nbad'] > 0, c['usermask'], c['weight'], c['edge'], c['cover'], c['units'],
            c['weighting'], c['nocont'], c['nsky'] > 0, c['sky_on_line'], c['same_slope'])


# ---------------------------------------------------------------------------------------------
# References

def ref_input_mask(c, d):
    """Pixels available for the continuum fits (1: good)."""
    mask = d['mask'].copy()
    mask[~np.isfinite(d['flux']) | ~np.isfinite(d['err'])] = 0.
    if d['weight'] is not None:
        mask[d['weight'] == 0.] = 0.
    m1 = d['m1'].copy()
    if not c['nocont']:
        if np.nanmax(np.abs(d['e1'])) > 0.:
            m1[d['e1'] == 0.] = 0.
        m1[~np.isfinite(d['f1']) | ~np.isfinite(d['e1'])] = 0.
        good = np.where(m1 == 1)[0]
        if len(good):
            if good[0] > 0:
                m1[good[0]:good[0]+10] = 0.
            if good[-1] < len(m1)-1:
                m1[max(good[-1]-9, 0):good[-1]+1] = 0.
        mask[:, m1 == 0.] = 0.
    return mask, m1


def ref_median_error(d, mask):
    e = np.where(np.isfinite(d['err']), d['err'], 0.)
    return float(np.median(np.sqrt(np.sum((e*mask)**2, axis=0))))


def ref_continuum(c, d):
    """-> continuum (rows, columns), rows whose continuum is determined by data, median error, masks."""
    f, l, m, cut = ranges(c)
    z1 = 1+c['z']
    w = d['wave']
    mask, m1 = ref_input_mask(c, d)
    med = ref_median_error(d, mask)
    left, right = (w >= f[0]*z1) & (w < m[0]*z1), (w <= f[1]*z1) & (w > m[1]*z1)
    use = left | right
    e1 = np.where(np.isfinite(d['e1']), d['e1'], 0.)
    ms = m1.copy()
    ms[np.abs(e1*m1) >= cut*med] = 0.
    sl = 0.
    xm = w.mean()
    if left.any() and right.any() and ms[left].max() > 0 and ms[right].max() > 0:
        k = use & (ms > 0) & np.isfinite(d['f1']) & (d['e1'] != 0.)
        x, yv, iv = w[k]-xm, d['f1'][k], 1./(d['e1'][k]/np.median(d['e1'][k]))**2
        xb, yb = np.sum(iv*x)/iv.sum(), np.sum(iv*yv)/iv.sum()
        sl = np.sum(iv*(x-xb)*(yv-yb))/np.sum(iv*(x-xb)**2)
    nr = d['flux'].shape[0]
    cont, det = np.zeros(d['flux'].shape), np.zeros(nr, dtype=bool)
    for i in range(nr):
        k = use & (mask[i] > 0) & (d['err'][i] != 0.)
        if not k.any():
            continue
        det[i] = True
        iv = 1./(d['err'][i, k]/np.median(d['err'][i, k]))**2
        b = np.sum(iv*(d['flux'][i, k]-sl*(w[k]-xm)))/iv.sum()
        cont[i] = sl*(w-xm)+b
    return cont, det, med, mask, m1


def ref_runs(idx):
    out = []
    for i in idx:
        if out and i == out[-1][-1]+1:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def ref_low_rows(flux, err, mask_calc, cut):
    """Rows without enough S/N (sorted), and the margin of the closest decision."""
    with np.errstate(all='ignore'):
        snr = np.abs(np.sum(flux*mask_calc, axis=1)/np.sqrt(np.sum((err*mask_calc)**2, axis=1)))
    n = len(snr)
    high = [i for i in range(n) if snr[i] >= cut]
    runs = ref_runs(high)
    if len(runs) > 1:
        high = [i for rn in runs if len(rn) >= 3 for i in rn]
    low = sorted(set(range(n)) - set(high))
    if low and high:
        if low[0] < n/2. and high[0] < low[0]:
            low0 = low[0]
        else:
            low0 = 0
        if low[-1] > n/2. and high[-1] > low[-1]:
            top = low[-1]
        else:
            top = n-1
        low = sorted(set(low) | set(range(low0)) | set(range(top+1, n)))
    fin = snr[np.isfinite(snr)]
    return np.array(low, dtype=int), float(np.min(np.abs(fin/cut-1))) if len(fin) else 1.
