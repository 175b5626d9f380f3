"""P13: measured object position, line wavelength and spatial extent follow the object."""
import numpy as np

from rvlib import gen, prep

TECHNIQUE = ('runtime monitor on prepared synthetic observations of an object with known position, wavelength and extent; measured values are judged '
             'against the truth and by relations (shift by whole rows, redshift of the line, flux units, mirroring of the slit)')
NOTE = 'Held on observations with a clear line (row S/N >= 60, no strong residuals); accuracy: fractions of a pixel, relations far better.'
RULE = ('random observations with a clear line; each with a shifted, rescaled and mirrored counterpart; a compact source for the y profile; distinct: '
        'qualitative choices and relation')
MIN = {'measured': 100, 'relation': 80, 'profile': 15, 'nothing': 15}
N = {'quick': 150, 'thorough': 2500}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P13', seed, i)
        kw = dict(snr=gen.pick(r, [80., 200.]), noise=gen.pick(r, [0., 1.]), nbad=0, usermask=False, weight=None, sky_on_line=False, edge='',
                  user1=False, cover=gen.pick(r, ['full', 'wide']), same_slope=True, slope=gen.uni(r, -0.3, 0.3), cont=gen.uni(r, 0., 0.3), nocont=False,
                  sigy=gen.uni(r, 1.3, 2.6), vel=gen.uni(r, -60, 60), siglam=gen.uni(r, 50, 100), nsky=int(r.integers(0, 3)),
                  ypos_off=gen.uni(r, -0.7, 0.7), snr_cut=2., nrows=int(r.integers(42, 56)))
        kw['y0'] = kw['nrows']/2. + gen.uni(r, -2.5, 2.5)
        kind = ['shift', 'scale', 'mirror', 'redshift', 'profile', 'neighbour', 'nothing'][i % 7]
        if kind in ('neighbour', 'nothing'):
            kw.update(dither=False)
        out.append({'kind': kind, 'cfg': prep.cfg(r, **kw), 'seed': i})
    return out


def measure(c, d=None):
    gal, ins = prep.make(c, d)
    gal.spec2D.fit_prep_calcs(gal, ins)
    s = gal.spec2D
    return gal, ins, {'pos': float(s.m0 + s.m0_shift + s.full_l_ind), 'lam': float(s.lam0), 'lo': int(s.full_l_ind), 'n': s.flux.shape[0],
                      'm0': int(s.full_m0)}


def run(case, mon):
    c = case['cfg']
    d = prep.raw(c)
    kind = case['kind']
    if kind == 'nothing':
        return nothing(case, d, mon)
    if kind == 'neighbour':
        neighbour(case, d)
    gal, ins, o = measure(c, d)
    mon.ev('measured')
    mon.sig(kind, *prep.sig(c))
    mon.note(pos=o['pos']-c['y0'], lam=(o['lam']-d['lam0'])/c['dlam'])
    ok = mon.check('position', abs(o['pos']-c['y0']) < 0.35, 'measured position of the object', got=o['pos'], want=c['y0'])
    mon.check('m0', abs(o['m0']-c['y0']) < 0.5+0.35, 'pixel of the object', got=o['m0'], want=c['y0'])
    ok &= mon.check('wavelength', abs(o['lam']-d['lam0']) < 0.5*c['dlam'], 'measured wavelength of the line', got=o['lam'], want=d['lam0'], dlam=c['dlam'])
    if not ok:
        return
    r = gen.rng_for('P13run', case['seed'])
    if kind == 'shift':
        k = int(gen.pick(r, [1, 2, -1, -2, 3]))
        d2 = dict(d, flux=np.roll(d['flux'], k, axis=0), err=np.roll(d['err'], k, axis=0), mask=np.roll(d['mask'], k, axis=0))
        _, _, p = measure(dict(c, y0=c['y0']+k), d2)
        mon.ev('relation')
        mon.check('shifted', abs(p['pos']-o['pos']-k) < 0.05, 'position after moving the object by rows', k=k, got=p['pos'], was=o['pos'])
        mon.check('shifted line', abs(p['lam']-o['lam']) < 0.1*c['dlam'], 'wavelength after moving the object by rows', k=k, got=p['lam'], was=o['lam'])
    elif kind == 'scale':
        a = gen.pick(r, [1e-18, 1e-3, 50.])
        d2 = dict(d, **{q: d[q]*a for q in ('flux', 'err', 'f1', 'e1')})
        _, _, p = measure(c, d2)
        mon.ev('relation')
        mon.check('scaled', abs(p['pos']-o['pos']) < 0.05 and abs(p['lam']-o['lam']) < 0.1*c['dlam'],
                  'measurements depend on the flux units', a=a, got=p, was=o)
    elif kind == 'mirror':
        n = c['nrows']
        d2 = dict(d, **{q: d[q][::-1].copy() for q in ('flux', 'err', 'mask')})
        _, _, p = measure(dict(c, y0=n-1-c['y0'], ypos_off=-c['ypos_off']), d2)
        mon.ev('relation')
        mon.check('mirrored', abs(p['pos']-(n-1-o['pos'])) < 0.12, 'position after mirroring the slit', got=p['pos'], was=o['pos'], n=n)
        mon.check('mirrored line', abs(p['lam']-o['lam']) < 0.15*c['dlam'], 'wavelength after mirroring the slit', got=p['lam'], was=o['lam'])
    elif kind == 'redshift':
        # the line moves within the fitted range, the assumed redshift stays
        lo, hi = prep.ranges(c)[1]
        dz = gen.uni(r, -0.7, 0.7)*c['dlam']/prep.LINES[c['group']][0]
        if r.random() < 0.6:
            dz = gen.uni(r, -0.2, 0.2)*(hi-lo)*(1+c['z'])/prep.LINES[c['group']][0]
        c2 = dict(c, noise=0., nsky=0, cont=0.)
        base = prep.raw(c2)
        _, _, p0 = measure(c2, base)
        moved = moved_line(c2, dz)
        _, _, p = measure(c2, moved)
        mon.ev('relation')
        want = dz*prep.LINES[c['group']][0]
        mon.check('moved line', abs(p['lam']-p0['lam']-want) < 0.12*c['dlam'], 'wavelength after moving the line', want=want/c['dlam'],
                  got=(p['lam']-p0['lam'])/c['dlam'])
        mon.check('moved line position', abs(p['pos']-p0['pos']) < 0.1, 'position after moving the line', got=p['pos'], was=p0['pos'])
    elif kind == 'profile':
        profile(case, mon, r)
    else:
        mon.ev('relation')


def neighbour(case, d):
    """Adds another source at the end of the slit, with its line at another wavelength: its rows are not the object's."""
    c = case['cfg']
    r = gen.rng_for('P13n', case['seed'])
    lo, hi = prep.ranges(c)[1]
    y = np.arange(c['nrows'])
    at = gen.pick(r, [1., c['nrows']-3.])
    cen = d['lam0'] + gen.pick(r, [-1, 1])*gen.uni(r, 0.2, 0.35)*(hi-lo)*(1+c['z'])
    d['flux'] += c['units']*gen.uni(r, 0.3, 0.6)*np.exp(-0.5*((y-at)/1.3)**2)[:, None]*np.exp(
        -0.5*((d['wave'][None, :]-cen)/(c['siglam']/prep.C_KMS*d['lam0']))**2)


def nothing(case, d, mon):
    """No row has enough signal: the given (or expected) wavelength stays, and the object is where it was found."""
    c = case['cfg']
    r = gen.rng_for('P13k', case['seed'])
    gal, ins = prep.make(c, d)
    gal.spec2D.row_snr_cut = 1e6
    want = d['lam0']
    if r.random() < 0.6:
        want = d['lam0'] + gen.uni(r, -5, 5)*c['dlam']
        gal.spec2D.lam0 = want
    with np.errstate(all='ignore'):
        gal.spec2D.fit_prep_calcs(gal, ins)
    mon.ev('nothing')
    mon.close('kept wavelength', gal.spec2D.lam0, want, rtol=1e-12, msg='wavelength of the line where nothing can be measured')
    mon.check('kept position', gal.spec2D.m0_shift == 0., 'shift of the object where nothing can be measured', got=gal.spec2D.m0_shift)


def moved_line(c, dz):
    """Noise-free observation whose lines are at 1+z+dz."""
    d = prep.raw(dict(c))
    w = d['wave']
    y = np.arange(c['nrows'])
    f = np.zeros_like(d['flux'])
    lam0 = prep.LINES[c['group']][0]*(1+c['z'])
    for s, a in ([(0, 1.)] + ([(-1, -0.5), (1, -0.5)] if c['dither'] else [])):
        yy = y-c['y0']-s*c['yoff']
        for rw, ra in zip(prep.LINES[c['group']], prep.RATIOS[c['group']]):
            cen = rw*(1+c['z']+dz)*(1+c['vel']*np.arctan(yy/c['sigy'])/prep.C_KMS)
            f += a*ra*np.exp(-0.5*(yy/c['sigy'])**2)[:, None]*np.exp(-0.5*((w[None, :]-cen[:, None])/(c['siglam']/prep.C_KMS*lam0))**2)
    u = c['units']
    k = slice(max(int(c['y0']-4), 0), int(c['y0']+5))
    return dict(d, flux=f*u, f1=f[k].sum(axis=0)*u)


def profile(case, mon, r):
    """The y profile of a compact source: width, intrinsic width, errors."""
    c = dict(case['cfg'], dither=False, cont=0., vel=0.)
    d = prep.raw(c)
    gal, ins, o = measure(c, d)
    s = gal.spec2D
    s.fit_emission_y_profile(gal, ins)
    mon.ev('profile')
    sig = c['sigy']*c['pixscale']
    psf = c['FWHM']/2.35482
    mon.note(sig=s.sigma_y_emis_obs/sig, err=s.sigma_y_emis_obs_err)
    tol = 0.08 + 4*np.max(np.abs(s.sigma_y_emis_obs_err))/sig
    mon.check('width', abs(s.sigma_y_emis_obs/sig-1) < tol, 'observed width of a compact source', got=s.sigma_y_emis_obs, want=sig)
    got = s.sigma_y_emis_obs
    want = np.sqrt(got**2-psf**2) if got > psf else 0.
    mon.close('intrinsic', s.sigma_y_emis_int, want, rtol=1e-4, scale=sig, msg='intrinsic width')
    mon.close('D50', s.D50, want*2.35482, rtol=1e-4, scale=sig, msg='D50')
    for nm in ('sigma_y_emis_obs', 'sigma_y_emis_int', 'D50'):
        e = np.asarray(getattr(s, nm+'_err'), dtype=float)
        mon.check('profile errors', e.shape == (2,) and np.all(np.isfinite(e)), 'errors of %s' % nm, e=e)
    e = np.asarray(s.sigma_y_emis_obs_err)
    # the limits of the intrinsic width and D50 are those of the observed width, without the PSF
    lim = np.array([s.sigma_y_emis_obs-e[0], s.sigma_y_emis_obs+e[1]])
    ei, ed = np.asarray(s.sigma_y_emis_int_err), np.asarray(s.D50_err)
    mon.close('intrinsic errors', [s.sigma_y_emis_int-ei[0], s.sigma_y_emis_int+ei[1]], np.sqrt(np.maximum(lim**2-psf**2, 0.)), rtol=0.,
              atol=0.02*np.max(e) + 1e-4*sig if lim[0] > 1.2*psf else 0.3*np.max(e)+0.05*sig, scale=0., msg='errors of the intrinsic width')
    mon.close('D50 errors', ed, 2.35482*ei, rtol=1e-4, atol=1e-9, msg='errors of D50')
    # around the best fit, which is the fit without perturbation: both sides, of the size expected from the S/N of the rows
    mon.check('profile errors bracket', np.all(e > 0), 'errors of the width do not bracket it', e=e)
    m = np.ones(s.flux.shape[0])
    m[np.asarray(s.low_snr_row_inds, dtype=int)] = 0.
    y = np.arange(s.flux.shape[0])
    yp = np.sum(s.flux*s.mask_sky, axis=1)
    ye = np.sqrt(np.sum((s.flux_err*s.mask_sky)**2, axis=1))
    g = yp.max()*np.exp(-0.5*((y+o['lo']-c['y0'])/c['sigy'])**2)
    # Fisher errors of (A, mu, sigma)
    x = (y+o['lo']-c['y0'])/c['sigy']
    J = np.array([g/yp.max(), g*x/sig, g*x**2/sig])*np.sqrt(m)/ye
    J = J[:, m > 0]
    cov = np.linalg.inv(J @ J.T)
    fisher = np.sqrt(cov[2, 2])
    mon.note(fisher=fisher)
    mon.check('profile error size', 0.5 < np.mean(e)/fisher < 2., 'errors of the width', got=e, want=fisher)
    # everything at another scale of the flux
    c2 = dict(c)
    a = gen.pick(r, [1e-18, 100.])
    d2 = dict(d, **{q: d[q]*a for q in ('flux', 'err', 'f1', 'e1')})
    gal2, ins2, _ = measure(c2, d2)
    gal2.spec2D.fit_emission_y_profile(gal2, ins2)
    mon.check('width scaled', abs(gal2.spec2D.sigma_y_emis_obs/s.sigma_y_emis_obs-1) < 1e-3, 'width depends on the flux units',
              got=gal2.spec2D.sigma_y_emis_obs, want=s.sigma_y_emis_obs)
    # in arcsec
    gal3, ins3 = prep.make(c, d)
    mon.raises('unprepared', ValueError, lambda: gal3.spec2D.fit_emission_y_profile(gal3, ins3), 'y profile of an unprepared spectrum')


def warmup():
    c = prep.cfg(gen.rng_for('warm'))
    gal, ins = prep.make(c)
    gal.spec2D.fit_prep_calcs(gal, ins)
