"""P05: per-row least-squares amplitudes of scaled models."""
import numpy as np

from rvlib import fits, gen

TECHNIQUE = 'runtime monitor: every scaled model event compared with the least-squares amplitudes of its unscaled twin, plus optimality and metamorphic oracles'
NOTE = 'Held on the scaled models observed (random spectra with bad pixels, skylines, empty rows), compared row by row to 1e-9.'
RULE = ('random configurations and spectra, incl. non-finite data/error, zero error, sky columns, rows without model flux, made directly, '
        'updated or through FitEmissionLines2D; distinct: contamination x options')
MIN = {'row': 600, 'bad_row': 20}
N = {'quick': 130, 'thorough': 1500}
DEFECTS = ['none', 'none', 'nan data', 'inf data', 'nan err', 'zero err', 'inf err', 'sky garbage', 'zero data', 'negative data']


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P05', seed, i)
        kw = {}
        if r.random() < 0.3:      # exactly empty rows
            kw = dict(FWHM=0., resol=0., sigma0=gen.uni(r, 0.5, 60.))
        c = gen.cfg2d(r, nsub=gen.pick(r, [1, 2]), nrows=int(r.integers(5, 12)), **kw)
        c['generate_model'] = False
        out.append({'kind': 'scale', 'cfg': c, 'defect': DEFECTS[i % len(DEFECTS)], 'k': gen.uni(r, 0.05, 30.), 'seed': i})
    return out


def spoil(data, defect, r):
    flux, err, mask, weight, nosky = [np.copy(x) for x in data]
    rows = r.choice(flux.shape[0], size=int(r.integers(1, 3)), replace=False)
    cols = r.choice(nosky, size=min(len(nosky), 2), replace=False)
    bad = []
    if defect == 'nan data':
        flux[np.ix_(rows, cols)] = np.nan
        bad = rows
    elif defect == 'inf data':
        flux[np.ix_(rows, cols[:1])] = np.inf
        bad = rows
    elif defect == 'nan err':
        err[np.ix_(rows, cols)] = np.nan
        bad = rows
    elif defect == 'zero err':
        err[np.ix_(rows, cols)] = 0.
        bad = rows
    elif defect == 'inf err':
        err[np.ix_(rows, cols)] = np.inf
    elif defect == 'zero data':
        flux[rows] = 0.
    elif defect == 'negative data':
        flux[rows] = -np.abs(flux[rows])
    elif defect == 'sky garbage':
        sky = np.setdiff1d(np.arange(flux.shape[1]), nosky)
        flux[:, sky] = gen.pick(r, [np.nan, 1e20, np.inf])
        err[:, sky] = gen.pick(r, [0., np.nan, 1e-20])
    return [flux, err, mask, weight, nosky], set(int(x) for x in bad)


def run(case, mon):
    c = case['cfg']
    r = gen.rng_for('P05run', case['seed'])
    data = list(fits.data_for(c, r))
    if case['seed'] % 7 == 3:       # hardly any, or no, columns without skylines
        data[4] = np.sort(r.choice(data[4], size=min(len(data[4]), int(case['seed'] % 3)), replace=False))
        mon.ev('few columns')
    data, bad = spoil(data, case['defect'], r)
    theta, nv, nd = gen.theta_of(c)
    vary = r.random(len(theta)) < 0.5
    mode = case['seed'] % 3

    def scaled(d):
        km, gal, ins, th = gen.build(c, vary=vary, no_scale=False, galaxy=fits.prepared_galaxy(c, d))
        if mode == 1:
            km.make_model(galaxy=gal, instrument=ins, theta_fitting=km.theta[vary] + 0.)
            km.update_model(theta_fitting=th)
        elif mode == 2 and c['vprof'] == 'arctan' and c['dprof'] == 'const' and c['spec_type'] == 'wave':
            f = fits.make_fit(c, d, vary)
            f.make_model(theta_fitting=th)
            km = f.kinModel
        else:
            km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
        return np.array(km.model)

    ku, gu, iu, th = gen.build(c, vary=vary, no_scale=True, galaxy=fits.prepared_galaxy(c, [np.copy(x) for x in data]))
    ku.make_model(galaxy=gu, instrument=iu, theta_fitting=th)
    un = ku.model
    got = scaled([np.copy(x) for x in data])
    flux, err, mask, weight, nosky = data
    tot = np.abs(un).max()
    if not mon.check('shape', got.shape == flux.shape, 'scaled model has another shape'):
        return
    mon.check('finite', np.all(np.isfinite(got)), 'scaled model is not finite', defect=case['defect'])
    safe = np.zeros(len(un), dtype=bool)
    for j in range(len(un)):
        f, e, m = flux[j, nosky], err[j, nosky], un[j, nosky]
        den, num = np.sum((m/e)**2), np.sum(f*m/e**2)
        mon.ev('row')
        mon.sig(case['defect'], j in bad, c['FWHM'] > 0, c['resol'] > 0, mode, len(nosky) < flux.shape[1])
        if j in bad and tot > 0 and np.all(m != 0):
            mon.ev('bad_row')
            mon.check('bad row', np.all(got[j] == 0), 'row with non-finite data is not zero', defect=case['defect'])
            continue
        if not np.isfinite(den) or den == 0 or not np.isfinite(num):
            if not np.any(un[j]):
                mon.ev('bad_row')
                mon.check('empty row', np.all(got[j] == 0), 'row without model flux is not zero')
            continue
        if np.abs(m).max() < 1e-120*max(tot, 1e-300):
            continue
        safe[j] = True
        A = num/den
        mon.close('amplitude', got[j], A*un[j], rtol=1e-9, msg='row is not the unscaled one times its least-squares amplitude', row=j)
        # optimality: chi-squared over columns without skylines increases away from it
        chi = lambda x: np.sum(((f-x*got[j, nosky])/e)**2)   # noqa: E731
        c0 = chi(1.)
        if num != 0:
            mon.check('optimal', min(chi(1.02), chi(0.98)) >= c0*(1-1e-12), 'another amplitude has lower chi-squared', row=j)
    # metamorphic: data units, error units, independence of rows and sky columns
    k = case['k']
    d2 = [np.copy(x) for x in data]
    d2[0], d2[1] = k*d2[0], k*d2[1]
    mon.close('data units', scaled(d2)[safe], k*got[safe], rtol=1e-8, msg='rescaling data and error does not rescale the model')
    d3 = [np.copy(x) for x in data]
    d3[1] = k*d3[1]
    d3[0] = -d3[0]
    mon.close('error units', scaled(d3)[safe], -got[safe], rtol=1e-8, msg='model depends on the error units, or is not linear in the data')
    j0 = int(r.integers(len(un)))
    d4 = [np.copy(x) for x in data]
    d4[0][j0] = gen.pick(r, [np.nan, 1e6, -3., np.inf])
    o = np.arange(len(un)) != j0
    mon.close('rows independent', scaled(d4)[o], got[o], rtol=1e-11, msg='data of one row change the model of another row')
    sky = np.setdiff1d(np.arange(flux.shape[1]), nosky)
    if len(sky):
        d5 = [np.copy(x) for x in data]
        d5[0][:, sky] = gen.pick(r, [np.nan, 1e7, 0.])
        d5[1][:, sky] = gen.pick(r, [1e-9, np.nan, 1.])
        mon.close('sky columns', scaled(d5), got, rtol=1e-11, msg='data in skyline columns change the scaled model')
    # masks and weights don't enter the amplitude
    d6 = [np.copy(x) for x in data]
    d6[2] = (r.random(flux.shape) < 0.6).astype(float)
    mon.close('pixel mask', scaled(d6), got, rtol=1e-11, msg='amplitudes are those over the columns without skylines')


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
