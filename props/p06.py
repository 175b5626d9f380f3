"""P06: likelihood and chi-squared statistics."""
import math

import numpy as np

from rvlib import fits, gen
from rvlib.core import observe

TECHNIQUE = 'runtime monitor: oracle (explicit loop over unmasked pixels) on every statistic returned, snapshots of data and model'
NOTE = 'Held on the statistics observed (random models, masks, weights; garbage in masked pixels); compared to 1e-10.'
RULE = 'random models and spectra with random masks, weights and garbage in masked pixels; distinct: garbage x mask x free parameters'
MIN = {'stat': 600}
N = {'quick': 160, 'thorough': 2000}
GARBAGE = ['none', 'nan flux', 'inf flux', 'nan err', 'zero err', 'inf err', 'negative err', 'everything']


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P06', seed, i)
        c = gen.cfg2d(r, nsub=1, nrows=int(r.integers(5, 10)))
        c['generate_model'] = False
        out.append({'kind': 'statistics', 'cfg': c, 'garbage': GARBAGE[i % len(GARBAGE)], 'maskfrac': gen.pick(r, [0., 0.1, 0.5, 0.9]),
                    'masktype': gen.pick(r, ['float', 'int', 'bool']), 'scaled': bool(r.random() < 0.5), 'seed': i})
    return out


def run(case, mon):
    from misfit import KinModel2D
    c = case['cfg']
    r = gen.rng_for('P06run', case['seed'])
    flux, err, mask, weight, nosky = fits.data_for(c, r)
    mask = (r.random(mask.shape) >= case['maskfrac']).astype(float)
    if case['maskfrac'] > 0 and r.random() < 0.5:
        mask[:, int(r.integers(mask.shape[1]))] = 0.
        mask[int(r.integers(mask.shape[0]))] = 0.
    theta = gen.theta_of(c)[0]
    vary = r.random(len(theta)) < 0.5
    if mask.sum() <= vary.sum() + 2:
        mask[:] = 1.
    weight = weight*r.uniform(0.5, 2., weight.shape)
    if r.random() < 0.3:
        weight[0] = 0.
    bad = mask == 0
    g = case['garbage']
    pix = bad & (r.random(bad.shape) < 0.7)
    flux, err = flux.copy(), err.copy()
    if g in ('nan flux', 'everything'):
        flux[pix] = np.nan
    if g == 'inf flux':
        flux[pix] = gen.pick(r, [np.inf, -np.inf])
    if g in ('nan err', 'everything'):
        err[pix] = np.nan
    if g == 'zero err':
        err[pix] = 0.
    if g == 'inf err':
        err[pix] = np.inf
    if g == 'negative err':
        err[pix] = -1e-3
    if g == 'everything':
        weight[pix] = np.nan
    m = mask.astype(case['masktype'] if case['masktype'] != 'bool' else float)
    km, gal, ins, th = gen.build(c, vary=vary, no_scale=not case['scaled'], galaxy=fits.prepared_galaxy(c, [flux, err, m, weight, nosky]))
    km.make_model(galaxy=gal, instrument=ins, theta_fitting=th)
    if r.random() < 0.3:
        km.update_model(theta_fitting=th)
    model = np.array(km.model)
    if not case['scaled']:
        peak = np.abs(model).max() or 1.
        km.model = model = model/peak
    before = fits.snap(gal)
    for stat, name in ((km.model_llike, 'llike'), (km.model_chisq, 'chisq'), (km.model_redchisq, 'redchisq'),
                       (km.model_redchisq_no_weight, 'redchisq_no_weight'), (km.model_redchisq_weight_ref, 'redchisq_weight_ref')):
        terms = []
        n = 0
        for j in range(flux.shape[0]):
            for k in range(flux.shape[1]):
                if mask[j, k] == 0:
                    continue
                n += 1
                q = ((flux[j, k]-model[j, k])/err[j, k])**2
                if name == 'llike':
                    terms.append(-0.5*(weight[j, k]*q + math.log10(2*math.pi*err[j, k]**2)))
                elif name == 'redchisq_no_weight':
                    terms.append(q)
                else:
                    terms.append(weight[j, k]*q)
        if name == 'redchisq_weight_ref':
            if g == 'everything':
                continue
            want, scale = float(weight.sum()), float(weight.sum())
        else:
            want, scale = math.fsum(terms), math.fsum(abs(t) for t in terms)
        if name.startswith('red'):
            want, scale = want/(n-vary.sum()), scale/(n-vary.sum())
        got = stat()
        mon.ev('stat')
        mon.sig(name, g, case['maskfrac'], case['masktype'], int(vary.sum()), case['scaled'])
        mon.close(name, float(got), want, rtol=1e-10, scale=scale, msg='%s is not the documented sum' % name, garbage=g)
        mon.same('repeatable', stat(), got, '%s changes when evaluated again' % name)
    mon.check('pure', not fits.changed(before, fits.snap(gal)), 'statistics modify the spectrum')
    mon.same('pure', km.model, model, 'statistics modify the model')
    # what masked pixels hold doesn't matter
    s = gal.spec2D
    l0, c0, n0 = km.model_llike(), km.model_chisq(), km.model_redchisq_no_weight()
    s.flux = np.where(bad, 3.3e5, s.flux)
    s.flux_err = np.where(bad, 1e-7, s.flux_err)
    mon.close('masked pixels', [km.model_llike(), km.model_chisq(), km.model_redchisq_no_weight()], [l0, c0, n0], rtol=1e-11,
             scale=np.abs([l0, c0, n0]), msg='masked pixels contribute to the statistics')
    # chi-squared of data equal to the model is zero
    s.flux = model.copy()
    mon.same('perfect', [km.model_chisq(), km.model_redchisq(), km.model_redchisq_no_weight()], [0., 0., 0.] if g != 'everything' else
             [0., 0., 0.], 'chi-squared of a perfect model')


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
