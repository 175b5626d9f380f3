"""P15: 1D fit errors and instrument-corrected dispersions are consistent."""
import os
import pickle

import numpy as np

from rvlib import gen, ref1d

TECHNIQUE = ('runtime monitor on 1D fits with Monte Carlo errors: the recorded matrix of perturbed fits is judged against Fisher errors, percentiles and '
             'the reported errors; relations (with/without errors, reloaded, noise scale); instrument correction against its formula')
NOTE = 'Held on the fits observed; the spread of the perturbed fits is compared with Fisher errors within the sampling error (5 sigma) of the realizations.'
RULE = 'random spectra (as for P14, S/N high enough for a linear regime) with 60-150 realizations; distinct: groups, order, resolved or not, masks'
MIN = {'fit': 20, 'matrix': 20, 'errors': 60, 'reload': 20, 'correction': 200, 'noise scale': 8, 'plot': 2}
N = {'quick': 24, 'thorough': 400}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P15', seed, i)
        kw = dict(snr=gen.pick(r, [40., 100.]), order=int(r.integers(0, 2)), flux=[gen.uni(r, 0.7, 2.) for _ in range(4)])
        c = ref1d.cfg(r, **kw)
        if len(c['names']) > 2:
            c['names'], c['flux'] = c['names'][:2], c['flux'][:2]
        if set(c['names']) == {'SII', 'NII'}:
            c['names'] = ['NII', 'Halpha']
        out.append({'kind': 'mc', 'cfg': c, 'nmc': 50 if tier == 'quick' else 150, 'seed': i, 'scale': i % 3 == 0, 'plot': i % 9 == 4, 'hetero': bool(i % 2)})
    for i in range(N[tier]*2):
        out.append({'kind': 'corr', 'seed': i, 'base': seed})
    return out


def run(case, mon):
    {'mc': run_mc, 'corr': run_corr}[case['kind']](case, mon)


def best_of(F):
    return np.array([F.z, F.vel_disp] + list(F.flux_arr) + list(F.cont_coeff))


def errs_of(F):
    return np.concatenate([np.reshape(F.z_err, (1, 2)), np.reshape(F.vel_disp_err, (1, 2)), F.flux_arr_err, F.cont_coeff_err])


def sd_scale(V):
    s = V.std(axis=0)
    return np.where(s > 0, s, 1.)


def hetero(c, d):
    """Errors that differ strongly between pixels."""
    r = gen.rng_for('het', c['seed'])
    s = r.choice([0.5, 1., 3.], len(d['wave']))
    d['err'] = d['err']*s
    d['noise'] = d['noise']*s
    d['flux'] = d['model'] + (d['noise'] if c['noisy'] else 0.)
    return d


def run_mc(case, mon):
    c = case['cfg']
    d = ref1d.raw(c)
    if case['hetero']:
        d = hetero(c, d)
    ind, mask = ref1d.ref_mask(c, d)
    n, npar = len(c['names']), 2 + len(c['names']) + c['order'] + 1
    mon.sig('mc', tuple(c['names']), c['order'], c['res'] < c['disp'], c['garbage'], tuple(c['edges']))
    A = ref1d.fitter(c, d, mon)
    A.fit(noErrors=True, noPlot=True)
    best = best_of(A)
    fn = os.path.join(mon.tmp, 'mc.pickle')
    g = ref1d.galaxy(c, d)
    before = {k: getattr(g.spec1D, k).copy() for k in ('wave', 'flux', 'flux_err', 'spec_mask')}
    F = ref1d.fitter(c, d, mon, g=g, num_MC=case['nmc'])
    tr = {k: np.copy(getattr(g.spec1D_trim, k)) for k in ('wave', 'flux', 'flux_err', 'spec_mask')}
    np.random.seed(case['seed'])
    F.fit(noPlot=True, err_filename=fn)
    mon.ev('fit')
    mon.same('best', best_of(F), best, 'calculating errors changes the best fit')
    mon.check('pure', all(np.array_equal(before[k], getattr(g.spec1D, k)) for k in before)
              and all(np.array_equal(tr[k], getattr(g.spec1D_trim, k), equal_nan=True) for k in tr), 'calculating errors modifies the spectrum')
    if not mon.check('saved', os.path.exists(fn), 'the realizations are not saved'):
        return
    with open(fn, 'rb') as fh:
        V = pickle.load(fh)
    mon.ev('matrix')
    if not mon.check('matrix', np.shape(V) == (case['nmc'], npar), 'shape of the realizations', got=np.shape(V)):
        return
    lo, hi = np.percentile(V, [15.865, 84.135], axis=0)
    E = errs_of(F)
    mon.ev('errors', npar)
    if np.all(np.isfinite(V)):
        mon.close('errors', E/sd_scale(V)[:, None], np.array([best-lo, hi-best]).T/sd_scale(V)[:, None], rtol=1e-6, atol=1e-6,
                  msg='errors are not the percentiles of the realizations relative to the best fit')
    # spread of the realizations: that of fits to perturbed spectra
    p, sg = ref1d.fisher(c, d, ind, mask, at=(F.z, F.vel_disp, list(F.flux_arr), list(F.cont_coeff)))
    k = slice(0, 2+n)
    if np.all(np.abs(best[2:2+n])/sg[2:2+n] > 15.):
        sd = V.std(axis=0, ddof=1)
        tol = 5./np.sqrt(2*(case['nmc']-1))
        mon.ev('spread', 2+n)
        mon.check('spread', np.all(np.abs(np.log(sd[k]/sg[k])) < tol + 0.1), 'the spread of the realizations is not that of the noise', ratio=sd[k]/sg[k],
                  nmc=case['nmc'])
        off = (V.mean(axis=0)-best)[k]/sg[k]
        mon.check('centre', np.all(np.abs(off) < 5./np.sqrt(case['nmc']) + 0.2), 'the realizations are not centred on the best fit', off=off)
        mon.check('bracket', np.all(E[k] > 0.), 'errors do not bracket the best fit', errors=E[k], sg=sg[k])
        mon.check('distinct', len(np.unique(V[:, 1])) == case['nmc'], 'realizations are repeated')
        # subsequent realizations are independent
        x = (V[:, 2]-V[:, 2].mean())/sd[2]
        r1 = np.mean(x[1:]*x[:-1])
        mon.check('independent', abs(r1) < 5./np.sqrt(case['nmc']), 'successive realizations are correlated', r=r1)
    # instrument-corrected dispersion
    correction(mon, F, fn, V)
    # without errors, and with those saved, on the same instance
    F.fit(noErrors=True, noPlot=True)
    mon.check('no errors', not np.any(errs_of(F)), 'errors of an earlier fit are kept by one without', got=errs_of(F))
    # reload
    raw = open(fn, 'rb').read()
    np.random.seed(7)
    st = np.random.get_state()[1].copy()
    R = ref1d.fitter(c, d, mon, num_MC=case['nmc'])
    R.fit(noPlot=True, err_filename=fn, reload_errors=True)
    mon.ev('reload')
    mon.same('reload best', best_of(R), best, 'reloading errors changes the best fit')
    mon.same('reload errors', errs_of(R), E, 'reloaded errors differ')
    mon.check('reload file', open(fn, 'rb').read() == raw and np.array_equal(st, np.random.get_state()[1]), 'reloading errors recalculates them')
    if case['plot']:
        pf, e2 = os.path.join(mon.tmp, 'fit.png'), os.path.join(mon.tmp, 'mc2.pickle')
        P = ref1d.fitter(c, d, mon, num_MC=5)
        np.random.seed(case['seed'])
        P.fit(err_filename=e2, plot_filename=pf)
        mon.ev('plot')
        mon.same('plot', best_of(P), best, 'plotting changes the best fit')
        with open(e2, 'rb') as fh:
            mon.same('plot errors', pickle.load(fh), V[:5], 'plotting changes the realizations')
        mon.check('plot file', os.path.getsize(pf) > 1000, 'no plot was written')
    if case['scale']:
        # same realizations with smaller errors
        c2 = dict(c, noisy=False)
        d2 = ref1d.raw(c2)
        es = []
        for f in (1., 0.1, 1e-3):
            G = ref1d.galaxy(c2, d2, None, d2['err']*f)
            S = ref1d.fitter(c2, d2, mon, g=G, num_MC=12)
            np.random.seed(3)
            S.fit(noPlot=True, err_filename=os.path.join(mon.tmp, 's.pickle'))
            with open(os.path.join(mon.tmp, 's.pickle'), 'rb') as fh:
                es.append(pickle.load(fh).std(axis=0)/f)
        mon.ev('noise scale')
        for e in es[1:]:
            mon.check('noise scale', np.all(np.abs(np.log(e[k]/es[0][k])) < 0.35), 'errors do not scale with the noise', got=e[k], want=es[0][k])


def correction(mon, F, fn, V):
    keep = F.instrument.instrument_resolution
    sv = abs(F.vel_disp)
    for res in (keep, 0.5*sv, 0.999*sv, 1.001*sv, 2.*sv, 0., float(np.median(np.abs(V[:, 1])))):
        F.instrument.instrument_resolution = res
        F.calculate_inst_corr_vel_disp(err_filename=fn)
        want = np.sqrt(max(F.vel_disp**2-res**2, 0.))
        with np.errstate(all='ignore'):
            m = np.sqrt(np.maximum(V[:, 1]**2-res**2, 0.))
        lo, hi = np.percentile(m, [15.865, 84.135])
        mon.ev('correction')
        mon.close('correction', F.vel_disp_inst_corr, want, rtol=1e-9, atol=1e-9*sv, msg='instrument-corrected dispersion', res=res, disp=F.vel_disp)
        mon.close('correction errors', F.vel_disp_inst_corr_err, [want-lo, hi-want], rtol=1e-9, atol=1e-7*sv,
                  msg='errors of the instrument-corrected dispersion', res=res, disp=F.vel_disp)
        F.calculate_inst_corr_vel_disp(noErrors=True)
        mon.close('correction', F.vel_disp_inst_corr, want, rtol=1e-9, atol=1e-9*sv, msg='instrument-corrected dispersion without errors')
        mon.check('correction no errors', np.array_equal(F.vel_disp_inst_corr_err, np.zeros(2)), 'errors without error calculation')
    F.instrument.instrument_resolution = keep


class Dummy(object):
    pass


def run_corr(case, mon):
    """Instrument correction and argument checks on a fit whose best fit and realizations are prescribed."""
    r = gen.rng_for('P15c', case['base'], case['seed'])
    c = ref1d.cfg(r)
    d = ref1d.raw(c)
    F = ref1d.fitter(c, d, mon)
    fn = os.path.join(mon.tmp, 'v.pickle')
    V = np.abs(r.normal(1., gen.pick(r, [0.05, 0.4]), (gen.pick(r, [5, 50, 500]), 3+len(c['names'])+c['order'])))
    V[:, 1] *= c['disp']
    if r.random() < 0.3:
        V[:, 1] *= r.choice([-1., 1.], len(V))
    with open(fn, 'wb') as fh:
        pickle.dump(V, fh)
    F.vel_disp = c['disp']
    correction(mon, F, fn, V)
    mon.sig('corr', len(V), bool(np.any(V[:, 1] < 0)))
    mon.check('file', np.array_equal(pickle.load(open(fn, 'rb')), V), 'the realizations were modified')
    mon.raises('no file', ValueError, lambda: F.calculate_inst_corr_vel_disp(), 'correction errors without a file')
    F.instrument.instrument_resolution = -1.
    mon.raises('negative resolution', ValueError, lambda: F.fit(noErrors=True, noPlot=True), 'a negative resolution')
    mon.ev('correction')


def warmup():
    import misfit.fit.fit1D  # noqa: F401
