"""P21: saved fits reload to the same results."""
import hashlib
import os
import pickle
import subprocess
import sys

import numpy as np

from rvlib import core, fits, gen
from props import p20

TECHNIQUE = ('runtime monitor: recorded histories of sample/analyse/save/reload steps, with a file-system monitor (hashes of every file) and snapshots of the '
             'in-memory fit; reloaded results compared with the recorded ones, also from a fresh interpreter')
NOTE = 'Held on the recorded save/reload histories; reloaded arrays are bitwise equal, recomputed models agree to 1e-10.'
RULE = ('random small fits (patterns, profiles, images, headers, file settings), seeded, sampled or with synthetic chains, with random save/reload steps; '
        'distinct: (steps, files set, pattern size, image, route)')
MIN = {'save': 30, 'reload': 50, 'process': 4, 'fit': 3, 'nofile': 4}
N = {'quick': (24, 4), 'thorough': (260, 24)}


def cases(tier, seed):
    out = []
    a, b = N[tier]
    for i in range(a+b):
        r = gen.rng_for('P21', seed, i)
        c = fits.fit_cfg(r, nsub=1, nrows=int(r.integers(5, 8)), nwave=int(r.integers(12, 18)), adaptive=False,
                         iprof=gen.pick(r, ['exp', 'expscale']))
        c['sigma0'] = abs(c['sigma0']) or 30.
        vary = [bool(x) for x in r.random(5) < 0.6]
        vary[int(r.integers(3))] = True
        full = i >= a
        ops = [gen.pick(r, ['save', 'reload', 'reload_resave', 'reload_model', 'reload_empty', 'resample', 'reload_sampler', 'reanalyse'])
               for _ in range(int(r.integers(3, 7)))]
        if i % 2:
            ops += ['resample', 'save', 'reload_model', 'reload_resave'][:3 + int(r.integers(2))]
        out.append({'kind': 'fit' if full else 'history', 'cfg': c, 'vary': vary, 'ops': ops, 'image': bool(r.random() < 0.4), 'hdr': bool(r.random() < 0.4),
                    'linked': bool(all(vary[:2]) and r.random() < 0.5), 'nW': 2*(sum(vary)+int(r.integers(2, 6))), 'nS': int(r.integers(8, 16)),
                    'process': bool(full or r.random() < 0.2), 'nofile': bool(not full and r.random() < 0.35), 'usetex': False,
                    'absval': bool(r.random() < 0.3), 'seed': i, 'rs': int(r.integers(1 << 30))})
    return out


def files_of(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), 'rb') as f:
                out[os.path.relpath(os.path.join(root, n), d)] = hashlib.sha1(f.read()).hexdigest()
    return out


def make(case, data, tmp, name='a', **kw):
    from misfit.galaxy import Pstamp
    c = dict(case['cfg'], absval=case['absval'])
    gal = fits.prepared_galaxy(c, [np.copy(x) for x in data])
    s = gal.spec2D
    s.low_snr_row_inds, s.wh_sky_fit, s.yoffset, s.slit_PA = [], [], 0., 20.
    if case['image']:
        from astropy.io import fits as af
        h = af.Header()
        for k, v in dict(NAXIS=2, NAXIS1=61, NAXIS2=61, CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CRPIX1=31., CRPIX2=31., CRVAL1=150.1, CRVAL2=2.2,
                         CD1_1=-1.6667e-5, CD1_2=0., CD2_1=0., CD2_2=1.6667e-5).items():
            h[k] = v
        y, x = np.mgrid[:61, :61]
        im = np.exp(-((x-30)**2+(y-30)**2)/60.) + 0.01*np.random.default_rng(3).standard_normal((61, 61))
        gal.pstamp = Pstamp(pstamp=im, pstamp_hdr=h)
        gal.pstamp.img_PA = 5.
        gal.RA, gal.DEC, gal.sersicRA, gal.sersicDEC, gal.sersicPA, gal.maskname, gal.field = 150.1, 2.2, 150.1, 2.2, 33., 'm_1', 'F'
    if case['hdr']:
        s.spec_hdr = {'CRVAL1': 1.}
    mc = {} if case['nofile'] else dict(filename_sampler=os.path.join(tmp, name+'_sampler.pickle'), filename_bestfit_model=os.path.join(tmp, name+'_best.pickle'))
    mc.update(nWalkers=case['nW'], nBurn=2, nSteps=case['nS'], nEff=None)
    mc.update(kw.pop('mc', {}))
    f = fits.make_fit(c, data, case['vary'], bounds=p20.bounds(c), linked=[[0, 1]] if case['linked'] else None, galaxy=gal, setup=False, **mc)
    from misfit.instrument import Imager
    f.instrument_img = Imager(instrument_name='img', band='F', pixscale=0.06, PSF_type='Gaussian', PSF_FWHM=0.1)
    f.instrument.conv_sigma = 0.2
    return f


def summary(fit):
    m = fit.mcmc_results
    d = {k: np.array(getattr(m, k), dtype=float) for k in ('bestfit_theta', 'err_theta_1sig', 'err_theta_2sig', 'percent_oppsign', 'bestfit_theta_fitting')}
    d['names'] = list(m.theta_names)
    return d


def chain(fit):
    return {k: np.array(fit.sampler_dict[k]) for k in ('chain', 'lnprobability', 'flatchain', 'flatlnprobability', 'acceptance_fraction')}


def record(fit):
    return {'summary': summary(fit), 'chain': chain(fit), 'model': np.array(fit.kinModel.model), 'theta': np.array(fit.kinModel.theta),
            'llike': float(fit.kinModel.model_llike())}


def compare(mon, key, got, want, what, parts=('summary', 'chain', 'model')):
    for part in parts:
        if part in ('summary', 'chain'):
            for k in want[part]:
                if k == 'names':
                    mon.check(key, got[part][k] == want[part][k], '%s: names differ' % what)
                else:
                    mon.same(key, got[part][k], want[part][k], '%s: %s differs' % (what, k))
        else:
            mon.close(key, got['model'], want['model'], rtol=1e-10, msg='%s: model differs' % what)
            mon.close(key, got['theta'], want['theta'], rtol=1e-13, msg='%s: parameters of the model differ' % what)
            mon.close(key, got['llike'], want['llike'], rtol=1e-9, atol=1e-6, msg='%s: log likelihood differs' % what)


SCRIPT = r'''
import sys, pickle, os
sys.path.insert(0, %(repo)r)
import numpy as np
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    import misfit
    from misfit import FitEmissionLines2D, MCMC2DOptions
    res = pickle.load(open(%(best)r, 'rb'))
    m = res.mcmc_results
    fit = FitEmissionLines2D(galaxy=res.galaxy, instrument=res.instrument, instrument_img=res.instrument_img, kinProfile=res.kinProfile,
            intensityProfile=res.intensityProfile, kinModelOptions=res.kinModelOptions, thetaSettings=res.thetaSettings,
            mcmcOptions=MCMC2DOptions(filename_sampler=%(sampler)r), usetex=False, skip_fit_prep_calcs=True)
    fit.reload_results()
out = {'best': np.array(m.bestfit_theta), 'best2': np.array(fit.mcmc_results.bestfit_theta), 'e1': np.array(fit.mcmc_results.err_theta_1sig),
       'model': np.array(fit.kinModel.model), 'chain': np.array(fit.sampler_dict['chain']), 'flat': np.array(fit.sampler_dict['flatchain']),
       'flux': np.array(res.galaxy.spec2D.flux), 'mod': misfit.__file__}
pickle.dump(out, open(%(out)r, 'wb'))
'''


def run(case, mon):
    from misfit import FitEmissionLines2D, MCMC2DOptions
    c = case['cfg']
    r = np.random.default_rng(case['rs'])
    data = fits.data_for(dict(c, absval=case['absval']), r)
    tmp = mon.tmp
    old = os.getcwd()
    os.chdir(tmp)
    try:
        history(case, mon, data, tmp, r)
    finally:
        os.chdir(old)


def history(case, mon, data, tmp, r):
    from misfit.fit import fit_io
    np.random.seed(case['rs'] % 99999)
    empty = files_of(tmp)
    mon.sig(case['kind'], case['image'], case['hdr'], case['linked'], case['nofile'], sum(case['vary']))
    if case['kind'] == 'fit':
        plots = dict(filename_plot_bestfit=os.path.join(tmp, 'b.png'), filename_plot_param_corner=os.path.join(tmp, 'c.png'),
                     filename_log=os.path.join(tmp, 'l.log'))
        fit = make(case, data, tmp, mc=plots)
        fit.fit()
        mon.ev('fit')
        for k in plots.values():
            mon.check('files', os.path.exists(k) and os.path.getsize(k) > 0, 'fit() did not write %s' % os.path.basename(k))
    else:
        fit = make(case, data, tmp)
        fit.setup_model()
        fit.run_mcmc()
        fit.analyze_results()
        snap0 = fits.snap(fit)
        pst, hdr = fit.galaxy.pstamp, getattr(fit.galaxy.spec2D, 'spec_hdr', None)
        fit.save_bestfit_model()
        mon.ev('save')
        ch = fits.changed(snap0, fits.snap(fit))
        mon.check('save pure', not ch and fit.galaxy.pstamp is pst and getattr(fit.galaxy.spec2D, 'spec_hdr', None) is hdr,
                  'saving modifies the fit: %s' % ch[:5])
    mem = record(fit)
    if case['nofile']:
        mon.ev('nofile')
        mon.check('nofile', files_of(tmp) == empty, 'files were written although no name was set: %s' % sorted(files_of(tmp)))
        fit.reload_results()
        compare(mon, 'nofile', record(fit), mem, 're-analysis without files')
        fit.reload_bestfit_model()
        compare(mon, 'nofile', record(fit), mem, 'reload without files')
        mon.check('nofile', files_of(tmp) == empty, 'files were written although no name was set')
        return
    smp, best = fit.mcmcOptions.filename_sampler, fit.mcmcOptions.filename_bestfit_model
    for f in (smp, best):
        if not mon.check('files', os.path.exists(f) and os.path.getsize(f) > 0, 'file %s was not written' % os.path.basename(f)):
            return
    others = {k: v for k, v in files_of(tmp).items()}
    saved = {'sampler': mem, 'best': mem}       # what the two files hold
    cur = fit
    for k, op in enumerate(['reload', 'reload_model'] + case['ops']):
        before = files_of(tmp)
        mon.sig(op, case['image'])
        if op == 'save':
            snap0 = fits.snap(cur)
            cur.save_bestfit_model()
            mon.ev('save')
            ch = fits.changed(snap0, fits.snap(cur))
            mon.check('save pure', not ch, 'saving modifies the fit: %s' % ch[:5])
            saved['best'] = record(cur)
            unchanged(mon, before, files_of(tmp), [best], op)
        elif op == 'reload':          # a new fit of the same galaxy, with the same settings
            f2 = make(case, data, tmp)
            f2.reload_results()
            mon.ev('reload')
            compare(mon, 'reload', record(f2), saved['sampler'], 'reload_results (step %d)' % k)
            unchanged(mon, before, files_of(tmp), [], op)
        elif op == 'reload_resave':
            f2 = make(case, data, tmp)
            f2.reload_results(resave_bestfit=True)
            mon.ev('reload')
            mon.ev('save')
            compare(mon, 'reload', record(f2), saved['sampler'], 'reload_results with resave (step %d)' % k)
            saved['best'] = saved['sampler']
            unchanged(mon, before, files_of(tmp), [best], op)
        elif op in ('reload_model', 'reload_empty'):
            f2 = make(case, data, tmp) if op == 'reload_model' else cur
            f2.reload_bestfit_model()
            mon.ev('reload')
            compare(mon, 'reload', {'summary': summary(f2)}, saved['best'], '%s (step %d)' % (op, k), parts=('summary',))
            same_inputs(mon, f2, case, data, tmp)
            f2.setup_model()
            f2.make_model(theta_fitting=f2.mcmc_results.bestfit_theta_fitting)
            compare(mon, 'reload', dict(model=np.array(f2.kinModel.model), theta=np.array(f2.kinModel.theta), llike=float(f2.kinModel.model_llike())),
                    saved['best'], '%s: best-fit model (step %d)' % (op, k), parts=('model',))
            unchanged(mon, before, files_of(tmp), [], op)
            if op == 'reload_empty':        # everything in that fit is now from the file, but its own chain
                cur.analyze_results()
        elif op == 'reload_sampler':
            f2 = make(case, data, tmp)
            f2.setup_model()
            f2.reload_sampler()
            mon.ev('reload')
            n = sum(case['vary'])
            mon.same('reload', f2.sampler_dict['lnprobability'], saved['sampler']['chain']['lnprobability'], 'reloaded log probabilities')
            mon.same('reload', fix_sigma(case, f2.sampler_dict['chain']), saved['sampler']['chain']['chain'], 'reloaded chain')
            mon.check('reload', f2.sampler_dict['flatchain'].shape[1] in (n, n+4), 'columns of the reloaded chain')
            unchanged(mon, before, files_of(tmp), [], op)
        elif op == 'reanalyse':
            was = record(cur)
            cur.analyze_results()
            compare(mon, 'reanalyse', record(cur), was, 'analysis again (step %d)' % k)
            unchanged(mon, before, files_of(tmp), [], op)
        elif op == 'resample':
            cur = make(case, data, tmp)
            np.random.seed((case['rs'] + 7*k) % 99999)
            cur.setup_model()
            cur.run_mcmc()
            cur.analyze_results()
            mon.ev('save')
            new = record(cur)
            mon.check('resample', not np.array_equal(new['chain']['chain'], saved['sampler']['chain']['chain']), 'a new run gives the old chain')
            saved['sampler'] = new
            unchanged(mon, before, files_of(tmp), [smp], op)
            d = fit_io.loadpickle(smp)
            mon.same('overwrite', fix_sigma(case, d['chain']), new['chain']['chain'], 'the file does not hold the chain of the latest run')
    if case['process']:
        out = os.path.join(tmp, 'proc.pickle')
        p = subprocess.run([sys.executable, '-c', SCRIPT % dict(repo=core.REPO, best=best, sampler=smp, out=out)], capture_output=True, text=True,
                           cwd=tmp, timeout=120, env=dict(os.environ, MPLBACKEND='agg'))
        mon.ev('process')
        if mon.check('process', p.returncode == 0 and os.path.exists(out), 'reloading in another process failed: %s' % p.stderr[-600:]):
            with open(out, 'rb') as f:
                d = pickle.load(f)
            a, b = saved['best'], saved['sampler']
            mon.same('process', d['best'], a['summary']['bestfit_theta'], 'best fit read in another process')
            mon.same('process', d['chain'], b['chain']['chain'], 'chain read in another process')
            mon.close('process', d['flat'], b['chain']['flatchain'], rtol=1e-12, msg='analysed chain in another process')
            mon.close('process', d['best2'], b['summary']['bestfit_theta'], rtol=1e-12, msg='analysis of the saved chain in another process')
            mon.close('process', d['e1'], b['summary']['err_theta_1sig'], rtol=1e-9, msg='errors in another process')
            mon.close('process', d['model'], b['model'], rtol=1e-10, msg='model in another process')
            mon.same('process', d['flux'], data[0], 'spectrum read in another process')
    if case['kind'] == 'history':
        was = others.get(os.path.basename(smp))
        mon.check('other files', set(files_of(tmp)) <= set(others) | {'proc.pickle'}, 'unexpected files: %s' % sorted(set(files_of(tmp))-set(others)), first=was)


def fix_sigma(case, ch):
    ch = np.array(ch)
    if case['absval'] and case['vary'][2]:
        j = int(sum(case['vary'][:2]))
        ch[..., j] = np.abs(ch[..., j])
    return ch


def unchanged(mon, before, after, allowed, op):
    al = {os.path.basename(a) for a in allowed}
    ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in al)
    mon.check('files unchanged', not ch, '%s changed files: %s' % (op, ch))


def same_inputs(mon, f2, case, data, tmp):
    """The reloaded fit has the inputs of the saved one."""
    ref = make(case, data, tmp)
    for k in ('galaxy', 'instrument', 'instrument_img', 'kinModelOptions', 'thetaSettings', 'mcmcOptions'):
        if k == 'mcmcOptions' and case['kind'] == 'fit':
            continue
        a, b = fits.snap(getattr(ref, k), skip=('pstamp', 'spec_hdr')), fits.snap(getattr(f2, k), skip=('pstamp', 'spec_hdr'))
        ch = fits.changed(a, b)
        mon.check('inputs', not ch, 'inputs of the reloaded fit differ: %s %s' % (k, ch[:5]))
    for k in ('linenames_arr', 'restwave_arr', 'flux_ratio_arr'):
        mon.same('inputs', getattr(f2, k), getattr(ref, k), 'reloaded %s' % k)


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
    import matplotlib.pyplot  # noqa: F401
    import corner  # noqa: F401
