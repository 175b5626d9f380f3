"""P26: end to end - spectra made by the model are explained best by their true parameters."""
import numpy as np

from rvlib import fits, gen, prep

TECHNIQUE = ('runtime monitor: end-to-end ground-truth oracle (chi-squared and likelihood events at the true and at different parameters of mock '
             'spectra, recorded chains of MCMC fits of mock spectra)')
NOTE = ('Held on the mock spectra observed: prepared ones to round-off (chi-squared 0 at the truth), observed ones (continuum, skylines, offsets '
        'removed by the preparation) to a few percent of the chi-squared of the different parameters; MCMC chains of few parameters.')
RULE = ('mock galaxies seen by random instruments, with arbitrary row amplitudes and flux units; prepared by the generator or by fit_prep_calcs; '
        'distinct: gen.sig2d / options of the observation')
MIN = {'exact': 300, 'observed': 60, 'chain': 3}
N = {'quick': (60, 20, 5), 'thorough': (600, 200, 40)}


def cases(tier, seed):
    a, b, d = N[tier]
    out = []
    for i in range(d):
        r = gen.rng_for('P26c', seed, i)
        out.append({'kind': 'chain', 'cfg': chain_cfg(r), 'seed': i})
    for i in range(b):
        r = gen.rng_for('P26b', seed, i)
        out.append({'kind': 'observed', 'cfg': obs_cfg(r), 'seed': i})
    for i in range(a):
        r = gen.rng_for('P26a', seed, i)
        c = fits.fit_cfg(r, nsub=gen.pick(r, [1, 2]), vprof=gen.pick(r, ['arctan', 'arctan', 'power']), iprof=gen.pick(r, ['exp', 'expscale', 'ring']))
        c['sigma0'] = abs(c['sigma0']) or 30.
        out.append({'kind': 'exact', 'cfg': c, 'seed': i})
    return out


def run(case, mon):
    r = gen.rng_for('P26run', case['seed'])
    {'exact': exact, 'observed': observed, 'chain': chain}[case['kind']](case, case['cfg'], r, mon)


def exact(case, c, r, mon):
    """Noise-free spectrum of the model with arbitrary row amplitudes and units."""
    from misfit.fit import fit_core
    true = gen.theta_of(c)[0]
    m = gen.run_model(dict(c, generate_model=True)).model
    if not np.all(np.isfinite(m)) or np.abs(m).max() == 0.:
        mon.note(no_flux=1)
        return
    data = list(fits.data_for(c, r))
    unit = gen.pick(r, [1., 1e-18, 1e-19, 1e4])
    amp = r.uniform(0.2, 3., m.shape[0])*gen.pick(r, [1., 1., -1.]) if r.random() < 0.2 else r.uniform(0.2, 3., m.shape[0])
    data[0] = m/np.abs(m).max()*amp[:, None]*unit
    data[1] = data[1]*unit
    bad = data[2] == 0.
    nosky = np.zeros(m.shape[1], dtype=bool)
    nosky[data[4]] = True
    data[0][bad & ~nosky[None, :]] += 50.*unit          # masked skylines may hold anything (as they do not count in the scaling)
    n = len(true)
    vary = np.array([True]*n)
    bd = [[-1e5, 1e5]]*n if n != 5 else fits.bounds_for(c)
    fit = fits.make_fit(c, [np.copy(x) for x in data], vary, bounds=bd, theta=true)

    def stats(x):
        lp = fit_core.lnprob(np.array(x, dtype=float), fit)
        return fit.kinModel.model_chisq(), float(lp)
    w = data[2] > 0
    ref = float(np.sum(data[3][w]*(data[0][w]/data[1][w])**2))       # chi-squared of no model at all
    c0, l0 = stats(true)
    mon.ev('exact')
    mon.sig(unit, *gen.sig2d(c))
    mon.check('zero', 0 <= c0 <= 1e-12*ref, 'chi-squared %r of a noise-free spectrum at its true parameters' % c0, of=ref)
    iv = {'arctan': 2, 'power': 3}[c['vprof']]
    for k in range(6):
        x = true.copy()
        j = gen.pick(r, [0, iv, n-2, n-1])
        x[j] += {0: gen.pick(r, [-1, 1])*r.uniform(40, 100), iv: r.uniform(0.5, 1.)*max(x[iv], 20.), n-2: gen.pick(r, [-1, 1])*r.uniform(0.3, 1.),
                 n-1: gen.pick(r, [-1, 1])*r.uniform(1e-4, 3e-4)}[j]
        c1, l1 = stats(x)
        mon.ev('exact')
        mon.check('finite', np.isfinite(c1) and np.isfinite(c0), 'chi-squared %r, %r' % (c0, c1))
        mon.check('truth is best', c0 <= c1 + 1e-12*ref, 'different parameters have a lower chi-squared than the true ones', x=x, true=true, chisq=(c0, c1))
        if np.isfinite(l1) and np.isfinite(l0):
            mon.check('likelihood', l0 >= l1 - 1e-9*abs(l0), 'different parameters are more likely than the true ones', x=x, true=true, lnprob=(l0, l1))
            mon.close('difference', l0-l1, -0.5*(c0-c1), rtol=1e-9, scale=abs(l0)+abs(c1), msg='log likelihood ratio is not half the difference of chi-squared')
        if j in (0, iv, n-1) and not (j == 0 and (c['q'] == 1. or abs(abs(c['delt_PA']) % 180. - 90.) < 40.)):
            mon.note(**{'p%d' % j: c1/ref})
    c2, l2 = stats(true)
    mon.close('returned', c2, c0, rtol=1e-12, scale=ref, msg='chi-squared at the truth changed by evaluations elsewhere')


# ---------------------------------------------------------------------------------------------

def obs_cfg(r):
    c = {'group': gen.pick(r, ['Halpha', 'Hbeta', 'OIII']), 'z': gen.uni(r, 1.3, 2.5), 'pixscale': gen.pick(r, [0.18, 0.2]), 'nrows': int(r.integers(41, 50))}
    c['y0'] = (c['nrows']-1)/2. + gen.uni(r, -2.5, 2.5)
    c['Va'] = gen.pick(r, [-1, 1])*gen.uni(r, 120, 250)
    c['vbeta'] = 1.
    c.update(drs=1., rt=gen.uni(r, 0.1, 0.4), sigma0=gen.uni(r, 35, 80), n=gen.pick(r, [0.7, 1., 1.]), q=gen.uni(r, 0.35, 0.75), q0=0.19,
             delt_PA=gen.uni(r, -30, 30), re=gen.uni(r, 0.35, 0.65), slit_width=0.7, FWHM=gen.uni(r, 0.45, 0.7), resol=gen.uni(r, 30., 45.),
             PSF_type=gen.pick(r, ['Gaussian', 'Moffat']), dlam=gen.uni(r, 1.6, 2.4), nsub=gen.pick(r, [1, 2]), units=gen.pick(r, [1., 1e-18, 1e3]),
             cont=gen.uni(r, 0., 1.), slope=gen.uni(r, -0.6, 0.6), nsky=int(r.integers(0, 5)), dither=bool(r.random() < 0.5), yoff=int(r.integers(14, 17)),
             weighting=gen.pick(r, ['up-edges', 'optimal', 'none']), ypos_off=gen.uni(r, -0.7, 0.7), snr=gen.pick(r, [20., 60.]), noise=0., dseed=int(r.integers(2**31)))
    return c


def observation(c):
    """Galaxy and instrument with the raw 2D and 1D spectra of the mock galaxy."""
    from misfit import Spectrograph, Galaxy
    from misfit.galaxy import ObsSpectrum1D, ObsSpectrum2D, Pstamp
    r = gen.rng_for('P26obs', c['dseed'])
    z1 = 1+c['z']
    f, l, m, cut = (np.array(t[c['group']]) if isinstance(t, dict) and c['group'] in t else t for t in (prep.FULL, prep.LINE, prep.MASK, 0.))
    lam0, band = prep.GROUPS[c['group']]
    wave = np.arange((f[0]+3.)*z1, (f[1]-3.)*z1, c['dlam'])
    lines = prep.LINES[c['group']]
    ratios = prep.RATIOS[c['group']]
    nr, nw = c['nrows'], len(wave)
    mc = dict(c, beta=2.5, yspace=None, pad=0.5, absval=False, adaptive=True, factor=3., floor=True, spec_type='wave', lines=lines, ratios=ratios,
              iprof='exp', vprof='arctan', dprof='const', generate_model=True, m0=c['y0'], m0_shift=0., wave=None)
    near = np.zeros(nw, dtype=bool)
    for ln in lines:
        near |= np.abs(wave/(ln*z1)-1)*gen.C_KMS < 1300.
    em = np.zeros((nr, nw))
    # (only the part of the spectrum with lines needs to be modelled: contiguous pieces)
    for run_ in prep.ref_runs(np.where(near)[0]):
        mc['wave'] = wave[run_].tolist()
        em[:, run_] = gen.run_model(dict(mc)).model
    em /= em.max()
    obj = em.copy()
    if c['dither']:
        for s in (-1, 1):
            em -= 0.5*np.roll(obj, s*c['yoff'], axis=0)
    prof = np.exp(-0.5*((np.arange(nr)-c['y0'])/3.)**2)
    if c['dither']:
        prof = prof - 0.5*sum(np.exp(-0.5*((np.arange(nr)-c['y0']-s*c['yoff'])/3.)**2) for s in (-1, 1))
    x = (wave-lam0*z1)/((f[1]-f[0])*z1)
    cont = c['cont']*(prof[:, None]+0.05) + c['cont']*c['slope']*x[None, :]
    inl = (wave >= l[0]*z1) & (wave <= l[1]*z1)
    e0 = obj[int(round(c['y0']))][inl].sum()/c['snr']/np.sqrt(inl.sum())
    col = r.uniform(0.9, 1.1, nw)
    sky = np.zeros(nw, dtype=bool)
    if c['nsky']:
        k = r.choice(nw, size=c['nsky']*3, replace=False)
        k = np.concatenate([k, r.choice(np.where(inl)[0], size=1)])
        sky[k] = True
        col[sky] *= 6.
    err = e0*col[None, :]*r.uniform(0.97, 1.03, (nr, nw))
    flux = em + cont + np.where(sky[None, :], 0.3*err*r.standard_normal((1, nw)), 0.) + c['noise']*err*r.standard_normal((nr, nw))
    k = np.arange(int(round(c['y0']))-5, int(round(c['y0']))+6)
    f1, e1 = flux[k].sum(axis=0)/len(k), np.sqrt((err[k]**2).sum(axis=0))
    u = c['units']
    ins = Spectrograph(instrument_name='rv', band=band, pixscale=c['pixscale'], PSF_type=c['PSF_type'], PSF_FWHM=c['FWHM'], PSF_beta=2.5,
                       yspace_dither_arc=c['yoff']*c['pixscale'] if c['dither'] else None, slit_width=c['slit_width'],
                       slit_length=nr*c['pixscale'], instrument_resolution=c['resol'])
    gal = Galaxy(ID=1, field='RV', maskname='rv_1', z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], sersicPA=30., delt_PA=c['delt_PA'], re_mass_arcsec=1.1*c['re'], q_mass=c['q'],
                 dither=c['dither'])
    gal.set_pstamp(Pstamp(img_PA=12.))
    gal.set_spectrum_2D(ObsSpectrum2D(band=band, wave=wave.copy(), flux=flux*u, flux_err=err*u, spec_mask=np.ones(flux.shape), ypos=c['y0']+c['ypos_off'],
                                      slit_PA=70., weighting_type=c['weighting'], linenames_arr=['X%d' % i for i in range(len(lines))],
                                      restwave_arr=np.array(lines), flux_ratio_arr=np.array(ratios), wave_full_range_rest=f, wave_line_range_rest=l,
                                      mask_lines_wave_range_rest=m))
    gal.set_spectrum_1D(ObsSpectrum1D(band=band, wave=wave.copy(), flux=f1*u, flux_err=e1*u, spec_mask=np.ones(nw),
                                      extraction_spatial_profile=np.exp(-0.5*((np.arange(nr)-c['y0'])/3.)**2)))
    return gal, ins


def observed_fit(c, vary, bounds=None, **mc):
    """-> fit set up on the prepared observation, true parameters (in the prepared spectrum), spectrum"""
    from misfit import FitEmissionLines2D, MCMC2DOptions, Theta2DSettings, KinModel2DOptions
    gal, ins = observation(c)
    fit = FitEmissionLines2D(galaxy=gal, instrument=ins, kinModelOptions=KinModel2DOptions(nSubpixels=c['nsub']),
                             mcmcOptions=MCMC2DOptions(**dict(dict(nCPUs=1, NoThread=True), **mc)), usetex=False)
    s = fit.galaxy.spec2D
    shift = c['y0'] - float(s.full_l_ind) - float(s.m0)
    true = np.array([c['Va'], c['rt'], c['sigma0'], shift, c['z']])
    if bounds is None:
        bounds = [[-500., 500.], [0.01, 1.5], [0., 200.], [shift-3., shift+3.], [c['z']-0.003, c['z']+0.003]]
    fit.thetaSettings = Theta2DSettings(theta=true.copy(), theta_vary=np.array(vary), theta_names=list(fits.NAMES), theta_names_nice=list('VrsmZ'),
                                        theta_bounds=bounds, theta_linked_posteriors=None)
    return fit, true, s


def observed(case, c, r, mon):
    from misfit.fit import fit_core
    fit, true, s = observed_fit(c, [True]*5)
    fit.setup_model()

    def chisq(x):
        lp = fit_core.lnprob(np.array(x, dtype=float), fit)
        return float(fit.kinModel.model_chisq()), float(lp)
    w = s.spec_mask > 0
    ref = float(np.sum(np.asarray(s.fitting_weight_matrix)[w]*(s.flux[w]/s.flux_err[w])**2))
    c0, l0 = chisq(true)
    mon.ev('observed')
    mon.sig(c['group'], c['dither'], c['weighting'], c['units'], c['nsky'] > 0, c['nsub'], c['PSF_type'], c['cont'] > 0.5, np.sign(c['Va']))
    mon.check('offset', abs(true[3]) < 1.5, 'object position found', shift=true[3])
    mon.note(c0=c0/ref, shift=true[3])
    mon.check('truth explains', 0 <= c0 < 0.02*ref, 'true parameters leave chi-squared %r of %r' % (c0, ref))
    worst = np.inf
    for j, d in ((0, -2*true[0]), (0, -0.7*true[0]), (0, 0.8*true[0]), (2, 60.), (2, -0.75*true[2]), (4, 4e-4), (4, -4e-4), (3, 1.3), (3, -1.3)):
        x = true.copy()
        x[j] += d
        c1, l1 = chisq(x)
        mon.ev('observed')
        mon.check('truth is best', c0 < c1, 'different parameters have a lower chi-squared than the true ones', x=x, true=true, chisq=(c0, c1), of=ref)
        mon.check('likelihood', l0 > l1, 'different parameters are more likely than the true ones', x=x, true=true, lnprob=(l0, l1))
        worst = min(worst, c1/c0)
        mon.note(**{'r%d%+d' % (j, np.sign(d)): c1/c0})
    mon.note(worst=worst)


# ---------------------------------------------------------------------------------------------

def chain_cfg(r):
    c = obs_cfg(r)
    c.update(nsub=1, noise=1., snr=60., units=gen.pick(r, [1., 1e-18]), group='Hbeta', weighting=gen.pick(r, ['up-edges', 'none']), nsky=int(r.integers(0, 3)))
    c['free'] = gen.pick(r, [[0, 2], [0, 4], [0, 2, 4]])
    return c


def chain(case, c, r, mon):
    vary = [i in c['free'] for i in range(5)]
    np.random.seed(case['seed']+1)
    fit, true, s = observed_fit(c, vary, nWalkers=16, nSteps=70, nBurn=45, runAllSteps=True)
    fit.setup_model()
    fit.run_mcmc()
    fit.analyze_results()
    ch = np.asarray(fit.sampler_dict['flatchain'])
    mon.ev('chain')
    mon.sig('chain', tuple(c['free']), c['dither'], c['weighting'], c['units'])
    mon.check('chain', ch.ndim == 2 and ch.shape[1] >= len(c['free']) and np.all(np.isfinite(ch)), 'chain of shape %s' % (ch.shape,))
    tol = {0: 0.35*abs(c['Va']), 2: 25., 4: 2e-4}
    best = np.asarray(fit.kinModel.bestfit.theta)
    for k, i in enumerate(c['free']):
        med = float(np.median(ch[:, k]))
        frac = float(np.mean(np.abs(ch[:, k]-true[i]) < tol[i]))
        mon.note(**{'med%d' % i: (med-true[i])/tol[i], 'frac%d' % i: frac})
        mon.check('concentrates', frac > 0.6, 'only %.2f of the chain of %s is near the truth' % (frac, fits.NAMES[i]), median=med, truth=true[i])
        mon.check('best fit', abs(best[i]-true[i]) < 1.5*tol[i], 'best-fit %s = %r, truth %r' % (fits.NAMES[i], best[i], true[i]))


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
