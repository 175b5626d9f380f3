"""P14: the 1D emission-line model and fit recover what is in the spectrum."""
import numpy as np

from rvlib import core, gen, ref1d

TECHNIQUE = ('runtime monitor on the 1D line model, its residuals and the 1D fit, judged by an independent line model, the known truth of synthetic spectra, '
             'Fisher errors and relations (masked garbage, flux scale, order of line groups)')
NOTE = 'Held on the spectra observed; fits start within 40% of the truth, fitted values are compared with Fisher-matrix errors (6 sigma) and noise-free truths.'
RULE = 'random line groups, redshifts, dispersions, continuum orders, sampling, noise, trim ranges and masks; distinct: kind, groups, order, range type, masks'
MIN = {'model': 200, 'residual': 150, 'line': 150, 'spectrum': 40, 'fit': 40, 'recovered': 20, 'relation': 60, 'absorbed': 8}
N = {'quick': 60, 'thorough': 900}


def cases(tier, seed):
    out = []
    for i in range(4*N[tier]):
        out.append({'kind': 'model', 'seed': i, 'base': seed})
    for i in range(N[tier]):
        r = gen.rng_for('P14', seed, i)
        c = ref1d.cfg(r, noisy=bool(i % 3 != 0), **({'order': 3} if i % 20 == 7 else {}))
        if i % 3 == 1:
            c['z'] = ref1d.rounding_z(r, c['names'])
        out.append({'kind': 'fit', 'cfg': c, 'seed': i})
    for i in range(N[tier]//5):
        r = gen.rng_for('P14n', seed, i)
        c = ref1d.cfg(r, names=gen.pick(r, [['Hbeta', 'OIII'], ['NII', 'Halpha'], ['SII', 'Halpha']]), order=int(tier != 'quick' and i % 8 == 0), range='explicit',
                      flux=[-gen.uni(r, 0.03, 0.06), gen.uni(r, 1., 2.)], snr=100., disp=gen.uni(r, 60., 150.))
        out.append({'kind': 'absorbed', 'cfg': c, 'seed': i})
    return out


def params_of(names, z, disp, f, coeff):
    import lmfit
    p = lmfit.Parameters()
    p.add('z', value=z)
    p.add('vel_disp', value=disp)
    for i, x in enumerate(f):
        p.add('flux%d' % i, value=x)
    for i, x in enumerate(coeff):
        p.add('cont_coeff%d' % i, value=x)
    return p


def run(case, mon):
    {'model': run_model, 'fit': run_fit, 'absorbed': run_absorbed}[case['kind']](case, mon)


def run_absorbed(case, mon):
    """The first line group is in absorption: its flux is bounded, that of the other one is still found."""
    c = case['cfg']
    d = ref1d.raw(c)
    ind, mask = ref1d.ref_mask(c, d)
    z, disp, f, coeff = ref1d.truth(c)
    p, sg = ref1d.fisher(c, d, ind, mask)
    F = ref1d.fitter(c, d, mon, guess={'flux_arr': [0.2*c['unit'], f[1]*1.2]})
    F.fit(noErrors=True, noPlot=True)
    mon.ev('absorbed')
    mon.sig('absorbed', tuple(c['names']), c['order'], c['unit'])
    mon.check('bounded', np.all(np.asarray(F.flux_arr) >= 0.), 'fluxes of a bounded fit are negative', flux=F.flux_arr)
    if abs(f[1]) > 8*sg[3]:
        mon.close('absorbed', F.flux_arr[1], f[1], rtol=0.12, msg='the flux of an emission line next to an absorbed one is not recovered', best=F.flux_arr, truth=f)
        mon.close('absorbed z', F.z, z, rtol=0., atol=0.25*disp/ref1d.C_KMS*(1+z), msg='redshift of the emission line', disp=F.vel_disp)


def run_model(case, mon):
    from misfit.model.emission_lines_model import EmissionLines1DModel, EmissionLinesSpectrum1DModel
    r = gen.rng_for('P14m', case['base'], case['seed'])
    names = list(gen.pick(r, ref1d.SETS))
    z, disp = r.uniform(0., 6.), gen.pick(r, [r.uniform(5., 40.), r.uniform(40., 600.)])
    unit = gen.pick(r, [1., 1e-17, 1e-20])
    f = r.uniform(-1., 3., len(names))*unit
    order = int(r.integers(0, 5))
    lo, hi = ref1d.span(names)
    mu = 0.5*(lo+hi)*(1+z)
    coeff = [unit*1e16*r.standard_normal()/mu**i for i in range(order+1)]
    n = int(r.integers(20, 400))
    x = np.sort(r.uniform((lo-60.)*(1+z), (hi+60.)*(1+z), n)) if r.random() < 0.3 else np.linspace((lo-60.)*(1+z), (hi+60.)*(1+z), n)
    M = EmissionLinesSpectrum1DModel(names_arr=names, cont_order=order, shape1D='gaussian')
    P = params_of(names, z, disp, f, coeff)
    x0 = x.copy()
    want = ref1d.model(x, names, z, disp, f, coeff)
    sc = np.max(np.abs(want)) + 1e-300
    got = M.make1DProfile(P, x)
    mon.ev('model')
    mon.sig('model', tuple(names), order, unit)
    mon.close('model', got, want, rtol=1e-9, atol=1e-9, scale=sc, msg='1D model is not the lines plus continuum', names=names, z=z, disp=disp)
    # repeated with other parameters on the same instance, then the first again
    z2, d2, f2, c2 = z+0.01, disp*1.7, f*0.3+unit, [a*2. for a in coeff]
    mon.close('other', M.make1DProfile(params_of(names, z2, d2, f2, c2), x), ref1d.model(x, names, z2, d2, f2, c2), rtol=1e-9, atol=1e-9, scale=sc,
              msg='the model of other parameters on the same instance')
    mon.same('again', M.make1DProfile(P, x), got, 'the model depends on earlier calls')
    mon.ev('model', 2)
    # other lines and continuum order given to the same instance later
    nm2, o2 = list(gen.pick(r, ref1d.SETS)), int(r.integers(0, 4))
    f3, c3 = r.uniform(0.2, 3., len(nm2))*unit, [unit*1e16*r.standard_normal()/mu**i for i in range(o2+1)]
    M.setAttr(names_arr=nm2, cont_order=o2)
    got2 = M.make1DProfile(params_of(nm2, z, disp, f3, c3), x)
    mon.close('changed', got2, ref1d.model(x, nm2, z, disp, f3, c3), rtol=1e-9, atol=1e-9, scale=max(np.max(np.abs(got2)), sc), msg='lines given later are not used', names=nm2)
    M.setAttr(names_arr=names, cont_order=order)
    mon.same('again', M.make1DProfile(P, x), got, 'the model depends on earlier settings')
    mon.ev('model', 2)
    # residuals: only pixels with mask 1, non-finite ones count nothing
    err = r.uniform(0.5, 2., n)*sc*0.1
    data = want + err*r.standard_normal(n)
    mask = (r.random(n) < 0.8).astype(float)
    bad = (r.random(n) < 0.1)
    data[bad & (mask == 1)] = gen.pick(r, [np.nan, np.inf])
    if r.random() < 0.5:
        err[(r.random(n) < 0.05)] = np.nan
    k0 = np.where(mask == 0)[0]
    data[k0] = r.choice([np.nan, 1e9, 0.], len(k0))
    before = [a.copy() for a in (x, data, err, mask)]
    res = M.residual1DProfile(P, x, data, err, mask)
    g = np.where(mask == 1)[0]
    wr = (want[g]-data[g])/err[g]
    wr[~np.isfinite(wr)] = 0.
    mon.ev('residual')
    mon.close('residual', res, wr, rtol=1e-6, atol=1e-6, scale=10., msg='residuals are not (model-data)/err of the unmasked pixels')
    mon.check('pure', all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, (x, data, err, mask))), 'evaluating the model modifies its inputs')
    # one line group: from the tables, explicit, and with another profile
    nm = gen.pick(r, names)
    one = EmissionLines1DModel(name=nm)
    one.make1DProfile(x, z, disp, 3.*unit)
    mon.close('line', one.profile, ref1d.line_model(x, [nm], z, disp, [3.*unit]), rtol=1e-9, atol=1e-9*unit, msg='profile of a line group')
    ws, rs = r.uniform(lo, hi, 3), r.uniform(0.1, 1., 3)
    exp = EmissionLines1DModel(linenames_arr=['A', 'B', 'C'], restwave_arr=ws, flux_ratio_arr=rs)
    exp.make1DProfile(x, z, disp, unit)
    w = sum(ref1d.gauss(x, a*(1+z), disp/ref1d.C_KMS*a*(1+z), b*unit) for a, b in zip(ws, rs))
    mon.close('explicit', exp.profile, w, rtol=1e-9, atol=1e-9*unit, msg='profile of explicit lines')

    # only the ratios, or only the wavelengths, given: the rest is from the tables
    # (in the order in which the group lists its lines)
    tw, tr = (np.array(a) for a in ref1d.TABLE[nm])
    i = np.argsort(tw)[np.argsort(np.argsort(one.restwave_arr))]
    tw, tr = tw[i], tr[i]
    gr, gw = r.uniform(0.1, 1., len(tw)), tw*r.uniform(0.99, 1.01)
    for kw, ww, rr in (({'flux_ratio_arr': gr.copy()}, tw, gr), ({'restwave_arr': gw.copy()}, gw, tr)):
        part = EmissionLines1DModel(name=nm, **kw)
        part.make1DProfile(x, z, disp, unit)
        w = sum(ref1d.gauss(x, a*(1+z), disp/ref1d.C_KMS*a*(1+z), b*unit) for a, b in zip(ww, rr))
        mon.close('partly explicit', part.profile, w, rtol=1e-9, atol=1e-9*unit, msg='profile of lines given in part', given=list(kw))
    mon.ev('line', 2)

    def box(xx, m, v, fl):
        return np.where(np.abs(xx-m) < v/ref1d.C_KMS*m, fl, 0.)
    bx = EmissionLines1DModel(profile_function=box, name=nm)
    bx.make1DProfile(x, z, 4*disp, unit)
    w = sum(box(x, a*(1+z), 4*disp, b*unit) for a, b in zip(*ref1d.TABLE[nm]))
    mon.close('profile function', bx.profile, w, rtol=1e-9, atol=1e-12*unit, msg='the given profile function is not used')
    mon.ev('line', 3)
    # total flux
    s = disp/ref1d.C_KMS*lo*(1+z)
    xx = np.arange((lo)*(1+z)-12*s*hi/lo, hi*(1+z)+12*s*hi/lo, s/4.) if (hi-lo)*(1+z)/s < 5e4 else None
    if xx is not None:
        one.make1DProfile(xx, z, disp, unit)
        mon.close('flux', one.profile.sum()*s/4., unit*sum(ref1d.TABLE[nm][1]), rtol=1e-6, msg='total flux of a line group')
    mon.check('x', np.array_equal(x, x0), 'wavelengths were modified')


def run_fit(case, mon):
    c = case['cfg']
    d = ref1d.raw(c)
    ind, mask = ref1d.ref_mask(c, d)
    mon.sig('fit', tuple(c['names']), c['order'], c['range'], c['garbage'], tuple(c['edges']), c['noisy'])
    g = ref1d.galaxy(c, d)
    before = {k: getattr(g.spec1D, k).copy() for k in ('wave', 'flux', 'flux_err', 'spec_mask')}
    F = ref1d.fitter(c, d, mon, g=g)
    s = g.spec1D_trim
    mon.ev('spectrum')
    for k, want in (('wave', d['wave'][ind]), ('obswave', d['wave'][ind]), ('flux', d['flux'][ind]), ('flux_err', d['err'][ind]), ('spec_mask', mask)):
        mon.check('trim', np.array_equal(np.asarray(getattr(s, k), dtype=float), want), 'the trimmed 1D spectrum is wrong: '+k, range=c['range'])
    mon.close('restwave', s.restwave, d['wave'][ind]/(1+c['z']), rtol=1e-12, msg='rest wavelengths of the trimmed spectrum')
    F.fit(noErrors=True, noPlot=True)
    mon.ev('fit')
    mon.check('pure', all(np.array_equal(before[k], getattr(g.spec1D, k)) for k in before), 'the fit modifies the observed 1D spectrum')
    n = len(c['names'])
    tz, td, tf, tc = ref1d.truth(c)
    best = np.array([F.z, F.vel_disp] + list(F.flux_arr) + list(F.cont_coeff))
    gp = ind[mask == 1]

    def chi2(q):
        m = ref1d.model(d['wave'][gp], c['names'], q[0], q[1], q[2:2+n], q[2+n:])
        return np.sum(((m-d['flux'][gp])/d['err'][gp])**2)
    p, sg = ref1d.fisher(c, d, ind, mask)
    strong = abs(tf[0])/sg[2] > 8. and len(gp) > len(p)+10
    c_fit, c_true = chi2(best), chi2(p)
    mon.close('final model', F.final_model, ref1d.model(s.obswave, c['names'], F.z, F.vel_disp, F.flux_arr, F.cont_coeff), rtol=1e-8, atol=1e-8,
              scale=np.max(np.abs(d['model'])), msg='the final model is not the model of the best fit')
    mon.check('errors', np.all(F.z_err == 0) and np.all(F.vel_disp_err == 0) and F.flux_arr_err.shape == (n, 2) and not F.flux_arr_err.any()
              and F.cont_coeff_err.shape == (c['order']+1, 2), 'errors without error calculation are not zero')
    if strong:
        mon.check('minimum', c_fit <= c_true + 0.05 + 1e-3*c_true, 'the fit is worse than the truth', chi2=c_fit, true=c_true, best=best, truth=p)
        mon.ev('recovered')
        if c['noisy']:
            dev = (best-p)/sg
            # polynomial coefficients are degenerate with each other: compare the continuum at the line instead
            mon.check('recovered', np.all(np.abs(dev[:2+n]) < 6.), 'fitted values are off the truth', dev=dev, best=best, truth=p)
        else:
            mon.check('recovered', np.all(np.abs(best-p)[:2+n] < 0.02*sg[:2+n]*c['snr']/15.), 'noise-free values are not recovered', best=best, truth=p, sg=sg)
    # relations
    rel = {}
    fl, er = ref1d.spoil(c, d, 1)
    rel['masked garbage'] = (ref1d.fitter(c, d, mon, g=ref1d.galaxy(c, d, fl, er)), 1., list(range(n)))
    k = gen.pick(gen.rng_for('k', c['seed']), [1e-3, 7., 40.])
    G = ref1d.galaxy(c, d, d['flux']*k, d['err']*k)
    rel['flux scale'] = (ref1d.fitter(c, d, mon, g=G, scale=k), k, list(range(n)))
    if c['range'] == 'explicit':
        # a galaxy that has already been fit with other settings
        S = ref1d.galaxy(c, d)
        lo, hi = ref1d.window(c)
        H = ref1d.fitter(c, d, mon, g=S, trim_restwave_range=[lo+4., hi-7.])
        H.fit(noErrors=True, noPlot=True)
        H = ref1d.fitter(c, d, mon, g=S)
        for key in ('wave', 'obswave', 'flux', 'flux_err', 'spec_mask'):
            mon.same('refit spectrum', getattr(S.spec1D_trim, key), getattr(s, key), 'an earlier fit of the galaxy changes the spectrum fitted')
        rel['fit before'] = (H, 1., list(range(n)))
    if n > 1 and c['range'] == 'explicit':
        nm = c['names'][::-1]
        if abs(ref1d.TABLE[nm[0]][0][0]/ref1d.TABLE[c['names'][0]][0][0]-1) < 0.4:
            rel['group order'] = (ref1d.fitter(c, d, mon, names=nm), 1., list(range(n))[::-1])
    for key, (H, k, o) in rel.items():
        H.fit(noErrors=True, noPlot=True)
        mon.ev('relation')
        h = np.array([H.z, H.vel_disp] + [H.flux_arr[i]/k for i in o] + list(np.asarray(H.cont_coeff)/k))
        if key == 'masked garbage':
            mon.close(key, h, best, rtol=1e-6, msg='masked pixels influence the fit')
        elif strong:
            mon.check(key, np.all(np.abs(h-best)[:2+n] < 0.05*sg[:2+n]), 'the fit changes with the '+key, h=h, best=best, sg=sg)
    # repeating a fit gives the same result
    F.fit(noErrors=True, noPlot=True)
    if strong:
        again = np.array([F.z, F.vel_disp] + list(F.flux_arr))
        mon.check('again', np.all(np.abs(again-best[:2+n]) < 0.05*sg[:2+n]), 'repeating the fit changes it', again=again, best=best)
    mon.ev('relation')


def warmup():
    c = ref1d.cfg(gen.rng_for('warm'), range='explicit')
    with core.quiet():
        import misfit.model.emission_lines_model  # noqa: F401
