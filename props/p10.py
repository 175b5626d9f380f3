"""P10: continuum subtraction removes exactly the fitted linear continuum."""
import numpy as np

from rvlib import core, fits, gen, prep

TECHNIQUE = ('runtime monitor on the continuum subtraction of synthetic observations: the continuum model is compared with an independent closed-form '
             'weighted least-squares reference, plus metamorphic relations (garbage in masked pixels, line emission, linearity, exact removal)')
NOTE = 'Held on the observations prepared; the reference agrees to 1e-6 of the error of a pixel.'
RULE = ('random slit observations (coverage on both/one side of the line, skylines, masks, missing data, edges, units, slopes), each with a related '
        'second observation; distinct: qualitative choices and relation')
MIN = {'subtracted': 300, 'rows': 5000, 'slope free': 60, 'slope fixed': 20, 'no continuum': 30, 'relation': 100}
N = {'quick': 300, 'thorough': 5000}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P10', seed, i)
        rel = ['reference', 'garbage', 'line', 'linear', 'exact', 'nocont'][i % 6]
        kw = {'weighting': 'none', 'nocont': rel == 'nocont'}
        if rel in ('garbage', 'line', 'linear'):
            kw['cover'] = gen.pick(r, ['full', 'wide', 'full', 'left'])
        if rel == 'exact':
            kw.update(noise=0., same_slope=True, cover=gen.pick(r, ['full', 'wide']))
        if rel == 'nocont':
            kw['no1d'] = bool(r.integers(2))
        out.append({'kind': rel, 'cfg': prep.cfg(r, **kw), 'seed': i})
    return out


def subtract(c, d, **attrs):
    """-> dict of the arrays after subtracting the continuum of the observation."""
    from misfit.galaxy import ObsSpectrum2D
    gal, ins = prep.make(c, d)
    for k, v in attrs.items():
        setattr(gal.spec2D, k, v)
    out = {}

    def after(tok, a, k, r):
        s = a[0]
        if out:
            return
        for nm in ('wave', 'flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_mask', 'spec_weight', 'median_flux_error'):
            out[nm] = np.copy(getattr(s, nm))
        if gal.spec1D is not None:
            out['w1'] = np.copy(gal.spec1D.wave)
            out['f1'] = np.copy(gal.spec1D.flux)
    with core.observe(ObsSpectrum2D, 'subtract_continuum', after=after):
        gal.spec2D.fit_prep_calcs(gal, ins)
    return out


def run(case, mon):
    c = case['cfg']
    d = prep.raw(c)
    kind = case['kind']
    f, l, m, cut = prep.ranges(c)
    z1, w = 1+c['z'], d['wave']
    full = np.where((w >= f[0]*z1) & (w <= f[1]*z1))[0]
    r = gen.rng_for('P10run', case['seed'])
    o = subtract(c, d)
    mon.ev('subtracted')
    mon.sig(kind, *prep.sig(c))
    fin = np.isfinite(d['err']) & (d['err'] > 0)
    e = float(np.median(d['err'][fin]))
    mon.same('columns', o['wave'], w[full], 'columns after the continuum subtraction')
    if len(o['wave']) != len(full):
        return
    good = np.isfinite(d['flux'][:, full])
    mon.same('included', o['flux_incl_cont'][good], d['flux'][:, full][good], 'continuum-included flux is not the input')
    if kind == 'nocont':
        mon.ev('no continuum')
        mon.same('nocont flux', o['flux'], o['flux_incl_cont'], 'flux changes without continuum subtraction')
        mon.check('nocont model', not np.any(o['cont_model']), 'a continuum without continuum subtraction')
        want = prep.ref_input_mask(c, d)[0][:, full]
        mon.same('nocont mask', o['spec_mask'], want, 'mask without continuum subtraction')
        return
    cont, det, med, mask, m1 = prep.ref_continuum(c, d)
    mon.close('median error', o['median_flux_error'], med, rtol=1e-10, msg='median error of the columns')
    mon.same('mask', o['spec_mask'], mask[:, full], 'mask after the continuum subtraction')
    mon.ev('rows', int(det.sum()))
    sl = np.polyfit(o['wave']-o['wave'].mean(), o['cont_model'][det][0], 1)[0] if det.any() else 0.
    span = o['wave'][-1]-o['wave'][0]
    mon.ev('slope free' if abs(sl)*span > 1e-9*e else 'slope fixed')
    mon.close('continuum', o['cont_model'][det], cont[:, full][det], rtol=0., atol=1e-6*e, msg='continuum model of the rows')
    mon.close('difference', o['flux'], o['flux_incl_cont']-o['cont_model'], rtol=0., atol=1e-9*e, msg='flux is not input - continuum')
    slopes = np.diff(o['cont_model'][:, [0, -1]], axis=1)[:, 0]/span
    mon.close('one slope', slopes*span, np.full(len(slopes), slopes[0]*span), rtol=0., atol=1e-7*e, msg='rows have different slopes')
    mid = o['cont_model'][:, 0:1] + slopes[:, None]*(o['wave']-o['wave'][0])[None, :]
    mon.close('straight', o['cont_model'], mid, rtol=0., atol=1e-7*e, msg='the continuum is not a straight line')
    if kind == 'garbage':
        # whatever masked or missing pixels hold
        d2 = {k: prep.cp(v) for k, v in d.items()}
        sel = (mask == 0.) & np.isfinite(d['flux']) & (d['mask'] == 0.)
        d2['flux'][sel] = gen.pick(r, [1e5*e, -3e4*e, np.nan])
        if np.isfinite(d2['flux']).all() and d['weight'] is not None:
            d2['flux'][d['weight'] == 0.] *= 7.
        bad1 = (m1 == 0.) & np.isfinite(d['f1'])
        d2['f1'][bad1] = 1e5*e
        o2 = subtract(c, d2)
        mon.ev('relation')
        mon.close('garbage', o2['cont_model'][det], o['cont_model'][det], rtol=0., atol=1e-6*e, msg='masked pixels influence the continuum')
    elif kind == 'line':
        # emission within the line mask range
        d2 = {k: prep.cp(v) for k, v in d.items()}
        k = (w >= m[0]*z1) & (w <= m[1]*z1)
        d2['flux'][:, k] += 50*e*r.standard_normal((c['nrows'], int(k.sum())))
        d2['f1'][k] += 80*e
        o2 = subtract(c, d2)
        mon.ev('relation')
        mon.close('line', o2['cont_model'][det], o['cont_model'][det], rtol=0., atol=1e-6*e, msg='line emission influences the continuum')
    elif kind == 'linear':
        a = gen.uni(r, 0.3, 4.)
        t0, t1 = gen.uni(r, -20, 20)*e, gen.uni(r, -20, 20)*e
        x = (w-w.mean())/(w[-1]-w[0])
        d2 = {k: prep.cp(v) for k, v in d.items()}
        d2['flux'] = a*d['flux'] + t0 + t1*x[None, :]
        d2['f1'] = a*d['f1'] + t1*x
        o2 = subtract(c, d2)
        mon.ev('relation')
        if abs(sl)*span > 1e-9*e:
            want = a*o['cont_model'] + t0 + t1*x[full][None, :]
            mon.close('linear', o2['cont_model'][det], want[det], rtol=0., atol=1e-6*e, msg='adding a linear continuum and scaling the data')
        # only the errors' ratios matter (with the skyline selection relative to the median)
        d3 = {k: prep.cp(v) for k, v in d.items()}
        b = gen.pick(r, [0.01, 3., 1e4])
        d3['err'], d3['e1'] = d['err']*b, d['e1']*b
        o3 = subtract(c, d3)
        mon.close('error scale', o3['cont_model'][det], o['cont_model'][det], rtol=0., atol=1e-6*e, msg='scaling all errors changes the continuum')
    elif kind == 'exact':
        mon.ev('relation')
        k = np.isfinite(d['flux'][:, full]) & (mask[:, full] > 0)
        lineok = not c['explicit'] or c['group'] != 'OIII'
        if lineok and abs(sl)*span > 1e-9*e and med > 0:
            # a slope common to all rows and the 1D spectrum, no noise: everything but the line goes
            res = o['flux'] - d['line'][:, full]
            rows = det & (np.abs(d['line'][:, (w < m[0]*z1) | (w > m[1]*z1)]).max(axis=1) < 1e-9*e)
            mon.ev('exact rows', int(rows.sum()))
            mon.close('exact', np.where(k, res, 0.)[rows], np.zeros_like(res)[rows], rtol=0., atol=1e-5*e, msg='linear continuum is left over')


def warmup():
    c = prep.cfg(gen.rng_for('warm'))
    gal, ins = prep.make(c)
    gal.spec2D.fit_prep_calcs(gal, ins)
