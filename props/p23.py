"""P23: lookups of lines, ranges and cutoffs."""
import os

import numpy as np

from rvlib import fits, gen, prep, ref1d

TECHNIQUE = ('runtime monitor: lookups of the real readers in generated parameter files (order, spacing, comments, look-alike names) and in the shipped tables, and '
             'spectra prepared with every mix of explicit, file and default settings, judged by the generated tables and by the same preparation with explicit values')
NOTE = 'Held on the files, names and settings observed; values are compared exactly.'
RULE = ('random tables (1-12 entries with look-alike names, in any order, spacing and number format), all shipped entries, and random sources (explicit, user file, default) '
        'for each setting of a spectrum; distinct: reader, spacing, position of the entry, sources')
MIN = {'lookup': 1500, 'missing': 300, 'shipped': 40, 'lineset': 60, 'prepared': 25, 'fit': 10, '1d': 25}
N = {'quick': (60, 80, 36, 30), 'thorough': (800, 1500, 500, 300)}


def cases(tier, seed):
    a, b, c, d = N[tier]
    out = [{'kind': 'shipped', 'seed': 0}]
    for kind, n in (('files', a), ('lineset', b), ('prep', c), ('line1d', d)):
        for i in range(n):
            out.append({'kind': kind, 'seed': i, 'rs': int(gen.rng_for('P23' + kind, seed, i).integers(1 << 30))})
    for i, x in enumerate(out):
        if x['kind'] == 'prep':
            r = gen.rng_for('P23c', seed, i)
            x['cfg'] = prep.cfg(r, explicit=False, delt_PA=20., snr=30., cover='full')
    return out


BASE = ['HA6565', 'OIII', 'K', 'LA', 'X1', 'HB4863', 'NII', 'SII_6718', 'J2', 'b']


def names(r, n, other=()):
    """n different names, with look-alikes (prefixes, suffixes, case)"""
    out = []
    while len(out) < n:
        if out and r.random() < 0.6:
            b = out[int(r.integers(len(out)))]
            u = gen.pick(r, [b + '1', b + 'b', b[:-1], b.lower(), b.upper(), 'x' + b, b + b, b + '_' + b])
        else:
            u = gen.pick(r, BASE)
        if len(u) and u not in out and u not in other and not u[0].isdigit() and u.lower() not in ('nan', 'inf', 'name', 'band', 'linename'):
            out.append(u)
    return out


def number(r, v):
    """text of a number, and its value"""
    t = gen.pick(r, ['%.2f', '%.6f', '%.3e', '%r', '%.10g']) % v
    if r.random() < 0.1:
        t = '%d.' % round(v)
    return t, float(t)


def write(r, filename, cols, rows, style=None):
    """Write a parameter file: commented header, rows of texts"""
    style = style or gen.pick(r, ['one', 'many', 'tab', 'mixed'])
    sep = {'one': lambda: ' ', 'many': lambda: ' '*int(r.integers(2, 9)), 'tab': lambda: '\t', 'mixed': lambda: gen.pick(r, [' ', '   ', '\t', ' \t '])}[style]
    lines = ['# ' + sep().join(cols)]
    for row in rows:
        if r.random() < 0.15:
            lines.append('# comment ' + ' '.join(row[:2]))
        if r.random() < 0.1:
            lines.append('')
        lines.append((sep() if r.random() < 0.2 else '') + sep().join(row) + (sep() if r.random() < 0.2 else ''))
    if r.random() < 0.2:
        lines.append('#' + sep().join(rows[0]))
    with open(filename, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if r.random() < 0.8 else ''))
    return style


def run(case, mon):
    r = np.random.default_rng(case.get('rs', 0))
    {'shipped': shipped, 'files': files, 'lineset': lineset, 'prep': prepared, 'line1d': line1d}[case['kind']](case, mon, r)


def shipped(case, mon, r):
    from misfit.general import io
    P = io.get_param_filename
    for g, (w, ra) in ref1d.TABLE.items():
        got = io.read_line_names(P('line_names_cat.dat'), name=g)
        mon.ev('shipped')
        mon.sig('shipped', g)
        waves = [float(io.read_restwave(P('line_wavelengths_ratios.dat'), linename=x)) for x in got]
        ratios = [float(io.read_line_ratio(P('line_wavelengths_ratios.dat'), linename=x)) for x in got]
        mon.close('shipped', sorted(waves), sorted(w), rtol=1e-12, msg='rest wavelengths of the group', group=g)
        mon.check('primary', ratios[0] == 1. == max(ratios), 'the first line is not the primary one', group=g, lines=got, ratios=ratios)
        for x, a, b in zip(got, waves, ratios):
            k = int(np.argmin(np.abs(np.array(w)-a)))
            mon.ev('shipped', 2)
            mon.close('shipped ratio', b, ra[k], rtol=1e-12, msg='flux ratio', line=x)
            mon.check('name', x.endswith(str(int(round(a-0.01)))) or abs(int(x[-4:])-a) < 1., 'the name of a line does not tell its wavelength', line=x, wave=a)
    for table, f in ((prep.FULL, 'full_range_restwave_2D.param'), (prep.LINE, 'line_range_restwave_2D.param'), (prep.MASK, 'mask_lines_range_restwave_2D.param')):
        for g, want in table.items():
            line = io.read_line_names(P('line_names_cat.dat'), name=g)[0]
            mon.ev('shipped')
            mon.same('shipped range', io.read_wave_range(P(f), linename=line), np.array(want), 'range of ' + f + ' ' + g)
    for g, want in ref1d.RANGES.items():
        mon.ev('shipped')
        mon.same('shipped range 1D', io.read_wave_range(P('trim_wavelengths_1D.param'), linename=g), np.array(want), 'range of ' + g)
    for b, want in prep.CUTOFF.items():
        got = io.read_skyline_band_cutoff(P('band_sky_cutoff_mosfire.dat'), band=b)
        mon.ev('shipped')
        mon.check('shipped cutoff', float(got[0]) == want and got[1] == 'timesMedianErr', 'skyline cutoff', band=b, got=[str(x) for x in got])


def files(case, mon, r):
    from misfit.general import io
    for kind in ('names', 'restwave', 'ratio', 'range', 'cutoff'):
        n = int(gen.pick(r, [1, 2, 3, 5, 12]))
        keys = names(r, n)
        absent = names(r, 4, keys)
        fn = os.path.join(mon.tmp, kind + '.dat')
        vals, rows = {}, []
        if kind == 'names':
            cols = ['name', 'lineset']
            for k in keys:
                ls = names(r, int(gen.pick(r, [1, 1, 2, 3, 5])))
                vals[k] = ls
                rows.append([k, ','.join(ls)])
            rd = lambda k: list(io.read_line_names(fn, name=k))
        else:
            cols = {'restwave': ['linename', 'restwave', 'strength'], 'ratio': ['linename', 'restwave', 'strength'], 'range': ['linename', 'wave_l', 'wave_u'],
                    'cutoff': ['band', 'sn_cutoff', 'units']}[kind]
            order = list(range(len(cols)))
            if r.random() < 0.3:
                order = [order[j] for j in r.permutation(len(cols))]
            for k in keys:
                t1, v1 = number(r, float(r.uniform(1000., 9000.)))
                t2, v2 = number(r, float(r.uniform(0.01, 2.)))
                t3, v3 = number(r, v1 + float(r.uniform(1., 300.)))
                u = gen.pick(r, ['timesMedianErr', 'abs', 'u_' + k])
                row = {'restwave': [k, t1, t2], 'ratio': [k, t1, t2], 'range': [k, t1, t3], 'cutoff': [k, t2, u]}[kind]
                vals[k] = {'restwave': v1, 'ratio': v2, 'range': [v1, v3], 'cutoff': [v2, u]}[kind]
                rows.append([row[j] for j in order])
            cols = [cols[j] for j in order]
            rd = {'restwave': lambda k: float(io.read_restwave(fn, linename=k)), 'ratio': lambda k: float(io.read_line_ratio(fn, linename=k)),
                  'range': lambda k: [float(x) for x in io.read_wave_range(fn, linename=k)],
                  'cutoff': lambda k: (lambda q: [float(q[0]), str(q[1])])(io.read_skyline_band_cutoff(fn, band=k))}[kind]
        style = write(r, fn, cols, rows)
        text = open(fn).read()
        for j in r.permutation(n):
            k = keys[j]
            mon.ev('lookup')
            mon.sig('lookup', kind, style, min(n, 3), j == 0, j == n-1)
            got = rd(k)
            mon.check(kind, got == vals[k], '%s: the entry is not that of the name' % kind, name=k, got_=got, want_=vals[k], file=text)
            mon.check(kind + ' again', rd(k) == got, '%s: a second lookup differs' % kind, name=k)
        for k in absent:
            mon.ev('missing')
            mon.raises('missing', ValueError, lambda: rd(k), '%s: a name that is not in the file is found: %s' % (kind, k))
        mon.check('file', open(fn).read() == text, 'the file is modified')
        # an entry doesn't depend on the order of the file
        write(r, fn, cols, [rows[j] for j in r.permutation(n)])
        for k in keys:
            mon.ev('lookup')
            got = rd(k)
            mon.check(kind + ' order', got == vals[k], '%s: the entry depends on the order of the file' % kind, name=k, got_=got, want_=vals[k])


def setfiles(r, tmp, group, lines, waves, ratios):
    """User files with a line group, its lines and others"""
    dec = names(r, 3, [group] + lines)
    ng = os.path.join(tmp, 'n%d.dat' % r.integers(1 << 30))
    wg = os.path.join(tmp, 'w%d.dat' % r.integers(1 << 30))
    rows = [[group, ','.join(lines)]] + [[x, ','.join(names(r, 2))] for x in dec[:int(r.integers(0, 3))]]
    write(r, ng, ['name', 'lineset'], [rows[j] for j in r.permutation(len(rows))])
    rows = [[l, repr(float(w)), repr(float(x))] for l, w, x in zip(lines, waves, ratios)] + [[x, '%.2f' % r.uniform(1000, 9000), '0.5'] for x in dec[:int(r.integers(0, 4))]]
    write(r, wg, ['linename', 'restwave', 'strength'], [rows[j] for j in r.permutation(len(rows))])
    return ng, wg


def lineset(case, mon, r):
    """The line set and cutoff of a spectrum: explicit values, user files and defaults."""
    from misfit.galaxy import ObsSpectrum2D
    for _ in range(3):
        user = bool(r.random() < 0.6)
        src = {k: gen.pick(r, ['explicit', 'file', 'file']) for k in ('names', 'waves', 'ratios', 'cut')}
        kw = {}
        if user:
            n = int(gen.pick(r, [1, 2, 3]))
            group = names(r, 1)[0]
            lines = names(r, n, [group])
            waves = [round(float(x), 3) for x in r.uniform(2000, 9000, n)]
            ratios = [1.] + [round(float(x), 4) for x in r.uniform(0.1, 0.9, n-1)]
        else:
            group = gen.pick(r, sorted(ref1d.TABLE))
            from misfit.general import io
            lines = list(io.read_line_names(io.get_param_filename('line_names_cat.dat'), name=group))
            T = dict(zip([int(w) for w in ref1d.TABLE[group][0]], zip(*ref1d.TABLE[group])))
            o = sorted(T.values(), key=lambda q: -q[1])
            waves, ratios = [q[0] for q in o], [q[1] for q in o]
        kw['linegroup_name'] = group
        exp_w, exp_r = list(waves), list(ratios)
        if user:
            ng, wg = setfiles(r, mon.tmp, group, lines, waves, ratios)
            kw.update(linenames_param_filename=ng, restwave_param_filename=wg)
        if src['names'] == 'explicit':
            kw['linenames_arr'] = list(lines)
            if r.random() < 0.5:
                kw['linegroup_name'] = gen.pick(r, [None, 'Halpha'])
        if src['waves'] == 'explicit':
            exp_w = [w+round(float(r.uniform(-1, 1)), 3) for w in waves]
            kw['restwave_arr'] = np.array(exp_w)
        if src['ratios'] == 'explicit':
            exp_r = [x*0.9 for x in ratios]
            kw['flux_ratio_arr'] = np.array(exp_r)
        if user and 'explicit' == src['names'] == src['waves'] == src['ratios'] and r.random() < 0.5:
            kw.pop('linenames_param_filename'), kw.pop('restwave_param_filename')        # nothing has to be looked up
        band = gen.pick(r, ['K', 'H', 'J', 'Y']) if not user else names(r, 1)[0]
        cut, units = prep.CUTOFF.get(band, 2.), 'timesMedianErr'
        if user or r.random() < 0.5:
            cut, units = round(float(r.uniform(1, 5)), 2), 'abs'
            fn = os.path.join(mon.tmp, 'b%d.dat' % r.integers(1 << 30))
            rows = [[band, '%r' % cut, units]] + [[x, '9.', 'other'] for x in names(r, 2, [band])]
            write(r, fn, ['band', 'sn_cutoff', 'units'], [rows[j] for j in r.permutation(len(rows))])
            kw['band_cutoff_param_filename'] = fn
        if src['cut'] == 'explicit':
            cut, units = 3.3, None
            kw['band_cutoff'] = cut
        s = ObsSpectrum2D(band=band, wave=np.arange(30.)+20000., flux=np.ones((5, 30)), flux_err=np.ones((5, 30)), **kw)
        for again in (False, True):
            s.initialize_lineset()
            s.initialize_skylevels()
            mon.ev('lineset')
            mon.sig('lineset', user, tuple(sorted(src.items())), len(lines))
            ctx = dict(sources=src, user=user, group=group, again=again)
            mon.check('names', list(s.linenames_arr) == lines, 'names of the lines', got_=list(s.linenames_arr), want_=lines, **ctx)
            mon.check('waves', [float(x) for x in s.restwave_arr] == exp_w, 'rest wavelengths', got_=[float(x) for x in s.restwave_arr], want_=exp_w, **ctx)
            mon.check('ratios', [float(x) for x in s.flux_ratio_arr] == exp_r, 'flux ratios', got_=[float(x) for x in s.flux_ratio_arr], want_=exp_r, **ctx)
            mon.check('cutoff', float(s.band_cutoff) == cut and (units is None or s.band_cutoff_units == units), 'skyline cutoff', got_=float(s.band_cutoff), want_=cut, band=band, **ctx)


def prepared(case, mon, r):
    """The same preparation with explicit settings, user files and defaults."""
    from misfit.fit import FitEmissionLines2D
    c = case['cfg']
    d = prep.raw(c)
    f, l, m, cut = prep.ranges(c)
    waves, ratios = prep.LINES[c['group']], prep.RATIOS[c['group']]
    user = bool(case['seed'] % 2)
    if user:
        f, l, m, cut = f + np.array([1.25, -1.75]), l + np.array([0.625, -0.25]), m + np.array([-1.5, 2.25]), cut*1.5
    ex = dict(linegroup_name=None, linenames_arr=['Q%d' % i for i in range(len(waves))], restwave_arr=np.array(waves), flux_ratio_arr=np.array(ratios),
              wave_full_range_rest=f, wave_line_range_rest=l, mask_lines_wave_range_rest=m, band_cutoff=cut)

    def setup(kw, how, drop=True):
        gal, ins = prep.make(c, d)
        gal.spec2D.linegroup_name = None
        fkw = {}
        for k, v in kw.items():
            if k in how:
                fkw[k] = v
            elif hasattr(gal.spec2D, k):
                setattr(gal.spec2D, k, v)
            else:
                mon.check('attribute', False, 'no setting ' + k)
        if how is not None and how is not NOFIT:
            fit = FitEmissionLines2D(galaxy=gal, instrument=ins, **fkw)
            mon.ev('fit')
            return gal, ins, fit
        gal.spec2D.fit_prep_calcs(gal, ins)
        return gal, ins, None
    ref, _, _ = setup(ex, NOFIT)
    group = names(r, 1)[0] if user else c['group']
    kw = {'linegroup_name': group}
    src = {}
    if user:
        lines = names(r, len(waves), [group])
        ng, wg = setfiles(r, mon.tmp, group, lines, waves, ratios)
        for k, (alt, v) in {'linenames_param_filename': ('linenames_arr', lines), 'restwave_param_filename': ('restwave_arr', np.array(waves))}.items():
            src[k] = gen.pick(r, ['file', 'file', 'explicit'])
            kw[k] = {'linenames_param_filename': ng, 'restwave_param_filename': wg}[k]
            if src[k] == 'explicit':
                kw[alt] = v
        for k, v in (('wave_full_range_rest', f), ('wave_line_range_rest', l), ('mask_lines_wave_range_rest', m)):
            src[k] = gen.pick(r, ['file', 'file', 'explicit'])
            if src[k] == 'explicit':
                kw[k] = v
            if src[k] == 'file' or r.random() < 0.5:
                fn = os.path.join(mon.tmp, k + '.param')
                w = v if src[k] == 'file' else v + 3.
                rows = [[lines[0], repr(float(w[0])), repr(float(w[1]))]] + [[x, '100.', '200.'] for x in names(r, 2, lines[:1])]
                write(r, fn, ['linename', 'wave_l', 'wave_u'], [rows[j] for j in r.permutation(len(rows))])
                kw[k + '_param_filename'] = fn
        src['cut'] = gen.pick(r, ['file', 'explicit'])
        if src['cut'] == 'explicit':
            kw['band_cutoff'] = cut
        else:
            band = prep.GROUPS[c['group']][1]
            fn = os.path.join(mon.tmp, 'cut.dat')
            rows = [[band, repr(float(cut)), 'timesMedianErr']] + [[x, '9.', 'other'] for x in names(r, 2, [band])]
            write(r, fn, ['band', 'sn_cutoff', 'units'], [rows[j] for j in r.permutation(len(rows))])
            kw['band_cutoff_param_filename'] = fn
    how = gen.pick(r, [NOFIT, ['linegroup_name'], ['linegroup_name'], [], ['linegroup_name', 'linenames_arr', 'restwave_arr']])
    gal, ins, fit = setup(kw, how)
    mon.ev('prepared')
    mon.sig('prep', c['group'], user, tuple(sorted(src.items())), str(how))
    a, b = gal.spec2D, ref.spec2D
    ctx = dict(sources=src, how=str(how), group=c['group'])
    if user:
        mon.check('prep names', list(a.linenames_arr) == lines, 'names of the lines', got_=list(a.linenames_arr), want_=lines, **ctx)
    for k in ('restwave_arr', 'flux_ratio_arr', 'wave_full_range_rest', 'wave_line_range_rest', 'mask_lines_wave_range_rest'):
        mon.same(k, np.asarray(getattr(a, k), float), np.asarray(getattr(b, k), float), '%s differs from the explicit values (%s)' % (k, ctx))
    mon.check('band_cutoff', float(a.band_cutoff) == float(cut), 'skyline cutoff', got_=float(a.band_cutoff), want_=float(cut), **ctx)
    for k in ('wave', 'flux', 'flux_err', 'spec_mask', 'spec_weight', 'cont_model', 'mask_sky'):
        mon.same('prepared ' + k, np.asarray(getattr(a, k)), np.asarray(getattr(b, k)), '%s of the preparation differs from that with explicit values (%s)' % (k, ctx))
    mon.check('prepared m0', a.m0 == b.m0 and a.lam0 == b.lam0 and float(ref.z) == float(gal.z), 'position of the object differs from that with explicit values', **ctx)
    if fit is not None:
        mon.check('fit names', list(fit.linenames_arr) == list(a.linenames_arr), 'line names of the fit and its spectrum differ', got_=list(fit.linenames_arr))
        mon.same('fit waves', np.asarray(fit.restwave_arr, float), np.asarray(a.restwave_arr, float), 'rest wavelengths of the fit and its spectrum differ')
        mon.same('fit ratios', np.asarray(fit.flux_ratio_arr, float), np.asarray(a.flux_ratio_arr, float), 'flux ratios of the fit and its spectrum differ')


NOFIT = ['(no fit)']


def line1d(case, mon, r):
    """1D line sets and trim ranges."""
    from misfit.model.emission_lines_model import EmissionLines1DModel
    from misfit.galaxy import Galaxy, ObsSpectrum1D
    g = gen.pick(r, sorted(ref1d.TABLE))
    w, ra = ref1d.TABLE[g]
    L = EmissionLines1DModel(name=g)
    mon.ev('1d')
    mon.sig('1d', g)
    mon.close('1d', sorted(float(x) for x in L.restwave_arr), sorted(w), rtol=1e-12, msg='rest wavelengths of the 1D lines', group=g)
    for x, y in zip(L.restwave_arr, L.flux_ratio_arr):
        mon.close('1d ratio', float(y), ra[int(np.argmin(np.abs(np.array(w)-x)))], rtol=1e-12, msg='flux ratios of the 1D lines', group=g)
    n = len(w)
    xw, xr = np.array(L.restwave_arr)*1.01, np.array(L.flux_ratio_arr)*0.7
    for kw in ({'restwave_arr': xw}, {'flux_ratio_arr': xr}, {'restwave_arr': xw, 'flux_ratio_arr': xr}):
        M = EmissionLines1DModel(name=g, **{k: v.copy() for k, v in kw.items()})
        mon.ev('1d')
        mon.sig('1d explicit', n, tuple(sorted(kw)))
        mon.same('1d explicit waves', np.asarray(M.restwave_arr, float), kw.get('restwave_arr', np.array(L.restwave_arr)), 'explicit 1D rest wavelengths (given: %s)' % sorted(kw))
        mon.same('1d explicit ratios', np.asarray(M.flux_ratio_arr, float), kw.get('flux_ratio_arr', np.array(L.flux_ratio_arr)), 'explicit 1D flux ratios (given: %s)' % sorted(kw))
    # trim ranges, 1D and 2D
    z = float(r.uniform(0.2, 3.))
    lines = names(r, int(gen.pick(r, [1, 3, 6])))
    lam = np.sort(r.uniform(4000., 5000., 200))*(1+z)
    rng = {x: sorted(round(float(v), 3) for v in r.uniform(4050., 4950., 2)) for x in lines}
    fn = os.path.join(mon.tmp, 'trim.param')
    write(r, fn, ['linename', 'wave_l', 'wave_u'], [[x, repr(a), repr(b)] for x, (a, b) in rng.items()])
    from misfit.galaxy import ObsSpectrum2D
    gal = Galaxy(ID=1, z=z)
    for x in lines:
        a, b = rng[x]
        keep = (lam >= a*(1+z)) & (lam <= b*(1+z))
        if not keep.any():
            continue
        mon.ev('1d')
        s1 = ObsSpectrum1D(band='K', wave=lam.copy(), flux=np.arange(200.), flux_err=np.ones(200))
        s1.load_basic_defaults(gal)
        t = s1.trim_spectrum_wavelength(gal, param_restwave_filename=fn, linename=x)
        mon.same('1d trim', t.flux, np.arange(200.)[keep], 'columns within the range of the line in the file')
        mon.check('1d input', len(s1.flux) == 200, 'the input spectrum is trimmed')
        t = s1.trim_spectrum_wavelength(gal, trim_restwave_range=[4300., 4600.], param_restwave_filename=fn, linename=x)
        mon.same('1d trim explicit', t.flux, np.arange(200.)[(lam >= 4300.*(1+z)) & (lam <= 4600.*(1+z))], 'columns within the explicit range (a file is given, too)')
        s2 = ObsSpectrum2D(band='K', wave=lam.copy(), flux=np.arange(600.).reshape(3, 200), flux_err=np.ones((3, 200)),
                           spec_mask=np.ones((3, 200)), spec_weight=np.ones((3, 200)))
        s2.load_basic_defaults(gal)
        t = s2.trim_spectrum_wavelength(gal, param_restwave_filename=fn, linename=x, inplace=False)
        mon.same('2d trim', t.flux, np.arange(600.).reshape(3, 200)[:, keep], 'columns within the range of the line in the file (2D)')
