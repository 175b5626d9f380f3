"""P16: every dispersion aperture correction computed is judged against the documented integral."""
import numpy as np

from rvlib import gen, refap

TECHNIQUE = 'runtime monitor: reference-integral oracle and metamorphic monitors on recorded aperture-correction executions'
NOTE = ('Held on the executions observed: aperture and reference dispersions agree with an independently coded luminosity-weighted '
        'integral to 1e-8 (its own grid; 1e-5 for the 1D radial integral) and with a ray-wise continuous integral to 1 percent.')
RULE = ('random galaxies (size incl. tiny, axis ratios, Sersic index, misalignment), PSFs, apertures, extraction methods, offsets and profile '
        'slopes; non-trivial: every correction; distinct: (class, PSF, method, defaults used, small, offset)')
MIN = {'ratio': 250, 'invariance': 150, 'continuous': 8}
N = {'quick': (150, 12), 'thorough': (2500, 150)}
ASSUMPTIONS = ['PSF without dithering (a negative image in an integral of light is not meaningful)']


def cases(tier, seed):
    a, b = N[tier]
    out = [{'kind': 'integral', 'cfg': refap.cfg(gen.rng_for('P16a', seed, i)), 'seed': i} for i in range(a)]
    for i in range(b):
        r = gen.rng_for('P16b', seed, i)
        c = refap.cfg(r)
        c.update(FWHM=0., method='boxcar', N=100, xc=0., yc=0., d=gen.pick(r, [-0.3, -0.5, 0.3]), r_core=gen.pick(r, [0.02, 0.05]),
                 n=gen.pick(r, [0.5, 1., 1.7, 2.5]), radius=None)
        c['re'] = c['re_mass'] = max(c['re'], 0.3)
        out.append({'kind': 'continuous', 'cfg': c, 'seed': i})
    return out


def calc(c, misalign, scale=None):
    from misfit.model import AperModel1DDisp, AperModel1DDispMisalign
    g, ins = refap.objects(c)
    kw = refap.kwargs(c)
    if scale is not None:
        kw['Ie'] = scale
    cls = AperModel1DDispMisalign if misalign else AperModel1DDisp
    return cls(galaxy=g, instrument=ins, **kw)


def run(case, mon):
    c = case['cfg']
    for mis in (False, True):
        m = calc(c, mis)
        if case['kind'] == 'continuous':
            mon.ev('continuous')
            mon.sig('cont', mis, c['n'], c['d'], round(c['q'], 1))
            mon.close('continuous', m.sigma_ap, refap.disp_continuous(c, mis), rtol=0.01,
                      msg='aperture dispersion is not the luminosity-weighted mean over the aperture', misalign=mis)
            continue
        sap, se, ratio = refap.disp(c, mis)
        mon.ev('ratio')
        mon.sig(mis, c['PSF_type'].strip().lower(), c['FWHM'] > 0, c['method'], c['width'] is None, c['radius'] is None, c['re'] < 0.11,
                bool(c['xc']), c['N'] is None)
        mon.close('aperture dispersion', m.sigma_ap, sap, rtol=1e-8, msg='aperture dispersion differs from the documented integral', misalign=mis)
        mon.close('reference dispersion', m.sigma_e, se, rtol=1e-5, msg='dispersion within the radius differs', misalign=mis)
        mon.close('ratio', m.disp_aper_ratio, ratio, rtol=1e-5, msg='aperture correction differs', misalign=mis)
        if c['width'] is None:
            size = c['re'] if mis else c['re']*np.sqrt(c['q'])
            q, PA = (c['q'], c['delt_PA']) if mis else (1., 0.)
            mon.close('default width', m.extraction_width, refap.default_width(size, q, PA, c['FWHM']), rtol=1e-9,
                      msg='default extraction width')
        mon.ev('invariance', 3)
        # again, and again on a model that follows another on the same galaxy and instrument
        mon.same('repeatable', calc(c, mis).disp_aper_ratio, m.disp_aper_ratio, 'a repeated calculation differs')
        flat = calc(dict(c, d=0.), mis)
        mon.close('constant profile', [flat.sigma_ap, flat.sigma_e, flat.disp_aper_ratio], [1., 1., 1.], rtol=1e-9,
                  msg='a constant dispersion is not its own aperture average')
        mon.close('flux units', calc(c, mis, 37.).disp_aper_ratio, m.disp_aper_ratio, rtol=1e-6, msg='the ratio depends on flux units')
        if mis and not c['xc'] and not c['yc']:
            for PA in (-c['delt_PA'], c['delt_PA']+180., c['delt_PA']-180.):
                mon.ev('invariance')
                mon.close('equivalent misalignment', calc(dict(c, delt_PA=PA), True).disp_aper_ratio, m.disp_aper_ratio, rtol=1e-7,
                          msg='the ratio differs for delt_PA=%r and %r' % (PA, c['delt_PA']))
    if case['kind'] == 'integral':
        # nothing is kept of calculations that differ in one thing only
        for x, d in refap.twins(gen.rng_for('P16t', case['seed']), c):
            for mis in (False, True):
                m = calc(d, mis)
                sap, se, ratio = refap.disp(d, mis)
                mon.ev('twin')
                mon.close('twin', m.sigma_ap, sap, rtol=1e-8, msg='aperture dispersion differs from the documented integral, after one with another '+x, misalign=mis)
                mon.close('twin', [m.sigma_e, m.disp_aper_ratio], [se, ratio], rtol=1e-5, msg='aperture correction differs, after one with another '+x, misalign=mis)
        k = dict(c, q=1.)
        mon.ev('invariance')
        mon.close('round galaxy', calc(k, True).disp_aper_ratio, calc(k, False).disp_aper_ratio, rtol=1e-9,
                  msg='a round galaxy has different corrections with and without misalignment')
        # sharing one galaxy and instrument, in sequence
        from misfit.model import AperModel1DDisp, AperModel1DDispMisalign
        g, ins = refap.objects(c)
        kw = refap.kwargs(c)
        one = AperModel1DDisp(galaxy=g, instrument=ins, **kw)
        first = one.disp_aper_ratio
        two = AperModel1DDispMisalign(galaxy=g, instrument=ins, **kw)
        second = two.disp_aper_ratio
        again = AperModel1DDisp(galaxy=g, instrument=ins, **dict(kw, nPixels=13)).disp_aper_ratio
        again = AperModel1DDisp(galaxy=g, instrument=ins, **kw).disp_aper_ratio
        mon.same('shared objects', again, first, 'the correction depends on what was calculated before')
        AperModel1DDisp(galaxy=g, instrument=ins, **dict(kw, nPixels=13))
        for m, want in ((one, first), (two, second)):
            mon.ev('recalculated')
            m.calc_aper_correction()
            mon.same('recalculated', m.disp_aper_ratio, want, 'the correction differs when it is calculated again', cls=type(m).__name__)
        mon.raises('unknown extraction', ValueError, lambda: calc(dict(c, method='psf'), False), 'unknown extraction methods are not rejected')


def warmup():
    c = refap.cfg(gen.rng_for('P16w', 0, 0))
    c.update(FWHM=0.5, N=10)
    for t in ('Gaussian', 'Moffat'):
        calc(dict(c, PSF_type=t), True)
        calc(dict(c, PSF_type=t), False)
