"""P17: every rotation aperture correction computed is judged against the documented integral."""
import numpy as np

from rvlib import gen, refap

TECHNIQUE = 'runtime monitor: reference-integral oracle and metamorphic monitors on recorded aperture-correction executions'
NOTE = ('Held on the executions observed: RMS velocities agree with an independently coded three-dimensional integral to 1e-8; scaling, '
        'mirror and turn symmetries to 1e-7.')
RULE = ('random disks (size, axis ratio incl. edge-on, thickness, Sersic index, misalignment), PSFs, apertures, V/sigma incl. 0, None and '
        'negative, offsets and profiles; non-trivial: every correction; distinct: (profile, PSF, method, V/sigma kind, defaults used, edge-on)')
MIN = {'ratio': 80, 'invariance': 250}
N = {'quick': (90, 3), 'thorough': (1200, 12)}
ASSUMPTIONS = ['PSF without dithering', 'symmetries only judged for kernels with a sample in the middle (odd grids)']


def cases(tier, seed):
    a, b = N[tier]
    out = []
    for i in range(a + b):
        r = gen.rng_for('P17', seed, i)
        while True:
            c = refap.cfg(r, rot=True)
            if r.random() < 0.15:
                c['q'] = round(c['q0']*gen.pick(r, [0.5, 0.999, 1.]), 4)
            if i >= a:
                c['N'] = None
                c['FWHM'] = gen.pick(r, [0., 0.6])
                c['slit_width'], c['width'] = 0.4, 2.4      # (201 x 34 x 201 points)
            if refap.rot_ok(c):
                break
        out.append({'kind': 'integral' if i < a else 'default grid', 'cfg': c, 'seed': i})
    return out


def calc(c, theta=None):
    from misfit.model import AperModel1DRot
    g, ins = refap.objects(c)
    kin, inten = refap.profiles(c, g)
    kw = refap.kwargs(c)
    return AperModel1DRot(galaxy=g, instrument=ins, theta=theta or [c['vs'], c['Va'], c['rt']], kinProfile=kin, intensityProfile=inten,
                          pad_factor=c['pad'], **kw)


def run(case, mon):
    c = case['cfg']
    m = calc(c)
    sap, rms, ratio, eps = refap.rot(c)
    mon.ev('ratio')
    vs = c['vs']
    mon.sig(c['vprof'], c['iprof'], c['PSF_type'].strip().lower(), c['FWHM'] > 0, c['method'],
            'none' if vs is None else 'zero' if vs == 0 else np.sign(vs), c['width'] is None, c['radius'] is None, c['q'] <= c['q0'], bool(c['xc']))
    mon.close('aperture RMS', m.sigma_aper, sap, rtol=eps, msg='aperture RMS velocity differs from the documented integral')
    mon.close('reference RMS', m.V_RMS_aper, rms, rtol=1e-9, msg='RMS velocity at the reference radius differs')
    mon.close('ratio', m.disp_aper_ratio, ratio, rtol=eps, msg='aperture correction differs')
    if vs == 0:
        mon.close('no rotation', m.disp_aper_ratio, 1., rtol=1e-9, msg='without rotation the correction is not 1')
    if case['kind'] == 'default grid':
        return
    for x, d in refap.twins(gen.rng_for('P17t', case['seed']), c):      # nothing is kept of calculations that differ in one thing only
        t = calc(d)
        want = refap.rot(d)
        mon.ev('twin')
        mon.close('twin', [t.sigma_aper, t.V_RMS_aper, t.disp_aper_ratio], want[:3], rtol=want[3], msg='correction differs, after one with another '+x)
    mon.ev('invariance', 2)
    mon.same('repeatable', calc(c).disp_aper_ratio, m.disp_aper_ratio, 'a repeated calculation differs')
    for f in (0.37, 2.9):
        mon.close('velocity scale', calc(dict(c, Va=c['Va']*f)).disp_aper_ratio, m.disp_aper_ratio, rtol=1e-8,
                  msg='the ratio changes when all velocities are scaled by %r' % f)
    if not c['xc'] and not c['yc']:
        for PA in (c['delt_PA']+180., c['delt_PA']-180., -c['delt_PA']):
            k = dict(c, delt_PA=PA)
            if PA == -c['delt_PA'] and not odd(c):
                continue
            mon.ev('invariance')
            mon.close('equivalent misalignment', calc(k).disp_aper_ratio, m.disp_aper_ratio, rtol=eps if odd(c) else 3e-2,
                      msg='the ratio differs for delt_PA=%r and %r' % (PA, c['delt_PA']))
    # one set of profiles and instrument for several, in turn
    from misfit.model import AperModel1DRot
    g, ins = refap.objects(c)
    kin, inten = refap.profiles(c, g)
    kw = dict(refap.kwargs(c), galaxy=g, instrument=ins, kinProfile=kin, intensityProfile=inten, pad_factor=c['pad'])
    th = [c['vs'], c['Va'], c['rt']]
    a = AperModel1DRot(theta=th, **kw)
    AperModel1DRot(theta=[0., 20., 0.3], **kw)
    b = AperModel1DRot(theta=[None, 33., 0.2], **kw)
    mon.same('shared objects', AperModel1DRot(theta=th, **kw).disp_aper_ratio, a.disp_aper_ratio, 'the correction depends on what was calculated before')
    # calculated again: with the same, and with other parameters
    AperModel1DRot(theta=th, **dict(kw, nPixels=15))
    for m, t in ((a, th), (b, [None, 33., 0.2]), (a, [c['vs'], 2.*c['Va'], c['rt']])):
        want = AperModel1DRot(theta=t, **kw)
        AperModel1DRot(theta=[0., 20., 0.3], **dict(kw, nPixels=15))
        mon.ev('recalculated')
        m.setAttr(theta=t)
        m.calc_aper_correction(recalc=True)
        mon.same('recalculated', [m.sigma_aper, m.V_RMS_aper, m.disp_aper_ratio], [want.sigma_aper, want.V_RMS_aper, want.disp_aper_ratio],
                 'the correction calculated again differs from a new one')
    a.setAttr(theta=th)
    mon.same('theta', [th, b.theta], [[c['vs'], c['Va'], c['rt']], [None, 33., 0.2]], 'the parameters given were modified')
    mon.raises('unknown extraction', ValueError, lambda: calc(dict(c, method='psf')), 'unknown extraction methods are not rejected')


def odd(c):
    w = c['width'] or refap.default_width(c['re'], c['q'], c['delt_PA'], c['FWHM'])
    nx = int(np.ceil(c['slit_width']*c['N']/w))
    return c['FWHM'] == 0 or (c['N'] % 2 == 1 and nx % 2 == 1)


def warmup():
    c = refap.cfg(gen.rng_for('P17w', 0, 0), rot=True)
    c.update(FWHM=0.5, N=11, vs=2.)
    calc(c)
    calc(dict(c, PSF_type='moffat'))
