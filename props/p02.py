"""P02: relations (symmetries) between pairs of model executions."""
import numpy as np

from rvlib import gen

TECHNIQUE = 'runtime monitor: metamorphic relations between recorded model executions'
NOTE = ('Held on the pairs of executions observed; each relation is exact up to round-off (1e-5 of the peak, 1e-4 for cuspy profiles, which amplify it). Independent of the '
        'reference model used for P01.')
RULE = ('random configurations, each executed together with its images under the symmetries (velocity reversal, angle turns, Doppler '
        'and spatial scaling, velocity units, line order, whole-row shifts); non-trivial: model with flux; distinct: relation x regime')
MIN = {'pair': 300}
N = {'quick': 110, 'thorough': 1200}


def cases(tier, seed):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for('P02', seed, i)
        c = gen.cfg2d(r)
        out.append({'kind': 'symmetry', 'cfg': c, 'shift': int(r.integers(1, 3)), 'cut': int(r.integers(0, 5)), 'cut2': int(r.integers(0, 5)), 'k': gen.uni(r, 0.4, 2.5), 'seed': i})
    return out


def M(c):
    return gen.run_model(c).model


def ok(c):
    return gen.grid_ok(c)


def run(case, mon):
    c = case['cfg']
    m = M(c)
    if not mon.check('finite', np.all(np.isfinite(m)) and m.shape == (c['nrows'], c['nwave']), 'model not finite or wrong shape'):
        return
    peak = np.abs(m).max()
    if peak == 0:
        return

    RA = 1e-4 if c['n'] > 1.5 or c['vprof'] == 'power' or c['rt'] < 0.05 else 1e-5

    def rel(name, got, want, rtol=None):
        mon.ev('pair')
        mon.sig(name, *gen.sig2d(c)[:9])
        mon.close(name, got, want, rtol=max(RA, rtol or RA), scale=peak, msg='relation %s is broken' % name)
    s0 = abs(c['sigma0']) > 0 or c['floor']
    if s0:      # (nearest-bin collapse of zero dispersion breaks ties one way)
        cen = dict(c, m0_off=0., m0_shift=0.)
        mc = M(cen)
        rel('reverse V mirrors', M(dict(cen, Va=-cen['Va']))[::-1], mc, max(RA, RA*np.abs(mc).max()/peak))
        rel('180 deg mirrors', M(dict(cen, delt_PA=cen['delt_PA']+180.))[::-1], mc, max(RA, RA*np.abs(mc).max()/peak))
        rel('180 deg = reverse V', M(dict(c, delt_PA=c['delt_PA']-180.)), M(dict(c, Va=-c['Va'])), RA)
        rel('sign of PA', M(dict(c, delt_PA=-c['delt_PA'])), m, RA)
        rel('360 deg', M(dict(c, delt_PA=c['delt_PA']+360.)), m, RA)
    if c['q'] == 1.:
        rel('face-on: no velocity', M(dict(c, Va=17.-c['Va'])), m)
    # m0 and m0_shift are equivalent
    d = 0.37
    rel('m0 = m0_shift', M(dict(c, m0_off=c['m0_off']+d, m0_shift=c['m0_shift']-d)), m)
    # moved by whole rows, where no convolution mixes in the edges
    if s0:
        b = dict(c, FWHM=0., resol=0.)
        if ok(b):
            k = case['shift']
            mb = M(b)
            rel('row shift (m0)', M(dict(b, m0_off=b['m0_off']+k))[k:], mb[:-k], max(RA, RA*np.abs(mb).max()/peak))
            rel('row shift (m0_shift)', M(dict(b, m0_shift=b['m0_shift']-k))[:-k], mb[k:], max(RA, RA*np.abs(mb).max()/peak))
    k = case['k']
    wave = gen.wave_array(c)
    if c['spec_type'] == 'wave':
        if s0:
            z2 = k*(1+c['z']) - 1
            rel('Doppler scaling', M(dict(c, z=z2, wave=(wave*k).tolist()))*k, m)
            one = dict(c, lines=c['lines'][:1], ratios=[1.])
            lam0 = one['lines'][0]*(1+one['z'])
            m1 = M(one)
            vel = dict(one, spec_type='velocity')
            wv = (wave/lam0-1)*gen.C_KMS
            mv = M(dict(vel, wave=wv.tolist()))
            rel('velocity mirror', M(dict(vel, Va=-c['Va'], wave=(-wv[::-1]).tolist()))[:, ::-1], mv, max(RA, RA*np.abs(mv).max()/peak))
            rel('velocity units', M(dict(one, spec_type='velocity', wave=((wave/lam0-1)*gen.C_KMS).tolist()))/lam0*gen.C_KMS, m1,
                max(RA, RA*np.abs(m1).max()/peak))
        if len(c['lines']) > 2:
            rel('line order', M(dict(c, lines=[c['lines'][0]]+c['lines'][:0:-1], ratios=[c['ratios'][0]]+c['ratios'][:0:-1])), m)
        if len(c['lines']) > 1 and s0:
            f = dict(c, resol=0., adaptive=False, floor=False, sigma0=max(abs(c['sigma0']), 0.6*c['dv']),
                     wave=wave.tolist())
            mf = M(f)
            rel('line order without primary', M(dict(f, lines=f['lines'][::-1], ratios=f['ratios'][::-1])), mf,
                max(RA, RA*np.abs(mf).max()/peak))
            parts = [M(dict(f, ratios=[float(i == j)*f['ratios'][j] for j in range(len(f['lines']))])) for i in range(len(f['lines']))]
            if c['FWHM'] == 0. :
                rel('sum of lines', sum(parts), mf, max(RA, RA*np.abs(mf).max()/peak))
        rel('flux ratios scale', M(dict(c, ratios=[k*x for x in c['ratios']]))/k, m)
    else:
        if s0:
            rel('velocity mirror', M(dict(c, Va=-c['Va'], wave=(-wave[::-1]).tolist()))[:, ::-1], m)
        rel('velocity units: no z', M(dict(c, z=c['z']+0.7)), m)
        rel('velocity units: no lines', M(dict(c, lines=[1234.5], ratios=[1.])), m)
    if c['resol'] == 0. and s0:
        # the model of some of the wavelengths is that part of the model
        lo, hi = case['cut'], len(wave) - case['cut2']
        if c['FWHM'] == 0. and hi - lo > 4:
            rel('wavelength subset', M(dict(c, wave=wave[lo:hi].tolist())), m[:, lo:hi])
    if c['vprof'] != 'solid':
        g = dict(c)
        for key in ('pixscale', 're', 'rt', 'slit_width', 'FWHM', 'drs'):
            g[key] = c[key]*k
        if ok(g):
            rel('spatial scaling', M(g)/k**2, m)
    # no PSF width limit: a vanishing PSF is no PSF
    if c['FWHM'] == 0.:
        dy, nx, dx = gen.subgrid(c)
        rel('vanishing PSF', M(dict(c, FWHM=0.02*min(dx, dy))), m)
    if c['resol'] == 0.:
        rel('vanishing LSF', M(dict(c, resol=1e-3*c['dv'])), m)


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm'), FWHM=0.5, PSF_type='Moffat'))
