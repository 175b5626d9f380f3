"""P03: conservation of line flux in every model event."""
import numpy as np

from rvlib import gen, ref2d

TECHNIQUE = 'runtime monitor: conservation-law oracle (flux in = flux out) over recorded model executions'
NOTE = ('Held on the executions observed: totals agree with the intrinsic in-slit emission to 1e-5 where the sampling allows it (the '
        'Poisson-summation bound for coarsely sampled Gaussians otherwise).')
RULE = ('configurations whose lines lie within the wavelength range; groups of executions differing only in velocity, dispersion, '
        'resolution, up-sampling or sub-pixels; non-trivial: flux > 0; distinct: regime of the sampling')
MIN = {'total': 200, 'psf_total': 30}
N = {'quick': (70, 30, 14), 'thorough': (700, 250, 120)}


def conserving(r, **kw):
    for _ in range(400):
        c = gen.cfg2d(r, dprof='const', m0_off=0., **kw)
        c['iprof'] = gen.pick(r, ['exp', 'expscale', 'ring'])
        c['sigma0'] = abs(c['sigma0'])
        c['Va'] = float(np.clip(c['Va'], -200, 200))
        if c['vprof'] == 'solid':
            c['Va'] = c['Va']/4.
        lines = [6564.60] if r.random() < 0.6 else [6564.60, 6560.0]
        c['lines'], c['ratios'] = lines, [1., gen.uni(r, 0.1, 1.2)][:len(lines)]
        c['wave_off'] = gen.uni(r, -1., 1.)
        half = 0.5*c['nwave']*c['dv'] - c['dv'] - 1.1*c['dv']
        need = vmax(c) + 6*np.hypot(max(c['sigma0'], 1.), 0.) + (220. if len(lines) > 1 and c['spec_type'] == 'wave' else 0.)
        if half < need:
            c['nwave'] = int(np.ceil(2*(need/c['dv'] + 2.1))) + 1
        if gen.grid_ok(c) and c['nwave'] < 90:
            return c
    raise RuntimeError('no configuration')


def vmax(c):
    g = ref2d.Geometry(c)
    return float(np.abs(g.V).max())


def cases(tier, seed):
    a, b, d = N[tier]
    out = []
    for i in range(a):
        r = gen.rng_for('P03a', seed, i)
        out.append({'kind': 'no PSF', 'cfg': conserving(r, FWHM=0.), 'seed': i})
    for i in range(b):
        r = gen.rng_for('P03b', seed, i)
        out.append({'kind': 'PSF', 'cfg': contained(r), 'seed': i})
    for i in range(d):
        r = gen.rng_for('P03c', seed, i)
        c = conserving(r, FWHM=0., iprof='ring')
        c['iprof'] = 'ring'
        c.update(re=round(gen.uni(r, 3.5, 5.)*c['pixscale'], 4), delt_PA=0., q=gen.uni(r, 0.5, 1.), spec_type='velocity', vprof='arctan',
                 nrows=11, slit_width=round(gen.uni(r, 3., 6.)*c['pixscale'], 4))
        need = abs(c['Va']) + 6*c['sigma0']
        c['dv'] = round(max(c['dv'], need/14.), 3)
        c['nwave'] = 33
        out.append({'kind': 'subpixels', 'cfg': c, 'seed': i})
    return out


def contained(r):
    """Compact source, wide slit: nothing gets lost even after the PSF convolution."""
    for _ in range(400):
        c = gen.cfg2d(r, nsub=gen.pick(r, [1, 1, 2]), iprof='exp', n=gen.pick(r, [0.5, 0.7]),
                      vprof='arctan', dprof='const', spec_type='velocity', m0_off=0., pad=0.5)
        c.update(nrows=15 if c['nsub'] == 1 else 11, adaptive=False, floor=False, q=gen.uni(r, 0.4, 1.),
                 m0_shift=gen.uni(r, -0.5, 0.5))
        c['re'] = round(0.7*c['pixscale'], 4)
        c['FWHM'] = round(gen.uni(r, 1.2, 2.4)*c['pixscale'], 4)
        c['slit_width'] = round((c['nrows']-0.5)*c['pixscale'], 4)
        c['Va'] = float(np.clip(c['Va'], -150, 150))
        c['dv'], c['sigma0'], c['nwave'], c['wave_off'] = 40., gen.uni(r, 40., 60.), 27, 0.
        if gen.grid_ok(c):
            return c
    raise RuntimeError


def total(c):
    m = gen.run_model(c)
    w = gen.wave_array(c)
    return float(m.model.sum()*(w[-1]-w[0])/(len(w)-1))


def run(case, mon):
    c = case['cfg']
    if case['kind'] == 'no PSF':
        g = ref2d.Geometry(c)
        want = float(g.I.sum()*g.dy*g.dx)*(sum(c['ratios']) if c['spec_type'] == 'wave' else 1.)
        lam0 = c['lines'][0]*(1+c['z'])
        variants = [c, dict(c, Va=-0.5*c['Va']), dict(c, resol=0. if c['resol'] else 35.), dict(c, sigma0=0.)]
        if c['adaptive']:
            variants += [dict(c, factor=f) for f in (2., 5.)]
        variants += [dict(c, adaptive=not c['adaptive']), dict(c, sigma0=0.3*c['dv']/2.35), dict(c, sigma0=0.9*c['dv']),
                     dict(c, delt_PA=c['delt_PA'], wave_off=c['wave_off']+0.4)]
        for v in variants:
            if not gen.grid_ok(v):
                continue
            dw = np.diff(gen.wave_array(v)).mean()
            s, up = ref2d.small_sigma(v, dw, lam0 if v['spec_type'] == 'wave' else 1.)
            unit = gen.C_KMS/lam0 if v['spec_type'] == 'wave' else 1.
            x = abs(s)/(dw*unit/(int(v['factor']) if up else 1))
            if s == 0:
                eps = 1e-7
            else:
                eps = 1e-5 + 2*sum(np.exp(-2*np.pi**2*k*k*x*x) for k in range(1, 6))
            if v['sigma0'] == 0.9*c['dv'] and 6*0.9*c['dv'] + vmax(v) > 0.5*c['nwave']*c['dv'] - 2.1*c['dv'] - (
                    220. if len(c['lines']) > 1 and c['spec_type'] == 'wave' else 0.):
                continue
            t = total(v)
            mon.ev('total')
            mon.sig(round(min(x, 3.), 1), up, v['spec_type'], v['resol'] > 0, len(v['lines']), v['nsub'], v['factor'] if up else 0)
            mon.close('total flux', t, want, rtol=eps, msg='total flux is not the emission within the slit', variant=v, x=x)
    elif case['kind'] == 'PSF':
        t0 = total(dict(c, FWHM=0.))
        t1 = total(c)
        mon.ev('psf_total')
        mon.sig('psf', c['PSF_type'].strip().lower(), c['nsub'], c['resol'] > 0)
        mon.check('PSF creates no flux', t1 <= t0*(1+1e-6), 'flux after the PSF %r > %r before' % (t1, t0))
        mon.close('PSF conserves flux', t1, t0, rtol=2e-4, msg='PSF loses flux of a compact source')
        z = dict(c, Va=0.)
        a, b = gen.run_model(z).model.sum(axis=0), gen.run_model(dict(z, FWHM=0.)).model.sum(axis=0)
        mon.close('PSF moves flux only spatially', a, b, rtol=3e-4, msg='PSF changes the spectrum of a non-rotating source')
    else:
        ts = []
        for ns in (1, 2, 3):
            v = dict(c, nsub=ns)
            if gen.grid_ok(v):
                # (each sub-pixel row holds the flux per unit length along the slit, and the rows are summed)
                ts.append(total(v)*c['pixscale']/ns)
                mon.ev('total')
                mon.sig('nsub', ns)
        for t in ts[1:]:
            # (midpoint sampling in all three directions)
            mon.close('sub-pixels', t, ts[0], rtol=0.25, msg='total flux depends on the number of sub-pixels', totals=ts)


def warmup():
    gen.run_model(gen.cfg2d(gen.rng_for('warm')))
