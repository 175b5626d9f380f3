"""P18: every PSF kernel generated and every convolution is judged against its defining properties."""
import numpy as np

from rvlib import gen, ref2d

TECHNIQUE = 'runtime monitor: defining-property oracles (shape, symmetry, width, dithering, conservation, position, broadening) on recorded kernels and convolutions'
NOTE = 'Held on the executions observed: kernels agree with an independently coded profile to 1e-12; convolutions keep flux to 1e-9 and position to 1e-6 pixel.'
RULE = ('random PSF types (any case, blanks, unknown), widths, betas, dithers, on regular and irregular, non-square, centred and off-centre '
        'coordinates; sources of random position in cubes, images and spectra; distinct: (type, dither, instrument class, squareness)')
MIN = {'kernel': 250, 'width': 200, 'psf_conv': 80, 'inst_conv': 80}
N = {'quick': (300, 100, 100), 'thorough': (6000, 1500, 1500)}

TYPES = ['Gaussian', 'gaussian', ' GAUSSIAN ', 'Moffat', 'moffat', 'MOFFAT ', 'Airy', 'lorentz', 'gauss']


def cases(tier, seed):
    a, b, d = N[tier]
    out = []
    for i in range(a):
        r = gen.rng_for('P18a', seed, i)
        out.append({'kind': 'kernel', 'seed': i, 'type': gen.pick(r, TYPES), 'FWHM': round(float(np.exp(gen.uni(r, np.log(0.05), np.log(3.)))), 4),
                    'beta': gen.pick(r, [1.5, 2.5, 4., 4.765, None]), 'yspace': gen.pick(r, [None, None, 2.7, 0.9]),
                    'cls': gen.pick(r, ['Spectrograph', 'Imager', 'Instrument']), 's': int(r.integers(1 << 30))})
    for i in range(b):
        r = gen.rng_for('P18b', seed, i)
        out.append({'kind': 'psf convolution', 'seed': i, 'type': gen.pick(r, TYPES), 'FWHM': round(gen.uni(r, 0.25, 0.8), 3), 'beta': gen.pick(r, [2.5, 4.]),
                    'nwave': int(r.integers(1, 5)), 's': int(r.integers(1 << 30)), 'pix': gen.pick(r, [0.1, 0.18])})
    for i in range(d):
        r = gen.rng_for('P18c', seed, i)
        out.append({'kind': 'instrument convolution', 'seed': i, 'n': int(r.integers(40, 91)), 'rows': int(r.integers(1, 6)),
                    'disp': round(gen.uni(r, 0.6, 4.), 3), 'dw': round(gen.uni(r, 0.3, 20.), 3), 'w0': gen.pick(r, [19700., 4000., -800.]), 's': int(r.integers(1 << 30))})
    return out


def make(case, **kw):
    from misfit import instrument
    k = {'PSF_type': case['type'], 'PSF_FWHM': case['FWHM'], 'pixscale': 0.18}
    if case.get('beta') is not None:
        k['PSF_beta'] = case['beta']
    if case.get('yspace') is not None:
        k['yspace_dither_arc'] = case['yspace']
    k.update(kw)
    return getattr(instrument, case.get('cls', 'Spectrograph'))(**k)


def run(case, mon):
    r = np.random.default_rng(case['s'])
    if case['kind'] == 'kernel':
        kernel(case, mon, r)
    elif case['kind'] == 'psf convolution':
        psf_convolution(case, mon, r)
    else:
        inst_convolution(case, mon, r)


def kernel(case, mon, r):
    F, typ = case['FWHM'], case['type'].strip().lower()
    beta = 2.5 if case['beta'] is None else case['beta']
    psf = make(case).PSF
    nx, ny = r.integers(1, 24, 2)
    grid = r.random() < 0.6
    if grid:
        x, y = (np.arange(nx) - (nx-1)/2.)*0.11*F, (np.arange(ny) - (ny-1)/2.)*0.17*F
    else:
        x, y = np.sort(r.normal(0, F, nx)), np.sort(r.normal(0, 1.5*F, ny))
    x0, y0 = x.copy(), y.copy()
    k = psf.generate_conv_stamp(x, y)
    mon.ev('kernel')
    mon.sig(typ, case['yspace'] is None, case['cls'], nx == ny, grid, case['beta'] is None)
    if not mon.check('shape', k.shape == (ny, nx), 'kernel on %d x and %d y has shape %s' % (nx, ny, k.shape)):
        return
    mon.same('inputs', x, x0, 'generating a kernel modifies the coordinates')
    mon.same('inputs', y, y0, 'generating a kernel modifies the coordinates')
    mon.same('repeatable', psf.generate_conv_stamp(x, y), k, 'a kernel differs when generated again')
    want = ref2d.psf_value(typ, F, beta, case['yspace'], x[None, :], y[:, None])
    mon.close('profile', k, want, rtol=1e-10, atol=1e-13*np.abs(want).max(), msg='kernel is not the profile of the documented type and width')
    one = np.array([0.])
    nod = make(dict(case, yspace=None)).PSF
    peak = nod.generate_conv_stamp(one, one)[0, 0]
    # half the peak at FWHM/2, in any direction; depends on the radius only
    for a in (0., 0.5*np.pi, r.uniform(0, 2*np.pi), r.uniform(0, 2*np.pi)):
        mon.ev('width')
        v = nod.generate_conv_stamp(np.array([0.5*F*np.cos(a)]), np.array([0.5*F*np.sin(a)]))[0, 0]
        mon.close('half maximum', v, 0.5*peak, rtol=1e-10, msg='kernel at FWHM/2 is not half the peak')
    # explicit width overrides that of the instrument, and leaves it
    F2 = 1.7*F
    v = nod.generate_conv_stamp(one, np.array([0.5*F2]), PSF_FWHM=F2)/nod.generate_conv_stamp(one, one, PSF_FWHM=F2)
    mon.close('explicit width', v, [[0.5]], rtol=1e-10, msg='explicit PSF_FWHM')
    mon.check('width kept', nod.PSF_FWHM == F, 'PSF_FWHM was changed')
    if case['yspace'] is not None:
        s = case['yspace']
        plain = nod.generate_conv_stamp(x, y) - 0.5*(nod.generate_conv_stamp(x, y+s) + nod.generate_conv_stamp(x, y-s))
        mon.close('dither', k, plain, rtol=1e-10, atol=1e-13*peak, msg='dithering is not minus half at +-offset')
    # sign and order of the axes don't matter / follow
    mon.close('mirror', psf.generate_conv_stamp(-x[::-1], y)[:, ::-1], k, rtol=1e-12, atol=1e-14*peak, msg='kernel is not symmetric in x')
    mon.close('mirror', psf.generate_conv_stamp(x, -y[::-1])[::-1], k, rtol=1e-12, atol=1e-14*peak, msg='kernel is not symmetric in y')


def centroid(a):
    n = a.ndim
    t = a.sum()
    return [float((a.sum(axis=tuple(j for j in range(n) if j != i))*np.arange(a.shape[i])).sum()/t) for i in range(n)]


def psf_convolution(case, mon, r):
    from misfit.model import kin_functions as kf
    ins = make(case)
    d = case['pix']
    m = int(np.ceil(case['FWHM']/d))
    ky = np.arange(-m, m+1)*d
    stamp = ins.PSF.generate_conv_stamp(ky, ky)
    ny, nx, nw = 6*m + r.integers(5, 12), 6*m + r.integers(5, 12), case['nwave']
    cube = np.zeros((nw, ny, nx))
    for _ in range(3):
        j, i = r.integers(m, ny-m), r.integers(m, nx-m)
        cube[:, j, i] += r.uniform(0.1, 2., nw)
    c0 = cube.copy()
    mon.ev('psf_conv')
    mon.sig('conv', case['type'].strip().lower(), nw, m)
    ins.PSF.set_conv_stamp(stamp[None])
    out = kf.PSF_convolve(cube, ins.PSF)
    mon.same('inputs', cube, c0, 'the convolution modifies the cube')
    mon.close('total', out.sum(), cube.sum(), rtol=1e-9, msg='PSF convolution changes the total flux')
    for k in range(nw):
        mon.close('total per wavelength', out[k].sum(), cube[k].sum(), rtol=1e-9, msg='PSF convolution moves flux between wavelengths')
        mon.close('position', centroid(out[k]), centroid(cube[k]), atol=1e-6, rtol=0., msg='PSF convolution moves the object')
    # width along each axis: the second moments add
    def mom(a, ax):
        p = a.sum(axis=1-ax)
        x = np.arange(len(p))
        mu = (p*x).sum()/p.sum()
        return (p*(x-mu)**2).sum()/p.sum()
    for ax in (0, 1):
        mon.close('broadening', mom(out[0], ax), mom(cube[0], ax) + mom(stamp, ax), rtol=1e-7, msg='PSF convolution does not broaden by the PSF')
    ins.PSF.set_conv_stamp(stamp)
    flat = kf.PSF_convolve_flat(cube[0], ins.PSF)
    mon.same('inputs', cube, c0, 'the convolution modifies the image')
    mon.close('flat', flat/flat.sum(), out[0]/out[0].sum(), rtol=1e-7, atol=1e-12, msg='cube and image convolution differ')
    none = make(dict(case, FWHM=0.))
    mon.same('no PSF', kf.PSF_convolve(cube, none.PSF), c0, 'without PSF (FWHM=0) the convolution changes something')
    mon.same('no PSF', kf.PSF_convolve_flat(cube[0], none.PSF), c0[0], 'without PSF (FWHM=0) the convolution changes something')


def inst_convolution(case, mon, r):
    from misfit.model import kin_functions as kf
    n, dw, disp = case['n'], case['dw'], case['disp']*case['dw']
    w = case['w0'] + dw*np.arange(n)
    m = np.zeros((n, case['rows']))
    mid = n//2
    s = min(6.*case['disp'], (n - 1)/2. - 2)        # contained: the kernel reaches s pixels
    lo, hi = int(np.ceil(s)), int(np.floor(n - 1 - s))
    for k in range(case['rows']):
        m[r.integers(min(lo, mid), max(hi, mid)+1), k] += r.uniform(0.2, 2.)
        m[mid, k] += r.uniform(0.2, 2.)
    if case['rows'] > 1:
        m[:, 0] = 0.
    if (np.abs(np.nonzero(m)[0] - (n-1)/2.).max() + 6*case['disp']) > (n-1)/2.:
        return
    m0 = m.copy()
    out = kf.inst_convol_complete(m.copy(), w, disp)
    mon.ev('inst_conv')
    mon.sig('inst', n % 2, case['rows'] == 1, round(case['disp']))
    mon.same('sanity', m, m0)
    if not mon.check('shape', out.shape == m.shape, 'shape changes to %s' % (out.shape,)):
        return
    mon.close('total', out.sum(axis=0), m.sum(axis=0), rtol=1e-7, atol=1e-9, msg='the instrument convolution changes the flux of a row')
    for k in range(case['rows']):
        if not m[:, k].any():
            mon.close('empty row', out[:, k], np.zeros(n), rtol=0., atol=1e-9, msg='the instrument convolution moves flux between rows')
            continue
        t = m[:, k].sum()
        c0, c1 = (m[:, k]*w).sum()/t, (out[:, k]*w).sum()/out[:, k].sum()
        mon.close('position', c1, c0, rtol=0., atol=1e-6*dw + 1e-12*abs(c0), msg='the instrument convolution shifts the line')
        v0, v1 = (m[:, k]*(w-c0)**2).sum()/t, (out[:, k]*(w-c0)**2).sum()/out[:, k].sum()
        j = np.arange(-40, 41)
        g = np.exp(-0.5*(j/case['disp'])**2)
        mon.close('broadening', v1 - v0, dw**2*(g*j*j).sum()/g.sum(), rtol=1e-4, atol=1e-6*v0, msg='the instrument convolution does not broaden by the instrument resolution')
        i = np.nonzero(m[:, k])[0]
        want = sum(m[j, k]*np.exp(-0.5*((w - w[j])/disp)**2) for j in i)
        want *= t/want.sum()
        mon.close('shape of the line', out[:, k], want, rtol=1e-6, atol=1e-7*want.max(), msg='the line profile is not Gaussian of the instrument resolution')


def warmup():
    for t in ('Gaussian', 'Moffat'):
        make({'type': t, 'FWHM': 1.}).PSF.generate_conv_stamp(np.array([0., 1.]), np.array([0., 1.]))
        make({'type': t, 'FWHM': 1., 'yspace': 2.}).PSF.generate_conv_stamp(np.array([0., 1.]), np.array([0., 1.]))
