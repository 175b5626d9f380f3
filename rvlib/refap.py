"""Independent reference of the documented 1D aperture corrections, and their generators."""
import numpy as np
from scipy.integrate import quad
from scipy.signal import convolve

from . import gen, ref2d

FW = 2*np.sqrt(2*np.log(2.))


def cfg(r, rot=False):
    c = {'re': round(float(np.exp(gen.uni(r, np.log(0.12), np.log(1.3)))), 4), 'q': round(gen.uni(r, 0.22, 1.), 3),
         'n': gen.pick(r, [0.5, 1., 1.7, 2.5, 4.]), 'delt_PA': round(gen.uni(r, -90, 90), 2), 'q_mass': round(gen.uni(r, 0.3, 1.), 3),
         'slit_width': gen.pick(r, [0.7, 0.7, 1., 0.4]), 'PSF_type': gen.pick(r, ['Gaussian', 'gaussian', 'Moffat', 'moffat ', 'Airy']),
         'FWHM': gen.pick(r, [0., 0.3, 0.6, 0.6, 0.9]), 'beta': gen.pick(r, [2.5, 3.5]), 'resol': 40.,
         'method': gen.pick(r, ['optimal', 'boxcar']), 'width': gen.pick(r, [None, None, round(gen.uni(r, 0.6, 3.), 3)]),
         'radius': gen.pick(r, [None, None, round(gen.uni(r, 0.1, 2.), 3)]), 'xc': 0., 'yc': 0., 'z': 2.}
    c['re_mass'] = round(c['re']*gen.pick(r, [1., 0.6, 1.4]), 4)
    if r.random() < 0.3:
        c['re'] = round(gen.uni(r, 0.04, 0.11), 4)
        c['re_mass'] = c['re']
    if r.random() < 0.25:
        c['xc'], c['yc'] = round(gen.uni(r, -0.3, 0.3), 3), round(gen.uni(r, -0.3, 0.3), 3)
    if c['delt_PA'] and r.random() < 0.2:
        c['delt_PA'] = gen.pick(r, [0., 90., -90., 45.])
    if rot:
        c.update(q0=gen.pick(r, [0.19, 0.25, 0.1]), Va=round(gen.uni(r, 40, 350), 1), rt=round(gen.uni(r, 0.05, 1.), 3),
                 vs=gen.pick(r, [None, 0., round(gen.uni(r, 0.3, 8.), 3), round(gen.uni(r, 0.3, 8.), 3), round(gen.uni(r, -4., -.3), 3)]),
                 N=int(r.integers(21, 72)), pad=gen.pick(r, [0.5, 0.5, 1., 0.]), iprof=gen.pick(r, ['exp', 'expscale']),
                 vprof=gen.pick(r, ['arctan', 'arctan', 'hyper']))
        c['resol'] = 40.
    else:
        c.update(N=gen.pick(r, [None, int(r.integers(15, 70)), int(r.integers(15, 70))]), d=gen.pick(r, [None, None, -0.3, 0.15]),
                 r_core=gen.pick(r, [None, None, 0.02]))
    return c


def objects(c):
    from misfit import Galaxy, Spectrograph
    from misfit.galaxy import ObsSpectrum2D
    kw = {'PSF_type': c['PSF_type'], 'PSF_FWHM': c['FWHM'], 'slit_width': c['slit_width'], 'pixscale': 0.18,
          'instrument_resolution': c['resol']}
    if c['PSF_type'].strip().lower() == 'moffat':
        kw['PSF_beta'] = c['beta']
    ins = Spectrograph(**kw)
    g = Galaxy(re_arcsec=c['re'], re_mass_arcsec=c['re_mass'], q=c['q'], q_mass=c['q_mass'], n=c['n'], q0=c.get('q0', 0.19), z=c['z'],
               delt_PA=c['delt_PA'])
    g.delt_PA = c['delt_PA']
    g.set_spectrum_2D(ObsSpectrum2D(band='K', wave=6564.6*(1.+c['z'])*(1. + 1e-4*np.arange(-4., 5.)), flux=np.ones((5, 9)),
                                    flux_err=np.ones((5, 9)), linenames_arr=['HA6565'], restwave_arr=np.array([6564.6]),
                                    flux_ratio_arr=np.array([1.])))
    return g, ins


def kwargs(c):
    k = {'extraction_method': c['method']}
    for a, b in (('width', 'extraction_width'), ('radius', 'disp_aper_radius_arcsec'), ('d', 'd'), ('r_core', 'r_core'), ('N', 'nPixels')):
        if c.get(a) is not None:
            k[b] = c[a]
    if c['xc'] or c['yc']:
        k.update(xc=c['xc'], yc=c['yc'])
    return k


def default_width(re, q, PA, F):
    conv = 0.5*np.hypot(2*re, F)
    minor = 0.5*np.hypot(2*q*re, F)
    return 4*max(conv*abs(np.cos(np.radians(PA))), minor)


def sig_profile(r, rem, d, rc):
    return ((r/rem + rc)/(1 + rc))**d


def light(r, re, n, rc):
    return np.exp(-(2*n - 0.324)*((r/re + rc)**(1./n) - 1.))


def gauss_rows(n, width_pix):
    s = 0.5*width_pix/FW
    k = np.arange(n) - (n-1)/2.
    return np.exp(-0.5*(k/s)**2)


def weights(ny, nx, iy, ix, g, kernel):
    """sum over the aperture of (f convolved with the kernel)*g = sum of f*W"""
    a = np.zeros((ny, nx))
    a[iy, ix] = g[:, None]
    return a if kernel is None else convolve(a, kernel, mode='same')


def disp(c, misalign):
    """aperture dispersion, dispersion within the radius, ratio"""
    rc, d = c.get('r_core') or 1/300., -0.089 if c.get('d') is None else c['d']
    re, rem = c['re']*np.sqrt(c['q']), c['re_mass']*np.sqrt(c['q_mass'])
    if misalign:
        q, PA, size = c['q'], c['delt_PA'], c['re']
    else:
        q, PA, size = 1., 0., re
    N = c['N'] or 100
    if size <= 0.1:
        N = 2*N
    w = c['width'] or default_width(size, q, PA, c['FWHM'])
    dx, dy = c['slit_width']/(2*N+1.), w/(2*N+1.)
    k = np.arange(4*N+3) - (2*N+1.)
    X, Y = np.meshgrid(k*dx - c['xc'], k*dy - c['yc'])
    P = np.radians(PA)
    along, across = Y*np.cos(P) + X*np.sin(P), X*np.cos(P) - Y*np.sin(P)
    r = np.sqrt(q*along**2 + across**2/q)
    I = light(r, re, c['n'], rc)
    S = sig_profile(r, rem, d, rc)**2
    ker = None
    if c['FWHM'] > 0:
        ker = ref2d.psf_value(c['PSF_type'], c['FWHM'], c['beta'], None, (k*dx)[None, :], (k*dy)[:, None])
    n = 2*N+1
    g = gauss_rows(n, w/dy) if c['method'] == 'optimal' else np.ones(n)
    sl = slice(N+1, 3*N+2)
    W = weights(4*N+3, 4*N+3, sl, sl, g, ker)
    sap = np.sqrt((W*S*I).sum()/(W*I).sum())
    R = c['radius'] or re
    pts = sorted(set(x for x in (1e-4*re, 1e-2*re, 0.1*re) if x < R))
    num = quad(lambda x: sig_profile(x, rem, d, rc)**2*light(x, re, c['n'], rc)*x, 0, R, points=pts, epsrel=1e-10)[0]
    den = quad(lambda x: light(x, re, c['n'], rc)*x, 0, R, points=pts, epsrel=1e-10)[0]
    se = np.sqrt(num/den)
    return sap, se, sap/se


def disp_continuous(c, misalign):
    """No PSF, boxcar: the integral over the aperture itself, on another (polar, then clipped) quadrature."""
    rc, d = c.get('r_core') or 1/300., -0.089 if c.get('d') is None else c['d']
    re, rem = c['re']*np.sqrt(c['q']), c['re_mass']*np.sqrt(c['q_mass'])
    q, PA, size = (c['q'], c['delt_PA'], c['re']) if misalign else (1., 0., re)
    w = c['width'] or default_width(size, q, PA, c['FWHM'])
    # the light within the aperture |x|<slit/2, |y|<w/2, offset by xc, yc: integrate along rays from the object
    m = 720
    t = (np.arange(m)+0.5)*2*np.pi/m
    u = np.linspace(np.log(1e-5), 0, 700)
    P = np.radians(PA)
    num = den = 0.
    hx, hy = c['slit_width']/2., w/2.
    for a in t:
        cx, cy = np.cos(a), np.sin(a)
        L = min(hx/abs(cx), hy/abs(cy))
        s = L*np.exp(u)
        along, across = s*(cy*np.cos(P) + cx*np.sin(P)), s*(cx*np.cos(P) - cy*np.sin(P))
        r = np.sqrt(q*along**2 + across**2/q)
        f = light(r, re, c['n'], rc)*s*s
        den += np.trapezoid(f, u)
        num += np.trapezoid(f*sig_profile(r, rem, d, rc)**2, u)
    return np.sqrt(num/den)


def velocity(c, r):
    return c['Va']*r/(r + c['rt']) if c['vprof'] == 'hyper' else 2*c['Va']/np.pi*np.arctan(r/c['rt'])


def profiles(c, galaxy):
    from misfit.model.kin_classes import (KinProfile, KinProfileFiducial, VelProfile, DispConstProfile, IntensityProfileFiducial,
                                          IntensityProfileSersicExpScale)
    kin = KinProfileFiducial()
    if c['vprof'] == 'hyper':
        class Hyper(VelProfile):
            def __init__(self):
                super(Hyper, self).__init__()
                self.theta = np.zeros(2)

            def vel(self, r, z):
                return self.theta[0]*r/(r + self.theta[1])
        kin = KinProfile(velProfile=Hyper(), dispProfile=DispConstProfile())
    return kin, (IntensityProfileFiducial if c['iprof'] == 'exp' else IntensityProfileSersicExpScale)(galaxy)


def rot(c, shift=False):
    """aperture RMS velocity, that at the radius, ratio (shift: with the offsets of light off the centre of the slit)"""
    N = c['N'] or 201
    w = c['width'] or default_width(c['re'], c['q'], c['delt_PA'], c['FWHM'])
    dy = w/N
    nx = int(np.ceil(c['slit_width']/dy))
    dx = c['slit_width']/nx
    F = c['FWHM']
    py, px = int(np.round(F*c['pad']/dy)), int(np.round(F*c['pad']/dx))
    y = (np.arange(-py, N+py) + 0.5 - N/2.)*dy - c['yc']
    x = (np.arange(-px, nx+px) + 0.5 - nx/2.)*dx - c['xc']
    z = (np.arange(N) + 0.5 - N/2.)*dy
    Z, Y, X = np.meshgrid(z, y, x, indexing='ij')
    P = np.radians(c['delt_PA'])
    si = ref2d.sin_i(c['q'], c['q0'])
    i = np.arcsin(si)
    xp, yp = X*np.cos(P) + Y*np.sin(P), Y*np.cos(P) - X*np.sin(P)
    xd, zd = np.cos(i)*xp + np.sin(i)*Z, np.cos(i)*Z - np.sin(i)*xp
    r = np.hypot(xd, yp)
    I = ref2d.intensity(c, r, zd)
    R = c['radius'] or c['re']
    vs = c['vs']
    if vs is None:
        Va, sig = c['Va'], 0.
    elif vs == 0:
        Va, sig = 0., c['Va']
    else:
        Va = c['Va']
        sig = float(velocity(c, R))/vs
    k = dict(c, Va=Va)
    V = velocity(k, r)*np.where(r > 0, yp/np.where(r > 0, r, 1.), 0.)*si
    ker = None
    if F > 0:
        nky, nkx = y - y.mean(), x - x.mean()
        ker = ref2d.psf_value(c['PSF_type'], F, c['beta'], None, nkx[np.abs(nkx) <= F][None, :], nky[np.abs(nky) <= F][:, None])
    vague = 0.
    if shift:
        L = I.sum(axis=0) if ker is None else convolve(I.sum(axis=0), ker, mode='same')
        off, vague = ref2d.row_offsets(L[:, px:px+nx], x[px:px+nx], c['slit_width'])
        V = V + (c['resol']*FW*off/c['slit_width'])[None, :, None]
    A = ((V**2 + sig**2)*I).sum(axis=0)
    B = I.sum(axis=0)
    if F > 0:
        A, B = convolve(A, ker, mode='same'), convolve(B, ker, mode='same')
    A, B = A[py:py+N, px:px+nx], B[py:py+N, px:px+nx]
    g = gauss_rows(N, w/dy)[:, None] if c['method'] == 'optimal' else 1.
    sap = np.sqrt((A*g).sum()/(B*g).sum())
    vr = float(velocity(k, R))
    rms = np.hypot(vr, sig)
    # a grid point at the very centre is at r ~ 1e-17, up to rounding: r^(1/n) makes that visible for steep profiles
    eps = 1e-7 if r.min() > 1e-10*c['re'] or c['n'] < 2 else 1e-5 if c['n'] < 3 else 1e-3
    return (sap, rms, sap/rms, eps, vague) if shift else (sap, rms, sap/rms, eps)


def rot_ok(c):
    """kernel extent well defined (not on a grid point up to rounding) and padding not smaller than a pixel grid"""
    w = c['width'] or default_width(c['re'], c['q'], c['delt_PA'], c['FWHM'])
    dy = w/(c['N'] or 201)
    if abs(c['slit_width']/dy - round(c['slit_width']/dy)) < 1e-3:
        return False
    nx = int(np.ceil(c['slit_width']/dy))
    dx = c['slit_width']/nx
    for d, n in ((dx, nx), (dy, c['N'] or 201)):
        p = c['FWHM']*c['pad']/d
        if abs(p - np.floor(p) - 0.5) < 1e-3:
            return False
        h = 0.5*(n % 2 == 0)
        f = c['FWHM']/d - h
        if abs(f - round(f)) < 1e-3:
            return False
    return nx >= 2


def twins(r, c, k=2):
    """Configurations which differ from c in one thing only, mostly by a little."""
    f = 1. + 10.**r.uniform(-4.5, -1.5)
    one = {'re': c['re']*f, 're_mass': c['re_mass']*f, 'q': c['q']/f, 'q_mass': c['q_mass']/f, 'n': c['n']*f, 'delt_PA': c['delt_PA']+r.uniform(0.01, 2.),
           'slit_width': c['slit_width']*f, 'FWHM': c['FWHM']*f, 'beta': c['beta']*f, 'method': 'boxcar' if c['method'] == 'optimal' else 'optimal',
           'PSF_type': 'gaussian' if 'offat' in c['PSF_type'] else 'moffat', 'width': (c['width'] or 2.)*f, 'radius': (c['radius'] or 0.5)*f}
    for x in ('d', 'r_core', 'Va', 'rt', 'vs', 'q0'):
        if c.get(x):
            one[x] = c[x]*f
    if 'Va' in c:
        del one['re_mass'], one['q_mass']
        one['iprof'] = 'exp' if c['iprof'] != 'exp' else 'expscale'
        one['vprof'] = 'hyper' if c['vprof'] != 'hyper' else 'arctan'
    names = [str(x) for x in r.permutation(sorted(one)) if one[str(x)] != c.get(str(x))]
    out = []
    for x in names:
        d = dict(c, **{x: one[x]})
        if len(out) < k and ('Va' not in c or rot_ok(d)):
            out.append((x, d))
    return out
