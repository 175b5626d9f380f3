"""Independent reference of the documented 2D forward model (plain loops over wavelengths, direct convolutions)."""
import numpy as np
from scipy.signal import convolve

from . import gen

C = gen.C_KMS


def intensity(c, r, z):
    if c['iprof'] == 'ring':
        return gen.ring_int(c, r, z)
    z0 = c['q0']*c['re'] if c['iprof'] == 'exp' else c['q0']*c['re']/1.676
    bn = 2*c['n'] - 0.324
    return np.exp(-bn*((r/c['re'])**(1./c['n']) - 1.) - np.abs(z)/z0)


def velocity(c, r, z):
    if c['vprof'] == 'arctan':
        return 2*c['Va']/np.pi*np.arctan(r/c['rt'])
    if c['vprof'] == 'power':
        return c['Va']*(r/(r+c['rt']))**c['vbeta']
    return c['Va']*r/(1+np.abs(z))


def sin_i(q, q0):
    return 1. if q < q0 else np.sqrt((1-q*q)/(1-q0*q0))


def psf_kernel(c, dx, dy):
    F = c['FWHM']
    nx, ny = int(np.floor(F/dx + 1e-9)), int(np.floor(F/dy + 1e-9))
    x = np.arange(-nx, nx+1)[None, :]*dx
    y = np.arange(-ny, ny+1)[:, None]*dy
    return psf_value(c['PSF_type'], F, c['beta'], c['yspace'], x, y)


def psf_value(ptype, F, beta, yspace, x, y):
    if ptype.strip().lower() == 'moffat':
        a = F/(2*np.sqrt(2**(1./beta) - 1))
        f = lambda dy: (beta-1)/(np.pi*a*a)*(1 + (x*x + (y+dy)**2)/(a*a))**(-beta)   # noqa: E731
    else:
        f = lambda dy: np.exp(-4*np.log(2.)*(x*x + (y+dy)**2)/F**2)    # noqa: E731
    k = f(0.)
    if yspace is not None:
        k = k - 0.5*(f(yspace) + f(-yspace))
    return k


class Geometry(object):
    def __init__(self, c, slit=None, xc=0.):
        nsub, pix = c['nsub'], c['pixscale']
        self.dy = dy = pix/nsub
        slit = c['slit_width'] if slit is None else slit
        ny = c['nrows']*nsub
        nx = ny if slit == c['nrows']*pix else int(np.ceil(slit/dy))
        self.nx, self.ny = nx, ny
        self.dx = dx = slit/nx
        self.py = py = int(np.round(c['FWHM']*c['pad']/dy))
        self.px = px = int(np.round(c['FWHM']*c['pad']/dx))
        m0 = c['m0'] if 'm0' in c else (c['nrows']-1)/2. + c['m0_off']
        k = np.arange(-py, ny+py)
        # centre of sub-row k, in whole-row units: row j covers j-0.5 .. j+0.5
        self.y = ((k + 0.5)/nsub - 0.5 - (m0 + c['m0_shift']))*pix
        self.x = (np.arange(-px, nx+px) + 0.5 - nx/2.)*dx - xc
        self.z = (np.arange(ny) + 0.5 - ny/2.)*dy
        Z, Y, X = np.meshgrid(self.z, self.y, self.x, indexing='ij')
        P = np.radians(c['delt_PA'])
        self.sini = sin_i(c['q'], c['q0'])
        i = np.arcsin(self.sini)
        xp = X*np.cos(P) + Y*np.sin(P)      # along the minor axis on the sky
        yp = Y*np.cos(P) - X*np.sin(P)      # along the major axis
        xd = np.cos(i)*xp + np.sin(i)*Z     # in the disk plane
        zd = np.cos(i)*Z - np.sin(i)*xp     # above the disk plane
        r = np.hypot(xd, yp)
        self.r, self.zd = r, zd
        self.I = intensity(c, r, zd)
        with np.errstate(all='ignore'):
            cosphi = np.where(r > 0, yp/np.where(r > 0, r, 1.), 0.)
        self.V = velocity(c, r, zd)*cosphi*self.sini


def row_offsets(light, x, slit):
    """(offset of the light of each row from the centre of the slit: of the Gaussian closest to it, within the slit; how well defined it is)"""
    from scipy.optimize import least_squares
    off, vague = np.zeros(len(light)), 0.
    bright = light.max(axis=1)/light.max()
    for k, row in enumerate(light):
        if bright[k] < 1e-13:
            continue
        y = row/row.max()
        m = np.sum(x*y)/y.sum()
        w = 2.3548*np.sqrt(np.sum((x-m)**2*y)/y.sum())
        sol = []
        for m0, w0 in ((m, w), (x[y.argmax()], w), (m, x[-1]-x[0]), (x[y.argmax()], 0.5*(x[-1]-x[0]))):
            f = least_squares(lambda p: p[1]*np.exp(-4*np.log(2.)*((x-p[0])/p[2])**2) - y, [m0, 1., w0],
                              xtol=1e-13, ftol=1e-13, gtol=1e-13, max_nfev=1000)
            sol.append((f.cost, float(np.clip(f.x[0], -slit/2., slit/2.)), abs(f.x[2]), abs(f.x[0])))
        off[k] = min(sol)[1]
        vague = max(vague, bright[k]*max(abs(a[1] - off[k])/slit for a in sol))
        if bright[k] > 1e-5 and min(w, min(sol)[2]) < 1.5*(x[1]-x[0]):      # narrower than the grid can tell
            vague = max(vague, 1.)
        if bright[k] > 1e-5 and (min(sol)[2] > 20*slit or min(sol)[3] > 5*slit):               # no peak: the best fit runs away
            vague = max(vague, 1.)
    return off, vague


def slit_shift(c, geo):
    """Velocity offset of each (padded) row for light that is off the centre of the slit, and how well defined"""
    L = geo.I.sum(axis=0)
    if c['FWHM'] > 0:
        L = convolve(L, psf_kernel(c, geo.dx, geo.dy), mode='same', method='direct')
    sl = slice(geo.px, geo.px+geo.nx)
    off, vague = row_offsets(L[:, sl], geo.x[sl], c['slit_width'])
    return c['resol']*2*np.sqrt(2*np.log(2.))*off/c['slit_width'], vague


def small_sigma(c, dw, lam0):
    """(dispersion used, up-sampling?) for a constant dispersion."""
    s = c['sigma0']
    unit = C/lam0 if c['spec_type'] == 'wave' else 1.
    lim = dw*unit/2.35
    up = c['adaptive'] and abs(s) < lim
    fl = None
    if c['floor']:
        fl = 0.75*lim/c['factor'] if c['adaptive'] else lim
    if c['absval']:
        s = abs(s)
    if fl is not None and abs(s) < fl:
        s = fl
    return s, up


def cube(c, geo, wave, dw, s):
    """(nwave, ny, nx) of the padded grid, summed over the line of sight."""
    out = np.zeros((len(wave), len(geo.y), len(geo.x)))
    vel = c['spec_type'] == 'velocity'
    lines = [(1., 1.)] if vel else list(zip(c['lines'], c['ratios']))
    for rest, ratio in lines:
        if vel:
            mu, sig = geo.V, s
        else:
            lam0 = rest*(1+c['z'])
            mu, sig = lam0*(1+geo.V/C), s/C*lam0
        if np.ndim(s) == 0 and s == 0:
            idx = np.argmin(np.abs(mu[None] - wave.reshape(-1, 1, 1, 1)), axis=0)
            for k in range(len(wave)):
                out[k] += ratio*np.sum(np.where(idx == k, geo.I, 0.), axis=0)*geo.dy/dw
        else:
            for k, w in enumerate(wave):
                out[k] += ratio*np.sum(geo.I*np.exp(-0.5*((w-mu)/sig)**2)/(sig*np.sqrt(2*np.pi)), axis=0)*geo.dy
    return out


def model(c, want='slit', slit=None, xc=0., rebin=True, geo=None):
    """want: 'slit' -> (rows, waves); 'cube' -> (waves, rows, columns) without instrument resolution."""
    wave = gen.wave_array(c)
    dw = (wave[-1]-wave[0])/(len(wave)-1)
    lam0 = c['lines'][0]*(1+c['z']) if c['spec_type'] == 'wave' else 1.
    geo = Geometry(c, slit=slit, xc=xc) if geo is None else geo
    if c['dprof'] == 'const':
        s, up = small_sigma(c, dw, lam0)
    else:
        s, up = c['sigma0']*np.exp(-geo.r/(5*c['drs'])), False
    w, n = wave, 1
    if up:
        n = int(c['factor'])
        d = dw/n
        w = (wave[:, None] + (np.arange(n) - (n-1)/2.)*d).ravel()
    q = cube(c, geo, w, dw/n, s)
    if c['FWHM'] > 0:
        k = psf_kernel(c, geo.dx, geo.dy)
        p = np.array([convolve(im, k, mode='same', method='direct') for im in q])
        q = p*(q.sum()/p.sum())
    q = q[:, geo.py:geo.py+geo.ny, geo.px:geo.px+geo.nx]
    if want == 'cube':
        nr = c['nrows']
        ncol = geo.nx//c['nsub']
        return q.reshape(len(wave), n, nr, c['nsub'], ncol, c['nsub']).sum(axis=(3, 5)).mean(axis=1)
    m = q.sum(axis=2)*geo.dx
    if rebin:
        m = m.reshape(len(w), c['nrows'], c['nsub']).sum(axis=2)
    if c['resol'] > 0:
        sw = c['resol']/C*lam0 if c['spec_type'] == 'wave' else c['resol']
        xx = w[:-1] if len(w) % 2 == 0 else w
        k = np.exp(-0.5*((xx-xx.mean())/sw)**2)
        p = np.array([convolve(m[:, j], k, mode='same', method='direct') for j in range(m.shape[1])]).T
        m = p*(m.sum()/p.sum())
    m = m.reshape(len(wave), n, m.shape[1]).mean(axis=1)
    return m.T
