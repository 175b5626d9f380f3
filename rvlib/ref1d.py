"""Independent 1D emission line model and spectra for the 1D fits."""
import os

import numpy as np

from . import gen

C_KMS = 2.99792458e5
TABLE = {'Halpha': ([6564.60], [1.]), 'NII': ([6549.86, 6585.27], [0.333333, 1.]), 'SII': ([6718.294, 6732.673], [0.261111, 1.]),
         'Hbeta': ([4862.71], [1.]), 'OIII': ([5008.24, 4960.295], [1., 0.333333]), 'OII': ([3727.10, 3729.86], [1., 0.233333])}
SETS = [['Halpha'], ['Halpha', 'NII'], ['Halpha', 'NII', 'SII'], ['NII', 'Halpha'], ['Hbeta'], ['OIII'], ['OIII', 'Hbeta'], ['Hbeta', 'OIII'], ['OII'],
        ['SII', 'NII', 'Halpha']]


def gauss(x, mu, s, f):
    return f/(np.sqrt(2*np.pi)*s)*np.exp(-0.5*((x-mu)/s)**2)


def line_model(x, names, z, disp, fluxes):
    out = np.zeros(len(x))
    for n, f in zip(names, fluxes):
        for w, r in zip(*TABLE[n]):
            mu = w*(1.+z)
            out += gauss(x, mu, disp/C_KMS*mu, f*r)
    return out


def model(x, names, z, disp, fluxes, coeff):
    return line_model(x, names, z, disp, fluxes) + 1e-18*sum(c*x**i for i, c in enumerate(coeff))


def span(names):
    w = [x for n in names for x in TABLE[n][0]]
    return min(w), max(w)


RANGES = {'Halpha': (6480., 6650.), 'Hbeta': (4800., 4920.), 'OIII': (4930., 5060.)}


def cfg(rng, **force):
    """A random 1D observation: lines, parameters, sampling, noise, masks."""
    c = {'names': gen.pick(rng, SETS), 'z': gen.uni(rng, 0.3, 3.2), 'disp': gen.uni(rng, 60., 250.), 'order': int(rng.integers(0, 3)),
         'unit': gen.pick(rng, [1e-17, 1e-17, 1e-16, 3e-18]), 'snr': gen.pick(rng, [15., 40., 100.]), 'shape': 'gaussian',
         'npix': gen.uni(rng, 2.5, 6.), 'range': gen.pick(rng, ['explicit', 'lib', 'file', 'explicit']), 'pad': gen.uni(rng, 25., 60.),
         'garbage': bool(rng.random() < 0.5), 'edges': gen.pick(rng, [[0, 0], [0, 0], [5, 0], [0, 4], [3, 7]]), 'dz': gen.uni(rng, -0.5, 0.5),
         'num_edge': gen.pick(rng, [10, 10, 3, 0]), 'res': gen.uni(rng, 20., 120.), 'seed': int(rng.integers(1 << 30)),
         'extra': gen.uni(rng, 0., 60.), 'noisy': True}
    c['flux'] = [gen.uni(rng, 0.3, 2.) for _ in c['names']]
    c.update(force)
    c['flux'] = (c['flux']*4)[:len(c['names'])]
    if c['names'][0] not in RANGES or len(c['names']) > 1 and set(c['names']) & {'SII', 'OIII'}:
        c['range'] = 'explicit' if c['range'] == 'lib' else c['range']
    return c


def rounding_z(rng, names):
    """A redshift in the middle of its fit range only up to rounding."""
    w0 = TABLE[names[0]][0][0]
    for _ in range(20000):
        z = gen.uni(rng, 0.3, 3.2)
        lo, hi = z-20./w0, z+20./w0
        if 0. < abs(2*(z-lo)/(hi-lo)-1) < 1e-9:
            return z
    return z


def window(c):
    lo, hi = span(c['names'])
    return RANGES[c['names'][0]] if c['range'] == 'lib' else (lo-c['pad'], hi+c['pad'])


def truth(c):
    """(z, disp, fluxes, coeff) of the spectrum; z is up to 1.5 sigma off the galaxy's catalogue redshift."""
    r = gen.rng_for('truth', c['seed'])
    w0 = TABLE[c['names'][0]][0][0]
    off = c['dz']*3.*c['disp']/C_KMS*(1.+c['z'])        # up to 1.5 sigma of the line
    z = c['z'] + float(np.clip(off, -10./w0, 10./w0))
    mu = w0*(1+z)
    s = c['disp']/C_KMS*mu
    f = np.array(c['flux'])*c['unit']
    peak = f[0]/(2.5*s)
    lvl = peak*r.uniform(0.05, 0.4)/1e-18
    coeff = [lvl] + [lvl*r.uniform(-0.3, 0.3)/(mu**i) for i in range(1, c['order']+1)]
    return z, c['disp'], f, coeff


def raw(c):
    """Observed arrays."""
    r = gen.rng_for('raw1d', c['seed'])
    z, disp, f, coeff = truth(c)
    lo, hi = window(c)
    w0 = TABLE[c['names'][0]][0][0]
    s = disp/C_KMS*w0*(1+z)
    dlam = s/c['npix']
    wave = np.arange((lo-c['extra'])*(1+c['z']), (hi+c['extra'])*(1+c['z']), dlam)
    m = model(wave, c['names'], z, disp, f, coeff)
    err = np.full(len(wave), f[0]/(2.5*s)/c['snr'])*r.uniform(0.7, 1.3, len(wave))
    noise = err*r.standard_normal(len(wave))
    flux = m + (noise if c['noisy'] else 0.)
    mask = np.ones(len(wave))
    inside = np.where((wave >= lo*(1+c['z'])) & (wave <= hi*(1+c['z'])))[0]
    a, b = c['edges']
    if a:
        mask[:inside[0]+a] = 0.
    if b:
        mask[inside[-1]+1-b:] = 0.
    bad = np.zeros(len(wave), dtype=bool)
    if c['garbage']:
        k = r.choice(inside, size=max(len(inside)//12, 1), replace=False)
        bad[k] = True
        mask[k] = 0.
    return {'wave': wave, 'flux': flux, 'err': err, 'mask': mask, 'bad': bad, 'model': m, 'noise': noise}


def spoil(c, d, how=0):
    """Put garbage into the masked pixels."""
    r = gen.rng_for('spoil', c['seed'], how)
    f, e = d['flux'].copy(), d['err'].copy()
    k = np.where(d['mask'] == 0)[0]
    v = r.choice([np.nan, np.inf, 1e3, -1e3, 0.], len(k))
    f[k] = np.where(np.abs(v) > 1., v*c['unit'], v)
    e[k] = r.choice([np.nan, 0., 1e-30, 1.], len(k))
    return f, e


def ref_mask(c, d):
    """(indices within the trim range, mask after the edges are masked)."""
    lo, hi = window(c)
    ind = np.where((d['wave'] >= lo*(1+c['z'])) & (d['wave'] <= hi*(1+c['z'])))[0]
    m = d['mask'][ind].copy()
    good = [i for i in range(len(m)) if m[i] == 1]
    if good:
        if good[0] > 0:
            m[good[0]:good[0]+c['num_edge']] = 0
        if good[-1] < len(m)-1:
            for i in range(good[-1], max(good[-1]-c['num_edge'], -1), -1):
                m[i] = 0
    return ind, m


def galaxy(c, d, flux=None, err=None):
    from misfit import Galaxy
    from misfit.galaxy import ObsSpectrum1D
    g = Galaxy(z=c['z'], field='F', ID=7, maskname='m_1')
    g.set_spectrum_1D(ObsSpectrum1D(wave=d['wave'].copy(), flux=(d['flux'] if flux is None else flux).copy(),
                                    flux_err=(d['err'] if err is None else err).copy(), spec_mask=d['mask'].copy(), num_mask_edge=c['num_edge'], band='K'))
    return g


def fitter(c, d, mon, g=None, guess=None, scale=1., names=None, **kw):
    from misfit import Spectrograph
    from misfit.fit.fit1D import FitEmissionLines1D
    g = galaxy(c, d) if g is None else g
    z, disp, f, coeff = truth(c)
    r = gen.rng_for('guess', c['seed'])
    gs = r.uniform(0.7, 1.4, 8)
    names = list(c['names']) if names is None else list(names)
    order = [c['names'].index(n) for n in names]
    a = dict(galaxy=g, instrument=Spectrograph(instrument_resolution=c['res'], PSF_type='Gaussian', PSF_FWHM=0.6), names_arr=names,
             flux_arr=[f[i]*gs[i]*scale for i in order], vel_disp=disp*gs[6], cont_order=c['order'])
    if guess is not None:
        a.update(guess)
    lo, hi = window(c)
    if c['range'] == 'explicit':
        a['trim_restwave_range'] = [lo, hi]
    elif c['range'] == 'file':

        fn = os.path.join(mon.tmp, 'trim1d.param')
        with open(fn, 'w') as fh:
            fh.write('# linename wave_l wave_u\nXX1 1. 2.\n%s  %r\t%r\n%s 5. 6.\n' % (names[0], lo, hi, names[0]+'2'))
        a['trim_wave_paramfile'] = fn
    a.update(kw)
    return FitEmissionLines1D(**a)


def design(c, d, ind, mask, at=None):
    """Jacobian of the model (z, disp, fluxes, coeff*scale) over errors at the good pixels, by central differences."""
    z, disp, f, coeff = truth(c) if at is None else at
    p = np.array([z, disp] + list(f) + list(coeff), dtype=float)
    w0 = TABLE[c['names'][0]][0][0]
    h = np.array([disp/C_KMS*(1+z)*1e-3, disp*1e-3] + [c['unit']*1e-3]*len(f) + [1e-3/(w0*(1+z))**i*max(abs(coeff[0]), 1.) for i in range(len(coeff))])
    g = ind[mask == 1]
    n = len(f)

    def m(q):
        return model(d['wave'][g], c['names'], q[0], q[1], q[2:2+n], q[2+n:])/d['err'][g]
    J = np.empty((len(g), len(p)))
    for i in range(len(p)):
        e = np.zeros(len(p))
        e[i] = h[i]
        J[:, i] = (m(p+e)-m(p-e))/2./h[i]
    return p, h, J


def fisher(c, d, ind, mask, at=None):
    p, h, J = design(c, d, ind, mask, at)
    S = J*h[None, :]
    cov = np.linalg.inv(S.T @ S)
    return p, np.sqrt(np.diag(cov))*h
