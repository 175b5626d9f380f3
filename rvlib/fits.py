"""Builders of prepared 2D fits (spectrum already trimmed, masked, weighted), and snapshots of objects."""
import numpy as np

from . import gen

NAMES = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']


def fit_cfg(rng, **kw):
    """A small configuration with the fiducial profiles, in wavelength units (as fits are)."""
    kw = dict(dict(vprof='arctan', dprof='const', spec_type='wave', m0_off=0.), **kw)
    c = gen.cfg2d(rng, **kw)
    c['generate_model'] = False
    return c


def data_for(c, rng, snr=8., sky=True):
    """(flux, err, mask, weight, wh_nosky) of a plausible prepared spectrum for the configuration."""
    c1 = dict(c, generate_model=True)
    m = gen.run_model(c1).model
    if not np.all(np.isfinite(m)):
        m = np.ones_like(m)
    prof = rng.uniform(0.5, 2., m.shape[0])
    peak = np.abs(m).max() or 1.
    m = m/peak*prof[:, None]
    col = rng.uniform(0.7, 1.4, m.shape[1])
    skycols = (rng.random(m.shape[1]) < 0.15) if sky else np.zeros(m.shape[1], dtype=bool)
    if skycols.sum() > m.shape[1] - 6:
        skycols[:] = False
    col[skycols] *= 6.
    err = (1./snr)*col[None, :]*rng.uniform(0.8, 1.25, m.shape[0])[:, None]
    flux = m + err*rng.standard_normal(m.shape)
    mask = np.ones(m.shape)
    mask[:, skycols] = 0.
    if rng.random() < 0.5:
        mask[0] = 0.
    mask[rng.random(m.shape) < 0.04] = 0.
    w = rng.uniform(0.05, 1., m.shape[0])
    w = w/w.sum()
    weight = np.tile(w[:, None], (1, m.shape[1]))
    return flux, err, mask, weight, np.where(~skycols)[0]


def prepared_galaxy(c, data):
    flux, err, mask, weight, nosky = data
    g = gen.make_galaxy(c, flux=flux, err=err)
    s = g.spec2D
    s.spec_mask, s.fitting_weight_matrix = mask, weight
    s.wh_nosky = nosky
    s.wh_sky = np.setdiff1d(np.arange(flux.shape[1]), nosky)
    s.lam0 = c['lines'][0]*(1+c['z'])
    s.dlam = float(np.mean(np.diff(s.wave)))
    s.ypos = s.m0
    s.m_lims = [0, flux.shape[0]-1]
    return g


def bounds_for(c, rng=None):
    s = 1. if rng is None else rng.uniform(0.6, 1.6)
    th = gen.theta_of(c)[0]
    return [[th[0]-150*s, th[0]+180*s], [0.01, 1.5*s+max(th[1], 0.01)], [0., 120.+th[2]], [-1.5-abs(th[3]), 1.2+abs(th[3])],
            [th[4]-0.001, th[4]+0.0012]]


def make_fit(c, data, vary, bounds=None, theta=None, galaxy=None, instrument=None, linked=None, setup=True, kin=None, **mc):
    from misfit import FitEmissionLines2D, MCMC2DOptions, Theta2DSettings
    gal = prepared_galaxy(c, data) if galaxy is None else galaxy
    ins = gen.make_instrument(c) if instrument is None else instrument
    th = gen.theta_of(c)[0] if theta is None else np.array(theta, dtype=float)
    kprof, iprof = gen.make_profiles(c, gal)
    names = list(NAMES) if len(th) == 5 else ['p%d' % i for i in range(len(th))]
    st = Theta2DSettings(theta=th, theta_vary=np.array(vary, dtype=bool), theta_names=names,
                         theta_names_nice=[n.replace('_', '') for n in names],
                         theta_bounds=bounds_for(c) if bounds is None else bounds, theta_linked_posteriors=linked)
    opts = MCMC2DOptions(**dict(dict(nCPUs=1, NoThread=True), **mc))
    fit = FitEmissionLines2D(galaxy=gal, instrument=ins, kinProfile=kprof if kin is None else kin, intensityProfile=iprof,
                             kinModelOptions=gen.make_options(c), thetaSettings=st, mcmcOptions=opts, usetex=False,
                             skip_fit_prep_calcs=True)
    if setup:
        fit.setup_model()
    return fit


# ---------------------------------------------------------------------------------------------

def snap(obj, depth=0, seen=None, skip=()):
    """Public state of an object as a flat {path: value} of numbers, strings and arrays."""
    out = {}
    seen = set() if seen is None else seen
    if depth > 5 or id(obj) in seen:
        return out
    if obj is None or isinstance(obj, (str, bytes, bool, int, float, np.generic)):
        return {'': obj}
    if isinstance(obj, np.ndarray):
        return {'': obj.copy()}
    if isinstance(obj, (list, tuple)):
        if all(isinstance(x, (int, float, str, np.generic)) or x is None for x in obj):
            return {'': list(obj)}
        seen.add(id(obj))
        for i, x in enumerate(obj):
            for k, v in snap(x, depth+1, seen, skip).items():
                out['[%d]%s' % (i, k)] = v
        return out
    if isinstance(obj, dict):
        items = obj.items()
    elif hasattr(obj, '__dict__'):
        items = obj.__dict__.items()
    else:
        return out
    seen.add(id(obj))
    for k, v in list(items):
        if str(k).startswith('_') or k in skip:
            continue
        for kk, vv in snap(v, depth+1, seen, skip).items():
            out['.%s%s' % (k, kk)] = vv
    return out


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def changed(before, after, ignore=()):
    """Paths existing before whose value is now different (new attributes are no modification)."""
    return sorted(k for k, v in before.items() if not k.startswith(tuple(ignore) or ('\0',)) and (k not in after or not equal(v, after[k])))
