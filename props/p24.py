"""P24: plots show the data they are given, conserve image flux and change nothing."""
import os

import numpy as np

from rvlib import core, fits, gen, ref1d

TECHNIQUE = ('runtime monitor on the real plotting code: every figure is recorded as it is saved or shown, and its images, lines and patches are compared with the '
             'arrays and the geometry of the plotted object; the plotted objects are snapshot before and after')
NOTE = 'Held on the plots observed: arrays drawn are bitwise those of the fit, rebinned fluxes agree to 1e-10, image positions to 0.15 pixel.'
RULE = ('random grids (spacing, offset, coverage, values); images of elongated objects with random position angles, offsets, sizes and plot options; small fits and 1D fits '
        'with random free parameters, low S/N rows and options; distinct: kind and options')
MIN = {'box': 1500, 'pstamp': 60, 'image': 60, 'bestfit': 12, 'corner': 6, 'trace': 10, 'fit1d': 6}
N = {'quick': (20, 14, 10, 6, 8), 'thorough': (250, 160, 110, 60, 60)}


def cases(tier, seed):
    out = []
    a, b, c, d, e = N[tier]
    for kind, n in (('box', a), ('image', b), ('fit', c), ('corner', d), ('fit1d', e)):
        for i in range(n):
            r = gen.rng_for('P24' + kind, seed, i)
            x = {'kind': kind, 'seed': i, 'rs': int(r.integers(1 << 30))}
            if kind in ('fit', 'corner'):
                k = fits.fit_cfg(r, nsub=1, nrows=int(r.integers(9, 16)), nwave=int(r.integers(14, 24)), adaptive=False, iprof=gen.pick(r, ['exp', 'expscale']))
                k['sigma0'] = abs(k['sigma0']) or 30.
                vary = [bool(v) for v in r.random(5) < 0.6]
                vary[int(r.integers(3))] = True
                linked = kind == 'corner' and i % 2 == 0
                if linked:
                    vary[:2] = [True, True]
                x.update(cfg=k, vary=vary, image=bool(kind == 'fit' and r.random() < 0.7), hdr=False, absval=False, linked=linked, nofile=True,
                         nW=2*(sum(vary)+int(r.integers(2, 5))), nS=int(r.integers(8, 14)) if kind == 'fit' else 40, usetex=bool(r.random() < 0.5))
            if kind == 'fit1d':
                x['cfg'] = ref1d.cfg(r, order=int(r.integers(0, 2)))
                x['errors'] = bool(i % 2)
            out.append(x)
    return out


def run(case, mon):
    r = np.random.default_rng(case['rs'])
    {'box': box, 'image': image, 'fit': fitplots, 'corner': corner, 'fit1d': fit1d}[case['kind']](case, mon, r)


class Figures(object):
    """Record every figure as it is saved or shown."""
    def __enter__(self):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.saved, self.shown = [], []
        self.plt, self.F = plt, matplotlib.figure.Figure
        self.s0, self.sh0 = self.F.savefig, plt.show

        def savefig(fig, fname, *a, **k):
            if fig not in self.saved:
                self.saved.append(fig)
            k['dpi'] = 30
            return self.s0(fig, fname, *a, **k)

        def show(*a, **k):
            self.shown.append(plt.gcf())
        self.F.savefig, plt.show = savefig, show
        self.open0 = set(plt.get_fignums())
        return self

    def __exit__(self, *a):
        self.F.savefig, self.plt.show = self.s0, self.sh0
        self.left = set(self.plt.get_fignums()) - self.open0
        for n in self.left:
            self.plt.close(n)
        for f in self.saved + self.shown:
            self.plt.close(f)


# ---------------------------------------------------------------------------------------------

def cumulative(x, y):
    """Integral of the pixels up to any position"""
    d = (x[-1]-x[0])/(len(x)-1)
    e = np.append(x-d/2, x[-1]+d/2)
    return e, np.append(0., np.cumsum(y*d))


def box(case, mon, r):
    from misfit.plot import box_integrate, box_integrate_pstamp
    for t in range(90):
        n = int(gen.pick(r, [2, 3, 7, 20, 61, 200]))
        d = float(10**r.uniform(-3, 2))
        x = float(r.uniform(-50, 50))*d + d*np.arange(n)
        m = int(gen.pick(r, [2, 3, 8, 25, 90]))
        how = gen.pick(r, ['cover', 'inside', 'shift', 'same', 'ratio', 'outside'])
        lo, hi = x[0]-d/2, x[-1]+d/2
        if how == 'cover':
            D = (hi-lo)/m*float(r.uniform(1.001, 1.5))
            s = float(r.uniform(hi-m*D, lo))
        elif how == 'inside':
            D = (hi-lo)/m*float(r.uniform(0.05, 0.999))
            s = float(r.uniform(lo, hi-m*D))
        elif how == 'shift':
            D = (hi-lo)/m*float(r.uniform(0.3, 2))
            s = lo + float(r.uniform(-0.7, 0.7))*(hi-lo)
        elif how == 'same':
            D, m, s = d, n, lo
        elif how == 'ratio':
            k = int(gen.pick(r, [2, 3, 5]))
            D, m, s = d*k, max(n//k, 2), lo
        else:
            D = (hi-lo)/m
            s = hi + float(r.uniform(0, 2))*(hi-lo)
        xn = s + D*(np.arange(m)+0.5)
        if r.random() < 0.2:
            # pixel numbers
            how, d, D = 'integers', 1, int(gen.pick(r, [1, 2, 3, 5]))
            x = int(r.integers(-9, 9)) + np.arange(n)
            xn = int(r.integers(-9, 9)) + D*np.arange(m)
            if r.random() < 0.5:
                x = x*1.
        y = {'n': r.standard_normal(n), 'c': np.full(n, 2.5), 'spike': np.where(np.arange(n) == int(r.integers(n)), 3., 0.)}[gen.pick(r, ['n', 'n', 'c', 'spike'])]
        if how == 'integers' and r.random() < 0.4:
            y = np.round(10*y).astype(int)
        y0, x0, xn0 = y.copy(), x.copy(), xn.copy()
        got = box_integrate(x, y, xn)
        mon.ev('box')
        mon.sig('box', how, n, m)
        e, F = cumulative(x, y)
        edges = np.append(xn-D/2, xn[-1]+D/2)
        want = np.diff(np.interp(edges, e, F))/D
        sc = np.max(np.abs(y))*max(1., d/D)
        ctx = dict(how=how, n=n, m=m, ratio=D/d)
        if not mon.check('shape', np.shape(got) == (m,), 'shape of the rebinned array', got_=np.shape(got), **ctx):
            continue
        mon.close('box', got, want, rtol=0., atol=2e-9*sc, scale=0., msg='rebinned values are not the integral over the new pixels', **ctx)
        if how == 'cover':
            mon.close('flux', np.sum(got)*D, np.sum(y)*d, rtol=0., atol=1e-9*np.sum(np.abs(y))*d + 1e-12, scale=0., msg='rebinning does not conserve flux', **ctx)
        if how == 'inside' and np.ptp(y) == 0:
            mon.close('constant', got, np.full(m, y[0]), rtol=1e-9, msg='a constant is not reproduced', **ctx)
        if how == 'same':
            mon.close('identity', got, y, rtol=0., atol=1e-9*sc, scale=0., msg='the same grid changes the values', **ctx)
        if how == 'outside':
            mon.close('outside', got, 0.*got, rtol=0., atol=1e-9*sc, scale=0., msg='pixels outside the original are not empty', **ctx)
        y2 = r.standard_normal(n)
        mon.close('linear', box_integrate(x, 2*y-3*y2, xn), 2*got-3*box_integrate(x, y2, xn), rtol=0., atol=1e-9*(sc+9), scale=0., msg='rebinning is not linear', **ctx)
        mon.check('pure', np.array_equal(y, y0) and np.array_equal(x, x0) and np.array_equal(xn, xn0), 'rebinning modifies its input')
    for t in range(4):
        ny, nx = (int(v) for v in r.integers(5, 40, 2))
        d = float(r.uniform(0.02, 0.3))
        x, y = (np.arange(nx)-r.uniform(0, nx))*d, (np.arange(ny)-r.uniform(0, ny))*d
        my, mx = (int(v) for v in r.integers(2, 20, 2))
        cover = bool(r.random() < 0.5)
        if cover:
            Dx, Dy = nx*d/mx*r.uniform(1.01, 1.4), ny*d/my*r.uniform(1.01, 1.4)
            xn = x[0]-d/2 - r.uniform(0, mx*Dx-nx*d) + Dx*(np.arange(mx)+0.5)
            yn = y[0]-d/2 - r.uniform(0, my*Dy-ny*d) + Dy*(np.arange(my)+0.5)
        else:
            Dx, Dy = (float(v) for v in r.uniform(0.3, 4., 2)*d)
            xn, yn = (np.arange(mx)-r.uniform(0, mx))*Dx, (np.arange(my)-r.uniform(0, my))*Dy
        im = r.standard_normal((ny, nx)) if r.random() < 0.7 else np.full((ny, nx), 1.7)
        im0 = im.copy()
        got = box_integrate_pstamp(im, x, y, xn, yn)
        mon.ev('pstamp')
        mon.sig('pstamp', cover, ny > nx, my > mx)

        def matrix(a, b, D):
            e = np.append(a-d/2, a[-1]+d/2)
            return np.clip(np.minimum(e[None, 1:], b[:, None]+D/2)-np.maximum(e[None, :-1], b[:, None]-D/2), 0, None)/D
        want = matrix(y, yn, Dy) @ im @ matrix(x, xn, Dx).T
        if mon.check('pstamp shape', got.shape == (my, mx), 'shape of the rebinned image', got_=got.shape):
            mon.close('pstamp', got, want, rtol=0., atol=1e-9, scale=0., msg='rebinned image is not the integral over the new pixels', shape=im.shape, new=(my, mx))
            if cover:
                mon.close('pstamp flux', got.sum()*Dx*Dy, im.sum()*d*d, rtol=0., atol=1e-9*np.abs(im).sum()*d*d, scale=0., msg='rebinning the image does not conserve flux')
            mon.close('pstamp transposed', box_integrate_pstamp(im.T.copy(), y, x, yn, xn), got.T, rtol=0., atol=1e-10, scale=0., msg='transposed image')
        mon.check('pure', np.array_equal(im, im0), 'rebinning modifies the image')


# ---------------------------------------------------------------------------------------------

def rot(p, cen, deg):
    a = np.deg2rad(deg)
    v = np.asarray(p, float)-cen
    return np.array([v[0]*np.cos(a)-v[1]*np.sin(a), v[0]*np.sin(a)+v[1]*np.cos(a)])+cen


def moments(P, cen, radius):
    y, x = np.mgrid[:P.shape[0], :P.shape[1]]
    w = np.where((x-cen[0])**2+(y-cen[1])**2 <= radius**2, P, 0.)
    t = w.sum()
    if not t > 0:
        return None
    mx, my = (w*x).sum()/t, (w*y).sum()/t
    C = np.array([[(w*(x-mx)**2).sum(), (w*(x-mx)*(y-my)).sum()], [0, (w*(y-my)**2).sum()]])/t
    C[1, 0] = C[0, 1]
    return t, np.array([mx, my]), C


def image(case, mon, r):
    import matplotlib.pyplot as plt
    from astropy.io import fits as af
    from astropy.wcs import WCS
    from misfit.galaxy import Galaxy, ObsSpectrum2D, Pstamp
    from misfit.instrument import Imager, Spectrograph
    from misfit.plot import plot_image_slit
    for t in range(6):
        ny, nx = (int(v) for v in r.integers(84, 120, 2))
        if r.random() < 0.5:
            ny = nx
        s = 0.06
        cen = np.array([(nx-1)/2., (ny-1)/2.])
        pos = cen + r.uniform(-7, 7, 2)                     # galaxy (x, y) [pixels]
        obj = pos + r.uniform(-3, 3, 2)*(r.random() < 0.6)  # RA, DEC of the slit object
        sa = float(r.uniform(3.5, 6.))
        sb = sa*float(r.uniform(0.4, 0.75))
        pa, slit, img = (float(v) for v in r.uniform(-180, 180, 3))
        if r.random() < 0.3:
            slit = img + float(gen.pick(r, [0., 90., 180., 45.]))
        y, x = np.mgrid[:ny, :nx]
        u = -np.sin(np.deg2rad(pa))*(x-pos[0]) + np.cos(np.deg2rad(pa))*(y-pos[1])
        v = np.cos(np.deg2rad(pa))*(x-pos[0]) + np.sin(np.deg2rad(pa))*(y-pos[1])
        peak = float(gen.pick(r, [1., 300., 1e-3]))
        im = peak*(np.exp(-0.5*((u/sa)**2+(v/sb)**2)) + 1e-4*r.standard_normal((ny, nx)))
        h = af.Header()
        ca = np.deg2rad(img)
        for k, q in dict(NAXIS=2, NAXIS1=nx, NAXIS2=ny, CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CRPIX1=nx/2., CRPIX2=ny/3., CRVAL1=150.1, CRVAL2=float(gen.pick(r, [2.2, -45., 60.])),
                         CD1_1=-s/3600*np.cos(ca), CD1_2=-s/3600*np.sin(ca), CD2_1=-s/3600*np.sin(ca), CD2_2=s/3600*np.cos(ca)).items():
            h[k] = q
        w = WCS(h)
        (ra, de), (sra, sde) = w.wcs_pix2world([list(obj), list(pos)], 0)
        rep = float(r.uniform(0.15, 0.9))
        q = sb/sa
        gal = Galaxy(ID=7, z=1., n=1., re_arcsec=rep, q=q, field='F_1', maskname=gen.pick(r, [None, 'm_1']))
        gal.RA, gal.DEC, gal.sersicRA, gal.sersicDEC, gal.sersicPA = ra, de, sra, sde, pa
        gal.re_kpc = 8.*rep if r.random() < 0.5 else None
        gal.pstamp = Pstamp(pstamp=im, pstamp_hdr=h, img_PA=img)
        gal.spec2D = ObsSpectrum2D(band='K', wave=np.arange(5.)+20000., flux=np.ones((3, 5)), flux_err=np.ones((3, 5)), slit_PA=slit)
        gal.spec2D.yoffset = float(gen.pick(r, [0., r.uniform(-1, 1)]))
        ps = float(gen.pick(r, [0.18, 0.12, 0.21]))
        dith = float(gen.pick(r, [0., 0.9, 2.7])) or None
        ins = Spectrograph(pixscale=ps, PSF_type='Gaussian', PSF_FWHM=0.55, slit_width=0.7, slit_length=float(r.uniform(3, 8)), yspace_dither_arc=dith)
        imi = Imager(instrument_name='i', band='F160W', pixscale=s, PSF_type='Gaussian', PSF_FWHM=0.2)
        how = gen.pick(r, [dict(), dict(convolve=True), dict(downsample=True), dict(convolve=True, downsample=True), dict(convolve=True, downsample=True), dict(rotate=False)])
        if how.get('convolve'):
            conv = float(r.uniform(0.12, 0.3)) if r.random() < 0.7 else None
            how['conv_sigma'] = conv
            conv = np.sqrt(0.55**2-0.2**2)/(2*np.sqrt(2*np.log(2))) if conv is None else conv
        else:
            conv = 0.
        # the plotted part of the spectrum is mostly covered by the image
        nsp = min(int(r.integers(14, 26)), int(0.8*min(nx, ny)*s/ps)) if how.get('downsample') or r.random() < 0.8 else None
        m0 = None
        if how.get('downsample') or nsp is not None and r.random() < 0.6:
            m0 = max(float(r.uniform(0.4, 0.6)*nsp), 8.)
        elif nsp is None and r.random() < 0.6:
            m0 = float(r.uniform(0.3, 0.7)*2./ps)
        show = bool(r.random() < 0.8)
        ext = bool(r.random() < 0.7)
        save = bool(not ext and r.random() < 0.5)
        fn = os.path.join(mon.tmp, 'slit%d.png' % t)
        before = fits.snap(gal), fits.snap(ins), fits.snap(imi)
        fig, ax = plt.subplots(1) if ext else (None, None)
        with Figures() as F:
            plot_image_slit(galaxy=gal, instrument=ins, instrument_img=imi, ax=ax, m0=m0, n_spatial_pixels=nsp, show_galfit=show, saveToFile=save, fileout=fn,
                            verbose=bool(r.random() < 0.2), **how)
        mon.ev('image')
        mon.sig('image', tuple(sorted(how)), ext, save, show, nsp is None, m0 is None)
        ctx = dict(how=how, slit_PA=slit, img_PA=img, sersicPA=pa, shape=[ny, nx])
        ch = [fits.changed(a, fits.snap(b)) for a, b in zip(before, (gal, ins, imi))]
        mon.check('pure', not any(ch), 'plotting modifies galaxy or instruments: %s' % ch, **ctx)
        if ext:
            mon.check('no file', not F.saved and not F.shown, 'a plot in given axes is saved or shown')
        else:
            mon.check('file', (len(F.saved), len(F.shown)) == (int(save), int(not save)), 'figure is saved / shown', save=save)
            mon.check('file', os.path.exists(fn) == save, 'file of the plot', save=save)
            if not F.saved + F.shown:
                continue
            ax = (F.saved + F.shown)[0].axes[0]
        if not mon.check('one image', len(ax.images) == 1, 'number of images', n=len(ax.images)):
            continue
        A = ax.images[0]
        vmin, vmax = A.get_clim()
        med = 10**vmin/2.
        if not mon.check('range', np.isfinite(vmin) and np.isfinite(vmax) and vmax > vmin, 'range of the image', vmin=vmin, vmax=vmax, **ctx):
            continue
        P = 10**np.asarray(np.ma.filled(A.get_array(), np.nan), float) - 3*med
        P = np.where(np.isfinite(P), P, -3*med)
        rotated = how.get('rotate', True)
        ang = slit-img if rotated else 0.
        gpos, opos = rot(pos, cen, -ang), rot(obj, cen, -ang)
        scale = s
        k = 1.
        if how.get('downsample'):
            n = int(np.floor(ny*s/ps))
            k = s/ps
            gpos, opos = np.array([(n-1)/2., m0]), (opos-gpos)*k + np.array([(n-1)/2., m0])
            scale = ps
            mon.check('image shape', P.shape == (n, n), 'shape of the rebinned image', got_=P.shape, want_=n)
        else:
            mon.check('image shape', P.shape == (ny, nx), 'shape of the image', got_=P.shape)
            if not rotated:
                mon.close('image', P, np.maximum(im, -3*med), rtol=0., atol=1e-9*peak, scale=0., msg='the image drawn is not the image of the galaxy')
        fin = np.isfinite(P)
        mon.check('image finite', fin.all(), 'image has non-finite values')
        # position, flux, size and orientation of the galaxy drawn
        S = np.sqrt(sa**2 + (conv/s)**2)*k
        M = moments(P, gpos, 4.3*S+1)
        if mon.check('object', M is not None, 'no galaxy in the image at its position', **ctx):
            tot, c, C = M
            mon.close('position', c, gpos, rtol=0., atol=0.15*max(k, 0.4)+0.02, scale=0., msg='position of the galaxy drawn', conv=conv, **ctx)
            mon.close('flux', tot, peak*2*np.pi*sa*sb*k*k, rtol=0.02, msg='flux of the galaxy drawn', conv=conv, **ctx)
            g = pa-ang
            d = np.array([-np.sin(np.deg2rad(g)), np.cos(np.deg2rad(g))])
            e = np.array([d[1], -d[0]])
            extra = (conv/s)**2*k*k + ((1-k*k)/12. if how.get('downsample') else 0.)
            mon.close('major', np.sqrt(d@C@d), np.sqrt(sa**2*k*k+extra), rtol=0.04, msg='size along the major axis', conv=conv, **ctx)
            mon.close('minor', np.sqrt(e@C@e), np.sqrt(sb**2*k*k+extra), rtol=0.05, msg='size along the minor axis', conv=conv, **ctx)
            mon.close('axes', d@C@e, 0., rtol=0., atol=0.05*(sa**2-sb**2)*k*k + 0.02, scale=0., msg='orientation of the galaxy drawn', conv=conv, **ctx)
        # slit
        L = [np.array(l.get_xydata()) for l in ax.lines if len(l.get_xydata()) == 5]
        if mon.check('slit', len(L) == 1, 'number of slit outlines', n=len(L)):
            z = L[0]
            mon.close('slit closed', z[4], z[0], rtol=0., atol=1e-9, scale=0., msg='the outline is not closed')
            sa_ = 0. if rotated else slit-img
            along = np.array([-np.sin(np.deg2rad(sa_)), np.cos(np.deg2rad(sa_))])
            across = np.array([np.cos(np.deg2rad(sa_)), np.sin(np.deg2rad(sa_))])
            mid = z[:4].mean(axis=0)
            mon.close('slit position', mid, opos - along*gal.spec2D.yoffset/scale, rtol=0., atol=1e-4, scale=0., msg='centre of the slit', yoffset=gal.spec2D.yoffset, scale_=scale, **ctx)
            pr = (z[:4]-mid)@across
            mon.close('slit width', np.ptp(pr)*scale, 0.7, rtol=1e-6, msg='width of the slit', **ctx)
            lo = (z[:4]-mid)@along
            mon.close('slit length', np.ptp(lo)*scale, ins.slit_length, rtol=0.02, msg='length of the slit', **ctx)
        if show:
            E = [p for p in ax.patches if type(p).__name__ == 'Ellipse'] + [p for p in ax.artists if type(p).__name__ == 'Ellipse']
            E = list({id(p): p for p in E}.values())
            if mon.check('ellipse', len(E) == 1, 'number of ellipses', n=len(E)):
                p = E[0]
                mon.close('ellipse centre', np.array(p.center), gpos, rtol=0., atol=1e-4, scale=0., msg='centre of the ellipse', **ctx)
                fw = 0.55/2. if conv else 0.
                want = 2*np.sqrt(np.array([rep*q, rep])**2+fw**2)/scale
                mon.close('ellipse size', np.array([p.width, p.height]), want, rtol=1e-6, msg='size of the ellipse', conv=conv, **ctx)
                mon.close('ellipse angle', (p.angle-(pa-ang)+90) % 180 - 90, 0., rtol=0., atol=1e-6, scale=0., msg='orientation of the ellipse', **ctx)
        # limits
        xl, yl = np.array(ax.get_xlim()), np.array(ax.get_ylim())
        size = (nsp*ps if nsp is not None else 2.)/scale
        mon.close('limits', [np.ptp(xl), np.ptp(yl)], [size, size], rtol=1e-9, msg='extent of the plot', **ctx)
        mon.close('limits', xl.mean(), gpos[0], rtol=0., atol=1e-4, scale=0., msg='horizontal centre of the plot', **ctx)
        if m0 is None:
            mon.close('limits', yl.mean(), gpos[1], rtol=0., atol=1e-4, scale=0., msg='vertical centre of the plot', **ctx)
        else:
            mon.close('limits', (gpos[1]-yl[0])*scale, (m0+0.5)*ps, rtol=0., atol=1e-4, scale=0., msg='the galaxy is not at its row of the spectrum', **ctx)
        plt.close('all')


# ---------------------------------------------------------------------------------------------

def analysed(case, mon, r, sample=True):
    from props import p21
    np.random.seed(case['rs'] % 99999)
    data = fits.data_for(dict(case['cfg'], absval=case['absval']), r)
    fit = p21.make(case, data, mon.tmp)
    fit.usetex = case['usetex']
    fit.galaxy.delt_PA = case['cfg']['delt_PA']
    if case['image']:
        g = fit.galaxy
        g.sersicRA, g.sersicDEC = g.RA + 2e-5*float(r.uniform(-1, 1)), g.DEC + 2e-5*float(r.uniform(-1, 1))
        g.spec2D.slit_PA, g.pstamp.img_PA, g.sersicPA = (float(v) for v in r.uniform(-180, 180, 3))
        g.spec2D.yoffset = float(r.uniform(-0.5, 0.5))
    n = case['cfg']['nrows']
    low = []
    if r.random() < 0.7:
        low += list(range(int(r.integers(0, 3))))
        low += list(range(n-int(r.integers(0, 3)), n))
        if r.random() < 0.3:
            low += [n//2]
        if r.random() < 0.4 and n > 5:
            k = int(r.integers(0, n-4))
            low += [k, k+2, k+3]
    fit.galaxy.spec2D.low_snr_row_inds = np.array(sorted(set(low)), dtype=int)
    fit.setup_model()
    fit.run_mcmc()
    fit.analyze_results()
    return fit


def fitplots(case, mon, r):
    import matplotlib.pyplot as plt
    from misfit.plot import plot_bestfit_model, plot_trace
    fit = analysed(case, mon, r)
    for variant in ('method', 'file', 'nomodel', 'nobest'):
        fn = os.path.join(mon.tmp, variant + '.png')
        model = fit.kinModel
        if variant == 'nomodel':
            fit.kinModel = None
        if variant == 'nobest':
            fit.kinModel = model.copy()
            fit.kinModel.bestfit = None
        files0 = set(os.listdir(mon.tmp))
        spec = fit.galaxy.spec2D
        before = fits.snap(fit)
        with Figures() as F:
            if variant == 'method':
                fit.plot_bestfit_model()
            else:
                plot_bestfit_model(fit, fileout=fn, usetex=case['usetex'], noTitles=bool(r.random() < 0.5), verbose=bool(r.random() < 0.3))
        mon.ev('bestfit')
        mon.sig('bestfit', variant, case['image'], len(spec.low_snr_row_inds) > 0)
        ch = fits.changed(before, fits.snap(fit))
        mon.check('pure', not ch, 'plotting the best fit modifies the fit: %s' % ch[:5], variant=variant)
        new = set(os.listdir(mon.tmp)) - files0
        mon.check('files', new == (set() if variant == 'method' else {variant + '.png'}), 'files written', got_=sorted(new), variant=variant)
        figs = F.saved + F.shown
        if not mon.check('figure', len(figs) == 1, 'number of figures', n=len(figs), variant=variant):
            return
        if variant != 'method':
            mon.check('closed', not F.left, 'the saved figure stays open')
        axes = figs[0].axes
        panels = [('data', spec.flux)]
        if fit.kinModel is not None:
            panels += [('model', fit.kinModel.model), ('residual', spec.flux-fit.kinModel.model)]
        if mon.check('panels', len(axes) == 2+len(panels), 'number of panels', n=len(axes), variant=variant):
            shift = fit.kinModel.bestfit.theta[-2] if variant in ('method', 'file') else 0.
            mid = spec.m0 + shift
            re = fit.galaxy.re_arcsec
            w = np.sqrt(re**2 + (fit.instrument.PSF.PSF_FWHM/2.)**2)*abs(np.cos(np.deg2rad(fit.galaxy.delt_PA)))/fit.instrument.pixscale
            cols = spec.wh_nosky if len(spec.wh_nosky) else np.arange(spec.flux.shape[1])
            for (name, want), ax in zip(panels, axes[2:]):
                if not mon.check('panel', len(ax.images) == 1, 'number of images in the %s panel' % name):
                    continue
                A = ax.images[0]
                mon.same('panel', np.asarray(np.ma.filled(A.get_array(), np.nan), float), np.asarray(want, float), 'the %s panel does not show the %s of the fit' % (name, name))
                mon.close('panel range', np.array(A.get_clim()), [spec.flux[:, cols].min(), spec.flux[:, cols].max()], rtol=1e-12, msg='range of the %s panel' % name)
                ext = A.get_extent()
                mon.check('panel extent', ext[2] < ext[3] and A.origin == 'lower', 'orientation of the %s panel' % name)
                ys = [float(l.get_ydata()[0]) for l in ax.lines if np.ptp(l.get_ydata()) == 0]
                for what, v in (('centre', mid), ('lower extent', mid-w), ('upper extent', mid+w)):
                    mon.check('panel lines', min([abs(q-v) for q in ys] + [99.]) < 1e-9*max(1, abs(v)), 'the %s line is missing from the %s panel' % (what, name), lines=ys, want_=v,
                              variant=variant)
                rows = set()
                for p in ax.patches:
                    z = p.get_xy()
                    rows |= set(range(int(round(z[:, 1].min()+0.5)), int(round(z[:, 1].max()+0.5))))
                    mon.check('low rows', abs(z[:, 0].min()+0.5) < 1e-9 and abs(z[:, 0].max()-spec.flux.shape[1]+0.5) < 1e-9, 'hatched rows do not cover the columns')
                mon.check('low rows', rows == set(int(q) for q in spec.low_snr_row_inds), 'rows hatched are not those of low S/N', got_=sorted(rows), want_=[int(q) for q in spec.low_snr_row_inds])
            for ax in axes[:2]:
                mon.check('stamps', len(ax.images) == int(fit.galaxy.pstamp is not None), 'image panels', n=len(ax.images))
        fit.kinModel = model
    # trace
    for t in range(2):
        fn = os.path.join(mon.tmp, 'trace%d.png' % t)
        before = fits.snap(fit)
        with Figures() as F:
            plot_trace(fit.sampler_dict, fit, fileout=fn, usetex=case['usetex'])
        mon.ev('trace')
        mon.sig('trace', sum(case['vary']))
        ch = fits.changed(before, fits.snap(fit))
        mon.check('pure', not ch, 'plotting the trace modifies the fit: %s' % ch[:5])
        if not mon.check('figure', len(F.saved) == 1 and os.path.exists(fn), 'trace plot is not saved'):
            continue
        chain = fit.sampler_dict['chain']
        nf = sum(case['vary'])
        axes = F.saved[0].axes
        names = [n for n, v in zip(fit.kinModel.theta_names_nice, case['vary']) if v]
        if mon.check('trace panels', len(axes) == nf, 'number of panels', n=len(axes), want_=nf):
            for k, ax in enumerate(axes):
                got = np.array([l.get_ydata() for l in ax.lines])
                want = chain[:, :, k]
                ok = got.ndim == 2 and got.shape[1] == want.shape[1]
                if mon.check('trace', ok, 'lines do not have all steps', got_=np.shape(got), want_=want.shape):
                    eq = (got[:, None] == want[None]).all(axis=2)
                    mon.check('trace', eq.any(axis=1).all(), 'a line is not the trace of a walker', panel=k)
                    mon.check('trace', eq.any(axis=0).all(), 'a walker is not drawn', panel=k)
                mon.check('trace label', ax.get_ylabel() == names[k], 'label of the panel', got_=ax.get_ylabel(), want_=names[k])
    plt.close('all')


def corner(case, mon, r):
    import matplotlib.pyplot as plt
    from misfit.plot import plot_param_corner
    fit = analysed(case, mon, r)
    ru = fit.mcmc_results
    for variant in ('method', 'file'):
        fn = os.path.join(mon.tmp, 'corner.png')
        before = fits.snap(fit)
        with Figures() as F:
            if variant == 'method':
                fit.mcmcOptions.filename_plot_param_corner, old = fn, fit.mcmcOptions.filename_plot_param_corner
                fit.plot_param_corner()
                fit.mcmcOptions.filename_plot_param_corner = old
            else:
                plot_param_corner(fit, fileout=None, usetex=False, showLinked=bool(r.random() < 0.5))
        mon.ev('corner')
        mon.sig('corner', variant, sum(case['vary']), case['linked'])
        ch = fits.changed(before, fits.snap(fit), ignore=(".kinProfile.dispProfile.theta",))
        mon.check('pure', not ch, 'plotting the corner plot modifies the fit: %s' % ch[:5])
        figs = F.saved + F.shown
        if not mon.check('figure', len(figs) == 1 and (variant == 'file') == (not os.path.exists(fn)), 'figure of the corner plot'):
            return
        if variant == 'method':
            os.remove(fn)
        flat = np.asarray(fit.sampler_dict['flatchain'])[:, :-2]
        n = flat.shape[1]
        best = np.asarray(ru.bestfit_theta)[:n]
        err = np.asarray(ru.err_theta_1sig)[:n]
        axes = figs[0].axes
        if not mon.check('corner panels', len(axes) == n*n, 'number of panels', got_=len(axes), want_=n*n):
            continue
        for i in range(n):
            ax = axes[i*n+i]
            x = flat[:, i]
            z = [p.get_xy() for p in ax.patches]
            if mon.check('corner histogram', len(z) == 1, 'no histogram on the diagonal'):
                z = z[0]
                tot = 0.
                e = np.unique(z[:, 0])
                # area of the histogram / bin width: number of samples
                top = [max(z[j, 1], z[j+1, 1]) for j in range(len(z)-1) if z[j, 1] == z[j+1, 1] and z[j, 0] != z[j+1, 0]]
                tot = float(np.sum(top))
                mon.check('corner histogram', abs(tot-len(x)) < 1e-6*len(x), 'the histogram does not hold every sample', column=i, got_=tot, want_=len(x))
                if np.ptp(x) > 0:
                    mon.close('corner range', [e[0], e[-1]], [x.min(), x.max()], rtol=0., atol=1e-9*np.ptp(x), scale=0., msg='range of the histogram, column %d' % i)
                    h = np.histogram(x, bins=e)[0]
                    if len(h) == len(top):
                        # samples within rounding of a bin edge may be in either bin
                        mon.check('corner histogram', np.abs(np.cumsum(h)-np.cumsum(np.array(top))).max() <= 1, 'histogram of column %d' % i)
            vs = [float(l.get_xdata()[0]) for l in ax.lines if len(l.get_xdata()) and np.ptp(l.get_xdata()) == 0]
            w = max(np.ptp(x), 1e-9)
            for what, v in [('best fit', best[i])] + [('%g percentile' % q, np.percentile(x, q)) for q in (2.275, 15.865, 84.135, 97.725)]:
                mon.check('corner lines', min([abs(q-v) for q in vs] + [9e9]) < 1e-6*w+1e-9*abs(v), 'the %s is not marked on the diagonal' % what, column=i, lines=vs, want_=float(v))
            t = ax.get_title()
            for v in (best[i], err[i][0], err[i][1]):
                mon.check('corner title', '%.2f' % v in t, 'title does not give best fit and errors', title=t, value=float(v))
            mon.check('corner title', t.startswith(ru.theta_names_nice[i]), 'title does not name the parameter', title=t, want_=ru.theta_names_nice[i])
    plt.close('all')


def fit1d(case, mon, r):
    import matplotlib.pyplot as plt
    c = case['cfg']
    d = ref1d.raw(c)
    fn = os.path.join(mon.tmp, 'fit1d.png')
    res = []
    for plot in (True, False):
        F1 = ref1d.fitter(c, d, mon, num_MC=4)
        F1.galaxy.field, F1.galaxy.ID = 'F_1', 3
        F1.galaxy.maskname = gen.pick(r, [None, 'm_1']) if plot else None
        np.random.seed(case['rs'] % 99999)
        with Figures() as F:
            F1.fit(noErrors=not case['errors'], noPlot=not plot, plot_filename=fn if plot else None, err_filename=os.path.join(mon.tmp, 'err%d.dat' % plot))
        s = F1.galaxy.spec1D_trim
        res.append([np.array(v, dtype=float).ravel() for v in (F1.z, F1.vel_disp, F1.flux_arr, F1.cont_coeff, F1.z_err, F1.vel_disp_err, F1.flux_arr_err, F1.final_model,
                                                                s.flux, s.flux_err, s.spec_mask, s.wave)])
        if plot:
            mon.ev('fit1d')
            mon.sig('fit1d', tuple(c['names']), case['errors'])
            if not mon.check('figure', len(F.saved) == 1 and os.path.exists(fn), 'plot of the 1D fit is not saved'):
                return
            mon.check('closed', not F.left, 'the saved figure stays open')
            ax = F.saved[0].axes[0]
            lines = [np.array(l.get_xydata()) for l in ax.lines]
            good, bad = s.spec_mask == 1., s.spec_mask == 0.

            def has(x, y):
                return any(q.shape == (len(x), 2) and np.array_equal(q[:, 0], x) and np.array_equal(q[:, 1], y, equal_nan=True) for q in lines)
            mon.check('fit1d', has(s.obswave[good], s.flux[good]), 'the unmasked data are not drawn')
            if bad.any():
                mon.check('fit1d', has(s.obswave[bad], s.flux[bad]), 'the masked data are not drawn')
            mon.check('fit1d', has(s.obswave, F1.final_model), 'the best-fit model is not drawn')
            cont = 1e-18*sum(v*s.obswave**i for i, v in enumerate(F1.cont_coeff))
            mon.check('fit1d', any(q.shape == (len(cont), 2) and np.allclose(q[:, 1], cont, rtol=1e-9, atol=1e-9*np.abs(F1.final_model).max()) for q in lines), 'the continuum is not drawn')
            xs = [float(q[0, 0]) for q in lines if len(q) == 2 and q[0, 0] == q[1, 0]]
            for g in c['names']:
                for w in ref1d.TABLE[g][0]:
                    mon.check('fit1d lines', min([abs(q-w*(1+F1.z)) for q in xs] + [9e9]) < 1e-6, 'a fitted line is not marked', line=w)
    for a, b in zip(*res):
        mon.same('fit1d pure', a, b, 'a 1D fit with a plot differs from one without')
    plt.close('all')
