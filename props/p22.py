"""P22: slit misalignment, projected sizes and image orientation."""
import numpy as np

from rvlib import fits, gen, prep

TECHNIQUE = ('runtime monitor: results of the real angle and projection functions and of spectrum preparations observed over hostile sets of angles, judged '
             'by direction vectors, the ellipse equation and measured orientations of rotated images')
NOTE = 'Held on the angles observed: angles agree to 1e-7 deg (mod 180), lengths to 1e-9, measured image orientations to 0.6 deg.'
RULE = ('angles at, near (1e-9) and away from multiples of 45/90/180 deg, also beyond +-360, with radii and axis ratios, seeded; preparations with and without a '
        'given misalignment; images of elongated objects; distinct: octant of the angles x kind')
MIN = {'angle': 3000, 'invariance': 6000, 'projection': 2000, 'slit': 1500, 'prep': 8, 'image': 30, 'sky': 300}
N = {'quick': (12, 10, 36), 'thorough': (120, 100, 400)}


def cases(tier, seed):
    a, p, m = N[tier]
    out = [{'kind': 'angles', 'seed': i, 'rs': int(gen.rng_for('P22', seed, i).integers(1 << 30))} for i in range(a)]
    for i in range(p):
        r = gen.rng_for('P22p', seed, i)
        c = prep.cfg(r, delt_PA=None if i % 3 else round(float(r.uniform(-180, 360)), 3), snr=30., nbad=0)
        out.append({'kind': 'prep', 'cfg': c, 'angles': [angle(r) for _ in range(3)], 'seed': i})
    for i in range(m):
        r = gen.rng_for('P22i', seed, i)
        out.append({'kind': 'image', 'angles': [angle(r) for _ in range(3)], 'pos': [round(float(x), 2) for x in r.uniform(-9, 9, 2)],
                    'size': [int(r.integers(60, 85)), int(r.integers(60, 85))], 'one': bool(r.random() < 0.3), 'seed': i})
    return out


def angle(r):
    u = r.random()
    if u < 0.25:
        return float(gen.pick(r, [0., 45., 90., -90., 135., 180., -180., 270., 360.]))
    if u < 0.4:
        return float(gen.pick(r, [0., 90., -90., 180., 270.]) + gen.pick(r, [1e-9, -1e-9, 1e-4, -1e-4, 0.5, -0.5]))
    if u < 0.5:
        return round(float(r.uniform(-900, 900)), 6)
    return round(float(r.uniform(-180, 360)), 6)


def axis(a):
    """unit vector of an axis at position angle a (up: 0, left: 90)"""
    return np.array([-np.sin(np.deg2rad(a)), np.cos(np.deg2rad(a))])


def between(sersicPA, slit_PA, img_PA):
    """signed angle (mod 180) from the slit to the major axis, from direction vectors: sky frame"""
    g, s = axis(sersicPA + img_PA), axis(slit_PA)
    return np.rad2deg(np.arctan2(s[0]*g[1]-s[1]*g[0], s @ g))


def mod180(a):
    return (a + 90.) % 180. - 90.


def measure(sersicPA, slit_PA, img_PA, gen_model=False, delt=None):
    from misfit.galaxy import Galaxy, ObsSpectrum2D, Pstamp
    g = Galaxy(ID=1, z=1., sersicPA=sersicPA, delt_PA=delt, generate_model=gen_model)
    s = ObsSpectrum2D(band='K', wave=np.arange(5.)+20000., flux=np.ones((3, 5)), flux_err=np.ones((3, 5)), slit_PA=slit_PA)
    g.spec2D = s
    if not gen_model:
        g.set_pstamp(Pstamp(img_PA=img_PA))
    g.calculate_slit_object_delta_PA()
    return g


def run(case, mon):
    {'angles': angles, 'prep': prepared, 'image': image}[case['kind']](case, mon)


def angles(case, mon):
    r = np.random.default_rng(case['rs'])
    from misfit.general import general_utils as U
    for _ in range(300):
        a, s, p = angle(r), angle(r), angle(r)
        g = measure(a, s, p)
        d = g.delt_PA
        mon.ev('angle')
        mon.sig('angle', int(a//45) % 8, int(s//45) % 8, int(p//45) % 8)
        ctx = dict(sersicPA=a, slit_PA=s, img_PA=p)
        mon.check('range', -90.0000001 <= d <= 90.0000001, 'misalignment outside [-90, 90]', got=d, **ctx)
        mon.close('angle', mod180(d - between(a, s, p)), 0., atol=1e-7, rtol=0., scale=0., msg='misalignment is not the angle between axis and slit', d=d, **ctx)
        mon.close('abs', g.delt_PA_abs, abs(d), rtol=1e-14, msg='delt_PA_abs')
        mon.check('inputs', g.sersicPA == a and g.spec2D.slit_PA == s and g.pstamp.img_PA == p, 'position angles are modified')
        t = angle(r)
        for name, q in (('galaxy by 180', (a+180, s, p)), ('slit by 180', (a, s-180, p)), ('image by 180', (a, s, p+180)), ('image and galaxy', (a-t, s, p+t)),
                        ('slit and galaxy', (a+t, s+t, p)), ('slit and image', (a, s+t, p+t))):
            e = measure(*q).delt_PA
            mon.ev('invariance')
            mon.close('invariance', mod180(e-d), 0., atol=1e-6, rtol=0., scale=0., msg='misalignment changes by rotating %s' % name, t=t, d=d, e=e, **ctx)
        if r.random() < 0.1:
            g2 = measure(a, s, p, gen_model=True, delt=t)
            mon.check('given', g2.delt_PA == t and g2.delt_PA_abs == abs(t), 'misalignment of a generated model is not kept', got=g2.delt_PA, want=t)
    # projected sizes
    for _ in range(220):
        re, q, D = float(r.uniform(0.05, 5.)), float(gen.pick(r, [1., r.uniform(0.02, 1.), r.uniform(0.2, 1.)])), angle(r)
        th = np.deg2rad(D)
        ctx = dict(re=re, q=q, delt_PA=D)
        mon.ev('projection')
        mon.sig('projection', int(D//45) % 8, q == 1.)
        for name, u in (('y_proj_phys', th), ('x_proj_phys', th+np.pi/2)):
            rad = getattr(U, name)(re, D, q)
            x, y = rad*np.cos(u), rad*np.sin(u)      # along major, minor axis
            mon.check('ellipse', rad > 0, '%s is not positive' % name, got=rad, **ctx)
            mon.close('ellipse', (x/re)**2 + (y/(q*re))**2, 1., rtol=1e-9, msg='%s is not the radius of the ellipse' % name, rad=rad, **ctx)
        mon.close('major', U.y_proj_major(re, D), re*abs(np.cos(th)), rtol=0., atol=1e-12*re, scale=0., msg='y_proj_major', **ctx)
        mon.close('major', U.x_proj_major(re, D, q), re*abs(np.sin(th)), rtol=0., atol=1e-12*re, scale=0., msg='x_proj_major', **ctx)
        if abs(np.cos(th)) > 1e-6:
            mon.close('unproject', U.r_unproj_major(U.y_proj_major(re, D), D, q), re, rtol=1e-9, msg='unprojected length', **ctx)
            mon.close('unproject', U.r_unproj_major(-U.y_proj_major(re, D), D, q), re, rtol=1e-9, msg='unprojected length, other side', **ctx)
        sw = float(r.uniform(0.1, 3.)*re)
        t = np.linspace(0, re, 20001)
        inside = t[np.abs(t*np.sin(th)) <= 0.5*sw*(1+1e-12)]
        want = abs(np.cos(th))*inside.max()
        mon.ev('slit')
        mon.close('in slit', U.y_proj_major_inslit(re, D, slit_width_arcsec=sw), want, rtol=0., atol=re*1.01e-4, scale=0.,
                  msg='projected major axis within the slit', slit_width=sw, **ctx)
        # inclination of an oblate spheroid: its outline has axis ratio sqrt(cos^2 i + q0^2 sin^2 i)
        q0 = float(r.uniform(0., 0.4))
        qq = q0 + (1-q0)*float(gen.pick(r, [0., 1., r.random()]))
        i = U.inclination_angle(qq, q0=q0)
        mon.close('inclination', np.sqrt(np.cos(i)**2 + (q0*np.sin(i))**2), qq, rtol=1e-9, msg='inclination', q=qq, q0=q0)
        mon.check('inclination', 0 <= i <= np.pi/2+1e-12, 'inclination outside [0, 90 deg]', got=i)
    # position angle on the sky, rotation of positions
    from astropy.coordinates import SkyCoord
    from misfit.plot import plot_utils as PU
    for _ in range(20):
        t, sc = r.uniform(-179., 179.), gen.pick(r, [0.03, 0.06, 0.2, 0.4])/3600.
        if abs(np.cos(np.deg2rad(t))) > 1e-3:
            hdr = {'CD1_1': -sc*np.cos(np.deg2rad(t)), 'CD1_2': sc*np.sin(np.deg2rad(t)), 'CD2_1': sc*np.sin(np.deg2rad(t)), 'CD2_2': sc*np.cos(np.deg2rad(t))}
            mon.ev('sky')
            mon.close('image PA', PU.pstamp_position_angle(hdr), t, rtol=0., atol=1e-7, scale=0., msg='position angle of the image')
    mon.check('image PA', PU.pstamp_position_angle({}) == 0., 'position angle without information')
    for _ in range(40):
        a = SkyCoord(r.uniform(0, 360), r.uniform(-85, 85), unit='deg')
        b = a.directional_offset_by(r.uniform(0, 360)*a.ra.unit, gen.pick(r, [1e-4, 0.01, 1., 20.])*a.ra.unit)
        got = PU.pos_angle(a, b)
        mon.ev('sky')
        want = a.position_angle(b).deg
        mon.close('sky', (got-want+180) % 360 - 180, 0., atol=1e-5, rtol=0., scale=0., msg='position angle on the sky', res=got)
        mon.close('sky', PU.pos_angle(a, b, units='radians'), np.deg2rad(got), rtol=1e-12, msg='position angle in radians')
        mon.raises('sky', ValueError, lambda: PU.pos_angle(a, b, units='hours'), 'unknown units')
        x, y, x0, y0, t = r.uniform(-20, 20, 5)
        px, py = PU.rot_coord_angle([x, y], t, x0=x0, y0=y0)
        z = (complex(x, y)-complex(x0, y0))*np.exp(1j*t) + complex(x0, y0)
        mon.close('rotation', [px, py], [z.real, z.imag], rtol=0., atol=1e-9, scale=0., msg='rotated position')
        cx, cy = PU.rot_corner_coords([[x, y], [y, x], [x0, y0]], t, x0=x0, y0=y0)
        z2 = (complex(y, x)-complex(x0, y0))*np.exp(1j*t) + complex(x0, y0)
        mon.close('rotation', [cx, cy], [[z.real, z2.real, x0], [z.imag, z2.imag, y0]], rtol=0., atol=1e-9, scale=0., msg='rotated corners')


def prepared(case, mon):
    c = case['cfg']
    a, s, p = case['angles']
    gal, ins = prep.make(c)
    gal.sersicPA, gal.spec2D.slit_PA, gal.pstamp.img_PA = a, s, p
    given = gal.delt_PA
    gal.spec2D.fit_prep_calcs(gal, ins)
    mon.ev('prep')
    mon.sig('prep', given is None)
    if given is not None:
        mon.same('given', gal.delt_PA, given, 'a given misalignment is changed by the preparation')
    else:
        mon.check('range', -90.0000001 <= gal.delt_PA <= 90.0000001, 'misalignment outside [-90, 90]', got=gal.delt_PA)
        mon.close('angle', mod180(gal.delt_PA - between(a, s, p)), 0., atol=1e-7, rtol=0., scale=0., msg='misalignment from the preparation',
                  delt_PA=gal.delt_PA, angles=case['angles'])
    before = gal.delt_PA
    gal.sersicPA = a + 31.
    gal.spec2D.fit_prep_calcs(gal, ins)
    mon.same('kept', gal.delt_PA, before, 'a second preparation changes the misalignment')
    if given is None:
        gal.calculate_slit_object_delta_PA()
        mon.close('again', mod180(gal.delt_PA - before - 31.), 0., atol=1e-6, rtol=0., scale=0., msg='recalculated misalignment')


def moments(im):
    im = np.where(im > 0.05*im.max(), im, 0.)
    y, x = np.mgrid[:im.shape[0], :im.shape[1]]
    t = im.sum()
    cx, cy = (im*x).sum()/t, (im*y).sum()/t
    xx, yy, xy = (im*(x-cx)**2).sum()/t, (im*(y-cy)**2).sum()/t, (im*(x-cx)*(y-cy)).sum()/t
    return cx, cy, np.rad2deg(0.5*np.arctan2(2*xy, xx-yy)) - 90.     # PA: counterclockwise from up


def image(case, mon):
    from misfit.galaxy import Galaxy, ObsSpectrum1D, ObsSpectrum2D, Pstamp
    from misfit.plot import plot_utils as PU
    a, s, p = case['angles']
    ny, nx = case['size']
    y, x = np.mgrid[:ny, :nx]
    cen = np.array([(nx-1)/2., (ny-1)/2.])
    x0, y0 = cen + case['pos']
    u = axis(a)
    l, w = (x-x0)*u[0] + (y-y0)*u[1], -(x-x0)*u[1] + (y-y0)*u[0]
    im = np.exp(-0.5*((l/6.)**2 + (w/2.5)**2))
    g = Galaxy(ID=1, z=1., sersicPA=a)
    arr = dict(band='K', wave=np.arange(5.)+20000., slit_PA=s)
    if case['one']:
        g.spec1D = ObsSpectrum1D(flux=np.ones(5), flux_err=np.ones(5), **arr)
    else:
        g.spec2D = ObsSpectrum2D(flux=np.ones((3, 5)), flux_err=np.ones((3, 5)), **arr)
    g.set_pstamp(Pstamp(pstamp=im.copy(), img_PA=p))
    snap = fits.snap(g)
    rot = PU.rotate_pstamp(g)
    mon.ev('image')
    mon.sig('image', int((s-p)//45) % 8, int(a//45) % 8, case['one'])
    ch = fits.changed(snap, fits.snap(g))
    mon.check('image pure', not ch, 'rotating the image modifies the galaxy: %s' % ch)
    mon.check('shape', rot.shape == im.shape, 'shape of the rotated image')
    cx, cy, pa = moments(rot)
    mon.close('orientation', mod180(pa - between(a, s, p)), 0., atol=0.6, rtol=0., scale=0., msg='rotated image: orientation relative to the (vertical) slit',
              pa=pa, angles=case['angles'])
    rx, ry = PU.rot_object_center(x0, y0, cen, -np.deg2rad(s-p))
    mon.close('center', [float(np.squeeze(rx)), float(np.squeeze(ry))], [cx, cy], rtol=0., atol=0.08, scale=0., msg='position of the object in the rotated image')
    mon.close('flux', rot.sum(), im.sum(), rtol=0.01, msg='flux of the rotated image')
