"""Shear stress over topography: every bed of a bounded set, every wind direction, with and without separation."""
import itertools
import numpy as np
from scipy.special import kv
from mc import tiny

TITLE = 'shear stress over topography follows the perturbation theory'
LEVEL = 'model_checking'
RULE = ('1-D: ALL beds of 6 cells with heights from a finite set are applied to one model in turn (a history of beds) for all winds; the '
        'shear stress is compared with the convolution formula, the mirrored bed under the mirrored wind must give the mirrored stress. '
        '2-D: all combinations of bed shape, level, wind, origin, grid rotation, cell size of the computational grid, roughness and separation; the stress is compared with '
        'a direct evaluation of the Fourier solution on the wind-aligned grid, without library transforms or interpolators; the separation surface is compared with an independent evaluation of its polynomials')
ASSUMPTIONS = ['the stress over the bed is scaled with the undisturbed stress of the first cell, the roughness is the initial one', 'the separation surface is the third-order polynomial from the brink to the foot, as documented by the source; its optional Fourier filter may only add to it',
               'the wind is not exactly alongshore in 1-D', 'vertical and horizontal datum do not matter (without separation)']
CHUNK = 4
H = (0., .3, 1.2)
W1 = ((10., 270.), (10., 300.), (25., 215.), (10., 90.), (10., 60.), (25., 145.), (0., 270.), (10., 181.), (6., 359.))
SHAPES = ('flat', 'hill', 'ridge', 'step', 'pattern', 'dune')
W2 = ((10., 270.), (10., 255.), (20., 225.), (10., 180.01), (10., 120.), (10., 90.), (10., 33.), (10., 330.), (0., 300.))


def BOUNDS(tier):
    return ('1-D: all 729 beds of 6 cells (quick: 243 of 5) x 9 winds x spacing 1 and 2.5 m x separation on/off; beds of 26 cells with one or two dunes x 2 spacings x 2 separation angles x 3 levels x 6 winds x both directions; 2-D 13 x 8 cells: 6 shapes x 3 levels x 9 winds x 2 origins x '
            '3 rotations x computational cells of 1 and 2 m x uniform and varying roughness x separation off/on/filtered across/filtered along the wind, with the bed and its mirror image in one model')


def cases(tier):
    n = 5 if tier == 'quick' else 6
    for h0, h1, dx, sep, lv in itertools.product(H, H, (1., 2.5), (0, 1), (0., 7.)):
        yield dict(kind='1d', n=n, h0=h0, h1=h1, dx=dx, sep=sep, level=lv)
    q = tier == 'quick'
    one = [((b, h, w, st),) for b in ((4, 9, 14) if q else range(2, 18)) for h in (.6, 2., 5.) for w in (1, 2, 4) for st in (.1, .5)]
    two = [((b, h, 1, .3), (b + g, k, 2, .2)) for b in ((4,) if q else (4, 6)) for g in ((3, 7, 11) if q else range(2, 13)) for h in (.6, 2.) for k in (.6, 3.)]
    for dn, dx, mu, lv in itertools.product(one + two, (1., 2.5), (10., 25.), (0., 4., -3.)):
        yield dict(kind='1dsep', dunes=dn, dx=dx, mu=mu, level=lv)
    for sh, lv, og, al, cd, z0, sep in itertools.product(SHAPES, (0., 6., -3.), (0, 1), (0., 40., 110.), (1., 2.), (0, 1), (0, 1, 2, 3)):
        if tier == 'quick' and ((lv == -3.) + (og == 1) + (al > 0) + (cd == 2.) + z0 + (sep > 1) > 1):
            continue
        yield dict(kind='2d', shape=sh, level=lv, og=og, alpha=al, cdx=cd, z0=z0, sep=sep)


def warmup():
    tiny.warm()


def setwind(m, u, d):
    m.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))


def consistent(rec, s, det):
    rec.check(np.all(np.isfinite(s['tau'])) and np.all(s['tau'] >= 0), 'finite', 'shear stress', **det)
    rec.close(s['tau'], np.hypot(s['taus'], s['taun']), 'tau-components', 'stress and components', rtol=1e-7, atol=1e-10, **det)
    rec.close(s['ustar'], np.sqrt(s['tau'] / 1.225), 'ustar', 'shear velocity and stress', rtol=1e-7, atol=1e-9, **det)
    rec.close(s['ustar'], np.hypot(s['ustars'], s['ustarn']), 'ustar-components', rtol=1e-7, atol=1e-9, **det)


def ref1d(z, dx, sgn):
    """tau/tau0 by the discrete Hilbert transform of the bed slope seen along the wind."""
    z = z[::-1] if sgn < 0 else z
    N = len(z)
    g = np.zeros(N)
    for i in range(1, N - 1):
        g[i] = (z[i + 1] - z[i - 1]) / 2 / dx
    r = np.zeros(N)
    for i in range(N):
        acc = 0.
        for k in range(1, N):
            if k != i:
                acc += g[k] / ((i - k) * np.pi)
        r[i] = max(.1, 1 + 3 * (acc + g[i]))
    return r[::-1] if sgn < 0 else r


def polynomial(z, dist, brink, foot, slope, c):
    """Third-order surface that leaves the brink with the slope of the bed and lands flat at the foot."""
    a = slope / c
    length = min(max(1.5 * (foot / c) * (1 + a / 4 + a * a / 8), .1), 200.)
    r = dist / length
    return brink + slope * length * r - (3 * foot + 2 * slope * length) * r**2 + (2 * foot + slope * length) * r**3, length


def starts(steep):
    """First steep cells; a single cell between two steep ones does not end a lee side."""
    st = [bool(v) for v in steep]
    for i in range(1, len(st) - 1):
        if steep[i - 1] and not steep[i]:
            st[i] = True
    return [i for i in range(1, len(st)) if st[i] and not st[i - 1]]


def zsep1d(z, dx, d, mu, c, eps):
    """Separation surface of a transect: starts two cells before the last cell that is not steep and ignores the slope upwind."""
    west = np.sin(np.deg2rad(d)) < 0
    z = z if west else z[::-1]
    n = len(z)
    step = dx / abs(np.sin(np.deg2rad(d)))
    sl = np.rad2deg(np.arctan(np.diff(z) / step)); sl = np.append(sl, sl[-1])
    sl[0] = sl[1]; sl[-1] = sl[-2]
    out = z.copy()
    for b in starts(sl < -mu + eps):
        i = b - 3
        if i < 2:
            continue
        up = np.nonzero(sl[i + 5:] >= eps)[0]
        foot = z[i] - z[i + 5 + up[0]] if len(up) else z[i]
        s0 = (z[i - 1] - z[i - 2]) / step
        l0 = polynomial(z, 0., z[i], foot, s0, c)[1]
        l1 = polynomial(z, 0., z[i], z[i], 0., c)[1]
        e0, e1 = min(i + int(l0 / step + eps), n - 1), min(i + int(l1 / step + eps), n - 1)
        for q in range(i, e0):
            out[q] = max(z[q], polynomial(z, (q - i) * dx, z[i], z[i], 0., c)[0] if q < e1 else 0.)
    return out if west else out[::-1]


def lee_bed(case):
    """Dunes with a brink, a slip face and a flat foot, seen along the x-axis."""
    z = np.full(26, 0.)
    for brink, h, w, st in case['dunes']:
        for q in range(26):
            if q <= brink:
                z[q] = max(z[q], h - st * (brink - q))
            elif q <= brink + w:
                z[q] = max(z[q], h * (1 - (q - brink) / w))
    return z + case['level']


def run1sep(rec, case):
    m = tiny.model(tiny.base(nx=26, dx=case['dx'], process_shear=True, process_bedupdate=False, process_separation=True, mu_b=case['mu'], c_b=.2))
    # the wind turns over one bed, and the bed changes in one wind
    for flip in (0, 1):
        for u, d in W1[::-1] if flip else W1:
            if u == 0 or d in (181., 359.):
                continue
            z = lee_bed(case); z = z[::-1] if flip else z
            det = dict(wind=(u, d), flip=flip, z=z)
            m.s['zb'][0] = z; setwind(m, u, d); m.update(); rec.step(); rec.trace()
            lo, ref = (zsep1d(z, case['dx'], d, case['mu'], .2, e) for e in (-1e-9, 1e-9))
            got = m.s['zsep'].reshape(-1)
            tol = dict(rtol=1e-7, atol=1e-6)
            rec.state(z, u, d, case['dx'], case['mu'])
            rec.check(np.all(np.isclose(got, lo, **tol) | np.isclose(got, ref, **tol)), 'bubble1d', 'separation surface', got=got, want=ref, **det)
            rec.outcome('bubbles1d:%d' % (np.diff((ref > z + 1e-9).astype(int)) > 0).sum())
    rec.sample(dict(case=case))


def zsep2d(z, dx, mu, c, eps):
    """Separation surface along the rows of the wind-aligned grid; eps decides which side a tie falls."""
    out = z.copy()
    n = z.shape[1]
    for j, r in enumerate(z):
        sl = np.rad2deg(np.arctan((r[2:] - r[:-2]) / 2 / dx)); sl = np.concatenate([sl, [sl[-1]] * 2])
        for i in starts(sl < -mu + eps):
            up = np.nonzero(sl[i + 5:] >= eps)[0]
            foot = r[i] - r[i + 5 + up[0]] if len(up) else r[i]
            k = min(i, 3); s0 = (r[i] - r[i - k]) / k / dx
            l = polynomial(r, 0., r[i], foot, s0, c)[1]
            for q in range(i, min(i + int(l / dx + eps) + 1, n - 1)):
                out[j, q] = max(out[j, q], polynomial(r, (q - i) * dx, r[i], foot, s0, c)[0])
    return out


def yfilter(z):
    w = np.exp(-.5 / .2**2); p = np.vstack([z[:1], z, z[-1:]])
    return (p[1:-1] + w * (p[:-2] + p[2:])) / (1 + 2 * w)


def run1d(rec, case):
    n, dx = case['n'], case['dx']
    base = tiny.base(nx=n, dx=dx, process_shear=True, process_bedupdate=False, process_separation=bool(case['sep']), mu_b=10.)
    m = tiny.model(base); far = tiny.model(dict(base, xgrid_file=base['xgrid_file'] + 83000.5), 'far.txt')
    for rest in itertools.product(H, repeat=n - 2):
        z = np.array((case['h0'], case['h1']) + rest) + case['level']
        for u, d in W1:
            det = dict(z=z, wind=(u, d))
            m.s['zb'][0] = z; setwind(m, u, d); m.update(); rec.step(); rec.trace(); s = m.s
            rec.state(z, u, d, dx, case['sep'])
            consistent(rec, s, det)
            sgn = -np.sign(np.sin(np.deg2rad(d)))
            f = ref1d(z, dx, sgn)
            red = np.ones(n)
            if case['sep'] and u > 0:
                hs = s['zsep'].reshape(-1) - z
                rec.check(np.all(hs >= 0), 'zsep', 'separation surface below the bed', hsep=hs, **det)
                rec.close(s['hsep'].reshape(-1), hs, 'hsep', 'height of the separation bubble', **det)
                red = np.clip(1 - 10 * hs, 0, 1)
                fall = np.rad2deg(np.arctan(np.diff(z) * sgn * abs(np.sin(np.deg2rad(d))) / dx))
                if np.all(fall > -10.):
                    rec.check(np.all(hs == 0), 'gentle', 'separation without a steep lee slope', hsep=hs, **det)
                rec.outcome('separated' if np.any(hs > 0) else 'attached')
            rec.close(s['tau'][0], s['tau0'][0] * f * red, 'tau1d', 'perturbed stress', rtol=1e-7, atol=1e-12, **det)
            if u > 0:
                rec.close(s['taus'][0] * s['taun0'][0], s['taun'][0] * s['taus0'][0], 'direction', 'the wind direction does not change', rtol=1e-7, atol=1e-12, **det)
                rec.check(np.all(s['taus'][0] * sgn >= 0), 'upwind', 'stress against the wind', **det)
            else:
                rec.check(np.all(s['tau'] == 0), 'calm', 'stress without wind', **det)
            # mirrored bed and wind
            t1, z1, x1 = s['tau'][0].copy(), s['zsep'].reshape(-1).copy(), s['taus'][0].copy()
            m.s['zb'][0] = z[::-1]; setwind(m, u, -d % 360); m.update(); rec.step()
            rec.close(m.s['tau'][0], t1[::-1], 'mirror', 'mirrored stress', rtol=1e-7, atol=1e-12, **det)
            rec.close(m.s['taus'][0], -x1[::-1], 'mirror-s', 'mirrored stress component', rtol=1e-7, atol=1e-12, **det)
            if case['sep'] and u > 0:
                rec.close(m.s['zsep'].reshape(-1), z1[::-1], 'mirror-zsep', 'mirrored separation surface', rtol=1e-7, atol=1e-9, **det)
            if rest[-1] == H[1] and u > 0:
                far.s['zb'][0] = z; setwind(far, u, d); far.update(); rec.step()
                rec.close(far.s['tau'][0], t1, 'origin', 'stress depends on the origin of the grid', rtol=1e-6, atol=1e-9, **det)
    rec.sample(dict(case=case))


def bilinear(z, fx, fy):
    ny, nx = z.shape
    fx = np.clip(fx, 0, nx - 1); fy = np.clip(fy, 0, ny - 1)
    i = np.minimum(np.floor(fx).astype(int), nx - 2); j = np.minimum(np.floor(fy).astype(int), ny - 2)
    a, b = fx - i, fy - j
    return (z[j, i] * (1 - a) * (1 - b) + z[j, i + 1] * a * (1 - b) + z[j + 1, i] * (1 - a) * b + z[j + 1, i + 1] * a * b)


def fourier(z, dx, dy, z0, L=100., l=10.):
    """Relative stress perturbation along and across the wind (Weng et al. 1991, Kroy et al. 2002) by explicit sums."""
    ny, nx = z.shape
    L = L / 4
    for i in range(5):
        l = 2 * .41**2 * L / np.log(l / z0)
    hm = 1.
    for i in range(5):
        hm = L / np.sqrt(np.log(hm / z0))
    ul = np.log(l / z0) / np.log(hm / z0)
    Ex = np.exp(-2j * np.pi * np.outer(np.arange(nx), np.arange(nx)) / nx)
    Ey = np.exp(-2j * np.pi * np.outer(np.arange(ny), np.arange(ny)) / ny)
    hs = Ey @ z @ Ex
    ii = np.arange(nx); jj = np.arange(ny)
    kx = 2 * np.pi * np.where(ii < (nx + 1) // 2, ii, ii - nx)[None, :] / nx / dx + np.zeros((ny, 1))
    ky = 2 * np.pi * np.where(jj < (ny + 1) // 2, jj, jj - ny)[:, None] / ny / dy + np.zeros((1, nx))
    lx, ly = 2 * np.pi / dx / np.abs(kx), 2 * np.pi / dy / np.abs(ky)       # wave lengths in the units of the filter
    f = 1 / (1 + np.exp(-(lx - 1) * np.log(99))) / (1 + np.exp(-(ly - 1) / 2. * np.log(99)))
    hs = hs * f
    k = np.hypot(kx, ky)
    sg = np.sqrt(1j * L * kx * z0 / l)
    tx = hs * kx**2 / k * 2 / ul**2 * (-1 + (2 * np.log(l / z0) + k**2 / kx**2) * sg * kv(1, 2 * sg) / kv(0, 2 * sg))
    ty = hs * kx * ky / k * 2 / ul**2 * 2 * np.sqrt(2) * sg * kv(1, 2 * np.sqrt(2) * sg)
    tx[kx == 0] = 0; ty[kx == 0] = 0
    inv = lambda t: np.real(np.conj(Ey) @ t @ np.conj(Ex)) / nx / ny
    return inv(tx), inv(ty)


def shape(name, x, y):
    if name == 'flat':
        return np.zeros(x.shape)
    if name == 'hill':
        return .8 * np.exp(-((x - 5)**2 / 6. + (y - 2.5)**2 / 4.))
    if name == 'ridge':
        return 1.5 * np.exp(-(x - 6.)**2 / 3.) + 0 * y
    if name == 'step':
        return np.where(x > 6.5, 1.2, 0.)
    if name == 'dune':
        return np.clip(np.minimum(.25 * x, 3 * (9.1 - x)), 0, None) * np.clip(1 - .1 * abs(y - 4), 0, 1)
    return .4 * ((np.round(x) * 7 + np.round(y) * 3 + (np.round(x) * np.round(y))) % 5 % 3)


def run2d(rec, case):
    nx, ny = (13, 8) if case['sep'] != 3 else (6, 17)
    x0, y0 = (0., 0.) if not case['og'] else (83000.25, -4550.5)
    X, Y = tiny.grid2d(nx, ny)
    z = shape(case['shape'], X, Y) + case['level']
    kw = dict(process_shear=True, process_bedupdate=False, process_separation=case['sep'] > 0, mu_b=15., zsep_y_filter=case['sep'] == 2, sep_filter_iterations=2 * (case['sep'] == 3), dy=case['cdx'])
    if case['z0']:
        comp = np.resize(np.arange(1., 8.), (nx * ny, 4)); comp = comp / comp.reshape((-1, 2, 2)).sum(2).repeat(2, 1) * 2650 * .6
        kw.update(grain_size=[.0001, .02], grain_dist=[.5, .5], method_roughness='mean_grainsize_adaptive', bedcomp_file=comp, layer_thickness=1.)
    dyy = kw.pop('dy')
    cfg = tiny.base(nx=nx, ny=ny, zb=z, alpha=case['alpha'], **kw)
    cfg['dx'] = case['cdx']; cfg['dy'] = dyy
    cfg['xgrid_file'], cfg['ygrid_file'] = tiny.grid2d(nx, ny, 1., 1., case['alpha'], x0, y0)
    m = tiny.model(cfg)
    mass = m.s['mass'][:, :, 0, :].copy()
    bed = z
    # in one of the winds the bed is exchanged for its mirror image and back
    for u, d, z in [(u, d, b) for k, (u, d) in enumerate(W2) for b in ((bed, bed[::-1, ::-1]) if k == 1 else (bed,))]:
        det = dict(wind=(u, d), mirrored=z is not bed)
        dw = d - case['alpha']
        m.s['zb'][:] = z
        setwind(m, u, dw); m.update(); rec.step(); rec.trace(); s = m.s
        rec.state(case['shape'], case['level'], u, d, case['alpha'], case['og'], case['sep'], case['cdx'], case['z0'])
        consistent(rec, s, det)
        if u == 0:
            rec.check(np.all(s['tau'] == 0), 'calm', 'stress without wind', **det); continue
        g = s['shear'].cgrid
        # positions relative to the centre of the grid, in the directions along and across the wind
        xm, ym = X.mean(), Y.mean()
        a = np.deg2rad(270. - d)
        cx, cy = g['xi'] - g['xi'].mean(), g['yi'] - g['yi'].mean()
        dx = g['xi'][0, 1] - g['xi'][0, 0]; dy = g['yi'][1, 0] - g['yi'][0, 0]
        rec.close([dx, dy], [case['cdx'], case['cdx']], 'cells', 'cell size of the computational grid', **det)
        rx, ry = g['xi'] - s['shear'].x0, g['yi'] - s['shear'].y0
        px = xm + rx * np.cos(a) - ry * np.sin(a); py = ym + rx * np.sin(a) + ry * np.cos(a)
        zc = bilinear(z, px, py)
        gx, gy = (X - xm) * np.cos(a) + (Y - ym) * np.sin(a), -(X - xm) * np.sin(a) + (Y - ym) * np.cos(a)
        rec.check(rx.min() <= gx.min() and rx.max() >= gx.max() and ry.min() <= gy.min() and ry.max() >= gy.max(), 'cover',
                  'the computational grid does not cover the grid', **det)
        h = np.zeros(zc.shape)
        if case['sep']:
            h = g['z'] - zc
            rec.check(np.all(h > -1e-9), 'zsep', 'separation surface below the bed', **det)
            h = np.clip(h, 0, None)
            fall = np.rad2deg(np.arctan((zc[:, 2:] - zc[:, :-2]) / 2 / dx))
            if np.all(fall > -15 + 1e-6):
                rec.check(np.all(h < (1e-9 if case['sep'] in (1, 3) else 1e-4)), 'gentle', 'separation without a steep lee slope', hsep=h.max(), **det)
            rec.outcome('separated' if np.any(h > 1e-6) else 'attached')
            refs = [zsep2d(zc, dx, 15., .2, e) for e in (-1e-9, 1e-9)]
            if case['sep'] == 2:
                refs = [yfilter(r) for r in refs]
            refs = [np.maximum(r, zc) for r in refs]
            near = [np.isclose(g['z'], r, rtol=1e-6, atol=1e-6).all(1) for r in refs]
            if case['sep'] == 3:                # the filter only adds to the surface
                near = [(g['z'] >= r - 1e-6).all(1) for r in refs]
            j = int(np.argmin(near[0] | near[1]))
            rec.check(np.all(near[0] | near[1]), 'bubble2d', 'separation surface', row=j, got=g['z'][j], want=refs[0][j], bed=zc[j], **det)
            zs = s['zsep'] - z
            rec.check(np.all(zs > -1e-9), 'zsep-grid', 'separation surface below the bed', **det)
            rec.close(s['hsep'], bilinear(h, (gx - rx[0, 0]) / dx, (gy - ry[0, 0]) / dy), 'hsep', 'height of the bubble on the model grid', rtol=1e-6, atol=1e-7, **det)
            rec.close(zs, s['hsep'], 'hsep-zsep', atol=1e-9, **det)
        else:
            rec.close(g['z'], zc, 'bed', 'bed level on the computational grid', rtol=1e-7, atol=1e-7, **det)
        z0 = .001
        if case['z0']:
            zz = (mass * np.array([.0001, .02])).sum(2) / mass.sum(2) / 30
            z0 = bilinear(zz, px, py)
        tx, ty = fourier(zc + h, dx, dy, z0)
        t0 = s['tau0'][0, 0]
        TX, TY = np.maximum(t0 * (1 + tx), 0), t0 * ty
        red = np.clip(1 - 10 * h, 0, 1)
        TX, TY = TX * red, TY * red
        fx, fy = (gx - rx[0, 0]) / dx, (gy - ry[0, 0]) / dy
        along, across = bilinear(TX, fx, fy), bilinear(TY, fx, fy)
        b = a + np.deg2rad(case['alpha'])
        ws, wn = along * np.cos(b) - across * np.sin(b), along * np.sin(b) + across * np.cos(b)
        tol = dict(rtol=1e-5, atol=1e-5 * t0)
        rec.close(s['taus'], ws, 'taus', 'perturbed stress', **tol, **det)
        rec.close(s['taun'], wn, 'taun', 'perturbed stress', **tol, **det)
        if case['shape'] == 'flat' and not case['z0']:
            rec.close(s['tau'], s['tau0'], 'flat', 'stress over a flat bed', rtol=1e-6, **det)
    rec.sample(dict(case=case))


def run_case(rec, case):
    dict(run1d=run1d, run1dsep=run1sep, run2d=run2d)['run' + case['kind']](rec, case)
