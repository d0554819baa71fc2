"""Sand fences: every history of burial and erosion, every bounded pattern of fences under every wind direction."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'fences shelter their lee, and get buried or lost'
LEVEL = 'model_checking'
RULE = ('case = (kind, level of the bed, orientation, ...). Histories: ALL sequences of bed changes at the fences to the depth are executed by snapshot and restore, fence height and '
        'shear velocity are compared with a reference automaton of each fence. Patterns: ALL fence patterns of the bounded set under all winds in one and two dimensions, the reduction '
        'is compared with an independent evaluation of the Okin formula along the wind; the wind direction never changes')
ASSUMPTIONS = ['in two dimensions the reduction is sampled on a wind-aligned grid whose position follows from the coordinates, as documented in the code',
               'in one dimension the shear velocity is not reduced below 0.01 m/s']
CHUNK = 1
BASE = (0., 5., -3.)
DIRS = (270., 90., 0.5, 180.5, 225., 250., 318., 45., 110., 170.)


def BOUNDS(tier):
    return ('histories: 2 fences x 6 bed changes each, depth %d, 3 levels; 1-D: all patterns of 5 cells x 3 heights x 6 winds x orientation; 2-D: %d patterns on 6 x 5 cells x 10 winds x 3 computational '
            'cell sizes x 2 origins x 3 grid orientations, and 5 bed changes at the fences in every wind' % ((2, 8) if tier == 'quick' else (4, 16)))


def cases(tier):
    for lv, first, solver in itertools.product(BASE, range(6), ('trunk',)):
        yield dict(kind='history', level=lv, first=first, depth=2 if tier == 'quick' else 4)
    for lv, alfa, h0, dx in itertools.product(BASE, (0., 70.), (0., .6, 1.2), (1., .5)):
        yield dict(kind='1d', level=lv, alfa=alfa, first=h0, dx=dx)
    for lv, alpha, og, cdx, pat in itertools.product((0., -3.), (0., 30., -110.), ((0., 0.), (1000.3, -77.1)), (.5, 1., 2.), range(8 if tier == 'quick' else 16)):
        if tier == 'quick' and (lv != 0) + (alpha != 0) + (og[0] != 0) + (cdx != 1.) > 1:
            continue
        yield dict(kind='2d', level=lv, alpha=alpha, og=og, cdx=cdx, pat=pat, dirs=4 if tier == 'quick' else 10)


def warmup():
    tiny.warm()
    f = np.zeros((4, 4)); f[2, 2] = .5
    m = tiny.model(tiny.base(nx=4, ny=4, process_fences=True, fence_file=f)); m.update()


C1, R0 = .48, .32


def shelter(d, h):
    """1 - Okin: reduction at distance d (>= 0) of an element of height h."""
    with np.errstate(all='ignore'):
        r = np.where((d >= 0) & (d / h < 20), 1 - (R0 + (1 - R0) * (1 - np.exp(-d * C1 / h))), 0.)
    r[r < 1e-5] = 0
    return r


def factor1d(x, h, sign):
    red = np.zeros(len(x))
    for i in np.nonzero(h > 1e-6)[0]:
        red += shelter(sign * (x - x[i]), h[i])
    return 1 - np.minimum(red, 1)


def bilinear(xa, ya, z, x, y, fill):
    i = np.clip(np.searchsorted(xa, x, 'right') - 1, 0, len(xa) - 2)
    j = np.clip(np.searchsorted(ya, y, 'right') - 1, 0, len(ya) - 2)
    fx = (x - xa[i]) / (xa[i + 1] - xa[i]); fy = (y - ya[j]) / (ya[j + 1] - ya[j])
    v = z[j, i] * (1 - fx) * (1 - fy) + z[j, i + 1] * fx * (1 - fy) + z[j + 1, i] * (1 - fx) * fy + z[j + 1, i + 1] * fx * fy
    e = 0.
    out = (x < xa[0] - e) | (x > xa[-1] + e) | (y < ya[0] - e) | (y > ya[-1] + e)
    return np.where(out, fill, v)


def factor2d(x, y, h, udir, cdx):
    """Reduction on a grid aligned with x and y; udir nautical relative to the grid."""
    d = max(cdx / 2, .25)
    x0, y0 = x.mean(), y.mean()
    D = np.hypot(x.max() - x.min(), y.max() - y.min()) + 200.
    xi = np.arange(np.floor((x0 - D / 2) / d) * d, np.ceil((x0 + D / 2) / d) * d, d)
    yi = np.arange(np.floor((y0 - D / 2) / d) * d, np.ceil((y0 + D / 2) / d) * d, d)
    # unit vectors along the wind and to its left
    a = np.deg2rad(270. - udir)
    t, n = np.array([np.cos(a), np.sin(a)]), np.array([-np.sin(a), np.cos(a)])
    X, Y = np.meshgrid(xi - x0, yi - y0)
    zc = bilinear(x[0], y[:, 0], h, x0 + X * t[0] + Y * n[0], y0 + X * t[1] + Y * n[1], 0.)
    mult = np.ones(zc.shape)
    for r in np.nonzero((zc > 0).any(1))[0]:
        mult[r] = factor1d(xi, zc[r], 1.)
    mult[0] = mult[-1] = 1; mult[:, 0] = mult[:, -1] = 1
    xr = (x - x0) * t[0] + (y - y0) * t[1]; yr = (x - x0) * n[0] + (y - y0) * n[1]
    return bilinear(xi - x0, yi - y0, mult, xr, yr, 0.)


def run_case(rec, case):
    dict(history=history, **{'1d': oned, '2d': twod})[case['kind']](rec, case)


def components(rec, s, want, **det):
    rec.close(s['ustar'], want, 'ustar', 'shear velocity behind fences', rtol=1e-6, atol=1e-7, **det)
    rec.close(np.hypot(s['ustars'], s['ustarn']), want, 'ustar-components', 'components', rtol=1e-6, atol=1e-7, **det)
    k = s['ustar0'] > 0
    if k.all():
        rec.close(s['ustars'] / s['ustar0'], want / s['ustar0'] * s['ustars0'] / s['ustar0'], 'direction', 'fences turn the wind', rtol=1e-5, atol=1e-6, **det)
        rec.close(s['ustarn'] / s['ustar0'], want / s['ustar0'] * s['ustarn0'] / s['ustar0'], 'direction', 'fences turn the wind', rtol=1e-5, atol=1e-6, **det)
    rec.close(s['tau'], 1.225 * want**2, 'tau', 'stress', rtol=1e-5, atol=1e-7, **det)


def history(rec, case):
    nx = 8; x = np.arange(nx) * 1.
    ff = np.zeros(nx); ff[2] = .9; ff[5] = .45; ff[6] = .06
    zb = case['level'] + np.array([0, .1, .2, .3, .4, .5, .4, .3])
    m0 = tiny.model(tiny.base(nx=nx, u=3., udir=270., zb=zb, process_fences=True, fence_file=ff))
    dz = (0., .2, .5, -.2, -.7, 1.2)
    top = zb + ff

    def go(m, lost, hist):
        for a, b in itertools.product(dz, dz):
            if not hist and a != dz[case['first']]:
                continue
            n = copy.deepcopy(m); h = hist + [(a, b)]
            n.s['zb'][0, 2] += a; n.s['zb'][0, 5] += b; n.s['zb'][0, 3] -= .3 * (a > .4)
            z = n.s['zb'][0].copy()
            n.update(); rec.step(); rec.trace()
            hh = np.where(lost | (ff < .1), 0., top - z)
            hh[hh < .1] = 0.
            gone = hh > 1.5
            hh = np.where(gone, 0., hh)
            det = dict(history=h, bed=z)
            rec.close(n.s['fence_height'][0], hh, 'height', 'height of the fence above the bed', **det)
            components(rec, n.s, np.maximum(n.s['ustar0'] * factor1d(x, hh, 1.)[None], .01), **det)
            rec.outcome('standing%d buried%d lost%d' % ((hh > 0).sum(), ((hh == 0) & (ff > .1) & ~lost & ~gone).sum(), (lost | gone).sum()))
            rec.state(hh, z, lost | gone)
            if rec.deeper(case['depth'] - len(h), n, (lost | gone).tolist()):
                go(n, lost | gone, h)
    go(m0, np.zeros(nx, bool), [])
    rec.sample(dict(case=case))


def oned(rec, case):
    nx = 10; x = np.arange(nx) * case['dx']
    zb = case['level'] + np.linspace(0, .5, nx)
    winds = ((8., 270.), (14., 225.), (5., 318.), (8., 90.), (11., 60.), (2., 100.))
    H = (0., .6, 1.2)
    m0 = None
    for rest in itertools.product(H, repeat=4):
        ff = np.zeros(nx); ff[3:8] = (case['first'],) + rest
        m = tiny.model(tiny.base(nx=nx, dx=case['dx'], zb=zb, process_fences=True, fence_file=ff, alfa=case['alfa'], process_bedupdate=False))
        rec.close(m.s['fence_height'][0], ff, 'initial', 'initial height')
        for u, d in winds:
            n = copy.deepcopy(m)
            n.set_var('wind_file', np.array([[0., u, d + case['alfa']], [1e9, u, d + case['alfa']]]))
            n.update(); rec.step(); rec.trace()
            sign = 1. if np.sin(np.deg2rad(d)) < 0 else -1.
            f = factor1d(x, ff, sign)
            components(rec, n.s, np.maximum(n.s['ustar0'] * f[None], .01), fences=ff, wind=(u, d))
            rec.state(ff, u, d, case['dx'])
            rec.outcome('1d sheltered %d' % (f < 1).sum())


PATTERNS = None


def patterns():
    out = []
    for k in range(16):
        f = np.zeros((5, 6))
        if k & 1:
            f[1:4, 2] = 1.
        if k & 2:
            f[2, 3:5] = .7
        if k & 4:
            f[0, 0] = f[4, 5] = .5
        if k & 8:
            f[3, 1] = 1.3; f[1, 4] = .05
        out.append(f)
    return out


def twod(rec, case):
    pat = patterns()[case['pat'] if case['pat'] < 8 or case['dirs'] > 4 else 0]
    ny, nx = pat.shape
    zb = np.full(pat.shape, case['level']) + .1 * np.arange(nx)
    cfg = tiny.base(nx=nx, ny=ny, zb=zb, process_fences=True, fence_file=pat, process_bedupdate=False)
    cfg['dx'] = case['cdx']
    x0, y0 = case['og']
    cfg['xgrid_file'], cfg['ygrid_file'] = tiny.grid2d(nx, ny, 1., 1., case['alpha'], x0, y0)
    m0 = tiny.model(cfg)
    gx, gy = tiny.grid2d(nx, ny, 1., 1., 0.)
    # the grid is turned around its centre before the computation
    cx, cy = cfg['xgrid_file'].mean(), cfg['ygrid_file'].mean()
    gx = gx - gx.mean() + cx; gy = gy - gy.mean() + cy
    for u, d in [(9., q) for q in DIRS[:: (1 if case['dirs'] == 10 else 2)]] + [(0., 270.)]:
        n = copy.deepcopy(m0)
        dw = d - case['alpha']
        n.set_var('wind_file', np.array([[0., u, dw], [1e9, u, dw]]))
        n.update(); rec.step(); rec.trace()
        hh = np.where(pat < .1, 0., pat)
        rec.close(n.s['fence_height'], hh, 'height', 'height of the fence above the bed')
        f = factor2d(gx, gy, hh, d, case['cdx'])
        det = dict(pattern=case['pat'], wind=(u, d))
        rec.check(np.all(n.s['ustar'] <= n.s['ustar0'] * (1 + 1e-9)), 'increase', 'fences increase the wind', **det)
        if case['pat'] == 0 or u == 0:
            rec.close(n.s['ustar'], n.s['ustar0'], 'no-fence', 'shear velocity changes without fences', **det)
        # positions of the sampled elements follow from rounding of the coordinates: compare where nearby positions agree
        tol = 1e-6 if case['alpha'] == 0 else 1e-3
        got = n.s['ustar'] / n.s['ustar0'] if u else np.ones(pat.shape)
        if u and not (case['pat'] & 4 and d % 90 == 0):  # whether a fence at the border is inside the grid depends on rounding for winds along an axis
            rec.close(got, f, 'shelter', 'reduction of the shear velocity', rtol=0, atol=tol, **det)
        b = np.deg2rad(case['alpha'])
        us, un = n.s['ustars'] * np.cos(b) + n.s['ustarn'] * np.sin(b), -n.s['ustars'] * np.sin(b) + n.s['ustarn'] * np.cos(b)
        a = np.deg2rad(270. - d)
        rec.close(us, n.s['ustar'] * np.cos(a), 'direction', 'fences turn the wind', rtol=0, atol=1e-6, **det)
        rec.close(un, n.s['ustar'] * np.sin(a), 'direction', 'fences turn the wind', rtol=0, atol=1e-6, **det)
        rec.close(n.s['tau'], 1.225 * n.s['ustar']**2, 'tau', 'stress', rtol=1e-5, atol=1e-7, **det)
        # burial and erosion at some of the fences, in the same wind
        if u and case['pat'] and not case['pat'] & 4 and case['cdx'] == 1.:
            top = zb + pat; lost = np.zeros(pat.shape, bool)
            for k, (dz, at) in enumerate(((.5, (2, 3)), (.4, (1, 2)), (.55, (2, 2)), (-.5, (2, 3)), (-.6, (3, 2)))):
                n.s['zb'][at] += dz
                z = n.s['zb'].copy()
                n.update(); rec.step(); rec.trace()
                hh = np.where(lost | (pat < .1) | (top - z < .1), 0., top - z)
                lost |= hh > 1.5; hh[lost] = 0.
                det = dict(pattern=case['pat'], wind=(u, d), change=k)
                rec.close(n.s['fence_height'], hh, 'height', 'height of the fence above the bed', **det)
                rec.close(n.s['ustar'] / n.s['ustar0'], factor2d(gx, gy, hh, d, case['cdx']), 'shelter', 'reduction of the shear velocity', rtol=0, atol=tol, **det)
                rec.state(case['pat'], u, d, case['alpha'], case['og'], case['cdx'], k)
        rec.state(case['pat'], u, d, case['alpha'], case['og'], case['cdx'])
        rec.outcome('2d sheltered %d' % (f < 1 - 1e-9).sum())
    rec.sample(dict(case=case))
