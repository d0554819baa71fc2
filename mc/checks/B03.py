"""Avalanching: every bed of a bounded set, every order of disturbances."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'avalanching relaxes slopes and conserves volume'
LEVEL = 'model_checking'
RULE = ('case = (grid, cell size, angles, non-erodible layer, first disturbance); inside a case ALL histories of disturbances (piles, walls, pits, checkerboards '
        'on every pattern of the interior) to the depth are applied to the bed of one model, with a time step with wind below the threshold of motion after each; after every step '
        'volume, slopes, extremes, non-erodible layer and symmetry are checked against an independent evaluation of the slopes')
ASSUMPTIONS = ['sediment sliding over the border of the grid leaves it (border cells do not change)', 'cells of 0.5 m and more']
CHUNK = 1
H = (0., .6, 2., 4.)


def BOUNDS(tier):
    return ('1-D: all beds of %d free cells over 4 heights, with wide and narrow flat margins; 2-D: all 512 patterns of 3 x 3 cells x 2 heights%s; x cells of 0.5, 1 and 3 m (square '
            'and not) x 3 pairs of angles x without, deep, shallow and uneven non-erodible layer; histories of two disturbances; the beds of 3 free cells also after dune erosion, in a calm and in wind'
            % (4 if tier == 'quick' else 5, '' if tier == 'quick' else ' (all 2-disturbance histories of 32 patterns)'))


def cases(tier):
    for dx, (ts, td), ne, margin, h0 in itertools.product((.5, 1., 3.), ((34., 33.), (30., 20.), (40., 10.)), ('none', 'deep', 'shallow', 'uneven'), (1, 6), H):
        if tier == 'quick' and (dx != 1. and ts != 34. or dx != 1. and margin != 6 or ne == 'none' and h0 != 2.):
            continue
        yield dict(kind='1d', dx=dx, dy=dx, ts=ts, td=td, ne=ne, margin=margin, first=h0, n=4 if tier == 'quick' else 5)
    for dx, (ts, td), ne, h0, u in itertools.product((.5, 1., 3.), ((34., 33.), (40., 10.)), ('deep', 'shallow', 'uneven'), H, (0., 2., 12.)):
        if tier == 'quick' and (dx != 1. and ts != 34. or u > 2. and dx != 1.):
            continue
        yield dict(kind='1d', dx=dx, dy=dx, ts=ts, td=td, ne=ne, margin=6, first=h0, n=3, dune=True, u=u)
    for (dx, dy), (ts, td), ne, margin, k in itertools.product(((1., 1.), (1., 2.), (2., .5)), ((34., 33.), (40., 10.)), ('none', 'deep', 'shallow', 'uneven'), (1, 4), range(8)):
        if tier == 'quick' and (((dx, dy) != (1., 1.)) + (ts != 34.) + (margin != 4) > 1 or k % 3 != 2 and (ne not in ('deep', 'uneven') or dx != dy or margin != 4)):
            continue
        yield dict(kind='2d', dx=dx, dy=dy, ts=ts, td=td, ne=ne, margin=margin, first=k, deep=tier != 'quick')


def warmup():
    m = tiny.warm()


def slopes(z, dx, dy):
    """Steepest downward slope of every interior cell: per direction the steepest of both neighbours."""
    z = np.asarray(z); ny, nx = z.shape
    g = np.zeros(z.shape)
    for j in range(ny):
        for i in range(1, nx - 1):
            if ny > 1 and j in (0, ny - 1):
                continue
            a = max(z[j, i] - z[j, i - 1], z[j, i] - z[j, i + 1], 0.) / dx
            b = max(z[j, i] - z[j - 1, i], z[j, i] - z[j + 1, i], 0.) / dy if ny > 1 else 0.
            g[j, i] = np.hypot(a, b)
    return g


def disturb(zb, add, zne):
    z = zb + add
    return z if zne is None else np.maximum(z, zne)


def one(rec, case, m, zne, add, det):
    """Disturb the bed, step, check; returns the new bed."""
    dx, dy = case['dx'], case['dy']
    z = disturb(m.s['zb'].copy(), add, zne)
    m.s['zb'][:, :] = z
    mass = m.s['mass'].copy()
    m.update(); rec.step(); rec.trace()
    s = m.s; z2 = s['zb'].copy()
    rec.state(z, dx, dy, case['ts'], case['ne'])
    det = dict(det, before=z, after=z2)
    g0, g1 = slopes(z, dx, dy), slopes(z2, dx, dy)
    ts, td = np.tan(np.deg2rad(case['ts'])), np.tan(np.deg2rad(case['td']))
    rec.check(np.all(np.isfinite(z2)), 'finite', 'bed level', **det)
    if g0.max() <= ts * (1 - 1e-9):
        rec.close(z2, z, 'stable', 'a bed below the static angle does not move', rtol=0, atol=0, **det)
        rec.outcome('stable')
        return z2
    if abs(g0.max() - ts) < 1e-9:
        return z2
    if zne is None and np.array_equal(z2, z):
        rec.fail('without-ne_file-nothing-slides', 'slope %g above the static angle, no non-erodible layer given: nothing slides' % g0.max(), **det)
        return z2
    edge = np.ones(z.shape, bool)
    edge[(slice(None) if z.shape[0] == 1 else slice(1, -1)), 1:-1] = False
    rec.close(z2[edge], z[edge], 'border', 'border cells do not change', **det)
    ring = np.zeros(z.shape, bool); ring[:, 1] = ring[:, -2] = True
    if z.shape[0] > 1:
        ring[1] = ring[-2] = True
    vol = z2.sum() - z.sum()
    if not np.any(z[ring] != 0) and not np.any(z2[ring] != 0) and not np.any(z[edge]):
        # nothing reached the cells next to the border: nothing can have left
        rec.check(abs(vol) < 1e-9, 'volume', 'volume changed by %g' % vol, **det)
        rec.outcome('inside')
    else:
        rec.check(vol < 1e-9, 'volume-gain', 'volume increased by %g' % vol, **det)
        rec.outcome('border')
    rec.check(z2.min() >= z.min() - 1e-9 and z2.max() <= z.max() + 1e-9, 'extremes', 'new extremes of the bed', **det)
    if zne is not None:
        rec.check(np.all(z2 >= zne - 1e-9), 'nonerodible', 'eroded below the non-erodible layer', zne=zne, **det)
        free = z2 - zne > .1 * dx
    else:
        free = np.ones(z.shape, bool)
    # converged: no slope above the dynamic angle remains, except where there is (nearly) nothing left to slide
    if zne is None:
        return z2
    if free.all():
        rec.check(g1.max() < td * (1 + 1e-9), 'slope', 'slope %g remains, dynamic %g' % (g1.max(), td), **det)
    else:
        rec.check(np.all(g1[free] < td * (1 + 1e-3) + .2), 'slope-ne', 'slope remains above the non-erodible layer', slopes=g1, zne=zne, **det)
    rec.check(np.array_equal(mass, s['mass']), 'mass', 'composition changed', **det)
    # sliding again changes nothing
    if case['ne'] == 'deep':
        m.update(); rec.step()
        rec.close(m.s['zb'], z2, 'again', 'a relaxed bed moves', rtol=0, atol=0, **det)
    return z2


def repeat(rec, m, z, z2, det):
    """The same steep bed once more in the same model, straight after it slid and after a flat bed."""
    c = copy.deepcopy(m)
    for flat in (0, 1):
        if flat:
            c.s['zb'][:] = max(0., z.max()); c.update(); rec.step()
        c.s['zb'][:] = z; c.update(); rec.step(); rec.trace()
        rec.close(c.s['zb'], z2, 'repeated', 'the same bed slides differently the second time', rtol=0, atol=1e-12, flat=flat, **det)


def run_case(rec, case):
    ts, td = case['ts'], case['td']
    mg = case['margin']; dx, dy = case['dx'], case['dy']
    kw = dict(process_avalanche=True, theta_stat=ts, theta_dyn=td, u=case.get('u', 2.))
    if case.get('dune'):
        # avalanching after dune erosion, also without wind; the waves stay below the beach
        kw.update(process_dune_erosion=True, process_tide=True, process_wave=True, process_runup=True, dune_toe_elevation=90., Cs=.1, process_bedupdate=False,
                  tide_file=np.array([[0., -30.], [1e9, -30.]]), wave_file=np.array([[0., 2., 8.], [1e9, 2., 8.]]))
    if case['ne'] == 'deep':
        kw['max_iter_ava'] = 6000
    if case['ne'] == 'none':
        kw['max_iter_ava'] = 50     # see KNOWN_FINDINGS: nothing slides
    def zne_of(shape):
        if case['ne'] == 'none':
            return None
        if case['ne'] == 'deep':
            return np.full(shape, -20.)
        if case['ne'] == 'shallow':
            return np.zeros(shape)
        return np.resize([0., -.3, -5.], shape)
    sc = dx
    if case['kind'] == '1d':
        n = case['n']; nx = n + 2 * mg
        zne = zne_of((1, nx))
        if zne is not None:
            kw['ne_file'] = zne[0]
        m0 = tiny.model(tiny.base(nx=nx, dx=dx, **kw))
        flip = tiny.model(tiny.base(nx=nx, dx=dx, **dict(kw, **({'ne_file': zne[0][::-1]} if zne is not None else {}))), 'flip.txt')
        for rest in itertools.product(H, repeat=n - 1):
            add = np.zeros((1, nx)); add[0, mg:mg + n] = sc * np.array((case['first'],) + rest)
            m = copy.deepcopy(m0); m.s['zb'][:] = 0.
            det = dict(bed=add[0])
            z2 = one(rec, case, m, zne, add, det)
            f = copy.deepcopy(flip); f.s['zb'][:] = 0.
            f.s['zb'][:] = disturb(f.s['zb'], add[:, ::-1], None if zne is None else zne[:, ::-1]); f.update(); rec.step()
            rec.close(f.s['zb'], z2[:, ::-1], 'mirror', 'mirrored bed slides differently', **det)
            if rest[-1] in H[1:3]:
                repeat(rec, m, disturb(0 * add, add, zne), z2, det)
                for k, second in enumerate((np.eye(nx)[mg] * 3., -np.eye(nx)[mg + 1] * 2.5, np.arange(nx) * -.1)):
                    b = copy.deepcopy(m)
                    one(rec, case, b, zne, sc * second[None], dict(det, second=k))
    else:
        n = 3 + 2 * mg
        zne = zne_of((n, n))
        if zne is not None:
            kw['ne_file'] = zne
        m0 = tiny.model(tiny.base(nx=n, ny=n, dx=dx, dy=dy, **kw))
        swap = tiny.model(tiny.base(nx=n, ny=n, dx=dy, dy=dx, **dict(kw, **({'ne_file': zne.T.copy()} if zne is not None else {}))), 'swap.txt')
        for bits in range(64):
            pat = np.array([(case['first'] >> i) & 1 for i in range(3)] + [(bits >> i) & 1 for i in range(6)]).reshape(3, 3)
            for h in (.9, 2.2):
                add = np.zeros((n, n)); add[mg:mg + 3, mg:mg + 3] = pat * h * min(dx, dy)
                m = copy.deepcopy(m0); m.s['zb'][:] = 0.
                det = dict(pattern=pat, h=h)
                z2 = one(rec, case, m, zne, add, det)
                if bits % (2 if case['deep'] else 5) == 0:
                    repeat(rec, m, disturb(0 * add, add, zne), z2, det)
                    # on a tilted bed, without ties in which a rounding error would select the direction
                    tilt = (np.arange(n) * .0137 + np.arange(n)[:, None] * .0311 + .0021 * np.sin(np.arange(n * n)).reshape(n, n)) * min(dx, dy) + add
                    f = copy.deepcopy(m0); f.s['zb'][:] = disturb(0 * add, tilt, zne); f.update()
                    g = copy.deepcopy(swap); g.s['zb'][:] = disturb(0 * add, tilt.T, None if zne is None else zne.T); g.update(); rec.step(2); rec.trace()
                    if case['ne'] in ('none', 'deep') or dx == dy:     # the limiter at the non-erodible layer uses the cell size in x-direction
                      rec.close(g.s['zb'], f.s['zb'].T, 'transpose', 'the two grid directions are not treated alike', rtol=1e-6, atol=1e-6, **det)
                    if case['ne'] != 'uneven':
                        g = copy.deepcopy(m0); g.s['zb'][:] = disturb(0 * add, tilt[::-1], zne); g.update(); rec.step()
                        rec.close(g.s['zb'], f.s['zb'][::-1], 'mirror2', 'mirrored bed slides differently', rtol=1e-6, atol=1e-6, **det)
                if case['deep'] and bits % 2 == 1 and h > 1:
                    for second in range(0, 512, 16):
                        p2 = np.array([(second >> i) & 1 for i in range(9)]).reshape(3, 3) * 2 - 1.
                        a2 = np.zeros((n, n)); a2[mg:mg + 3, mg:mg + 3] = p2 * min(dx, dy)
                        b = copy.deepcopy(m)
                        one(rec, case, b, zne, a2, dict(det, second=p2))
    rec.sample(dict(case=case))
