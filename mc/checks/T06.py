"""Boundary conditions and the advection scheme: every boundary set on every solver and scheme against a dense reference."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'sediment crosses the boundaries as prescribed, for every solver and scheme'
LEVEL = 'model_checking'
RULE = ('case = (solver, scheme, offshore, onshore and lateral boundary with their fluxes, rows, cell sizes, uniform or varying wind, fractions); inside a case ALL wind histories up to the depth '
        'are explored by snapshot and restore; after every step the concentration in every cell is compared with the solution of an independently assembled dense system of the '
        'upwind scheme with these boundaries; after a long constant wind the transient solvers are compared with the steady state ones')
ASSUMPTIONS = ['plenty of sediment in the bed (supply limitation is explored in T01)', 'cells where an extrapolated concentration would become negative are not compared', 'no calm steps (T02)']
CHUNK = 2
WINDS = {'on': (12., 270.), 'ob': (16., 235.), 'land': (13., 80.), 'al': (11., 180.), 'al2': (14., 350.)}
X2 = np.array([0., 2., 3., 4.5, 7.5, 8.5])
OFF = [('constant', 0.), ('constant', .004), ('flux', 0.), ('flux', .5), ('flux', 1.), ('uniform', 0.), ('gradient', 0.)]
LAT = [('circular', 0.), ('constant', 0.), ('flux', .7), ('gradient', 0.)]


def depth(tier):
    return 2 if tier == 'quick' else 3


def BOUNDS(tier):
    return ('4 solvers x 3 schemes x 7 offshore x 7 onshore conditions x 4 lateral conditions x 1 and 4 rows of 6 cells x square and 1:2 cells, and cells of varying size in one row, x uniform and varying wind x 1 and 2 fractions '
            '(quick: at most two departures from the default besides the solver); all histories of 5 winds to depth %d' % depth(tier))


def cases(tier):
    for solver, scheme, off, on, lat, ny, rect, vary, nf in itertools.product(
            ('trunk', 'pieter', 'steadystate', 'steadystatepieter'), ('euler_backward', 'crank_nicolson', 'euler_forward'), OFF, OFF, LAT, (0, 4), (0, 1, 2), (0, 1), (1, 2)):
        if rect == 2 and ny:
            continue  # only one-dimensional grids may have cells of varying size
        pieter = solver.endswith('pieter')
        if pieter and 'uniform' in (off[0], on[0]):
            continue
        if not pieter and lat[0] in ('flux', 'gradient'):
            continue
        if solver.startswith('steady') and scheme != 'euler_backward':
            continue
        odd = (scheme != 'euler_backward') + (off != OFF[0]) + (on != OFF[-1]) + (lat != LAT[0]) + (rect > 0) + vary + (nf > 1)
        if odd > (2 if tier == 'quick' else 3):
            continue
        yield dict(solver=solver, scheme=scheme, off=off, on=on, lat=lat, ny=ny, rect=rect, vary=vary, nf=nf, depth=depth(tier) - (odd > 1))


def warmup():
    tiny.warm()


def build(case, solver=None, **kw):
    ny = case['ny']
    dx, dy = (2., 1.) if case['rect'] == 1 else (1., 1.)
    nf = case['nf']
    kw = {**dict(dt=20.), **kw}
    z = np.zeros((ny, 6)) if ny else np.zeros(6)
    if case['rect'] == 2:
        kw['xgrid_file'] = X2
    th = np.resize([1, 1 + .05j, 1.2, 1, 1.3], (max(ny, 1), 6)).astype(complex)
    return tiny.model(tiny.base(nx=6, ny=ny, dx=dx, dy=dy, zb=z, solver=solver or case['solver'], scheme=case['scheme'], grain_size=[.0002, .0004][:nf], grain_dist=[[1.], [.4, .6]][nf - 1], layer_thickness=1.,
                                tstart=60., boundary_offshore=case['off'][0], boundary_onshore=case['on'][0], boundary_lateral=case['lat'][0], lateral_flux=case['lat'][1], threshold_mask=th if ny else th[0],
                                **{'constant_offshore_flux': case['off'][1] if case['off'][0] == 'constant' else .003, 'offshore_flux': case['off'][1] if case['off'][0] == 'flux' else .25,
                                   'constant_onshore_flux': case['on'][1] if case['on'][0] == 'constant' else .002, 'onshore_flux': case['on'][1] if case['on'][0] == 'flux' else .35}, **kw))


def blow(m, case, name):
    """Wind for the next step; varying: an external wind field with gusts that keeps its direction."""
    u, d = WINDS[name]
    m.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
    if case['vary']:
        rows = max(case['ny'], 1)
        a = np.deg2rad(270. - d)
        f = u * (1. + .1 * np.sin(1.3 * np.arange(rows * 6)).reshape(rows, 6))
        m.set_var('uw', f); m.set_var('uws', f * np.cos(a)); m.set_var('uwn', f * np.sin(a))


def operator(case, us, un, source, u, Cu0, dx, dy):
    """Cells as rows of a dense system: dC/dt = G C + g in 'free' cells, C = fixed combination in the others."""
    pieter = case['solver'].endswith('pieter')
    R, X = us.shape
    one = case['ny'] == 0
    N = R * X
    idx = lambda j, i: j * X + i
    G = np.zeros((N, N)); g = np.zeros(N); B = {}
    off, fo = case['off']; on, fn = case['on']; lat, fl = case['lat']
    if one:
        lat = 'circular'
    T = 1.
    for j in range(R):
        for i in range(X):
            n = idx(j, i)
            G[n, n] -= 1. / T; g[n] += source[j, i] / T
            west, east = i == 0, i == X - 1
            if pieter:
                for side in (-1, 1):
                    k = i + side
                    sign = side                    # outflow positive
                    if 0 <= k < X:
                        if (west and off == 'gradient') or (east and on == 'gradient'):
                            continue
                        v = .5 * (us[j, i] + us[j, k])
                        up = (n if (v >= 0) == (side > 0) else idx(j, k))
                        G[n, up] -= sign * v / dx[i]
                    elif west and off == 'flux':
                        g[n] += us[j, i] * Cu0[j, i] * fo / dx[i]
                    elif east and on == 'flux':
                        g[n] -= us[j, i] * Cu0[j, i] * fn / dx[i]
                if not one:
                    for side in (-1, 1):
                        k = j + side
                        inside = 0 <= k < R
                        if inside or lat == 'circular':
                            if lat == 'gradient' and (j in (0, R - 1)):
                                continue
                            k %= R
                            v = .5 * (un[j, i] + un[k, i])
                            up = (n if (v >= 0) == (side > 0) else idx(k, i))
                            G[n, up] -= side * v / dy
                        elif lat == 'flux':
                            g[n] -= side * un[j, i] * Cu0[j, i] * fl / dy
            else:
                G[n, n] -= abs(us[j, i]) / dx[i]
                k = i - 1 if us[j, i] >= 0 else i + 1
                if 0 <= k < X:
                    G[n, idx(j, k)] += abs(us[j, i]) / us[j, i] * us[j, k] / dx[i] if us[j, i] != 0 else 0.
                if not one:
                    G[n, n] -= abs(un[j, i]) / dy
                    k = (j - 1) % R if un[j, i] >= 0 else (j + 1) % R
                    G[n, idx(k, i)] += (np.sign(un[j, i]) if un[j, i] != 0 else 0.) * un[k, i] / dy
            # prescribed cells
            for edge, kind, f, const, s in ((west, off, fo, fo, 1), (east, on, fn, fn, -1)):
                if not edge:
                    continue
                if kind == 'constant':
                    B[n] = ({n: 1.}, const / u[j, i])
                elif not pieter:
                    if kind == 'flux':
                        B[n] = ({n: 1.}, f * Cu0[j, i])
                    elif kind == 'uniform':
                        B[n] = ({n: 1., idx(j, i + s): -1.}, 0.)
                    elif kind == 'gradient':
                        r = dx[1] / dx[2] if west else dx[-1] / dx[-2]
                        B[n] = ({n: 1., idx(j, i + s): -1. - r, idx(j, i + 2 * s): r}, 0.)
            if lat == 'constant' and j in (0, R - 1):
                B[n] = ({n: 1.}, 0.)
    return G, g, B


def run_case(rec, case):
    ny = case['ny']; rows = max(ny, 1)
    dx, dy = (2., 1.) if case['rect'] == 1 else (1., 1.)
    dx = np.full(6, dx) if case['rect'] != 2 else np.diff(X2, prepend=-2.)
    root = build(case)
    steady = case['solver'].startswith('steady')
    al = dict(euler_backward=1., crank_nicolson=.5, euler_forward=0.)[case['scheme']]
    corner = np.zeros((rows, 6), dtype=bool)
    if ny and case['lat'][0] == 'constant':
        corner[np.ix_([0, -1], [0, -1])] = True
    def expect(s, l, dt, i):
        us, un = s['us'][:, :, i], s['un'][:, :, i]
        G, g, B = operator(case, us, un, s['w'][:, :, i] * s['Cu'][:, :, i], s['u'][:, :, i], s['Cu0'][:, :, i], dx, dy)
        G0, g0, _ = operator(case, us, un, l['w'][:, :, i] * l['Cu'][:, :, i], s['u'][:, :, i], s['Cu0'][:, :, i], dx, dy)
        N = g.size; c0 = l['Ct'][:, :, i].ravel()
        if steady:
            A, y = -G, g.copy()
        else:
            A = np.eye(N) / dt - al * G
            y = c0 / dt + al * g + (1 - al) * (G0 @ c0 + g0)
        for n, (row, v) in B.items():
            A[n] = 0.
            for k, c in row.items():
                A[n, k] = c
            y[n] = v
        return np.linalg.solve(A, y).reshape(rows, 6)
    def walk(m, hist):
        for name in WINDS:
            k = copy.deepcopy(m)
            blow(k, case, name)
            l = {v: np.array(k.s[v]) for v in ('Ct', 'Cu', 'w')}
            k.update()
            h = hist + [name]; det = dict(history=h)
            rec.step(); rec.trace()
            rec.state(k.s['Ct'], name, case['solver'], case['off'], case['on'], case['lat'])
            plain = True
            for i in range(case['nf']):
                want = expect(k.s, l, k.dt, i)
                C = k.s['Ct'][:, :, i]
                if want.min() < -1e-9:
                    plain = False
                    rec.outcome('clipped')
                    rec.check(C.min() >= 0., 'negative', 'negative concentration', **det)
                    continue
                cmp = ~corner
                scale = np.abs(want).max()
                rec.check(np.abs(C - want)[cmp].max() <= 1e-6 * scale + 1.1e-6, 'concentration', 'concentration differs from that of the scheme with the prescribed boundaries', got=C, want=want, fraction=i,
                          **det)
                # what crosses a boundary with a prescribed flux
                if case['off'][0] == 'constant':
                    rec.close((C * k.s['u'][:, :, i])[:, 0][~corner[:, 0]], case['off'][1], 'offshore-flux', 'flux through the offshore boundary', atol=2e-5, **det)
                if case['on'][0] == 'constant':
                    rec.close((C * k.s['u'][:, :, i])[:, -1][~corner[:, -1]], case['on'][1], 'onshore-flux', 'flux through the onshore boundary', atol=2e-5, **det)
            rec.outcome(name)
            if plain and rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
    walk(root, [])
    # constant wind for long: transient solver ends where the steady state solver is
    if case['scheme'] == 'euler_backward' and not steady:
        for name in WINDS:
            k = build(case, dt=2000.)
            q = build(case, solver='steadystate' + ('pieter' if case['solver'] == 'pieter' else ''), dt=20.)
            blow(k, case, name); blow(q, case, name)
            mass = k.s['mass'].copy()
            for _ in range(6):
                k.update()
                k.s['mass'][...] = mass     # the sorting of the bed (largest in front of a closed boundary) is not what is compared
            q.update()
            rec.step(7)
            if not against(case, k):
                rec.close(k.s['Ct'], q.s['Ct'], 'steady', 'transient solver does not approach the steady state', rtol=2e-3, atol=5e-6, wind=name)


def against(case, k):
    """Extrapolation against the wind has no steady state to agree on."""
    us = k.s['us'][0, 0, 0]
    return (case['on'][0] in ('gradient', 'uniform') and us <= 1e-6) or (case['off'][0] in ('gradient', 'uniform') and us >= -1e-6)
