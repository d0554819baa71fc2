"""Sediment budget of air and bed: every wind history, on every conservative solver."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'transport conserves sediment between air, bed and boundaries'
LEVEL = 'model_checking'
RULE = ('case = (solver, grid rows, cell sizes, grid orientation, composition, bed supply, acceleration); inside a case the tree of '
        'ALL wind histories up to the stated depth is explored by snapshot and restore of the real model; after every step the '
        'budget of every interior cell and every fraction, the budget of the whole interior, and the link between reported pickup, '
        'bed level and bed composition are evaluated')
ASSUMPTIONS = ['wind uniform in space (no shear perturbation), so that the advective flux of the first order upwind scheme is unambiguous',
               'implicit default scheme, and the two steady state solvers for which there is no storage in the air',
               'the default gradient boundary extrapolates and clips when the wind does not leave the grid there, so it is explored with onshore winds only',
               'cells at the offshore and onshore end are boundary cells and exchange sediment with the outside']
CHUNK = 2
WINDS = {'calm': (0., 270.), 'on9': (9., 270.), 'ob20': (20., 225.), 'ob12': (12., 300.), 'al16': (16., 0.), 'al16r': (16., 180.), 'land13': (13., 70.)}
ONSHORE = ('calm', 'on9', 'ob20', 'ob12')


def depth(tier):
    return 3 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('4 solvers x 1-4 rows of 6 cells x square and 2:1 cells x uniform and varied bed x plenty and scarce '
            'sediment x acceleration 1 and 10; gradient onshore boundary with all histories over 4 winds, zero '
            'flux boundary with all histories over 7 winds, to depth %d' % depth(tier))


def cases(tier):
    for solver, ny, cell, var, lt, acc, bnd in itertools.product(
            ('trunk', 'pieter', 'steadystate', 'steadystatepieter'), (0, 2, 3, 4), ('sq', 'rect'), (0, 1), (1e-2, 2e-4), (1., 10.),
            ('gradient', 'flux')):
        if tier == 'quick' and ny == 4 and cell == 'rect':
            continue
        yield dict(solver=solver, ny=ny, cell=cell, var=var, lt=lt, acc=acc, bnd=bnd, depth=depth(tier))


def warmup():
    tiny.warm()


def flux_div(C, u, v, ds, dn, circular=True):
    """First order upwind divergence for a uniform velocity (u, v)."""
    out = np.zeros(C.shape)
    if u >= 0:
        out[:, 1:] += u * (C[:, 1:] - C[:, :-1]) / ds
    else:
        out[:, :-1] += u * (C[:, 1:] - C[:, :-1]) / ds
    if C.shape[0] > 1:
        out += v * ((C - np.roll(C, 1, 0)) if v >= 0 else (np.roll(C, -1, 0) - C)) / dn
    return out


def run_case(rec, case):
    ny, lt = case['ny'], case['lt']
    rows = max(ny, 1)
    dx, dy = (1., 1.) if case['cell'] == 'sq' else (2., 1.)
    steady = case['solver'].startswith('steady')
    N = 2650. * .6 * lt
    extra = {}
    if case['var']:
        f = np.resize([.2, .9, .5, .35, .7], rows * 6)
        mass = np.stack([f * N, (1 - f) * N], -1)[:, None, :].repeat(2, 1)
        extra['bedcomp_file'] = mass.reshape((-1, 2))
        extra['threshold_mask'] = np.resize([1, 1 + .1j, 1.2, 1, 1.4], (rows, 6)).astype(complex) if ny else None
        if extra['threshold_mask'] is None:
            del extra['threshold_mask']
    cfg = tiny.base(nx=6, ny=ny, dx=dx, dy=dy, zb=np.zeros(6) if ny == 0 else np.zeros((rows, 6)), solver=case['solver'],
                    grain_size=[.0002, .0004], grain_dist=[.4, .6], layer_thickness=lt, tstart=60., accfac=case['acc'], dt=20.,
                    boundary_onshore=case['bnd'], **extra)
    root = tiny.model(cfg)
    rho = 2650. * .6
    def walk(m, hist):
        for name, (u, d) in WINDS.items():
            if case['bnd'] == 'gradient' and name not in ONSHORE:
                continue
            k = copy.deepcopy(m)
            k.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
            b = {v: np.array(k.s[v]) for v in ('mass', 'zb', 'Ct')}
            k.update()
            h = hist + [name]; det = dict(history=h)
            s, dt = k.s, k.dt
            rec.step(); rec.trace()
            rec.state(s['mass'], s['Ct'], name, case['solver'], case['acc'])
            nf = 2
            dz = s['zb'] - b['zb']
            if u == 0.:
                rec.check(np.all(dz == 0), 'calm-bed', 'bed level changes without wind', **det)
                rec.check(np.all(s['pickup'] == 0.), 'calm-pickup', 'pickup reported although nothing moves', pickup=s['pickup'].max(), **det)
                rec.check(np.all(s['qs'] == 0.) and np.all(s['qn'] == 0.), 'calm-flux', 'sediment flux reported without wind', **det)
            else:
                us, un = s['us'], s['un']
                rec.check(np.ptp(us) < 1e-9 and np.ptp(un) < 1e-9, 'wind-not-uniform', **det)
                u0, v0 = us.flat[0], un.flat[0]
                for i in range(nf):
                    C, C0, P = s['Ct'][:, :, i], b['Ct'][:, :, i], s['pickup'][:, :, i]
                    store = 0. if steady else (C - C0)
                    r = store + dt * flux_div(C, u0, v0, dx, dy) - P
                    r = r[:, 1:-1]
                    scale = np.abs(P).max() + dt * np.abs(u0) * C.max() / dx + 1e-30
                    tol = 1e-9 * scale + 2.1e-6
                    rec.check(np.abs(r).max() <= tol, 'cell-budget:%d' % i, 'cell budget of a fraction is open', residual=r, scale=scale, **det)
                    # whole interior: lateral exchange cancels, only the two ends matter
                    rec.check(abs(r.sum()) <= tol * r.size, 'total-budget:%d' % i, 'interior budget is open', **det)
                    rec.close(s['qs_grid'] if 'qs_grid' in s else C * u0, C * u0, 'flux', **det)
                # bed
                net = s['pickup'].sum(axis=2)
                rec.close(dz * rho, -net, 'bed-level', 'bed level does not follow the pickup', atol=1e-9, **det)
                over = b['mass'].sum(axis=(2, 3)) - s['mass'].sum(axis=(2, 3))
                rec.close(over, 0., 'layer-mass', 'mass of the bed layers drifts', atol=1e-5, **det)
                if not np.any(np.abs(net) > N):
                    ero = net > 0
                    # what leaves through the base has a fixed composition only for erosion; then fractions balance exactly
                    base = s['mass'][:, :, -1, :] * 0 + (np.array([.4, .6]) if not case['var'] else
                                                         k.p['bedcomp_file'].reshape(s['mass'].shape)[:, :, -1, :] / N)
                    dm = s['mass'].sum(axis=2) - b['mass'].sum(axis=2)
                    rec.close(dm[ero], (-s['pickup'] + base * net[:, :, None])[ero], 'fraction-budget', 'fraction budget of the bed is open',
                              atol=1e-5, **det)
                rec.outcome('%s.%s' % (name, 'ero' if (net > 0).any() else 'dep'))
            if rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
            elif len(h) == case['depth']:
                rec.sample(dict(case=case, history=h, zb=s['zb'].ravel()[:6]))
    walk(root, [])
