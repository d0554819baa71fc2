"""Wave-driven dune erosion: every history of surges and waves on every small dune."""
import copy, itertools, math
import numpy as np
from mc import tiny

TITLE = 'dune erosion follows the collisions of the runup with the dune'
LEVEL = 'model_checking'
RULE = ('case = (profile set, beach slope, toe, cell size, rows); inside a case ALL histories of water level x wave x wind to the depth are executed by snapshot '
        'and restore; after every step each row is compared with an independent evaluation of Palmsten and Holman (2012) for the bed at the start of the step')
ASSUMPTIONS = ['coefficient Cs given in the configuration, runup enabled, increasing x', 'wind below the threshold of motion, so that the bed changes by dune erosion only',
               'volume is resolved in whole cells, as implemented']
CHUNK = 1
PROFILES = [
    [-4., -2., -.5, .5, 1.2, 2., 2.9, 4.5, 6., 6.2, 5.],
    [-4., -1., 0., .8, 1.5, 2.2, 2.6, 2.8, 3.1, 3.3, 9.],
    [-4., -2., 0., 1., 2.05, 3.3, 7., 7.5, 5., 2., 1.8],
    [-3., -2.5, -2., -1.5, -1., -.4, .2, .7, 1.1, 1.6, 1.9],
]
KD = 1.26


def BOUNDS(tier):
    return ('4 profiles (dune, ramp, island, below the toe) x beach slopes 0.05/0.1 x toes 2 and 3 m x cells of 1 and 5 m x 1 row and 3 different rows x Cs; all histories of 4 water levels x '
            '3 waves (also none) x 2 winds to depth %d; one step on all profiles with four dune cells over four heights; one step at all knots, and times beyond the end, of 36 series; one step with all combinations of 5 wave masks on 3 rows' % (3 if tier == "quick" else 5))


def cases(tier):
    for pr, beta, toe, dx, ny, Cs in itertools.product(range(4), (.05, .1), (2., 3.), (1., 5.), (0, 3), (1e-3, .3)):
        yield dict(pr=pr, beta=beta, toe=toe, dx=dx, ny=ny, Cs=Cs, depth=3 if tier == "quick" else 5)
    for first, toe, dx in itertools.product((1.5, 2.45, 3.2, 6.), (2., 3.), (1., 5.)):
        yield dict(kind='profiles', first=first, toe=toe, dx=dx, beta=.1, Cs=.3)
    for t0, end, wend, toe in itertools.product((0., 500.), (1000., 1010., 3000.), (900., 1000., 5000.), (2., 3.)):
        yield dict(kind='series', t0=t0, end=end, wend=wend, toe=toe, dx=1., beta=.1, Cs=.3)
    for ny in (0, 3):
        yield dict(kind='default', ny=ny)
    for pr, toe, Cs in itertools.product(range(4), (2., 3.), (1e-3, .3)):
        yield dict(kind='rows', pr=pr, toe=toe, dx=1., beta=.1, Cs=Cs)


def warmup():
    tiny.warm()


def stockdon(H, T, b):
    if H <= 0 or T <= 0:
        return 0., 0., 0.
    L = 9.81 * T * T / (2 * math.pi)
    if b / math.sqrt(H / L) < .3:
        R = .043 * math.sqrt(H * L); sg = .046 * math.sqrt(H * L) / 2
        return R - sg, sg, R
    eta = .35 * b * math.sqrt(H * L); sg = math.sqrt(H * L * (.563 * b * b + .0004)) / 2
    return eta, sg, 1.1 * (eta + sg)


def erode(zb, wl, H, T, dt, c, mask=1.):
    """Bed of one row after waves; also the volume that the waves can take and that was taken."""
    dx, toe = c['dx'], c['toe']
    H = min(.5 * max(0., wl - zb[0]), H)
    eta, sg, R = stockdon(H * mask, T * mask, c['beta'])
    new = zb.copy()
    if R * KD + wl <= toe or sg == 0:
        return new, 0., 0.
    i0 = int(np.argmin(np.abs(zb - toe)))
    traj = np.minimum(toe + .54 * c['beta'] * dx * np.arange(len(zb) - i0), zb[i0:])
    V = np.concatenate([[0.], np.cumsum((zb[i0:] - traj)[1:] * dx)])
    hit = .5 * (1 - math.erf((toe - eta - wl) / sg / math.sqrt(2)))
    dV = 4 * c['Cs'] * (R * KD + wl - toe)**2 * hit * dt / T
    k = int(np.argmin(np.abs(V - dV)))
    new[i0:i0 + k] = traj[:k]
    return new, dV, V[-1]


def run_case(rec, case):
    if case.get('kind') == 'default':
        return default(rec, case)
    if case.get('kind') == 'series':
        return series(rec, case)
    if case.get('kind') == 'rows':
        return shadow(rec, case)
    if case.get('kind') == 'profiles':
        return profiles(rec, case)
    rows = max(1, case['ny'])
    P = np.array([PROFILES[(case['pr'] + r) % 4] for r in range(rows)])
    nx = P.shape[1]; dt = 600.
    m0 = tiny.model(tiny.base(nx=nx, ny=case['ny'], dx=case['dx'], dy=4., zb=P if case['ny'] else P[0], u=2., process_dune_erosion=True, Cs=case['Cs'], dune_toe_elevation=case['toe'],
                              beach_slope=case['beta'], process_tide=True, process_wave=True, process_runup=True, dt=dt, tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 1., 6.], [1e9, 1., 6.]])))
    A = list(itertools.product((0., 1.9, 2.6, 4.), ((0., 6.), (1.5, 6.), (4., 9.))))

    def go(m, hist):
        for k, (wl, (H, T)) in enumerate(A):
            n = copy.deepcopy(m)
            st = dt * (1., .3)[(k + len(hist)) % 2]; u = (0., 2.)[(k // 2 + len(hist)) % 2]
            n.set_var('wind_file', np.array([[0., u, 270.], [1e9, u, 270.]]))
            # series that reach their value in this step only, to be interpolated
            t = n.t
            n.set_var('tide_file', np.array([[0., wl - 1.], [t + 1e3, wl + 1.], [t + 3e3, wl - 5]]) if k % 2 else np.array([[0., wl], [1e9, wl]]))
            if k % 2:
                wl = wl - 1. + 2. * t / (t + 1e3)
            n.set_var('wave_file', np.array([[0., H, T], [1e9, H, T]]))
            z = n.s['zb'].copy(); h = hist + [(wl, H, T, u, st)]; det = dict(history=h, before=z)
            n.update(st); rec.step(); rec.trace()
            rec.close(n.t, t + st, 'time', 'time', **det)
            for j in range(rows):
                want, dV, Vmax = erode(z[j], wl, H, T, st, case)
                got = n.s['zb'][j]
                rec.close(got, want, 'erosion', 'bed after dune erosion', rtol=1e-9, atol=1e-9, row=j, **det)
                rec.check(np.all(got <= z[j] + 1e-12), 'rises', 'dune erosion raises the bed', row=j, got=got, **det)
                took = ((z[j] - got) * case['dx']).sum()
                big = case['dx'] * max(0., (z[j] - case['toe']).max())
                rec.check(took <= dV + big + 1e-9, 'volume', 'more eroded than the waves can take (plus one cell)', row=j, took=took, dV=dV, **det)
                rec.outcome('none' if took == 0 else 'eroded')
            rec.check(np.isfinite(n.s['zb']).all(), 'finite', 'bed not finite', **det)
            rec.state(n.s['zb'], case['beta'], case['dx'])
            if rec.deeper(case['depth'] - len(h), n):
                go(n, h)
    go(m0, [])
    rec.sample(dict(case=case))


def profiles(rec, case):
    """One step on every profile of four cells over four heights."""
    for rest in itertools.product((1.5, 2.45, 3.2, 6.), repeat=3):
        z = np.array([-4., -2., -.5, .55, case['first']] + list(rest) + [2.1])
        m = tiny.model(tiny.base(nx=len(z), dx=case['dx'], zb=z, u=2., process_dune_erosion=True, Cs=case['Cs'], dune_toe_elevation=case['toe'], beach_slope=case['beta'], dt=600.,
                                 process_tide=True, process_wave=True, process_runup=True, tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 1., 6.], [1e9, 1., 6.]])))
        for wl, (H, T), st in itertools.product((1.9, 2.6, 4.), ((1.5, 6.), (4., 9.)), (600., 3600.)):
            n = copy.deepcopy(m)
            n.set_var('tide_file', np.array([[0., wl], [1e9, wl]])); n.set_var('wave_file', np.array([[0., H, T], [1e9, H, T]]))
            n.update(st); rec.step(); rec.trace(); rec.state(z, wl, H, st, case['dx'])
            want, dV, Vmax = erode(z, wl, H, T, st, case)
            det = dict(bed=z, level=wl, waves=(H, T), step=st)
            rec.close(n.s['zb'][0], want, 'erosion', 'bed after dune erosion', rtol=1e-9, atol=1e-9, **det)
            rec.check(np.all(n.s['zb'][0] <= z + 1e-12), 'rises', 'dune erosion raises the bed', **det)
            rec.outcome('cells %d' % (n.s['zb'][0] < z - 1e-12).sum())
    rec.sample(dict(case=case))


def shadow(rec, case):
    """Rows that the waves reach in different strength: every combination of masks on three rows."""
    P = np.array([PROFILES[(case['pr'] + r) % 4] for r in (0, 0, 1)]); nx = P.shape[1]
    m = tiny.model(tiny.base(nx=nx, ny=3, dx=case['dx'], dy=4., zb=P, u=2., process_dune_erosion=True, Cs=case['Cs'], dune_toe_elevation=case['toe'], beach_slope=case['beta'], dt=3600.,
                             process_tide=True, process_wave=True, process_runup=True, wave_mask=np.ones((3, nx)), tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 1., 6.], [1e9, 1., 6.]])))
    for masks in itertools.product((0., .3, .48, .7, 1.), repeat=3):
        for up in (.5, .2):
            wl = case['toe'] - up; H, T = 2., 8.
            n = copy.deepcopy(m)
            n.s['wave_mask'] = np.array(masks)[:, None] * np.ones((3, nx))
            n.set_var('tide_file', np.array([[0., wl], [1e9, wl]])); n.set_var('wave_file', np.array([[0., H, T], [1e9, H, T]]))
            n.update(); rec.step(); rec.trace(); rec.state(case['pr'], case['toe'], case['Cs'], masks, up)
            for j in range(3):
                want, dV, Vmax = erode(P[j], wl, H, T, 3600., case, masks[j])
                rec.close(n.s['zb'][j], want, 'erosion-rows', 'bed after dune erosion', rtol=1e-9, atol=1e-9, row=j, masks=masks, level=wl)
                rec.outcome('mask %s' % ('eroded' if (want < P[j] - 1e-12).any() else 'none'))


def repeated(t, T, V):
    """Series that repeats one second after its end (as all forcing of the model)."""
    n = T[-1] - T[0] + 1
    t = T[0] + (t - T[0]) % n
    return np.interp(t, T, V)


def series(rec, case):
    """Times before, within and beyond the series of water levels and waves."""
    z = np.array(PROFILES[0])
    T = np.array([case['t0'], case['t0'] + 200., case['t0'] + 600., case['t0'] + case['end'] - 10., case['t0'] + case['end']]); V = np.array([1., 3.2, 3.2, .5, 2.])
    W = np.array([case['t0'], case['t0'] + 300., case['t0'] + case['wend']]); H = np.array([1., 3., 2.]); P = np.array([6., 9., 7.])
    m = tiny.model(tiny.base(nx=len(z), dx=case['dx'], zb=z, u=2., process_dune_erosion=True, Cs=case['Cs'], dune_toe_elevation=case['toe'], beach_slope=case['beta'], dt=600.,
                             process_tide=True, process_wave=True, process_runup=True, tide_file=np.array([T, V]).T, wave_file=np.array([W, H, P]).T))
    for t in np.unique(np.concatenate([T, T + 90., T + case['end'] + 1., T + 2 * case['end'] + 55., W, W + case['wend'] + 1., W + 2.5 * case['wend'], np.arange(5., 4 * case['end'], 170.)])):
        if t <= 1.:
            continue
        n = copy.deepcopy(m)
        n.update(-t); z0 = n.s['zb'][0].copy()
        n.update(300.); rec.step(2); rec.trace(); rec.state(case['t0'], case['end'], case['wend'], case['toe'], t)
        wl, Ht, Tt = (float(repeated(t, *x)) for x in ((T, V), (W, H), (W, P)))
        want, dV, Vmax = erode(z0, wl, Ht, Tt, 300., case)
        rec.close(n.s['zb'][0], want, 'erosion-series', 'bed after dune erosion', rtol=1e-9, atol=1e-9, time=t, level=wl, waves=(Ht, Tt))
        rec.outcome('series %s %d' % ('beyond' if t > T[-1] else 'within', (n.s['zb'][0] < z0 - 1e-12).sum() > 0))


def default(rec, case):
    """Dune erosion with nothing but the process switched on."""
    z = np.array([PROFILES[0]] * max(1, case['ny']))
    m = tiny.model(tiny.base(nx=z.shape[1], ny=case['ny'], zb=z if case['ny'] else z[0], u=2., process_dune_erosion=True, process_tide=True, process_wave=True, process_runup=True, dt=600.,
                             tide_file=np.array([[0., 3.], [1e9, 3.]]), wave_file=np.array([[0., 3., 8.], [1e9, 3., 8.]])))
    rec.step(); rec.trace(); rec.state(case['ny'])
    try:
        m.update()
    except KeyError as e:
        rec.fail('default-coefficient', 'dune erosion fails without Cs in the configuration', error=repr(e))
        return
    rec.check(np.isfinite(m.s['zb']).all() and (m.s['zb'] < z).any(), 'default', 'no erosion with default parameters')
