"""Equilibrium concentration and grain speed for every formulation, over wind histories."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'equilibrium concentration follows the chosen formulation'
LEVEL = 'model_checking'
RULE = ('case = (transport formulation, grain speed, grid rows, grain sizes, acceleration); every cell of the grid has its own '
        'threshold (by the threshold mask, or by a non-erodible bed) and inside a case ALL wind histories to the depth are run '
        'by snapshot and restore; after each step the concentrations of all cells and fractions are compared with formulas written '
        'down independently and with the values of the same wind without history')
ASSUMPTIONS = ['histories: bed flat, so that the wind is uniform; the grain speed of Duran on uneven beds and in separation bubbles is compared for single steps over all small beds',
               'wind speeds up to 35 m/s', 'thresholds in the order of the Bagnold threshold, or infinite']
CHUNK = 2
METHODS = ('bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen')
SPEEDS = ('windspeed', 'constant', 'duran')
WINDS = {'calm': (0., 270.), 'weak': (2., 270.), 'on7': (7., 270.), 'ob12': (12., 230.), 'land20': (20., 80.), 'st35': (35., 300.)}
MASK = np.array([1, 1 + .05j, 1 + .3j, 2., .5, 1 + 1.2j, 1.3 + .02j, .9])


def depth(tier):
    return 2 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('7 transport formulations x 3 grain speeds x 1 and 3 rows x 8 thresholds x non-erodible bed or not x 1 and 3 fractions x acceleration '
            '1 and 20, all histories over 6 winds to depth %d, and a change of the thresholds in every wind; grain speed of Duran: all beds of 5 cells over 3 heights and 2-D beds of 4 x 4 cells, with and without separation bubbles, '
            '5 winds, 1 and 2 fractions, 2 levels' % depth(tier))


def cases(tier):
    for m, g, ny, nf, acc, ne in itertools.product(METHODS, SPEEDS, (0, 3), (1, 3), (1., 20.), (0, 1)):
        yield dict(method=m, speed=g, ny=ny, nf=nf, acc=acc, ne=ne, depth=depth(tier))
    for nf, lv, first, sep in itertools.product((1, 2), (0., -3.), (0., .3, -1.), (0, 1)):
        yield dict(kind='bed', nf=nf, lv=lv, first=first, sep=sep, two=0)
    for nf, lv, shape, sep in itertools.product((1, 2), (0., -3.), range(6), (0, 1)):
        yield dict(kind='bed', nf=nf, lv=lv, first=shape, sep=sep, two=1)


def warmup():
    tiny.warm()


def formula(m, us, ut, u, d):
    """Equilibrium concentration [kg/m2] of the documented formulations."""
    r = 1.225 / 9.81
    if not np.isfinite(ut):
        return 0.
    if m == 'bagnold':
        c = 1.5 * r * (us - ut)**3 / u
    elif m == 'bagnold_gs':
        c = 1.5 * np.sqrt(d / .00025) * r * (us - ut)**3 / u
    elif m == 'kawamura':
        c = 2.78 * r * (us - ut) * (us + ut)**2 / u
    elif m == 'lettau':
        c = 6.7 * r * us**2 * (us - ut) / u
    elif m == 'dk':
        c = 5. * r * .8 * ut * (us**2 - (.8 * ut)**2) / u
    elif m == 'sauermann':
        c = .7 * r * (us**2 - ut**2)
    elif m == 'vanrijn_strypsteen':
        c = 1.5 * r * (us**3 - ut**3) / u
    return max(0., c)


def duran(ust, ustx, usty, uth0, d, dhx, dhy, sep):
    """Grain velocity of Duran (2007) in one cell, for shear velocities above the threshold."""
    g, v, S, kap = 9.81, 1.5e-5, 2650. / 1.225, .41
    tv = (v / g**2)**(1 / 3.); lv = (v**2 / (.085**2 * g * (S - 1)))**(1 / 3.)
    zm = 14. / 2.4 * uth0 * tv; z0 = d / 20.; z1 = 35. * lv; al = .17 * d / lv
    Ss = d / (4 * v) * np.sqrt(g * d * (S - 1))
    Cd = 4 / 3. * (.95 + np.sqrt(2 * al) * 5.12 / Ss)**2
    uf = np.sqrt(4 / (3 * Cd) * (S - 1) * g * d)
    e = np.array([ustx, usty]) / ust; dh = np.array([dhx, dhy])
    if sep:
        return .1 * e, None
    A = np.hypot(*(e + 2 * al * dh))
    ue = uth0 / kap * (np.log(z1 / z0) + z1 / zm * (ust / uth0 - 1))
    return (ue - uf / (np.sqrt(2 * al) * A)) * e - np.sqrt(2 * al) * uf / A * dh, ue - uf / np.sqrt(2 * al)


def slopes(z, dx, dy):
    gx = np.zeros(z.shape); gy = np.zeros(z.shape)
    gx[:, 1:-1] = (z[:, 2:] - z[:, :-2]) / (2 * dx); gx[:, 0] = gx[:, 1]; gx[:, -1] = gx[:, -2]
    if len(z) > 1:
        gy[1:-1] = (z[2:] - z[:-2]) / (2 * dy); gy[0] = gy[1]; gy[-1] = gy[-2]
    return gx, gy


def beds(rec, case):
    H = (0., .3, -1.); dx, dy = 1.5, 2.
    if case['two']:
        a, b = np.meshgrid(np.arange(4.), np.arange(4.))
        Z = [[.3 * a, .2 * b - .1 * a, .4 * (a == 1) * (b == 2), .3 * np.sin(2 * a) * np.cos(b), .1 * a * b, -.5 * (b > 1)][case['first']] * f for f in (1., -.7)]
        seps = [np.zeros((4, 4)), 1. * (a == 2), 1. * ((a == 1) & (b == 1))] if case['sep'] else [None]
    else:
        Z = [np.array([(case['first'],) + q]) for q in itertools.product(H, repeat=4)]
        seps = [np.array([[0, 0, 1., 0, 0]])] if case['sep'] else [None]
    gs = [.00025] if case['nf'] == 1 else [.0005, .0002]
    ut = .085 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * np.array(gs))
    for z in Z:
        z = z + case['lv']
        ny, nx = z.shape
        m = tiny.model(tiny.base(nx=nx, ny=ny if ny > 1 else 0, dx=dx, dy=dy, zb=z if ny > 1 else z[0], grain_size=gs, grain_dist=[1. / len(gs)] * len(gs), method_grainspeed='duran', process_bedupdate=False))
        z1 = z
        for sep in seps:
            for u, d in ((9., 270.), (14., 225.), (25., 80.), (12., 350.), (18., 135.)):
                n = copy.deepcopy(m)
                n.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
                for z in (z1, z1[:, ::-1], z1[::-1, ::-1]):     # beds of the same volume follow each other
                    n.s['zb'][:] = z
                    if sep is not None:
                        n.s['hsep'] = .5 * sep; n.s['zsep'] = z + .5 * sep
                    gx, gy = slopes(z, dx, dy)
                    n.update(); rec.step(); rec.trace()
                    s = n.s; det = dict(bed=z, wind=(u, d), bubble=sep)
                    rec.state(z, u, d, sep is None, case['nf'])
                    ust = .41 * u / np.log(10. / .001); a = np.deg2rad(d)
                    for i in range(len(gs)):
                        want = np.zeros((2,) + z.shape); w0 = np.full(z.shape, np.nan)
                        for j in np.ndindex(*z.shape):
                            inb = sep is not None and sep[j] > 0
                            (want[0][j], want[1][j]), q = duran(ust, -ust * np.sin(a), -ust * np.cos(a), ut[i], gs[i], gx[j], gy[j], inb)
                            w0[j] = duran(ust, -ust * np.sin(a), -ust * np.cos(a), ut[i], gs[i], gx[j], gy[j], False)[1]
                        rec.close(s['us'][:, :, i], want[0], 'duran-us', 'grain speed of Duran over an uneven bed', rtol=1e-7, atol=1e-9, **det)
                        rec.close(s['un'][:, :, i], want[1], 'duran-un', 'grain speed of Duran over an uneven bed', rtol=1e-7, atol=1e-9, **det)
                        rec.close(s['u'][:, :, i], np.hypot(*want), 'duran-u', 'grain speed of Duran over an uneven bed', rtol=1e-7, atol=1e-9, **det)
                        rec.close(s['u0'][:, :, i], w0, 'duran-u0', 'grain speed on a flat bed', rtol=1e-7, **det)
                        rec.close(s['Cu'][:, :, i] * s['u'][:, :, i], 1.5 * 1.225 / 9.81 * (ust - ut[i])**3, 'duran-Cu', 'equilibrium flux is independent of the grain speed', rtol=1e-7, **det)
                rec.outcome('bed%d sep%d' % (case['two'], sep is not None))
    rec.sample(dict(case=case))


def run_case(rec, case):
    if case.get('kind') == 'bed':
        return beds(rec, case)
    ny, nf, acc, m = case['ny'], case['nf'], case['acc'], case['method']
    rows = max(ny, 1)
    nx = len(MASK)
    gs = [.00025] if nf == 1 else [.0002, .0003, .0008]
    mask = np.array([np.roll(MASK, r) for r in range(rows)])
    zb = np.zeros((rows, nx))
    extra = {}
    if case['ne']:
        ne = np.full((rows, nx), -5.)
        ne[:, 3] = 0.; ne[0, 5] = .5
        extra = dict(th_nelayer=True, ne_file=ne if ny else ne[0])
    cfg = tiny.base(nx=nx, ny=ny, zb=zb if ny else zb[0], method_transport=m, method_grainspeed=case['speed'],
                    grain_size=gs, grain_dist=[1.] if nf == 1 else [.3, .4, .3], accfac=acc, dt=1., tstart=60.,
                    threshold_mask=mask if ny else mask[0], process_bedupdate=False, layer_thickness=1., bi=.5, **extra)
    root = tiny.model(cfg)
    fresh = {}
    base_uth = .085 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * np.array(gs))
    def judge(k, u, d, mask, det):
        s = k.s
        if u > 0:
            ust = .41 * u / np.log(10. / .001)
            rec.close(s['ustar'], ust, 'ustar', 'shear velocity of the logarithmic profile', **det)
            for i in range(nf):
                U = s['u'][:, :, i]
                if case['speed'] == 'windspeed':
                    rec.close(U, u, 'speed', **det)
                elif case['speed'] == 'constant':
                    rec.close(U, 1., 'speed', **det)
                # grain velocity points with or against the wind, never across it
                a = np.deg2rad(d)
                cross = s['us'][:, :, i] * -np.cos(a) - s['un'][:, :, i] * -np.sin(a)
                dot = s['us'][:, :, i] * -np.sin(a) + s['un'][:, :, i] * -np.cos(a)
                rec.check(np.abs(cross).max() <= 1e-6 * (1 + np.abs(dot).max()), 'grain-direction', 'grains move across the wind', **det)
                below = case['speed'] == 'duran' and ust < base_uth[i]
                rec.check(np.all(dot > 0), 'duran-backward-below-threshold' if below else 'grain-backward',
                          'grains move against the wind', **det)
                uth = base_uth[i] * mask.real + mask.imag
                if case['ne']:
                    uth[:, 3] = np.inf; uth[0, 5] = np.inf
                rec.close(s['uth'][:, :, i], uth, 'uth', **det)
                want = np.zeros(uth.shape); want0 = np.zeros(uth.shape)
                for j in np.ndindex(*uth.shape):
                    want[j] = formula(m, ust, uth[j], U[j], gs[i]) * acc
                    want0[j] = formula(m, ust, base_uth[i], U[j], gs[i]) * acc
                rec.close(s['Cu'][:, :, i], want, 'Cu', 'equilibrium concentration', fraction=i, **det)
                rec.close(s['Cuf'][:, :, i], want, 'Cuf', 'equilibrium concentration at the fluid threshold', fraction=i, **det)
                rec.close(s['Cu0'][:, :, i], want0, 'Cu0', 'flat bed equilibrium concentration', fraction=i, **det)
                lim = .8 if m == 'dk' else 1.
                rec.check(np.all(s['Cu'][:, :, i][ust <= lim * uth] == 0), 'below-threshold', 'transport capacity below the threshold', **det)
                rec.close(k.get_var('Cu')[:, :, i] * acc, s['Cu'][:, :, i], 'get-Cu', 'reported concentration excludes the acceleration', **det)
                rec.outcome('%d/%d' % ((want > 0).sum(), want.size))
    def walk(k0, hist):
        for name, (u, d) in WINDS.items():
            k = copy.deepcopy(k0)
            k.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
            k.update()
            h = hist + [name]; det = dict(history=h)
            rec.step(); rec.trace()
            rec.state(k.s['Cu'], k.s['Ct'], name, m, case['speed'], acc)
            s = k.s
            if u > 0:
                judge(k, u, d, mask, det)
                if name not in fresh:
                    q = copy.deepcopy(root)
                    q.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]])); q.update()
                    fresh[name] = {v: np.array(q.s[v]) for v in ('Cu', 'Cuf', 'Cu0', 'u', 'us', 'un', 'uth', 'ustar')}
                for v, x in fresh[name].items():
                    rec.close(s[v], x, 'history:' + v, '%s depends on the wind of earlier steps' % v, **det)
            if u > 0 and not hist:
                # the same wind while the threshold changes
                q = copy.deepcopy(k); other = np.roll(mask, 3, axis=1)
                q.set_var('threshold_mask', other)
                q.update(); rec.step(); rec.trace()
                judge(q, u, d, other, dict(history=h + ['other thresholds', name]))
                rec.state(q.s['Cu'], q.s['Ct'], name, m, case['speed'], acc)
            if rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
    walk(root, [])
    rec.sample(dict(case=case, uth0=base_uth))
