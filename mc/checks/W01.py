"""Wind forcing: every entry and every gap of a wind series, conventions, roughness formulations and grid orientations."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'wind and shear velocity follow the wind series'
LEVEL = 'model_checking'
RULE = ('case = (convention, roughness formulation, rows, grid rotation, composition, source); for every wind series of the bounded '
        'set the model is moved (fast-forward calls) to every knot, every interior and every exterior time of the series in turn, stepped, and '
        'all wind variables are compared with an independent interpolation, decomposition and logarithmic profile')
ASSUMPTIONS = ['bare flat bed without shear perturbation, vegetation and fences',
               'beyond its last entry the series repeats, starting one second after the last entry']
CHUNK = 1
SPEEDS = (0., 5., 20.)
DIRS = (0., 10., 90., 180., 225., 350.)
ROUGH = ('constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive', 'vanrijn_strypsteen')


def BOUNDS(tier):
    n = 2 if tier == 'quick' else 3
    return ('2 conventions x 6 roughness formulations x 1-D and 2-D x rotations 0, 40, 130 degrees x 1 and 3 fractions; all series of %d entries over %d speeds and '
            '%d directions (consecutive directions less than 180 degrees apart), at %d times each; winds (also very weak ones) prescribed through set_var without wind file' % (n, len(SPEEDS), len(DIRS), 4 * n + 1))


def cases(tier):
    for conv, r, (ny, al), nf in itertools.product(('nautical', 'cartesian'), ROUGH, ((0, 0.), (2, 0.), (2, 40.), (2, 130.)), (1, 3)):
        if r == 'constant' and nf == 3:
            continue
        if tier == 'quick' and ((al == 130. and r not in ('constant', 'vanrijn_strypsteen')) or (r != 'constant' and conv == 'cartesian')):
            continue
        yield dict(conv=conv, rough=r, ny=ny, alpha=al, nf=nf, src='file', n=2 if tier == 'quick' else 3, p='full' if tier != 'quick' and r == 'constant' else 'part')
        if conv == 'nautical':
            yield dict(conv=conv, rough=r, ny=ny, alpha=al, nf=nf, src='bmi', n=1, p='part')


def warmup():
    tiny.warm()


def percentile(gs, w, pct):
    """Grain size at a cumulative mass percentage, linear between the sizes, starting at size 0."""
    c = np.concatenate([[0.], np.cumsum(w)]) / np.sum(w) * 100
    return np.interp(pct, c, np.concatenate([[0.], gs]))


def z0_of(rough, gs, gd, mass, u):
    gs = np.asarray(gs)
    if rough == 'constant':
        return .001
    if rough == 'constant_nikuradse':
        return .001 / 30
    if rough == 'mean_grainsize_initial':
        return float(np.dot(gs, gd)) / 30
    top = mass
    if rough == 'mean_grainsize_adaptive':
        return float(np.dot(gs, top / top.sum())) / 30
    if rough == 'median_grainsize_adaptive':
        return 2 * percentile(gs, top, 50) / 30
    if len(gs) == 1:
        d50, d90 = gs[0], 2 * gs[0]
    else:
        d50, d90 = percentile(gs, top, 50), percentile(gs, top, 90)
    us = .41 * u / np.log(30 * 10. / d90)
    ut = .1 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * d50)
    T = (us**2 - ut**2) / ut**2
    return (d90 + 15 * d50 * (T + 1)) / 30


def interp(times, vals, t):
    """Piecewise linear, repeating with the length of the series plus one second."""
    t0, t1 = times[0], times[-1]
    per = t1 - t0 + 1.
    while t > t1:
        t -= per
    while t < t0 - 1e-12 and t + per <= t1 + 1:
        t += per
    return np.interp(t, times, vals)


def run_case(rec, case):
    ny = case['ny']; rows = max(ny, 1); nf = case['nf']; conv = case['conv']
    gs, gd = ([.0003], [1.]) if nf == 1 else ([.0001, .0003, .0009], [.2, .5, .3])
    given = [2, 5, 3] if nf == 3 and ny else gd     # weights do not need to sum to one
    kw = dict(nx=4, ny=ny, alpha=case['alpha'], grain_size=gs, grain_dist=given, method_roughness=case['rough'], wind_convention=conv, dt=1.,
              process_bedupdate=False, layer_thickness=1.)
    if nf == 3 and 'adaptive' in case['rough'] or case['rough'].startswith('vanrijn'):
        comp = np.resize(np.arange(1., 8.), (rows * 4, 2 * nf)); comp = comp / comp.reshape((-1, 2, nf)).sum(2).repeat(nf, 1) * 2650 * .6
        if nf == 3:
            kw['bedcomp_file'] = comp
    def check(m, u, d, det, exact=True):
        """u, d: expected speed and nautical direction."""
        s = m.s
        mass = s['mass'][:, :, 0, :]
        z0 = np.array([[z0_of(case['rough'], gs, gd, mass[i, j], u) for j in range(4)] for i in range(rows)])
        k = .41 / np.log(10. / z0)
        a = np.deg2rad(d)
        us, un = -u * np.sin(a), -u * np.cos(a)
        # an entry of exactly 0 degrees is moved by 0.01 degree at initialisation
        rec.close(s['uw'], u, 'uw', rtol=1e-9, atol=1e-9, **det)
        dd = (s['udir'] - d) % 360
        rec.check(u == 0 or np.all(np.minimum(dd, 360 - dd) < (1e-6 if exact else .1)), 'udir', 'wind direction', got=s['udir'], want=d, **det)
        tol = dict(rtol=1e-6 if exact else 2e-3, atol=(1e-7 if exact else 2e-3) * max(u, 1))
        rec.close(s['uws'], us, 'uws', **tol, **det)
        rec.close(s['uwn'], un, 'uwn', **tol, **det)
        rec.close(s['ustar'], k * u, 'ustar', rtol=1e-6, **det)
        rec.close(s['ustars'], k * us, 'ustars', **tol, **det)
        rec.close(s['ustarn'], k * un, 'ustarn', **tol, **det)
        rec.close(s['tau'], 1.225 * (k * u)**2, 'tau', rtol=1e-6, **det)
        rec.close(s['taus'], 1.225 * k**2 * u * us, 'taus', **tol, **det)
        rec.close(s['taun'], 1.225 * k**2 * u * un, 'taun', **tol, **det)
        for v in ('ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun'):
            rec.close(s[v + '0'], s[v], 'flat:' + v, 'undisturbed %s on a flat bed' % v, rtol=1e-9, atol=1e-12, **det)
    if case['src'] == 'bmi':
        cfg = tiny.base(**kw); cfg['wind_file'] = None
        for proc in (True, False):
            cfg['process_wind'] = proc
            m = tiny.model({k: v for k, v in cfg.items() if v is not None})
            for u, d in itertools.product(SPEEDS + (.03, .4), DIRS):
                for rep in range(2):
                    if rep == 0:
                        m.set_var('uw', np.full((rows, 4), u)); m.set_var('udir', np.full((rows, 4), d))
                    elif nf == 3:
                        # fractions exchange their mass in every cell; the total stays
                        m.set_var('mass', np.roll(m.s['mass'], 1, axis=3))
                    m.update(); rec.step(); rec.trace()
                    rec.state(m.s['uw'], m.s['udir'], m.s['ustar'], rep)
                    check(m, u, d, dict(u=u, d=d, rep=rep, process_wind=proc))
        return
    ent = list(itertools.product(SPEEDS, DIRS))
    sep = lambda a, b: abs((a - b + 180) % 360 - 180)
    root = None
    for num, series in enumerate(itertools.product(ent, repeat=case['n'])):
        if case['rough'] != 'constant' and series[0] != (5., 225.):
            continue        # roughness does not depend on the interpolation: second entry only
        if case['n'] == 3 and case['p'] == 'part' and series[0][0] != 5.:
            continue
        if any(sep(a[1], b[1]) > 179 for a, b in zip(series, series[1:])):
            continue
        gaps = (40., 100.)
        tk = np.concatenate([[20.], 20. + np.cumsum(gaps[:case['n'] - 1])])
        if root is None or num % 37 == 0:
            # these pass through the input file in the convention of the case, the others are exchanged the way a callback does
            cin = [(d if conv == 'nautical' else 270. - d) for u, d in series]
            m = tiny.model(dict(tiny.base(**kw), wind_file=np.array([[t, u, c] for t, (u, d), c in zip(tk, series, cin)])))
            root = root or tiny.model(tiny.base(**kw))
        else:
            m = copy.deepcopy(root)
            m.set_var('wind_file', np.array([[t, u, d] for t, (u, d) in zip(tk, series)]))
        us = [u for u, d in series]; ds = np.deg2rad([d for u, d in series])
        times = sorted(set([0., 5.] + list(tk) + [t + 13. for t in tk[:-1]] + [tk[-1] + 1., tk[-1] + 31., tk[-1] + 2 * (tk[-1] - tk[0] + 1.) - 7.]))
        for t in times:
            if t - m.t > 1.:
                m.update(-(t - m.t))
            elif t > m.t:
                continue
            if abs(m.t - t) > 1e-9:
                continue
            m.update(); rec.step(); rec.trace()
            u = interp(tk, us, t)
            d = np.rad2deg(np.arctan2(interp(tk, np.sin(ds), t), interp(tk, np.cos(ds), t))) % 360
            if u > 0 and np.hypot(interp(tk, np.sin(ds), t), interp(tk, np.cos(ds), t)) < 1e-6:
                continue
            if min(d % 90, 90 - d % 90) < 1e-3:
                d = np.round(d / 90) * 90 % 360
            rec.state(round(u, 6), round(float(d), 4), m.s['ustar'], case['rough'], conv, case['alpha'])
            rec.outcome('q%d.u%d' % (int(d // 90), int(np.sign(u))))
            check(m, u, d, dict(series=series, t=t), exact=not any(x[1] == 0 for x in series))
    rec.sample(dict(case=case, times=times, series=series))
