"""Time stepping: every sequence of requested steps and winds, compared with an independent time model."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'time advances by the admissible step'
LEVEL = 'model_checking'
RULE = ('case = (scheme, grid and its rotation, CFL number, configured step, acceleration, bed level limit, start time); inside a case ALL sequences '
        'of (wind, requested step) up to the depth are executed by snapshot and restore of the real model; after every call the time, the step '
        'and, for skipped steps, the whole state are compared with a separate model of the time axis')
ASSUMPTIONS = ['requested steps: none, zero, -1, shorter and longer than configured, fast-forward by 2 and 500 s',
               'a calm step of the explicit scheme advances one second without executing the model (as documented)']
CHUNK = 2
WINDS = {'calm': (0., 270.), 'on9': (9., 270.), 'ob25': (25., 215.), 'al14': (14., 0.01)}
STEPS = (-1., 7., 200., -500., 0., .25)


def depth(tier):
    return 2 if tier == 'quick' else 3


def BOUNDS(tier):
    return ('3 schemes x 1-D, square and 2:1 rotated grids x CFL 0, 0.5, 1 x configured step 30 s x acceleration 1 and 10 x bed level limit none, 1e-5, 1e-4 m '
            'x start at 0 and 5000 s; all histories of 4 winds x 6 requested steps to depth %d' % depth(tier))


def cases(tier):
    for scheme, grid, cfl, acc, lim, t0 in itertools.product(('euler_backward', 'euler_forward', 'crank_nicolson'), ('1d', 'sq', 'rot'),
                                                            (1., .5, 0.), (1., 10.), (999., 1e-5, 1e-4), (0., 5000.)):
        if scheme != 'euler_forward' and cfl != 1.:
            continue
        yield dict(scheme=scheme, grid=grid, cfl=cfl, acc=acc, lim=lim, t0=t0, depth=depth(tier))


def warmup():
    tiny.warm()


FROZEN = ('x', 'y', 'zb', 'mass', 'Ct', 'pickup', 'uth', 'zs', 'moist', 'ds', 'dn')


def run_case(rec, case):
    dx, dy, alpha = dict([('1d', (1., 1., 0.)), ('sq', (1., 1., 0.)), ('rot', (2., .5, 30.))])[case['grid']]
    ny = 0 if case['grid'] == '1d' else 3
    cfg = tiny.base(nx=5, ny=ny, dx=dx, dy=dy, alpha=alpha, scheme=case['scheme'], CFL=case['cfl'], dt=30., accfac=case['acc'],
                    max_bedlevel_change=case['lim'], tstart=case['t0'])
    root = tiny.model(cfg)
    rec.check(root.get_current_time() == case['t0'] and root.get_start_time() == case['t0'], 'start', 'time does not start at tstart')
    def walk(m, hist):
        for (name, (u, d)), req in itertools.product(WINDS.items(), STEPS):
            k = copy.deepcopy(m)
            k.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
            h = hist + [(name, req)]; det = dict(history=h)
            b = {v: np.array(k.s[v]) for v in FROZEN}
            t0, dtp, dzb = k.t, k.dt, np.abs(np.array(k.s['dzb'])).max()
            k.update(req)
            rec.step(); rec.trace()
            rec.state(k.s['zb'], k.s['Ct'], k.t, k.dt, name, case['scheme'])
            if req < -1:
                rec.check(abs(k.t - t0 - abs(req)) < 1e-9 * max(1, k.t), 'fast-forward', 'time after a fast-forward', t0=t0, t=k.t, **det)
                ran = False
            else:
                want = req if req > 0 else 30.
                ran = True
                if case['scheme'] == 'euler_forward' and case['cfl'] > 0:
                    # wind in grid coordinates
                    a = np.deg2rad(d) + np.deg2rad(alpha)
                    cr = abs(u * np.sin(a)) / dx + abs(u * np.cos(a)) / dy
                    if cr * 1. > 1e-12:
                        want = min(want, case['cfl'] / cr)
                    if u == 0:
                        want = min(want, 1.); ran = False
                if ran and case['lim'] != 999. and dzb > 0 and dtp > 0:
                    want = min(want, dtp * case['lim'] / dzb)
                rec.check(k.dt > 0 and np.isfinite(k.dt), 'step-positive', 'time step is not positive', dt=k.dt, **det)
                rec.check(k.dt <= max(req if req > 0 else 30., 0) * (1 + 1e-12), 'step-too-long', 'step exceeds the requested step', dt=k.dt, **det)
                rec.check(abs(k.dt - want) <= 1e-6 * want, 'step', 'time step differs from the admissible step', dt=float(k.dt), want=float(want), **det)
                rec.check(abs(k.t - t0 - k.dt * case['acc']) <= 1e-9 * max(1, k.t), 'time', 'time does not advance by the step',
                          t0=t0, t=float(k.t), dt=float(k.dt), **det)
                rec.check(k.t > t0, 'stuck', 'time does not advance', **det)
            if not ran:
                for v in FROZEN:
                    rec.close(k.s[v], b[v], 'skipped:' + v, '%s changes in a skipped step' % v, **det)
            else:
                rec.close(k.s['dzb'], k.s['zb'] - b['zb'], 'dzb', 'bed level change of the step', **det)
            rec.outcome('%s.%s' % (name, 'run' if ran else 'skip'))
            if rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
    walk(root, [])
    rec.sample(dict(case=case))
