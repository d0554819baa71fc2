"""Data exchange through the interface: names, shapes, values, and parameters that are set during a simulation."""
import copy, itertools
import numpy as np
from mc import tiny
from mc.checks import E01

TITLE = 'what is set through the interface is what is returned and what is simulated with'
LEVEL = 'model_checking'
RULE = ('names: every grid and parameter of models with several process sets, set and got alone, nothing else may change; sequences: ALL sequences of setting grids and parameters, setting by index, getting, '
        'freezing, copying and stepping to a depth against a reference dictionary; parameters: EVERY numeric parameter set before the first, second and third step gives exactly the result of a model that was '
        'configured with that value and continues from the same state')
ASSUMPTIONS = ['parameters that are used at initialisation only (numbers and thickness of layers, densities for the bed, resolution of the shear grid, initial plants and slopes) keep their effect',
               'names that are both a grid and a parameter refer to the grid', 'frozen grids are protected against assignment only']
CHUNK = 2
SETS = [('wave', 'runup', 'moist', 'mix', 'reset'), ('groundwater', 'scanning', 'seepage', 'salt'), ('shear', 'separation', 'avalanche', 'vegetation'), ('fences', 'okin'), ('erosion', 'shelter', 'nelayer'),
        ('duran', 'grains', 'forward'), ('pieter', 'grains'), ('limit', 'fast'), ('steady', 'vegetation', 'tide'), ('thin', 'rough', 'fast', 'wave')]
INITIAL = {'nlayers', 'layer_thickness', 'rhog', 'porosity', 'theta_dyn', 'theta_stat', 'germinate', 'lateral', 'dx', 'dy', 'k', 'L', 'l', 'buffer_width', 'hveg_max', 'nx', 'ny', 'tstart', 'nfractions', 'nsavetimes'}
SEQ = ('zb', 'Ct', 'Cu', 'mass', 'dt', 'accfac', 'index', 'freeze', 'copy', 'step', 'unknown')


def BOUNDS(tier):
    return ('all names of %d process sets in 1-D and 2-D; all sequences of %d operations to depth %d; all numeric parameters x %d process sets %s' %
            (len(SETS), len(SEQ), 3 if tier == 'quick' else 5, len(SETS), 'in 1-D set before step 1 or in 2-D set before step 2' if tier == 'quick' else 'x 1-D and 2-D set before step 1, 2 and 3, with two values'))


def params():
    from aeolis.constants import DEFAULT_CONFIG as D
    return [k for k, v in D.items() if not isinstance(v, bool) and isinstance(v, (int, float)) and k not in INITIAL]


def cases(tier):
    for i, ny in itertools.product(range(len(SETS)), (0, 4)):
        if 'okin' in SETS[i] and ny:
            continue
        yield dict(kind='names', set=i, ny=ny)
        if tier == 'quick' and bool(ny) != (i % 2 == 1 and 'okin' not in SETS[i]):
            continue
        for part, at, f in itertools.product(range(4), ((1,) if ny else (0,)) if tier == 'quick' else (0, 1, 2), (1.25,) if tier == 'quick' else (1.25, .7)):
            yield dict(kind='params', set=i, ny=ny, at=at, part=part, factor=f)
    for ny, acc, first in itertools.product((0, 3), (1., 5.), SEQ):
        yield dict(kind='seq', ny=ny, acc=acc, first=first, depth=3 if tier == 'quick' else 5)


def warmup():
    E01.warmup()


def run_case(rec, case):
    globals()['run_' + case['kind']](rec, case)


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))
    return a is b or a == b


def contents(m):
    return {**{('s', k): v.copy() if isinstance(v, np.ndarray) else v for k, v in m.s.items()}, **{('p', k): v.copy() if isinstance(v, np.ndarray) else v for k, v in m.p.items()}}


def run_names(rec, case):
    m = E01.build(SETS[case['set']], case['ny'])
    m2 = None
    for stage in range(2):
        names = sorted(m.s)
        rec.check(m.get_var_count() == len(names), 'count', 'number of grids')
        rec.check([m.get_var_name(i) for i in range(len(names))] == names and m.get_var_name(len(names)) == -1, 'names', 'names by index')
        for i, v in enumerate(names):
            a = m.s[v]
            if not isinstance(a, np.ndarray):
                continue
            rec.check(m.get_var_rank(v) == a.ndim and m.get_var_shape(v) == a.shape and m.get_var_type(v) == 'double', 'description', 'rank, shape and type', name=v)
            if v in m.dimensions():
                d = m.dimensions(v)
                rec.check(a.shape == m._dims2shape(d), 'dimensions', 'shape and dimensions of a grid', name=v)
            before = contents(m)
            new = np.arange(a.size, dtype=float).reshape(a.shape) / 7. + 1.
            if i % 2:
                m.set_var(v, new)
            else:
                m.set_var_index(i, new)
            rec.close(m.get_var(v), new, 'get-set', 'a grid that was set is not the one that is returned', rtol=1e-12, name=v)
            after = contents(m)
            rec.check(all(equal(before[k], after[k]) for k in before if k != ('s', v)) and set(before) == set(after), 'others', 'setting one grid changes another', name=v)
            m.s[v] = before[('s', v)]
            rec.trace()
        for k, val in list(m.p.items()):
            if k in m.s or k.startswith('_'):
                continue
            before = contents(m)
            new = 'x%s' % k
            m.set_var(k, new)
            rec.check(m.get_var(k) == new, 'get-set-parameter', 'a parameter that was set is not the one that is returned', name=k)
            after = contents(m)
            rec.check(all(equal(before[q], after[q]) for q in before if q != ('p', k)), 'others', 'setting one parameter changes another', name=k)
            m.p[k] = val
            rec.trace()
        for v in ('nosuch', '', 'zb_avg', 'ZB', 'zb '):
            before = contents(m)
            m.set_var(v, 1.)
            after = contents(m)
            rec.check(m.get_var(v) is None and m.get_var_rank(v) == -1 and m.get_var_shape(v) == -1 and m.get_var_type(v) == -1, 'unknown', 'a name that does not exist', name=v)
            rec.check(set(before) == set(after) and all(equal(before[q], after[q]) for q in before), 'unknown-set', 'setting a name that does not exist changes the model', name=v)
        rec.state(case, stage)
        rec.check(m.get_current_time() == m.t and m.get_start_time() == m.p['tstart'] and m.get_end_time() == m.p['tstop'], 'times', 'times of the simulation')
        E01.force(m, 'storm'); np.random.seed(1); m.update(); rec.step()
    rec.outcome('names %d' % len(names))


def snapshot(m):
    return {v: np.array(a) for v, a in m.s.items() if isinstance(a, np.ndarray) and a.dtype.kind == 'f'}


HIST = ('storm', 'surge', 'off', 'storm')


def run_params(rec, case):
    parts, ny = SETS[case['set']], case['ny']
    base = E01.build(parts, ny)
    for f in HIST[:case['at']]:
        np.random.seed(2); E01.force(base, f); base.update()
    rec.step(case['at'])
    from aeolis.constants import INITIAL_STATE, MODEL_STATE
    real = tiny.base
    for k in params()[case['part']::4]:
        if k in base.s:
            continue
        cur = base.p[k]
        if not isinstance(cur, (int, float, np.floating)):
            continue
        new = cur * case['factor'] + (.5 if cur == 0 else 0.)
        if isinstance(cur, int) and not isinstance(cur, bool):
            new = cur + 1
        a = copy.deepcopy(base)
        a.set_var(k, new)
        # a model configured with the value
        try:
            tiny.base = lambda **kw: {**real(**kw), k: new}
            b = E01.build(parts, ny, name='b')
        finally:
            tiny.base = real
        if case['at']:
            # it goes through the same history, but continues from the same declared state; anything the code remembers besides is its own
            for f in HIST[:case['at']]:
                np.random.seed(2); E01.force(b, f); b.update()
            state = {v for d in (INITIAL_STATE, MODEL_STATE) for w in d.values() for v in w}
            b.__dict__.update({q: copy.deepcopy(v) for q, v in base.__dict__.items() if q not in ('p', 's', 'configfile')})
            b.s.update({v: copy.deepcopy(x) for v, x in base.s.items() if v in state or v not in b.s})
            b.p.update({q: v for q, v in base.p.items() if q == '_time'})
        ok = True
        for f in HIST[case['at']:]:
            for m in (a, b):
                np.random.seed(2); E01.force(m, f); m.update()
            x, y = snapshot(a), snapshot(b)
            bad = [v for v in x if v in y and not np.array_equal(x[v], y[v], equal_nan=True)]
            ok &= rec.check(not bad and abs(a.t - b.t) < 1e-9, 'param:%s' % k, 'a parameter set through the interface has another effect than in the configuration', old=cur, new=new, grids=bad)
            rec.step(2)
        rec.trace(); rec.state(case['set'], ny, case['at'], k, new)
    rec.outcome('parameters at %d' % case['at'])


def run_seq(rec, case):
    ny = case['ny']
    m = tiny.model(tiny.base(nx=5, ny=ny, zb=np.linspace(0, .4, 5) * np.ones((max(ny, 1), 1)) if ny else np.linspace(0, .4, 5), accfac=case['acc'], grain_size=[.0002, .0004], grain_dist=[.5, .5], tstart=60.))
    m.update()
    def walk(m, ref, frozen, hist):
        for op in (SEQ if hist else (case['first'],)):
            k = copy.deepcopy(m); r = dict(ref); fz = set(frozen); h = hist + [op]; det = dict(history=h)
            n = len(h)
            if op in ('zb', 'Ct', 'Cu', 'mass'):
                val = np.arange(k.s[op].size, dtype=float).reshape(k.s[op].shape) * .01 * n
                k.set_var(op, val)
                if op not in fz:
                    r[op] = val * r['accfac'] if op in ('Ct', 'Cu') else val
            elif op == 'dt':
                k.set_var('dt', 10. * n); r['dt'] = 10. * n
            elif op == 'accfac':
                k.set_var('accfac', 1. + n); r['accfac'] = 1. + n
            elif op == 'index':
                i = sorted(k.s).index('zb'); val = np.full(k.s['zb'].shape, .3 * n)
                k.set_var_index(i, val)
                if 'zb' not in fz:
                    r['zb'] = val
            elif op == 'freeze':
                k.s.set_immutable('Ct'); k.s.set_immutable('zb'); fz |= {'Ct', 'zb'}
            elif op == 'copy':
                import pickle
                k.s = pickle.loads(pickle.dumps(k.s)); k.s = copy.deepcopy(k.s)
            elif op == 'unknown':
                k.set_var('nosuch', n)
                rec.check('nosuch' not in k.s and 'nosuch' not in k.p, 'unknown', 'an unknown name is added', **det)
            elif op == 'step':
                if fz:
                    continue
                # a step depends on nothing but the values that were set
                q = copy.deepcopy(root)
                for v in ('zb', 'Ct', 'Cu', 'mass'):
                    q.s[v] = np.array(r[v])
                q.p['dt'] = r['dt']; q.p['accfac'] = r['accfac']
                for v in k.s:
                    if v not in ('zb', 'Ct', 'Cu', 'mass'):
                        q.s[v] = copy.deepcopy(k.s[v])
                q.t = k.t; q.c = dict(k.c); q.l = copy.deepcopy(k.l)
                t = k.t
                k.update(); q.update(); rec.step(2)
                for v in ('zb', 'Ct', 'pickup', 'mass', 'qs'):
                    rec.close(k.s[v], q.s[v], 'step', 'a step depends on the history of setting', rtol=1e-12, atol=1e-15, **det)
                rec.close(k.t, t + r['dt'] * r['accfac'], 'time', 'time after a step', **det)
                for v in ('zb', 'Ct', 'Cu', 'mass'):
                    r[v] = np.array(k.s[v])
            for v in ('zb', 'Ct', 'Cu', 'mass'):
                rec.close(k.get_var(v), r[v] / r['accfac'] if v in ('Ct', 'Cu') else r[v], 'value', 'value returned', rtol=1e-12, atol=1e-15, name=v, **det)
            rec.check(k.get_var('dt') == r['dt'] and k.get_var('accfac') == r['accfac'], 'parameter', 'parameter returned', **det)
            rec.trace(); rec.outcome(op)
            rec.state(case['ny'], case['acc'], sorted(fz), *[r[v] for v in sorted(r)], k.t)
            if n < case['depth']:
                walk(k, r, fz, h)
    root = copy.deepcopy(m)
    walk(m, {**{v: np.array(m.s[v]) for v in ('zb', 'Ct', 'Cu', 'mass')}, 'dt': m.p['dt'], 'accfac': m.p['accfac']}, set(), [])
