"""Output statistics and requests: every bounded sequence of time steps, requests and writes on the runner."""
import copy, itertools, os
import numpy as np
from mc import tiny

TITLE = 'statistics cover exactly the time steps since the last output or clearing request'
LEVEL = 'model_checking'
RULE = ('case = (requested output variables, output types, output interval, start time, acceleration, grid); inside a case ALL sequences of operations '
        '(time steps of three lengths, setting the bed, requesting a statistic with and without clearing, requesting a grid, writing output) to the depth are executed by snapshot and '
        'restore; after every operation every statistic of every variable is compared with the list of states since the last clearing; the records that reach the output file are compared '
        'with the states at the moment of writing')
ASSUMPTIONS = ['output file replaced by a list of records (what reaches it is checked in O02)', 'no request that declines clearing between a request that asks for it and the next time step']
CHUNK = 1
U = 'uABsgGhw'


def depth(tier):
    return 5 if tier == 'quick' else 6


def BOUNDS(tier):
    return ('6 sets of output variables and types x 3 output intervals x start at 0, 45 or 600 s x acceleration 1 and 2 x 1-D of 5 and 2-D of 3 x 4 cells; all sequences of 8 operations to '
            'depth %d (up to two less for variants)' % depth(tier))


SETS = {
    'avg': dict(output_vars='zb_avg Ct_avg zb', output_types=''),
    'types': dict(output_vars='zb pickup Cu uth q', output_types='avg sum var min max'),
    'one': dict(output_vars='Ct', output_types='max'),
    'mixed': dict(output_vars='w_air w_bed_max mass_min zb_var zb_sum uw', output_types='min'),
    'alone': dict(output_vars='zb_var Ct_sum uth_max pickup_min Cu_avg', output_types=''),
    'dots': dict(output_vars='zb.max Ct.var zb_max', output_types='sum'),
}


def cases(tier):
    for st, every, t0, acc, ny in itertools.product(SETS, (60., 100., 180.), (0., 45., 600.), (1., 2.), (0, 3)):
        odd = (every != 100.) + (t0 != 0) + (acc != 1.) + (ny != 0)
        if tier == 'quick' and odd > 1:
            continue
        d = depth(tier) - (st != 'avg') - (odd > 0) - (odd > 2)
        for first in itertools.product(U, repeat=max(0, d - 3)):
            yield dict(set=st, every=every, t0=t0, acc=acc, ny=ny, depth=d, first=''.join(first))
    yield dict(kind='names')


def warmup():
    tiny.warm()


class Spy:
    """Stands in for the output file."""
    def __init__(self):
        self.created = []; self.records = []

    def initialize(self, outputfile, outputvars, s, p, dimensions):
        self.created.append((outputfile, {k: list(v) for k, v in outputvars.items()}))

    def append(self, outputfile, variables):
        self.records.append({k: np.array(v, copy=True) for k, v in variables.items()})


def split(v):
    for sep in '_.':
        a, _, b = v.rpartition(sep)
        if a and b in ('avg', 'sum', 'var', 'min', 'max'):
            return a, b
    return v, None


def wanted(case):
    st = SETS[case['set']]
    out = {}
    for v in st['output_vars'].split():
        a, b = split(v)
        out.setdefault(a, set()).add(b)
        out[a] |= set(st['output_types'].split())
    return out


def stats(vals, kind):
    A = np.array(vals)
    if kind == 'sum':
        return A.sum(axis=0)
    if kind == 'min':
        return A.min(axis=0)
    if kind == 'max':
        return A.max(axis=0)
    if kind == 'avg':
        return A.mean(axis=0)
    return A.var(axis=0, ddof=1) if len(A) > 1 else np.zeros(A.shape[1:])


def value(m, k):
    v = np.array(m.s[k], copy=True)
    return v / m.p['accfac'] if k in ('Ct', 'Cu') else v


class Ref:
    def __init__(self, t0, names):
        self.vals = {k: [] for k in names}; self.pending = False; self.nrec = 0; self.last = t0; self.touched = False

    def clear(self):
        self.vals = {k: [] for k in self.vals}


def build(case):
    nx = 4 if case['ny'] else 5
    cfg = tiny.base(nx=nx, ny=case['ny'], grain_size=[.0002, .0004], grain_dist=[.5, .5], layer_thickness=.001, dt=60., tstart=case['t0'], output_times=case['every'], accfac=case['acc'], tstop=1e6,
                    **SETS[case['set']])
    # bed levels on both sides of zero and of one, but not in the same cell
    z = np.linspace(-4., -2., nx)
    cfg['bed_file'] = np.array([z, z + 5., z + 2.5]) if case['ny'] else z
    cfg['wind_file'] = np.array([[0., 9., 260.], [130., 14., 280.], [260., 3., 270.], [390., 11., 250.], [700., 13., 265.], [1e6, 10., 270.]])
    return cfg


def run_case(rec, case):
    if case.get('kind') == 'names':
        return names(rec)
    import aeolis.netcdf as N
    old = N.initialize, N.append
    spy = Spy()
    N.initialize, N.append = spy.initialize, spy.append
    try:
        explore(rec, case, spy)
    finally:
        N.initialize, N.append = old


def explore(rec, case, spy):
    W = wanted(case)
    m0 = tiny.model(build(case), runner=True)
    rec.check(len(spy.created) == 1 and {k: set(v) for k, v in spy.created[0][1].items()} == W and all(len(v) == len(set(v)) for v in spy.created[0][1].values()), 'variables',
              'variables and statistics of the output file', got=spy.created, want={k: sorted(map(str, v)) for k, v in W.items()})
    rec.check(spy.created[0][0] == os.path.abspath('aeolis.nc') or spy.created[0][0] == 'aeolis.nc', 'file', 'name of the output file', got=spy.created[0][0])
    r0 = Ref(case['t0'], W)
    stat0 = sorted((k, e) for k, v in W.items() for e in v if e)[0]

    def compare(m, r, h):
        for k, exts in W.items():
            for e in exts:
                if e and r.vals[k]:
                    want = stats(r.vals[k], e)
                    got = m.get_statistic(k, e)
                    scale = float(np.max(np.abs(r.vals[k]))) or 1.
                    rec.close(got, want, 'statistic-' + e, 'statistic of %s since the last clearing' % k, rtol=1e-9, atol=1e-12 * scale**(2 if e == 'var' else 1), history=h, steps=len(r.vals[k]))

    def go(m, r, h, d):
        for op in U:
            if len(h) < len(case['first']) and op != case['first'][len(h)]:
                continue
            if r.pending and op == 'h':
                continue            # declines a clearing that was asked for
            if h and op in 'gGhs' and h[-1] == op:
                continue
            if op == 'w' and not r.touched and r.nrec:
                continue
            n = copy.deepcopy(m); q = copy.deepcopy(r); hh = h + op
            step(n, q, op, hh); rec.step()
            compare(n, q, hh)
            rec.state({k: [x.tobytes() for x in v] for k, v in q.vals.items()}, q.pending, q.last, n.t)
            if d > 1:
                go(n, q, hh, d - 1)
            else:
                rec.trace()

    def step(m, r, op, h):
        if op in 'uAB':
            if r.pending:
                r.clear(); r.pending = False
            m.update(*{'u': (), 'A': (25.,), 'B': (140.,)}[op])
            for k in r.vals:
                r.vals[k].append(value(m, k))
            r.touched = True
        elif op == 's':
            m.set_var('zb', m.s['zb'] + .3 + .1 * np.arange(m.s['zb'].size).reshape(m.s['zb'].shape))
        elif op in 'gh':
            k, e = stat0
            got = m.get_var(k + '_' + e) if op == 'g' else m.get_var(k + '_' + e, clear=False)
            r.pending = op == 'g'
            if r.vals[k]:
                rec.close(got, stats(r.vals[k], e), 'request', 'requested statistic', history=h, rtol=1e-9, atol=1e-12)
        elif op == 'G':
            k = sorted(W)[-1]
            rec.close(m.get_var(k), value(m, k), 'request-grid', 'requested grid', history=h, rtol=1e-14)
            r.pending = True
        elif op == 'w':
            n0 = len(spy.records)
            m.output_write()
            new = spy.records[n0:]
            del spy.records[:]
            due = m.t - r.last >= case['every'] or (m.t == case['t0'])
            rec.check(len(new) == int(due), 'schedule', 'record is written when the output interval has elapsed', got=len(new), want=int(due), time=m.t, last=r.last, history=h)
            if new:
                v = new[0]
                names = {'time'} | {k if e is None else k + '_' + e for k, ee in W.items() for e in ee}
                rec.check(set(v) == names, 'record-variables', 'variables of a record', got=sorted(v), want=sorted(names), history=h)
                rec.check(float(v.get('time', np.nan)) == m.t, 'record-time', 'time of a record', history=h)
                for k, ee in W.items():
                    for e in ee:
                        nm = k if e is None else k + '_' + e
                        if nm in v and e is None:
                            rec.close(v[nm], value(m, k), 'record', 'grid in a record', rtol=1e-14, history=h, name=nm)
                        elif nm in v and r.vals[k]:
                            scale = float(np.max(np.abs(r.vals[k]))) or 1.
                            rec.close(v[nm], stats(r.vals[k], e), 'record-' + e, 'statistic in a record', rtol=1e-9, atol=1e-12 * scale**(2 if e == 'var' else 1), history=h, name=nm)
            if due:
                r.clear(); r.last = m.t; r.nrec += 1; r.pending = False
                # output takes over the request to clear
            r.touched = False

    go(m0, r0, '', case['depth'])
    rec.outcome(case['set'])
    rec.sample(dict(case=case, stat=stat0))


def names(rec):
    """Every name: grids and parameters, also those with an underscore, and every statistic of an output grid."""
    import aeolis.netcdf as N
    old = N.initialize, N.append
    spy = Spy(); N.initialize, N.append = spy.initialize, spy.append
    try:
        m = tiny.model(tiny.base(output_vars='zb w', output_types='avg min', hveg_max=.7), runner=True)
        m.update(); m.update()
        for k in list(m.s):
            g = m.get_var(k); rec.step()
            if isinstance(m.s[k], np.ndarray):
                rec.close(g, value(m, k), 'grid-by-name', 'spatial grid requested by name', name=k, rtol=1e-14)
            rec.state(k)
        for k in list(m.p):
            if k in m.s:
                continue
            g = m.get_var(k); rec.step()
            rec.check(g is m.p[k] or np.all(g == m.p[k]), 'parameter-by-name', 'parameter requested by name', name=k, got=g, want=m.p[k]); rec.state(k)
        rec.check(m.get_var('nonsense') is None and m.get_var('non_sense') is None and m.get_var('zb_nonsense') is None and m.get_var('non_sense_avg') is None, 'unknown', 'unknown names give nothing')
        v = [m.s['zb'].copy()]
        rec.trace()
    finally:
        N.initialize, N.append = old
