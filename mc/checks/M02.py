"""Several models in one process: all interleavings, repeated initialisation, all orders of runs."""
import copy, itertools, os, pickle
import numpy as np
from mc import tiny
from mc.checks import E01

TITLE = 'models in one process do not influence each other and results are reproducible'
LEVEL = 'model_checking'
RULE = ('case = two models (pair of process sets and grids); ALL interleavings of their operations (create, initialise, three steps under different forcing, finalise) are executed in one process and every state '
        'reached must be bit for bit that of the model on its own; single models: ALL histories of forcing are repeated by a deep copy, a pickled copy of the state, a second model and the same model initialised again; '
        'twins: for EVERY setting (entries of the configuration, input files, orientation of the grid) a twin that differs in this setting only, slightly, by a factor or in order, runs first in the same process; '
        'runs: ALL orders of complete runs in one process give the output files of each run on its own; the default configuration and the names of grids stay unchanged')
ASSUMPTIONS = ['the generator of random numbers is shared, it is seeded before every operation']
CHUNK = 2
SETS = [(), ('wave', 'runup', 'moist', 'mix', 'reset'), ('groundwater', 'scanning', 'seepage', 'salt'), ('shear', 'separation', 'avalanche', 'vegetation'), ('fences', 'vegetation'), ('erosion', 'shelter', 'nelayer'),
        ('duran', 'grains', 'fast'), ('pieter', 'grains', 'limit'), ('forward', 'okin')]
OPS = ('create', 'init', 'storm', 'surge', 'off', 'finalize')


def BOUNDS(tier):
    return ('all pairs of %d models (1-D and 2-D), %s; %d process sets x all histories of 4 forcings to depth %d repeated four ways; %s process sets x twins in every setting; all orders of %d runs' %
            (9 if tier == 'quick' else 17, 'all 20 interleavings of 3 operations (initialise, two steps)' if tier == 'quick' else 'all 252 interleavings of 5 operations', len(SETS), 2 if tier == 'quick' else 4, 'all' if tier != 'quick' else 6, 4))


def kinds():
    return [(s, ny) for s in SETS for ny in (0, 4) if not ('okin' in s and ny)]


def cases(tier):
    K = kinds()
    for a, b in itertools.product(range(len(K)), repeat=2):
        if a <= b and (tier != 'quick' or a in (0, 3, 4, 7, 8, 11, 12, 15, 16) and b in (0, 3, 4, 7, 8, 11, 12, 15, 16)):
            yield dict(kind='pair', a=a, b=b, ops=('init', 'storm', 'surge') if tier == 'quick' else ('create', 'init', 'storm', 'surge', 'off'))
    for k in range(len(K)):
        yield dict(kind='repeat', k=k, depth=2 if tier == 'quick' else 4)
    for k in range(len(K)):
        for part in range(4):
            if tier != 'quick' or k in (0, 3, 4, 7, 10, 14):
                yield dict(kind='twin', k=k, part=part)
    for o in itertools.permutations(range(4)):
        yield dict(kind='runs', order=o)


def warmup():
    E01.warmup()


def snap(m):
    out = {('s', v): np.array(a) for v, a in m.s.items() if isinstance(a, np.ndarray)}
    out['t'] = m.t; out['c'] = dict(m.c)
    for k, v in m.p.items():
        if isinstance(v, (int, float, str, bool, type(None), list)) or isinstance(v, np.ndarray):
            out[('p', k)] = copy.deepcopy(v)
    return out


def same(a, b):
    if a.keys() != b.keys():
        return sorted(map(str, set(a) ^ set(b)))
    bad = []
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            ok = x.shape == y.shape and x.dtype == y.dtype and (np.array_equal(x, y, equal_nan=True) if x.dtype.kind in 'fc' else np.array_equal(x, y))
        else:
            ok = x == y
        if not ok:
            bad.append(str(k))
    return bad


class Proc:
    """One model as a sequence of operations."""
    def __init__(self, kind, name):
        self.kind, self.name, self.m, self.n = kind, name, None, 0

    def do(self, op):
        np.random.seed(5)
        if op == 'create':
            self.m = E01.tiny.model(self.cfg(), self.name + '.txt', init=False)
        elif op == 'init':
            if self.m is None:
                self.do('create')
            np.random.seed(5)
            self.m.initialize()
        elif op == 'finalize':
            self.m.finalize()
        else:
            E01.force(self.m, op); self.m.update()

    def cfg(self):
        got = {}
        real = tiny.model
        try:
            tiny.model = lambda c, n: got.update(c)
            E01.build(*self.kind, name=self.name)
        finally:
            tiny.model = real
        return got

    def state(self):
        return snap(self.m) if self.m is not None else {}


def constants():
    import aeolis.constants as C
    return pickle.dumps([sorted(C.DEFAULT_CONFIG.items()), sorted((k, tuple(v)) for k, v in C.MODEL_STATE.items()), sorted(C.INITIAL_STATE) if hasattr(C, 'INITIAL_STATE') else None,
                         sorted(C.REQUIRED_CONFIG) if hasattr(C, 'REQUIRED_CONFIG') else None])


def run_case(rec, case):
    before = constants()
    globals()['run_' + case['kind']](rec, case)
    rec.check(constants() == before, 'constants', 'the default configuration or the list of grids is changed by a model')


def run_pair(rec, case):
    K = kinds(); ops = case['ops']; n = len(ops)
    alone = []
    for i, k in enumerate((case['a'], case['b'])):
        p = Proc(K[k], 'ab'[i]); seq = []
        for op in ops:
            p.do(op); seq.append(p.state())
        alone.append(seq)
    for pos in itertools.combinations(range(2 * n), n):
        P = [Proc(K[case['a']], 'a'), Proc(K[case['b']], 'b')]; done = [0, 0]; sched = ''
        for j in range(2 * n):
            w = 0 if j in pos else 1
            P[w].do(ops[done[w]]); done[w] += 1; sched += 'ab'[w]
            rec.step()
            for q in (0, 1):
                if done[q]:
                    bad = same(P[q].state(), alone[q][done[q] - 1])
                    rec.check(not bad, 'interleaving', 'a model behaves differently next to another one', schedule=sched, model='ab'[q], differs=bad)
            rec.state(case['a'], case['b'], sched)
        rec.trace()
    rec.outcome('pair')


def run_repeat(rec, case):
    kind = kinds()[case['k']]
    root = E01.build(*kind, name='a')
    first = snap(root)
    def step(m, f, n):
        np.random.seed(10 + n); E01.force(m, f); m.update(); rec.step()
    def walk(m, hist):
        for f in E01.FORCE:
            a, b = copy.deepcopy(m), copy.deepcopy(m)
            b.s = pickle.loads(pickle.dumps(m.s)); b.p = pickle.loads(pickle.dumps(m.p))
            before = snap(m)
            step(a, f, len(hist)); step(b, f, len(hist))
            h = hist + [f]
            bad = same(snap(a), snap(b))
            rec.check(not bad, 'copy', 'a pickled copy continues differently', history=h, differs=bad)
            bad = same(snap(m), before)
            rec.check(not bad, 'original', 'stepping a copy changes the original', history=h, differs=bad)
            new = rec.deeper(case['depth'] - len(h), a)
            rec.state(case['k'], a.s['zb'], a.s['Ct'], a.s['mass'], f)
            if len(h) == case['depth'] or not new:
                # the same history in a new model, and in a model that is initialised again
                c = E01.build(*kind, name='a')
                for i, g in enumerate(h):
                    step(c, g, i)
                bad = same(snap(c), snap(a))
                rec.check(not bad, 'again', 'the same history gives another result the second time', history=h, differs=bad)
                rec.trace()
            if new:
                walk(a, h)
    walk(root, [])
    bad = same(snap(root), first)
    rec.check(not bad, 'original', 'stepping copies changes the original', differs=bad)
    # initialise again after all histories of two steps
    for h in itertools.product(E01.FORCE, repeat=2):
        m = E01.build(*kind, name='a')
        for i, g in enumerate(h):
            step(m, g, i)
        np.random.seed(3); m.finalize(); m.initialize()
        m2 = snap(m)
        bad = [k for k in first if k in m2 and k != 'c' and same({0: first[k]}, {0: m2[k]})]
        rec.check(not bad, 'initialise', 'a model that is initialised again starts differently', history=h, differs=bad)
        r = E01.build(*kind, name='a')
        for g in ('storm', 'surge'):
            step(m, g, 7); step(r, g, 7)
            x, y = snap(m), snap(r)
            bad = [k for k in y if k != 'c' and k in x and same({0: x[k]}, {0: y[k]})]
            rec.check(not bad, 'initialised-step', 'a model that is initialised again continues differently', history=h, differs=bad)
        rec.trace()
    rec.outcome('repeat')


def twins(cfg, ny):
    """All twins of a configuration: (name, configuration)."""
    for k, v in sorted(cfg.items()):
        if isinstance(v, (bool, np.bool_)):
            yield k, dict(cfg, **{k: not v})
        elif isinstance(v, (int, float)):
            for f in (1.0001, 2.):
                if isinstance(v, float) or f == 2.:
                    yield '%s x %g' % (k, f), dict(cfg, **{k: type(v)(v * f) if v else v + f - 1})
        elif isinstance(v, np.ndarray):
            t = k in ('wind_file', 'tide_file', 'wave_file', 'meteo_file')
            for f in (1.0001, 2.):
                w = v.copy()
                if t:
                    w[:, 1:] *= f
                else:
                    w *= f
                yield '%s x %g' % (k, f), dict(cfg, **{k: w})
            if t:
                w = v.copy(); w[:, 0] += 7.; yield k + ' later', dict(cfg, **{k: w})
                w = v.copy(); w[:, 1:] = v[::-1, 1:]; yield k + ' reversed', dict(cfg, **{k: w})
            elif k not in ('xgrid_file', 'ygrid_file'):
                yield k + ' reversed', dict(cfg, **{k: v[..., ::-1].copy()})
                yield k + ' higher', dict(cfg, **{k: v + .003})
        elif isinstance(v, list) and all(isinstance(x, float) for x in v):
            yield k + ' reversed', dict(cfg, **{k: v[::-1]})
            yield k + ' x 1.0001', dict(cfg, **{k: [x * 1.0001 for x in v]})
    for k, v in dict(z=5., k=.002, rhoa=1.3, rhog=2600., porosity=.3, accfac=3., CFL=.5, T=2., kappa=.4, beach_slope=.05, layer_thickness=.02, nlayers=3, Cb=1.8, Aa=.09, gamma=.6, V_ver=1., alfa=10., tstart=50.,
                     wind_convention='cartesian', method_transport='kawamura', method_moist_threshold='chepil', boundary_lateral='constant').items():
        if cfg.get(k) != v:
            yield k, dict(cfg, **{k: v})
    if ny:
        for a in (.04, .5, 90., 180.):
            yield 'turned %g' % a, turned(cfg, a)
        yield 'moved', dict(cfg, xgrid_file=cfg['xgrid_file'] + 3.3)
        yield 'fewer rows', {k: v[:-1] if isinstance(v, np.ndarray) and v.shape == cfg['bed_file'].shape else v for k, v in cfg.items()}


def turned(cfg, a):
    a = np.deg2rad(a); x, y = cfg['xgrid_file'], cfg['ygrid_file']
    return dict(cfg, xgrid_file=x * np.cos(a) - y * np.sin(a), ygrid_file=x * np.sin(a) + y * np.cos(a))


def run_twin(rec, case):
    kind = kinds()[case['k']]
    cfg = Proc(kind, 'a').cfg()
    cfg['wind_file'] = np.array([[0., 11., 262.], [100., 17., 281.], [200., 14., 233.], [330., 9., 270.]])
    if 'tide_file' in cfg: cfg['tide_file'] = np.array([[0., .1], [100., 1.2], [170., -.2], [300., .4]])
    if 'wave_file' in cfg: cfg['wave_file'] = np.array([[0., 1., 8.], [120., 1.7, 6.5], [300., .4, 5.]])
    if kind[1]: cfg = turned(cfg, 20.3)
    def history(c):
        np.random.seed(4)
        m = tiny.model(c, 'a.txt')
        out = [snap(m)]
        for k in range(3):
            m.update(); out.append(snap(m))
        return out
    def child(cs):
        """History of the last of the configurations after those of the others, in a process of its own."""
        f = 'out.pickle'
        pid = os.fork()
        if pid == 0:
            try:
                for c in cs[:-1]:
                    try:
                        history(c)
                    except Exception:
                        pass
                pickle.dump(history(cs[-1]), open(f, 'wb')); os._exit(0)
            except BaseException:
                os._exit(1)
        ok = os.waitpid(pid, 0)[1] == 0
        rec.check(ok, 'twin-fails', 'a model fails after another one')
        return pickle.load(open(f, 'rb')) if ok else None
    alone = child([cfg])
    for j, (name, c) in enumerate(twins(cfg, kind[1])):
        if j % 4 != case['part']:
            continue
        got = child([c, cfg])
        rec.step(8); rec.trace(); rec.state(case['k'], name)
        for n, (a, b) in enumerate(zip(alone or [], got or [])):
            bad = same(a, b)
            if not rec.check(not bad, 'twin', 'a model behaves differently after one that differs in one setting', setting=name, after=n, differs=bad):
                break
    rec.outcome('twin')


def run_runs(rec, case):
    """Complete runs one after the other in one process."""
    import netCDF4, contextlib, io
    import aeolis.model as M
    RUNS = [dict(), dict(ny=3, grain_size=[.0002, .0004], grain_dist=[.3, .7], accfac=3.), dict(scheme='euler_forward', CFL=.5, tstop=20., output_times=5., dt=5.), dict(nlayers=4, output_vars='zb Ct uw_avg', output_times=120.)]
    files = []
    for who in ('own', 'mixed'):
        for i in (range(4) if who == 'own' else case['order']):
            d = os.path.join(os.getcwd(), '%s%d' % (who, i)); os.mkdir(d)
            kw = dict(RUNS[i]); kw.setdefault('tstop', 240.); kw.setdefault('output_vars', 'zb mass_max')
            tiny.write(tiny.base(nx=5, **kw), 'a.txt', d)
    def run(d):
        with contextlib.redirect_stderr(io.StringIO()):
            M.AeoLiSRunner(os.path.join(d, 'a.txt')).run()
    def read(d):
        with netCDF4.Dataset(os.path.join(d, 'a.nc')) as ds:
            ds.set_auto_mask(False)
            return {**{v: np.array(ds[v][:]) for v in ds.variables}, 'dims': {k: len(v) for k, v in ds.dimensions.items()}}
    for i in range(4):
        pid = os.fork()
        if pid == 0:
            try:
                run('own%d' % i); os._exit(0)
            except BaseException:
                os._exit(1)
        rec.check(os.waitpid(pid, 0)[1] == 0, 'child', 'a run fails')
    for i in case['order']:
        run('mixed%d' % i)
    for i in range(4):
        a, b = read('own%d' % i), read('mixed%d' % i)
        bad = [v for v in a if v not in b or (a[v] != b[v] if v == 'dims' else not np.array_equal(a[v], b[v], equal_nan=a[v].dtype.kind == 'f'))]
        rec.check(a.keys() == b.keys() and not bad, 'runs', 'a run after other runs writes another output file', order=case['order'], run=i, differs=bad)
        rec.step(len(a['time'])); rec.state(case['order'], i)
    rec.trace(); rec.outcome('runs')
