"""Generated wind: all answers of the random number generator."""
import contextlib, io, itertools, os
import numpy as np
from mc import tiny

TITLE = 'generated wind follows the Weibull distribution for all random numbers'
LEVEL = 'model_checking'
RULE = ('the random number generator is replaced by a choice point. chain: for EVERY reachable wind speed class all distinct successors are found by bisecting the unit interval down to 2^-53, which gives the complete '
        'transition matrix of the implementation; its stationary distribution is the Weibull distribution with the requested mean over the classes, and a higher class has a stochastically higher successor; '
        'series: ALL sequences of answers to a depth from an alphabet with both ends of the unit interval: the class depends on the previous class and its own answer only, speeds fill their class uniformly and stay between zero and '
        'the maximum; times are regular, start at zero and just cover the duration; a second generation starts afresh; file: the written file holds exactly the series with direction zero and drives a model with those speeds; '
        'command: the command line passes all options on')
ASSUMPTIONS = ['classes that are reached with a probability below 2^-53 are not visited']
CHUNK = 4
TOP = 1 - 2.**-53
ANSWERS = []


def answer(*a, **k):
    size = k.get('size', a[2] if len(a) > 2 else None)
    lo, hi = (list(a[:2]) + [0., 1.][len(a[:2]):]) if a else (k.get('low', 0.), k.get('high', 1.))
    if size is None:
        return lo + (hi - lo) * ANSWERS.pop(0)
    return lo + (hi - lo) * np.array([ANSWERS.pop(0) for _ in range(int(np.prod(size)))]).reshape(size)


def answer01(*size):
    size = size[0] if len(size) == 1 and not np.isscalar(size[0]) else size
    return answer(0., 1., size if size not in ((), (None,)) else None)


@contextlib.contextmanager
def choices(seq):
    names = dict(uniform=answer, rand=answer01, random=answer01, random_sample=answer01, ranf=answer01, sample=answer01)
    old = {n: getattr(np.random, n) for n in names if hasattr(np.random, n)}
    ANSWERS[:] = list(seq)
    try:
        for n in old:
            setattr(np.random, n, names[n])
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def gen(case):
    from aeolis.model import WindGenerator
    a = dict(mean_speed=case['mean'], max_speed=case['max'], n_states=case['n'])
    if case.get('shape'):
        a['shape'] = case['shape']
    if case.get('scale'):
        a['scale'] = case['scale']
    if case.get('dt'):
        a['dt'] = case['dt']
    return WindGenerator(**a)


def BOUNDS(tier):
    return ('%d generators; all sequences of %s' % (sum(1 for c in cases(tier) if c['kind'] == 'chain'), '3 x (6 x 4) answers' if tier == 'thorough' else '3 x (5 x 3) answers'))


def cases(tier):
    th = tier == 'thorough'
    for mean, mx, n, shape, scale in itertools.product((4., 9., 12., 15.) if th else (5., 9., 12.), (20., 30., 33.3) if th else (20., 33.), (1, 2, 3, 5, 7, 10, 15, 20, 30) if th else (1, 2, 5, 10, 15), (None, 1., 1.5, 3.) if th else (None, 1.5), (None, 1., 2.5) if th else (None, 2.5)):
        if (n > 10 and mx / mean > 3.5) or (n > 15 and mx / mean > 2.7):
            continue  # the generator is slow
        if not th and scale and (n != 5 or shape):
            continue
        yield dict(kind='chain', mean=mean, max=mx, n=n, shape=shape, scale=scale)
    yield dict(kind='chain', mean=9., max=30., n=30, shape=None, scale=None)
    for n, mx in itertools.product((2, 3, 5, 10), (10., 25., 30.)):
        yield dict(kind='series', mean=9., max=mx, n=n, depth=3, nr=6 if th else 5, n2=4 if th else 3)
    for dt, dur in itertools.product((1., 30., 60., 3600.), (0., 59., 60., 61., 100., 3600., 7200., 10000.) + ((3601., 86400.) if th else ())):
        yield dict(kind='times', mean=9., max=30., n=10, dt=dt, dur=dur)
    for mean, mx, dt, dur, opts in itertools.product((8., 12.), (20., 35.), (30, 60), (300, 400), ('none', 'all', 'each')):
        if opts == 'each' or (mean, mx, dt, dur) == (8., 20., 30, 300) or opts == 'all' and th:
            yield dict(kind='command', mean=mean, max=mx, dt=dt, dur=dur, opts=opts)


def warmup():
    tiny.warm()


def speeds(g, r, duration):
    """Speeds of the series with the given answers (pairs) of the random number generator."""
    with choices(np.array(r).ravel()):
        out = g.generate(duration)
    t, u = out.get_time_series()
    return np.asarray(t, dtype=float), np.asarray(u, dtype=float)


def weibull(case):
    n = case['n']
    u = (np.arange(n) + .5) * case['max'] / n
    k = case.get('shape') or 2.
    lam = (case.get('scale') or 2.) * case['mean'] / np.sqrt(np.pi)
    p = k / lam * (u / lam) ** (k - 1) * np.exp(-(u / lam) ** k)
    return p / p.sum()


def run_case(rec, case):
    rec.state(tuple(sorted(case.items(), key=str)))
    return globals()['run_' + case['kind']](rec, case)


def chain(rec, g, case):
    """Complete transition matrix of the generator and one path of answers to every class."""
    dt = case.get('dt') or 60.
    size = case['max'] / case['n']
    memo = {}

    def succ(path, r):
        k = (tuple(path), r)
        if k not in memo:
            t, u = speeds(g, [(x, .5) for x in path] + [(r, .5)], dt * len(path))
            rec.step(len(path) + 1)
            memo[k] = int(round(u[-1] / size - .5))
        return memo[k]

    def breaks(path, a, b, out):
        """Breakpoints between a and b by bisection."""
        fa, fb = succ(path, a), succ(path, b)
        if fa == fb:
            return
        c = .5 * (a + b)
        if c <= a or c >= b or b - a < 1e-13:
            out.append((b, fa, fb)); return
        breaks(path, a, c, out); breaks(path, c, b, out)

    first, rows, paths = None, {}, {}
    todo = [((), None)]
    while todo:
        path, i = todo.pop(0)
        br = []
        grid = [0.] + [j / 64. for j in range(1, 64)] + [TOP]
        for a, b in zip(grid[:-1], grid[1:]):
            breaks(path, a, b, br)
        seg, x, s = [], 0., succ(path, 0.)
        for b, fa, fb in br:
            seg.append((x, b, s)); x, s = b, fb
        seg.append((x, 1., s))
        row = np.zeros(case['n'])
        for a, b, s in seg:
            rec.check(0 <= s < case['n'], 'class-range', 'a generated wind speed is outside the classes', cls=s, state=i)
            if 0 <= s < case['n']:
                row[s] += b - a
                if s not in paths:
                    paths[s] = path + (.5 * (a + b) if b < 1. or a == 0. else min(.5 * (a + b), TOP),)
                    todo.append((paths[s], s))
        if i is None:
            first = row
        else:
            rows[i] = row
    return first, rows, paths


def run_chain(rec, case):
    g = gen(case)
    first, rows, paths = chain(rec, g, case)
    rec.trace(1)
    n = case['n']
    p = weibull(case)
    reach = sorted(rows)
    M = np.zeros((n, n))
    for i in reach:
        M[i] = rows[i]
        rec.check(abs(rows[i].sum() - 1) < 1e-9, 'row-sum', 'the probabilities of the successors of a wind speed do not add up to one', cls=i, total=float(rows[i].sum()))
    rec.check(len(reach) > 0 and p[[i for i in range(n) if i not in reach]].sum() < 1e-6, 'all-classes', 'a wind speed with a considerable probability is never generated', reached=reach, p=p.round(6).tolist())
    q = p @ M
    rec.check(abs(q - p).max() < 2e-6, 'stationary', 'the generated wind speeds do not follow the Weibull distribution with the given parameters',
              generated=q.tolist(), expected=p.tolist())
    for _ in range(3000):  # it is the only stationary distribution
        q = .5 * q + .5 * q @ M
    v = np.ones(n) / n
    for _ in range(5000):
        v = .5 * v + .5 * v @ M
    if n <= 10:
        rec.check(abs(v / v.sum() - p).max() < 1e-4, 'limit', 'the generated wind speeds do not converge to the Weibull distribution', generated=v.tolist(), expected=p.tolist())
    cum = np.cumsum(M, axis=1)
    for i in reach:
        rec.state((str(case), i))
    for a, b in zip(reach[:-1], reach[1:]):
        rec.check((cum[b] <= cum[a] + 1e-9).all() and ((cum[b, :-1] < cum[a, :-1] - 1e-12).any() or min(p[a], p[b]) < 1e-6), 'persistent', 'a higher wind speed is not followed by a higher wind speed', low=M[a].tolist(), high=M[b].tolist())
    rec.check(abs(first - M[reach[0]]).max() < 1e-9 or abs(first - p).max() < 1e-6, 'first', 'the first wind speed follows neither the lowest class nor the distribution', first=first.tolist())
    rec.sample(dict(case=case, p=p.tolist(), generated=q.tolist()))
    rec.outcome(('chain', n))


def run_series(rec, case):
    g = gen(case)
    n, size = case['n'], case['max'] / case['n']
    first, rows, paths = chain(rec, g, case)
    R1 = [0., .2, .5, .8, TOP, .95][:case['nr']]; R2 = [0., .5, TOP, .25][:case['n2']]
    depth = case['depth']
    for seq in itertools.product(itertools.product(R1, R2), repeat=depth):
        t, u = speeds(g, seq, 60. * (depth - 1))
        rec.trace(1); rec.step(depth)
        if not rec.check(len(u) == depth, 'length', 'the series has another number of wind speeds than asked for', u=u.tolist()):
            return
        rec.check((u >= 0.).all() and (u <= case['max'] * (1 + 1e-12)).all(), 'range', 'a generated wind speed is not between zero and the maximum', u=u.tolist(), answers=seq)
        prev = None
        for k, (r1, r2) in enumerate(seq):
            c = np.cumsum(first if prev is None else rows[prev])
            j = int(np.searchsorted(c, r1, side='right'))
            j = min(j, max(np.flatnonzero(np.diff(np.r_[0., c]) > 0)))
            rec.check(abs(u[k] - (j + r2) * size) < 1e-6 * size, 'uniform', 'a wind speed does not depend on its predecessor and its own random numbers only, or is not uniform in its class', u=u.tolist(), answers=seq, step=k, expected=(j + r2) * size)
            prev = j
    rec.outcome(('series', n))


def run_times(rec, case):
    g = gen(case)
    dt, dur = case['dt'], case['dur']
    N = int(np.ceil(dur / dt)) + 1
    rng = np.random.RandomState(1).uniform(size=2 * N + 4)
    for rep in range(3):  # generating again starts afresh
        with choices(rng):
            g.generate(dur)
            left = len(ANSWERS)
        t, u = g.get_time_series()
        rec.trace(1); rec.step(N)
        rec.check(len(t) == len(u) == N and np.allclose(t, np.arange(N) * dt, rtol=1e-12), 'times', 'the series does not regularly cover the duration', t=np.asarray(t)[-3:].tolist(), n=len(t), expected=N, generation=rep)
        if rep == 0:
            u0 = np.array(u)
        rec.check(len(u) == len(u0) and (np.asarray(u) == u0).all(), 'afresh', 'a second series with the same random numbers differs from the first', generation=rep)
    g.write_time_series('w.txt')
    M = np.loadtxt('w.txt', ndmin=2)
    rec.check(M.shape == (N, 3) and np.allclose(M[:, 0], t) and np.allclose(M[:, 1], u, rtol=1e-12) and (M[:, 2] == 0.).all(), 'file', 'the written file does not hold the series with direction zero', shape=M.shape)
    rec.outcome(('times', N))
    if 2 <= N < 150:  # the file drives a model
        cfg = tiny.base(ny=3, nx=4, output_vars='zb', tstop=float(t[-1]), output_times=1e9)
        cfg['wind_file'] = 'w.txt'
        m = tiny.model(cfg)
        dtm = t[-1] / 8.
        while m.t < t[-1] - dtm:
            tm = m.t
            m.update(dtm); rec.step()
            rec.check(abs(m.s['uw'] - np.interp(tm, t, u)).max() < 1e-6, 'drives', 'the wind in the model is not the wind in the generated file', t=tm, uw=float(m.s['uw'].flat[0]), expected=float(np.interp(tm, t, u)))
            if m.t <= tm:
                rec.fail('drives-time', 'time does not advance'); break


def run_command(rec, case):
    from typer.testing import CliRunner
    from aeolis.console import aeolis_app
    dflt = dict(mean=10., max=30., duration=3600, timestep=60)
    given = dict(mean=case['mean'], max=case['max'], duration=case['dur'], timestep=case['dt'])
    sets = {'none': [{}], 'all': [given], 'each': [{k: given[k]} for k in given]}[case['opts']]
    for s in sets:
        v = {**dflt, **s}
        N = int(np.ceil(v['duration'] / v['timestep'])) + 1
        rng = np.random.RandomState(2).uniform(size=2 * N + 4)
        args = ['wind', 'cmd.txt'] + [x for k, o in s.items() for x in ('--' + k, str(o))]
        with choices(rng):
            res = CliRunner().invoke(aeolis_app, args)
        rec.trace(1); rec.step(N)
        if not rec.check(res.exit_code == 0 and os.path.isfile('cmd.txt'), 'command', 'the command to generate wind fails', args=args, out=res.output[-300:], error=repr(res.exception)):
            continue
        M = np.loadtxt('cmd.txt', ndmin=2)
        g = gen(dict(mean=v['mean'], max=v['max'], n=30, dt=float(v['timestep'])))
        t, u = speeds(g, rng, float(v['duration']))
        rec.check(M.shape == (N, 3) and np.allclose(M[:, 0], t) and np.allclose(M[:, 1], u, rtol=1e-12), 'command-options', 'the command generates another series than its options ask for', args=args)
        out = res.output
        for name, val in (('min', u.min()), ('mean', u.mean()), ('max', u.max())):
            rec.check('%-4s : %6.3f m/s' % (name, val) in out, 'command-summary', 'the summary of the generated series is wrong', args=args, out=out[-200:], expected=float(val))
        os.unlink('cmd.txt')
    rec.outcome(('command', case['opts']))
