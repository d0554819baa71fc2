"""Exploration core: enumerates the cases of one check, runs every one of them on
the real code imported from /repo, counts what was explored and writes evidence.

A check is a module mc/checks/<ID>.py with

    TITLE, LEVEL, RULE, ASSUMPTIONS, BOUNDS(tier) -> str
    cases(tier)            -> iterable of JSON-serialisable cases: the WHOLE bounded space
    run_case(rec, case)    -> explores the case, calling rec.*

Nothing is sampled: `cases` is a nest of loops over finite domains, and a case may
itself enumerate a tree of operation sequences.
"""
import os, sys

ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           NUMBA_NUM_THREADS='1')

import contextlib, glob, hashlib, importlib, json, logging, multiprocessing as mp
import shutil, signal, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '150'))
BUDGET = float(os.environ.get('VERIF_BUDGET', '820'))
BUDGET_VIOL = float(os.environ.get('VERIF_BUDGET_VIOL', '300'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class CaseTimeout(BaseException):
    pass


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    def feed(o):
        import numpy as np
        if isinstance(o, np.ndarray):
            a = np.ascontiguousarray(o)
            if a.dtype.kind == 'f':
                a = np.round(a, 10) + 0.
            h.update(str(a.shape).encode()); h.update(a.tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode()); feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'['); [feed(x) for x in o]; h.update(b']')
        elif isinstance(o, float):
            h.update(('%.10g' % o).encode())
        else:
            h.update(repr(o).encode())
        h.update(b'|')
    for o in objs:
        feed(o)
    return h.digest()


class Rec:
    """What one worker observed."""
    def __init__(self, replay=False):
        self.states = set(); self.transitions = 0; self.traces = 0
        self.evals = 0; self.viols = []; self.outcomes = {}; self.samples = []
        self.skipped = {}; self.memo = {}; self.replay = replay; self.case = None; self.keys = set()

    def state(self, *objs):
        """Register a visited state; True when it is new to this worker."""
        d = digest(*objs); new = d not in self.states; self.states.add(d); return new

    def deeper(self, left, m, *more):
        """True when `left` further steps of model m have to be explored: within this case its complete
        state was not yet explored as deep."""
        import numpy as np
        if left <= 0:
            return False
        h = hashlib.blake2b(repr((m.t, m.dt, more)).encode(), digest_size=12)
        for k in sorted(m.s):
            v = m.s[k]
            h.update(k.encode())
            h.update(np.ascontiguousarray(v).tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
        d = h.digest()
        if self.memo.get(d, 0) >= left:
            return False
        self.memo[d] = left
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One complete execution replayed on the implementation and checked."""
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def check(self, ok, key, msg='', **detail):
        """Evaluate one instance of the property."""
        self.evals += 1
        if not ok:
            self.fail(key, msg, **detail)
        return bool(ok)

    def fail(self, key, msg='', **detail):
        if self.replay:
            print('  FAIL %s: %s %s' % (key, msg, json.dumps(jsonable(detail))[:2000]))
        if len(self.viols) < 40 and key not in self.keys:
            self.keys.add(key)
            self.viols.append(dict(key=key, msg=str(msg), detail=jsonable(detail), case=jsonable(self.case)))

    def close(self, a, b, key, msg='', rtol=1e-9, atol=1e-12, **detail):
        import numpy as np
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if b.ndim == 0:
            b = np.broadcast_to(b, a.shape)
        self.evals += 1
        if a.shape != b.shape:
            self.fail(key, msg + ' shape %s vs %s' % (a.shape, b.shape), **detail); return False
        with np.errstate(all='ignore'):
            same = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(same):
            self.fail(key, msg, got=a, want=b, **detail); return False
        return True


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 400 else 'array%s' % (o.shape,)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o); return f if f == f and abs(f) != float('inf') else repr(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return repr(o)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    return repr(o)


def quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')


@contextlib.contextmanager
def alarm(seconds):
    def onalarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_MOD = None
_SCRATCH = None


def run_one(mod, rec, case):
    rec.case = case; rec.memo = {}
    wd = tempfile.mkdtemp(dir=_SCRATCH)
    os.chdir(wd)
    try:
        with alarm(CASE_TIMEOUT):
            mod.run_case(rec, case)
    except CaseTimeout:
        rec.fail('no-termination', 'case did not finish in %d s (normally well under one)' % CASE_TIMEOUT)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = [f for f in tb if '/aeolis/' in f.filename]
        where = '%s:%s' % (os.path.basename(site[-1].filename), site[-1].name) if site else 'harness'
        rec.fail('exception:%s:%s' % (type(e).__name__, where), str(e)[:300],
                 traceback=traceback.format_exc()[-3000:])
    finally:
        os.chdir(_SCRATCH)
        shutil.rmtree(wd, ignore_errors=True)


def _work(chunk):
    rec = Rec()
    for case in chunk:
        run_one(_MOD, rec, case)
    return rec


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known:'):
                parts = dict(x.split('=', 1) for x in line.split()[1:3])
                known[(parts['property'], parts['key'])] = line.split(None, 3)[3].strip()
    return known


def main(argv):
    global _MOD, _SCRATCH
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=None)
    ap.add_argument('--replay', default=None); ap.add_argument('-j', type=int, default=None)
    ap.add_argument('--limit', type=int, default=None, help='development only')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    t0 = time.time()
    sys.path.insert(0, REPO)
    quiet()
    _SCRATCH = tempfile.mkdtemp(prefix='mc_%s_' % pid, dir='/tmp')
    rc = 2
    try:
        rc = _main(pid, tier, seed, a, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    return rc


def _main(pid, tier, seed, a, t0):
    global _MOD
    _MOD = mod = importlib.import_module('mc.checks.' + pid)
    outdir = os.path.join(VERIF, 'evidence', 'replays', pid)
    if a.replay:
        data = json.load(open(a.replay))
        rec = Rec(replay=True)
        print('replaying', json.dumps(data['case'])[:3000])
        run_one(mod, rec, data['case'])
        for v in rec.viols:
            print('VIOLATION property=%s replay=%s key=%s %s' % (pid, a.replay, v['key'], v['msg']))
            print(v['detail'].get('traceback', ''))
        return 1 if rec.viols else 0
    shutil.rmtree(outdir, ignore_errors=True)
    if hasattr(mod, 'warmup'):
        wd = tempfile.mkdtemp(dir=_SCRATCH); os.chdir(wd)
        try:
            with alarm(200):
                mod.warmup()
        except CaseTimeout:
            pass
        except Exception:
            traceback.print_exc()
        os.chdir(_SCRATCH)
    tw = time.time() - t0
    cases = list(mod.cases(tier))
    if a.limit:
        cases = cases[:a.limit]
    ncpu = a.j or min(8, len(os.sched_getaffinity(0)))
    size = max(1, min(getattr(mod, 'CHUNK', 64), -(-len(cases) // (ncpu * 4))))
    # interleave so that chunks cost about the same
    nch = -(-len(cases) // size)
    chunks = [cases[i::nch] for i in range(nch)]
    total = Rec(); viols = {}; known = load_known()
    if ncpu == 1:
        it = map(_work, chunks)
        pool = None
    else:
        pool = mp.get_context('fork').Pool(ncpu, maxtasksperchild=getattr(mod, 'MAXTASKS', None))
        it = pool.imap_unordered(_work, chunks)
    done = 0; stopped = False
    while done < len(chunks):
        try:
            if pool:
                left = BUDGET - (time.time() - t0)
                # once something is broken there is no need to explore the rest for long
                if any((pid, k) not in known for k in viols):
                    left = min(left, BUDGET_VIOL - (time.time() - t0))
                r = it.next(max(left, .01))
            else:
                r = next(it)
        except mp.TimeoutError:
            stopped = True; break
        done += 1
        total.states |= r.states; total.transitions += r.transitions; total.traces += r.traces
        total.evals += r.evals
        for k, v in r.outcomes.items():
            total.outcomes[k] = total.outcomes.get(k, 0) + v
        if len(total.samples) < 4:
            total.samples += r.samples
        for v in r.viols:
            old = viols.get(v['key'])
            if old is None or len(json.dumps(v['case'])) < len(json.dumps(old['case'])):
                viols[v['key']] = v
    if pool and stopped:
        pool.terminate(); pool.join()
        print('stopped after %d of %d parts of the space: the time budget is used' % (done, len(chunks)))
    elif pool:
        pool.close(); pool.join()
    # which of them are recorded findings
    new = []; hit = set()
    for k in sorted(viols):
        if (pid, k) in known:
            hit.add(k)
            print('KNOWN-FINDING: property=%s %s (key %s)' % (pid, known[(pid, k)], k))
        else:
            new.append(viols[k])
    lines = 0
    if new:
        os.makedirs(outdir, exist_ok=True)
        for i, v in enumerate(new):
            path = os.path.join(outdir, 'v%02d.json' % i)
            with open(path, 'w') as fp:
                json.dump(v, fp, indent=1)
            if lines < 10:
                print('VIOLATION property=%s replay=%s' % (pid, path))
                print('   key=%s %s' % (v['key'], v['msg'][:300])); lines += 1
    level = mod.LEVEL
    cov = dict(states=len(total.states), transitions=total.transitions,
               traces_validated_against_impl=total.traces,
               evaluations=total.evals,
               cases=len(cases),
               distinct_outcomes=len(total.outcomes),
               outcomes={k: total.outcomes[k] for k in sorted(total.outcomes)[:60]},
               bounds=mod.BOUNDS(tier), rule=mod.RULE, exhaustive=a.limit is None and not stopped,
               samples=total.samples[:4])
    if level in ('exploration', 'fault_enumeration'):
        cov['distinct_nontrivial'] = len(total.states)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=jsonable(cov),
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d traces=%d evaluations=%d outcomes=%d violations=%d known=%d wall=%.1fs (warmup %.1fs)'
          % (pid, tier, len(cases), len(total.states), total.transitions, total.traces, total.evals,
             len(total.outcomes), len(new), len(hit), time.time() - t0, tw))
    return 1 if new else 0
