"""Callbacks, failures and crashes of a run: at every step and every write."""
import contextlib, io, itertools, os, pickle, signal
import numpy as np
from mc import tiny

TITLE = 'callbacks run before every step, and a run that fails loses nothing it wrote'
LEVEL = 'model_checking'
RULE = ('definitions: ALL callback definitions of an alphabet of valid and invalid ones, as argument and in the configuration file: valid ones are called exactly once at the start of every step, others are refused before '
        'the first step; failures: the run is stopped at EVERY step by an exception, an interrupt, an exit or by killing the process, and at EVERY write of a record or of a restart file by an error (also after half of '
        'the file); afterwards the working directory is restored, the output file holds exactly the records due so far, equal to those of the uninterrupted run, all completed restart files load, and '
        'continuing from each of them ends in the final state of the uninterrupted run')
ASSUMPTIONS = ['a record itself is written by the netCDF library; a crash inside that library is not explored']
CHUNK = 2
CALLS = []
CB = """import numpy as np
VALUE = 5
NONE = None
def add(m):
    import mc.checks.C03 as C
    C.called(m)
class Thing:
    def method(self, m):
        add(m)
"""


def called(m):
    CALLS.append(m.t)
    b = m.s['zb'].copy(); b[:, 2] += .001
    m.set_var('zb', b)


class Obj:
    def method(self, m):
        called(m)


def fails(m):
    raise KeyError('x')


GOOD = {'file': 'cb.py:add', 'dotfile': './cb.py:add', 'sub': 'sub/cb.py:add', 'parent': '../run/cb.py:add', 'function': called, 'lambda': lambda m: called(m), 'method': Obj().method, 'none': None}
BAD = {'nofunc': 'cb.py:nosuch', 'nofile': 'nosuch.py:add', 'nocolon': 'add', 'onlyfile': 'cb.py', 'empty': 'cb.py:', 'emptyfile': ':add', 'three': 'cb.py:add:x', 'value': 'cb.py:VALUE', 'nonevalue': 'cb.py:NONE', 'syntax': 'bad.py:add',
       'raises': 'raises.py:add', 'number': 5, 'list': ['cb.py:add'], 'true': True, 'dir': 'sub:add', 'space': 'cb.py: add', 'case': 'cb.py:Add', 'dotted': 'cb.py:Thing.method'}
NSTEP = 6
HOW = ('exception', 'interrupt', 'exit', 'kill', 'append', 'restart', 'restart-torn')


def BOUNDS(tier):
    return ('%d valid and %d invalid definitions x argument or configuration file x 3 ways of addressing the configuration; %d ways of failing x all %d points x %s' %
            (len(GOOD), len(BAD), len(HOW), NSTEP + 1, '3 output and 2 restart intervals x 3 schemes x 3 ways of addressing' if tier == 'thorough' else '2 output intervals x 3 schemes'))


def cases(tier):
    for d, src, path in itertools.product(list(GOOD) + list(BAD), ('argument', 'config'), ('name', 'relative', 'absolute')):
        v = {**GOOD, **BAD}[d]
        if src == 'config' and not isinstance(v, (str, int)) or src == 'config' and d == 'space':
            continue
        yield dict(kind='definition', d=d, src=src, path=path)
    for how, at in itertools.product(HOW, range(NSTEP + 2)):
        for every, res, scheme, path in itertools.product((60., 120., 150.), (60., 120.), ('euler_backward', 'crank_nicolson', 'euler_forward'), ('name', 'relative', 'absolute')):
            if tier == 'quick' and (every == 150. or res == 60. or path != 'relative'):
                continue
            yield dict(kind='failure', how=how, at=at, every=every, res=res, scheme=scheme, path=path)
    for t0, d, dt, every in itertools.product((0., 60.), (-60., 0., 30.), (60., 100.), (60., 0.)):
        yield dict(kind='short', t0=t0, dur=d, dt=dt, every=every)


def warmup():
    tiny.warm()


def setup(case, **kw):
    d = os.path.join(os.getcwd(), 'run'); os.makedirs(os.path.join(d, 'sub'))
    for f in ('cb.py', 'sub/cb.py'):
        open(os.path.join(d, f), 'w').write(CB)
    open(os.path.join(d, 'bad.py'), 'w').write('def add(m:\n')
    open(os.path.join(d, 'raises.py'), 'w').write('raise RuntimeError("no")\ndef add(m):\n    pass\n')
    cfg = tiny.base(nx=5, zb=np.linspace(0., .4, 5), grain_size=[.0002, .0004], grain_dist=[.5, .5], output_vars='zb Ct mass Ct_avg zb_max', **kw)
    cfg['wind_file'] = np.array([[0., 9., 260.], [200., 14., 265.], [1e7, 10., 280.]])
    tiny.write(cfg, 'a.txt', d)
    return d


def runner(d, path):
    import aeolis.model as M
    if path == 'name':
        os.chdir(d)
        return M.AeoLiSRunner('a.txt')
    return M.AeoLiSRunner('run/a.txt' if path == 'relative' else os.path.join(d, 'a.txt'))


def run(r, **kw):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        r.run(**kw)


def records(f):
    import netCDF4
    with netCDF4.Dataset(f) as ds:
        ds.set_auto_mask(False)
        return {v: np.array(ds[v][:]) for v in ('time', 'time_bounds', 'zb', 'Ct', 'mass', 'Ct_avg', 'zb_max')}


def run_case(rec, case):
    globals()['run_' + case['kind']](rec, case)


def run_definition(rec, case):
    v = {**GOOD, **BAD}[case['d']]
    d = setup(case, dt=60., tstop=240., output_times=60., **(dict(callback=v) if case['src'] == 'config' and v is not None else {}))
    del CALLS[:]
    r = runner(d, case['path'])
    here = os.getcwd()
    err = None
    try:
        run(r, callback=v if case['src'] == 'argument' else None)
    except Exception as e:
        err = e
    rec.trace(); rec.step(len(CALLS)); rec.state(case['d'], case['src'], case['path'])
    rec.check(os.getcwd() == here, 'cwd', 'the working directory is not restored', got=os.getcwd(), definition=case['d'])
    os.chdir(here)
    if case['d'] in GOOD:
        rec.check(err is None, 'valid-refused', 'a valid callback is refused: %r' % err, definition=case['d'])
        want = [] if v is None else [0., 60., 120., 180., 240.]
        rec.check(CALLS == want, 'calls', 'the callback is not called exactly once at the start of every step', got=list(CALLS), want=want, definition=case['d'])
        rec.outcome('called' if want else 'no callback')
    else:
        rec.check(err is not None, 'invalid-accepted', 'a callback that does not exist is silently ignored', definition=v)
        rec.check(r.t == 0. and not CALLS and r.get_count('time') == 0, 'late', 'an invalid callback is refused only after steps have been made', definition=v, t=r.t)
        rec.outcome('refused')


class Stop(Exception):
    pass


def run_failure(rec, case):
    import aeolis.model as M
    acc = 20. if case['scheme'] == 'euler_forward' else 1.
    kw = dict(dt=60., tstop=300. if acc == 1 else 18., output_times=case['every'] if acc == 1 else case['every'] / 20., restart=case['res'] if acc == 1 else case['res'] / 20., scheme=case['scheme'])
    if acc != 1: kw['CFL'] = 1.; kw['accfac'] = 20.
    d = setup(case, **kw)
    top = os.getcwd()
    # uninterrupted run
    due = []; final = {}
    r = runner(d, 'absolute')
    def plain(m):
        called(m)
    del CALLS[:]
    run(r, callback=plain)
    full = records(os.path.join(d, 'a.nc')); ncalls = len(CALLS)
    tcall = list(CALLS)
    final = {v: np.array(r.s[v]) for v in ('zb', 'Ct', 'mass')}; tend = r.t
    allrestart = sorted(f for f in os.listdir(d) if '.r0' in f)
    rec.check(len(allrestart) > 0, 'restart-files', 'restart files are written')
    for f in os.listdir(d):
        if '.r0' in f or f.endswith('.nc'):
            os.remove(os.path.join(d, f))
    # the same run stopped
    how, at = case['how'], case['at']
    del CALLS[:]
    r = runner(d, case['path'])
    here = os.getcwd()
    n = dict(append=0, dump=0)
    def cb(m):
        if how in ('exception', 'interrupt', 'exit') and len(CALLS) == at:
            raise {'exception': Stop, 'interrupt': KeyboardInterrupt, 'exit': SystemExit}[how]()
        if how == 'kill' and len(CALLS) == at:
            os.kill(os.getpid(), signal.SIGKILL)
        called(m)
    stopped = False
    if how == 'kill':
        pid = os.fork()
        if pid == 0:
            try:
                run(r, callback=cb)
            except BaseException:
                os._exit(3)
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        stopped = os.WIFSIGNALED(st)
        rec.check(stopped or os.WEXITSTATUS(st) == 0, 'child', 'the run fails')
        tstop = tcall[at] if stopped else None
    else:
        append, dump = M.aeolis.netcdf.append, pickle.dump
        def my_append(*a, **k):
            n['append'] += 1
            if how == 'append' and n['append'] == at + 1:
                raise OSError('no space')
            return append(*a, **k)
        def my_dump(o, fp, *a, **k):
            n['dump'] += 1
            if how.startswith('restart') and n['dump'] == at + 1:
                if how == 'restart-torn':
                    b = pickle.dumps(o); fp.write(b[:len(b) // 2])
                raise OSError('no space')
            return dump(o, fp, *a, **k)
        M.aeolis.netcdf.append, pickle.dump = my_append, my_dump
        try:
            run(r, callback=cb)
        except BaseException as e:
            if not isinstance(e, (Stop, KeyboardInterrupt, SystemExit, OSError)):
                raise
            stopped = True
        finally:
            M.aeolis.netcdf.append, pickle.dump = append, dump
        rec.check(os.getcwd() == here, 'cwd', 'the working directory is not restored', got=os.getcwd(), want=here)
        os.chdir(here)
        tstop = r.t if stopped else None
    points = dict(append=len(full['time']), restart=len(allrestart))
    rec.check(stopped == (at < points.get(how.split('-')[0], ncalls)), 'stops', 'a failing callback or write does not stop the run, or stops another one', how=how, at=at)
    rec.trace(); rec.step(ncalls + (at if stopped else ncalls)); rec.state(case)
    # what is on disk
    got = records(os.path.join(d, 'a.nc'))
    if not stopped:
        k = len(full['time'])
    elif how == 'append':
        k = at
    else:
        k = int(np.sum(full['time'] <= tstop + 1e-9))
    rec.check(len(got['time']) == k, 'records', 'the output file does not hold exactly the records due until the failure', got=got['time'], want=full['time'][:k])
    for v in got:
        rec.check(np.array_equal(got[v], full[v][:len(got[v])], equal_nan=True), 'values', 'records differ from those of the uninterrupted run', name=v)
    files = sorted(f for f in os.listdir(d) if '.r0' in f)
    if not stopped:
        rec.check(files == allrestart, 'restarts', 'restart files', got=files, want=allrestart)
    torn = None
    if how.startswith('restart') and stopped:
        torn = allrestart[at] if at < len(allrestart) else None
    ok = [f for f in files if f != torn]
    if how in ('exception', 'kill', 'interrupt', 'exit') and stopped:
        want = [f for f in allrestart if int(f[-10:]) <= tstop]
        rec.check(ok == want, 'restarts', 'restart files written before the failure', got=ok, want=want)
    rec.outcome('%s %d' % (how, k))
    # continue from every restart file
    for f in ok:
        del CALLS[:]
        q = M.AeoLiSRunner(os.path.join(d, 'a.txt'))
        run(q, callback=plain, restartfile=os.path.join(d, f))
        rec.check(q.t == tend and all(np.array_equal(q.s[v], final[v]) for v in final), 'continue', 'a run continued from a restart file ends in another state', file=f, got=q.s['zb'], want=final['zb'])
        rec.trace(); rec.step(len(CALLS))


def run_short(rec, case):
    """Runs that end at or before their start."""
    d = setup(case, dt=case['dt'], tstart=case['t0'], tstop=case['t0'] + case['dur'], output_times=case['every'])
    del CALLS[:]
    r = runner(d, 'relative')
    here = os.getcwd()
    run(r, callback=called)
    rec.check(os.getcwd() == here, 'cwd', 'the working directory is not restored'); os.chdir(here)
    n = 1 if case['dur'] >= 0 else 0
    got = records(os.path.join(d, 'a.nc'))
    want = [case['t0']] + ([case['t0'] + case['dt']] if n and case['dt'] >= case['every'] else [])
    rec.check(len(CALLS) == n and got['time'].tolist() == want, 'short', 'a run that ends at its start makes %d steps' % n, got=got['time'], want=want, calls=list(CALLS))
    rec.trace(); rec.step(n); rec.state(case); rec.outcome('short%d' % n)
