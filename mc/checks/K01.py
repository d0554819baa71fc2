"""Every sequence of commands in one directory tree: what each command writes, what it leaves alone and its exit status."""
import contextlib, hashlib, io, itertools, os, pickle, sys
import numpy as np
from mc import tiny

TITLE = 'the commands run exactly the configured model and touch no other files'
LEVEL = 'model_checking'
RULE = ('case = sequence of commands (run with every form of address, callback and restart file, refused runs, examples, wind, deprecated forms, edits by the user) in one directory tree and one process of its own; '
        'after every command the exit status, the working directory and the complete tree are compared with a model of the tree; output files are compared with those of the model run '
        'without the commands')
ASSUMPTIONS = ['commands of one sequence run one after another', 'the process of a sequence is reused for its commands (as from a notebook)']
CHUNK = 4

CB1 = '''
def add(m):
    zb = m.s['zb'].copy(); zb[:, 1] += .01
    m.set_var('zb', zb)
def deep(m):
    add(m); add(m)
value = 3
'''
CB2 = '''
STEP = .02
def other(m):
    zb = m.s['zb'].copy(); zb[:, 2] += STEP
    m.set_var('zb', zb)
'''
# name: (directory, arguments, model, callback, kind)
OPS = {
    'run': ('', ['run', 'm1/aeolis.txt'], 'm1', None),
    'inside': ('m1', ['run', 'aeolis.txt'], 'm1', None),
    'absolute': ('m2', ['run', '@/m1/aeolis.txt'], 'm1', None),
    'parent': ('m2', ['run', '../m1/aeolis.txt'], 'm1', None),
    'callback': ('', ['run', 'm1/aeolis.txt', '--callback', 'cb.py:add'], 'm1', 'add'),
    'deep': ('m1', ['run', '--callback', 'cb.py:deep', 'aeolis.txt'], 'm1', 'deep'),
    'second': ('', ['run', 'm2/my model.txt'], 'm2', None),
    'secondcb': ('', ['run', 'm2/my model.txt', '--callback', 'cb.py:other'], 'm2', 'other'),
    'options': ('', ['run', 'm1/aeolis.txt', '--verbose', '10', '--debug'], 'm1', None),
    'restart': ('', ['run', 'm1/aeolis.txt', '--restart', 'aeolis.r0000000120'], 'm1', 'restart'),
    'nocallback': ('', ['run', 'm2/my model.txt', '--callback', 'cb.py:add'], 'm2', 'refuse'),
    'novalue': ('', ['run', 'm1/aeolis.txt', '--callback', 'cb.py:value'], 'm1', 'refuse'),
    'nofile': ('', ['run', 'm1/aeolis.txt', '--callback', 'nosuch.py:add'], 'm1', 'refuse'),
    'norestart': ('', ['run', 'm1/aeolis.txt', '--restart', 'aeolis.r0000000777'], 'm1', 'refuse'),
    'tornrestart': ('', ['run', 'm1/aeolis.txt', '--restart', 'aeolis.r0000000111'], 'm1', 'refuse'),
    'noconfig': ('', ['run', 'm1/nosuch.txt'], None, 'refuse'),
    'noinput': ('', ['run', 'm1/noinput.txt'], 'noinput', 'refuse'),
    'noargument': ('', ['run'], None, 'refuse'),
    'old': ('', ['m1/aeolis.txt'], None, 'refuse'),
    'oldwind': ('', None, None, 'refuse'),
    'unknown': ('', ['walk', 'm1/aeolis.txt'], None, 'refuse'),
    'examples': ('', ['examples', 'ex'], None, 'examples'),
    'nested': ('m1', ['examples', 'deep/er'], None, 'examples'),
    'edit': ('', None, None, 'edit'),
    'wind': ('', ['wind', 'm2/wind_new.txt', '--duration', '600'], None, 'wind'),
}
CORE = ['run', 'callback', 'second', 'restart', 'examples', 'edit', 'nocallback']


def BOUNDS(tier):
    return '%d commands, all sequences of 2, all sequences of 3 of which two are among the %d core commands' % (len(OPS), len(CORE)) + (
        '; all sequences of 4 core commands' if tier != 'quick' else ' (quick: sequences of 3 of core commands)')


def cases(tier):
    for a in itertools.product(OPS, repeat=2):
        yield dict(ops=list(a))
    for a in itertools.product(OPS, repeat=3):
        n = sum(x in CORE for x in a)
        if n == 3 or (tier != 'quick' and n == 2):
            yield dict(ops=list(a))
    if tier != 'quick':
        for a in itertools.product(CORE, repeat=4):
            yield dict(ops=list(a))


def warmup():
    tiny.warm()
    import aeolis.console


def setup(d):
    for k in ('m1', 'm2'):
        os.makedirs(os.path.join(d, k))
    W = np.array([[0., 11., 265.], [200., 13., 280.], [1e7, 9., 270.]])
    tiny.write(tiny.base(nx=5, zb=np.linspace(-.2, .6, 5), wind_file=W, tstop=240., dt=60., output_times=60., restart=120., output_vars='zb Ct pickup zb_max'), 'aeolis.txt', os.path.join(d, 'm1'))
    tiny.write(tiny.base(nx=4, ny=3, zb=np.zeros((3, 4)), wind_file=W, tstop=120., dt=60., output_times=60., output_vars='zb mass', output_file='result.nc'), 'my.txt', os.path.join(d, 'm2'))
    os.rename(os.path.join(d, 'm2', 'my.txt'), os.path.join(d, 'm2', 'my model.txt'))
    open(os.path.join(d, 'm1', 'aeolis.r0000000111'), 'wb').write(b'\x80\x04\x95not complete')
    open(os.path.join(d, 'm1', 'noinput.txt'), 'w').write(open(os.path.join(d, 'm1', 'aeolis.txt')).read().replace('aeolis_bed_file.txt', 'nosuch_bed.txt'))
    open(os.path.join(d, 'm1', 'cb.py'), 'w').write(CB1)
    open(os.path.join(d, 'm2', 'cb.py'), 'w').write(CB2)
    open(os.path.join(d, 'cb.py'), 'w').write('raise SystemError("the wrong file")\n')
    open(os.path.join(d, 'notes.txt'), 'w').write('do not touch\n')


CONF = {'m1': 'aeolis.txt', 'm2': 'my model.txt'}
OUT = {'m1': 'm1/aeolis.nc', 'm2': 'm2/result.nc'}
LOG = {'m1': 'm1/aeolis.log', 'm2': 'm2/my model.log', 'noinput': 'm1/noinput.log'}


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        if '__pycache__' in r:
            continue
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.blake2b(open(p, 'rb').read()).hexdigest()
        for x in ds:
            if x != '__pycache__':
                out[os.path.relpath(os.path.join(r, x), d) + '/'] = 'dir'
    return out


def nc(f):
    import netCDF4
    with netCDF4.Dataset(f) as ds:
        ds.set_auto_mask(False)
        return {**{v: np.array(ds[v][:]) for v in ds.variables}, 'dims': {k: len(v) for k, v in ds.dimensions.items()}}


def same(a, b):
    return a.keys() == b.keys() and all(a[k] == b[k] if k == 'dims' else np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f') for k in a)


def forked(f, path):
    path = os.path.abspath(path)
    pid = os.fork()
    if pid == 0:
        try:
            pickle.dump(f(), open(path, 'wb')); os._exit(0)
        except BaseException:
            import traceback; traceback.print_exc()
            os._exit(1)
    return pickle.load(open(path, 'rb')) if os.waitpid(pid, 0)[1] == 0 else None


REF = {}


def reference(key):
    """Output file of a plain model stepped by hand: (model, callback, what wrote the restart file)."""
    if key not in REF:
        d = os.path.abspath('ref_%d' % len(REF)); setup(d)

        def go():
            import aeolis.model as M
            k, cb, writer = key
            os.chdir(os.path.join(d, k))
            ns1, ns2 = {}, {}
            exec(CB1, ns1); exec(CB2, ns2)
            f = {None: None, 'add': ns1['add'], 'deep': ns1['deep'], 'other': ns2['other']}
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                if cb == 'restart':
                    M.AeoLiSRunner(CONF[k]).run(callback=f[writer])
                    M.AeoLiSRunner(CONF[k]).run(restartfile='aeolis.r0000000120')
                else:
                    M.AeoLiSRunner(CONF[k]).run(callback=f[cb])
            return nc(os.path.join(d, OUT[k]))
        REF[key] = forked(go, 'ref.pickle')
    return REF[key]


def packaged():
    import aeolis
    b = os.path.join(os.path.dirname(aeolis.__file__), 'examples')
    return {'Parabolic_dune': tree(os.path.join(b, '2D', 'Parabolic_dune')), 'sandengine_small_grids': tree(os.path.join(b, 'sandengine_small_grids'))}


def history(ops, root):
    """Performs the commands; after each: exit status, working directory, tree, output files."""
    import aeolis.console as C
    out = [(0, '', tree(root), {})]
    for op in ops:
        where, args, _, kind = OPS[op]
        os.chdir(os.path.join(root, where))
        if kind == 'edit':
            p = os.path.join(root, 'ex/aeolis-examples/sandengine_small_grids')
            p = os.path.join(p, [f for f in sorted(os.listdir(p)) if f.endswith('.txt')][0]) if os.path.isdir(p) else os.path.join(root, 'notes.txt')
            open(p, 'a').write('%% edited %d\n' % len(out))
            out.append((0, where, tree(root), {})); continue
        sys.argv = ['aeolis'] + [a.replace('@', root) for a in args or []]
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                (C.start_aeolis_app if args else C.start_aeolis_wind_app)()
            code = 0
        except SystemExit as e:
            code = e.code or 0
        except Exception as e:
            code = 'exception %r' % e
        cwd = os.path.relpath(os.getcwd(), root); cwd = '' if cwd == '.' else cwd
        files = {k: nc(os.path.join(root, f)) for k, f in OUT.items() if os.path.exists(os.path.join(root, f))}
        out.append((code, cwd, tree(root), files))
    return out


def run_case(rec, case):
    ops = case['ops']
    root = os.path.abspath('root'); setup(root)
    got = forked(lambda: history(ops, root), 'out.pickle')
    if not rec.check(got is not None, 'crash', 'the process of the commands ends', ops=ops):
        return
    writer = 'none'; made = set()
    for n, op in enumerate(ops):
        where, args, k, kind = OPS[op]
        b = got[n][2]; code, cwd, a, files = got[n + 1]
        rec.step(); rec.state(op, n, sorted(made), writer, sorted(a))
        changed = {f for f in set(a) | set(b) if a.get(f) != b.get(f)}
        if kind == 'edit':
            continue
        inf = dict(command=op, before=ops[:n])
        rec.check(cwd == where, 'cwd', 'a command leaves another working directory', got=cwd, **inf)
        refused = kind == 'refuse' or (kind == 'restart' and writer == 'none') or (kind == 'examples' and op in made)
        if refused:
            rec.check(code != 0, 'accepted:' + op, 'a command that cannot be executed is accepted', **inf)
            rest = {f for f in changed if k is None or f != LOG[k]}
            rec.check(not rest, 'refused-writes:' + op, 'a refused command changes files', files=sorted(rest)[:5], **inf)
        elif kind == 'examples':
            top = where + '/deep/er/aeolis-examples' if op == 'nested' else 'ex/aeolis-examples'
            want = {**{'%s/%s/%s' % (top, t, f): h for t, fs in packaged().items() for f, h in fs.items()}}
            rec.check(code == 0, 'fails:' + op, 'a valid command fails', code=code, **inf)
            new = {f: a[f] for f in changed if f in a and a[f] != 'dir'}
            rec.check(new == {f: h for f, h in want.items() if h != 'dir'} and not [f for f in changed if f not in a], 'examples', 'the examples are not copied exactly', differs=sorted(set(new) ^ set(want))[:5], **inf)
            made.add(op)
        elif kind == 'wind':
            rec.check(code == 0 and changed <= {'m2/wind_new.txt'}, 'wind', 'generating wind fails or changes other files', code=code, files=sorted(changed)[:5], **inf)
        else:
            rec.check(code == 0, 'fails:' + op, 'a valid command fails', code=code, **inf)
            allowed = {OUT[k], LOG[k]} | ({f for f in a if f.startswith('m1/aeolis.r0')} if k == 'm1' else set())
            rest = changed - allowed
            rec.check(not rest and LOG[k] in a, 'other-files:' + op, 'a run changes files of others', files=sorted(rest)[:5], **inf)
            want = reference((k, kind, writer if kind == 'restart' else None))
            rec.check(want is not None and k in files and same(want, files[k]), 'result:' + op, 'a run from the command line gives another result', **inf)
            if kind != 'restart' and k == 'm1':
                writer = kind
                rs = sorted(f for f in a if f.startswith('m1/aeolis.r0'))
                rec.check(rs == ['m1/aeolis.r0000000111', 'm1/aeolis.r0000000120', 'm1/aeolis.r0000000240'], 'restart-files', 'restart files of a run', got=rs, **inf)
            elif kind == 'restart':
                rec.check('m1/aeolis.r0000000120' not in changed, 'restart-file-changed', 'a run changes the restart file it starts from', **inf)
    rec.trace(); rec.outcome(' '.join(ops[:1]))
    if n < 3:
        rec.sample(dict(ops=ops, exit=[repr(g[0]) for g in got[1:]]))
