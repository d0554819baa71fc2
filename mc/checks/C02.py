"""Written configurations: every sequence of changes and writes, every kind of value."""
import copy, itertools, os, glob, re, shutil
import numpy as np
from mc import tiny

TITLE = 'a written configuration reads back the same and never overwrites an earlier version'
LEVEL = 'model_checking'
RULE = ('sequences: ALL sequences of operations (changes of numbers, lists, flags, names and matrices, writing, writing again, removal of the file) on the runner to the depth; after every '
        'operation the directory is compared with a reference: the configuration file reads back as the parameters, every earlier version is in the next free backup file byte for byte; '
        'values: ALL values of an alphabet of numbers, lists, flags, names and matrices written alone')
ASSUMPTIONS = ['values are of the types that a configuration file can hold', 'nobody else changes the directory']
CHUNK = 2


def depth(tier):
    return 4 if tier == 'quick' else 5


def BOUNDS(tier):
    return 'all sequences of 10 operations to depth %d; 1000 numbers of all magnitudes, lists, flags, names, matrices, masks and distributions per layer; directories with all patterns of up to 5 earlier backups; full set of backups' % depth(tier)


OPS = ['num', 'list', 'flag', 'name', 'wind', 'mask', 'dist', 'write', 'remove', 'default']


def cases(tier):
    for first in itertools.product(OPS, repeat=2):
        yield dict(kind='seq', first=list(first), depth=depth(tier))
    for e in range(-9, 10):
        yield dict(kind='numbers', e=e)
    yield dict(kind='values')
    yield dict(kind='backups')


MATS = [np.array([[0., 10., 270.], [3600., 1. / 3., 270.01]]), np.array([[0., 1e-7, 0.], [1e6, 123456.789, 359.999]]), np.array([[0., 5., 5.]])]
MASKS = [np.array([[1., .5, .1]]), np.array([[1 + .25j, .3 - 1j, 0j]])]
DISTS = [np.array([[.5, 1. / 3.], [.2, .8]]), np.array([[1., 0., 0.], [.1, .2, .7], [.3, .3, .4]])]
NUMS = [.1, 1.2250001, 1e-9, 33, 1.0 / 3.0]
LISTS = [[.000225, .0003], ['zb', 'Ct'], [1, 2, 3], [], [1e-7]]


def same(a, b):
    """Value read back (a) against the value that was written (b)."""
    if isinstance(b, np.ndarray) and b.ndim > 1:
        return isinstance(a, np.ndarray) and np.array_equal(a.reshape(b.shape) if a.size == b.size else a, b)
    if isinstance(b, (list, tuple, np.ndarray)):
        if len(b) == 0:
            return a is None or len(a) == 0
        if len(b) == 1 and not isinstance(a, np.ndarray) and not isinstance(a, list):
            return same(a, b[0])
        return not isinstance(a, str) and a is not None and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if b is None:
        return a is None
    if isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(b, (int, float, np.integer, np.floating)):
        return not isinstance(a, str) and a is not None and not isinstance(a, bool) and float(a) == float(b)
    return str(a) == str(b)


def listing():
    return {f: open(f, 'rb').read() for f in os.listdir('.') if os.path.isfile(f)}


def readable(c):
    return b'\n'.join(ln for ln in c.split(b'\n') if not ln.startswith(b'%% Date'))


def run_case(rec, case):
    import aeolis.inout as IO, aeolis.model as M
    {'seq': seq, 'numbers': numbers, 'values': values, 'backups': backups}[case['kind']](rec, case, IO, M)
    rec.sample(dict(case=case))


def verify(rec, IO, p, h):
    got = IO.read_configfile('aeolis.txt')
    for k, v in p.items():
        if k.startswith('_'):
            continue
        w = v
        if isinstance(v, str) and os.path.isfile(v) and k != 'output_file':
            w = IO.parse_value(v)
        rec.check(k in got and same(got[k], w), 'read-back', 'a written parameter reads back as the same value', param=k, got=repr(got.get(k)), want=repr(w), history=h)


def seq(rec, case, IO, M):
    root = os.getcwd(); n = [0]

    def go(r, ref, hist):
        """ref: content of the directory before, pending change flag"""
        if len(hist) >= case['depth']:
            rec.trace(); return
        for op in OPS:
            if len(hist) < len(case['first']) and op != case['first'][len(hist)]:
                continue
            n[0] += 1
            d = os.path.join(root, '%d' % n[0])
            shutil.copytree('.', d)
            here = os.getcwd(); os.chdir(d)
            q = copy.deepcopy(r); q.configfile = os.path.join(d, 'aeolis.txt')
            h = hist + [op]; k = len(hist); rec.step()
            dirty = q.changed
            before = listing()
            if op == 'num':
                q.set_params(rhoa=NUMS[k % 5], tstop=NUMS[(k + 1) % 5] * 1e4, newnum=-NUMS[(k + 2) % 5])
            elif op == 'list':
                q.set_params(grain_size=LISTS[0] if k % 2 else LISTS[4], output_vars=LISTS[1], output_types=LISTS[3])
            elif op == 'flag':
                q.set_params(process_avalanche=bool(k % 2), th_moisture=True, ne_file=None)
            elif op == 'name':
                q.set_params(solver='pieter', scheme='euler_%d' % k)
            elif op == 'wind':
                q.set_params(wind_file=MATS[k % 3])
            elif op == 'mask':
                q.set_params(wave_mask=MASKS[k % 2])
            elif op == 'dist':
                q.set_params(grain_dist=DISTS[k % 2])
            elif op == 'remove':
                if os.path.exists('aeolis.txt'):
                    os.remove('aeolis.txt')
                before = listing()
            elif op == 'default':
                IO.write_configfile('other.txt')
                p = IO.read_configfile('other.txt')
                from aeolis.constants import DEFAULT_CONFIG as D
                bad = [x for x in D if not (same(p[x], D[x]) or x in ('output_file', 'h', 'nsavetimes', 'process_fences'))]
                rec.check(not bad, 'default-file', 'the default configuration reads back the same', bad=bad, history=h)
                os.remove('other.txt')
            else:
                q.write_params()
                after = listing()
                if not dirty:
                    rec.check(after == before, 'write-unchanged', 'an unchanged configuration is not written', diff=sorted(set(after) ^ set(before)), history=h)
                else:
                    rec.check('aeolis.txt' in after, 'written', 'changed configuration is written', history=h)
                    # nothing that was there is lost
                    for f, c in before.items():
                        if f in after and after[f] == c:
                            continue
                        bk = [g for g in after if g not in before and g.startswith(f + '~')]
                        rec.check(len(bk) == 1 and after[bk[0]] == c, 'backup', 'an overwritten file is kept as backup', file=f, new=sorted(set(after) - set(before)), history=h)
                    for f in after:
                        if '~' in f and f not in before:
                            num = int(f.rsplit('~', 1)[1])
                            rec.check(all('%s~%03d' % (f.rsplit('~', 1)[0], j) in before for j in range(1, num)), 'backup-number', 'backups are numbered consecutively', file=f, history=h)
                    verify(rec, IO, q.p, h)
                    rec.check(not q.changed, 'clean', 'after writing the configuration is unchanged', history=h)
            if op not in ('write', 'remove', 'default'):
                rec.check(listing() == before, 'set-writes', 'setting parameters does not write', history=h)
            rec.state({f: readable(c) for f, c in listing().items()}, q.changed)
            go(q, None, h)
            os.chdir(here)
            shutil.rmtree(d)

    tiny.write(tiny.base(nx=4), 'aeolis.txt')
    r = M.AeoLiSRunner('aeolis.txt')
    os.mkdir('start')
    for f in list(os.listdir('.')):
        if f != 'start':
            shutil.move(f, 'start/' + f)
    os.chdir('start'); root = os.path.dirname(os.getcwd())
    go(r, None, [])
    os.chdir(root); rec.outcome('seq')


def numbers(rec, case, IO, M):
    vals = []
    for mant in (1., 1.5, 2.225073858507201, 3.3333333333333335, 9.999999999999998, 7., 1.23456789012345, 5.05):
        for s in (1, -1):
            for half in (1., 1e-3, 1e30):
                vals.append(s * mant * 10.**case['e'] * half)
    vals += [int(10**max(case['e'], 0)), -int(7 * 10**max(case['e'], 0)), np.float64(10.**case['e']), np.float32(.5), np.int64(3), 0, 0., -0.]
    for v in vals:
        IO.write_configfile('c.txt', dict(a=v, b=[v, v], c=1))
        p = IO.read_configfile('c.txt', load_defaults=False); rec.step()
        rec.check(same(p['a'], v), 'number', 'a written number reads back the same', value=repr(v), got=repr(p['a']))
        rec.check(same(p['b'], [v, v]), 'numbers', 'a written list of numbers reads back the same', value=repr(v), got=repr(p['b']))
        rec.check(isinstance(p['a'], (int, np.integer)) == isinstance(v, (int, np.integer)), 'number-type', 'a written number keeps its type', value=repr(v), got=repr(p['a']))
        rec.state(repr(v))
    rec.trace(len(vals)); rec.outcome('numbers')


def values(rec, case, IO, M):
    vals = [True, False, np.bool_(True), np.bool_(False), None, 'word', 'a.nc', 'x=y', 'cb.py:f', [True, False], ['zb', 'zs_avg'], [1, 2.5], np.array([1., 2.]), np.array(['a', 'b']), (1, 2), [], '']
    for v in vals:
        IO.write_configfile('c.txt', dict(par=v, other='z'))
        p = IO.read_configfile('c.txt', load_defaults=False); rec.step()
        rec.check(same(p['par'], None if isinstance(v, str) and v == '' else v) and p['other'] == 'z', 'value', 'a written value reads back the same', value=repr(v), got=repr(p.get('par'))); rec.state(repr(v))
    mats = MATS + [np.zeros((3, 4)), np.array([1.5, 2.5, 1e-17]), np.array([[1e300, -1e-300]]), np.arange(6).reshape(2, 3)]
    for k in ('wind_file', 'bed_file', 'xgrid_file', 'odd_file_file'):
        for v in mats:
            IO.write_configfile('c.txt', {k: v}); rec.step()
            p = IO.read_configfile('c.txt', load_defaults=False)
            rec.check(isinstance(p[k], np.ndarray) and p[k].size == v.size and np.array_equal(p[k].ravel(), v.ravel()), 'matrix', 'a written matrix reads back the same', name=k, value=v, got=repr(p.get(k)))
            rec.state(k, v)
    for k in ('wave_mask', 'tide_mask', 'runup_mask', 'threshold_mask', 'gw_mask'):
        for v in MASKS + [np.ones((2, 3)) * (1 + 1j)]:
            IO.write_configfile('c.txt', {k: v}); rec.step()
            p = IO.read_configfile('c.txt', load_defaults=False)
            rec.check(isinstance(p[k], np.ndarray) and p[k].size == v.size and np.array_equal(p[k].ravel(), v.ravel()), 'mask', 'a written mask reads back the same', name=k, value=v, got=repr(p.get(k)))
            rec.state(k, v)
    for v in DISTS + [np.arange(6).reshape(2, 3) + 1., np.arange(6).reshape(3, 2) * .1]:
        IO.write_configfile('c.txt', dict(grain_dist=v, grain_size=[.0001] * v.shape[1])); rec.step()
        p = IO.read_configfile('c.txt', load_defaults=False)
        rec.check(isinstance(p['grain_dist'], np.ndarray) and np.array_equal(p['grain_dist'], v), 'dist', 'a distribution per layer reads back the same', value=v, got=repr(p.get('grain_dist')))
        rec.state('dist', v)
    rec.trace(); rec.outcome('values')


def backups(rec, case, IO, M):
    for have in itertools.product((0, 1), repeat=5):
        for f in glob.glob('f.txt*'):
            os.remove(f)
        open('f.txt', 'w').write('now')
        for i, x in enumerate(have):
            if x:
                open('f.txt~%03d' % (i + 1), 'w').write('old%d' % i)
        before = listing()
        IO.backup('f.txt'); rec.step()
        after = listing()
        new = sorted(set(after) - set(before))
        free = have.index(0) + 1 if 0 in have else 6
        rec.check(new == ['f.txt~%03d' % free] and after[new[0]] == b'now', 'next-free', 'backup goes to the first free name', have=have, new=new)
        rec.check(all(after[f] == c for f, c in before.items()), 'kept', 'earlier backups and the file are kept', have=have)
        rec.state(have); rec.trace()
    before = listing()
    IO.backup('absent.txt')
    rec.check(listing() == before, 'absent', 'no backup of a missing file')
    for i in range(1, 1000):
        open('f.txt~%03d' % i, 'w').write(str(i))
    before = listing()
    try:
        IO.backup('f.txt'); ok = False
    except ValueError:
        ok = True
    rec.check(ok and listing() == before, 'full', 'without a free name the backup is refused and nothing is lost')
    os.remove('f.txt~999')
    IO.backup('f.txt')
    rec.check(open('f.txt~999').read() == 'now', 'last', 'the last free name is used')
    rec.outcome('backups')
