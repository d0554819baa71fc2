"""Configuration files: every value of a small grammar, every composition of a line, every parameter."""
import itertools, os
import numpy as np
from mc import tiny

TITLE = 'a configuration file gives exactly the values that are written in it'
LEVEL = 'model_checking'
RULE = ('values: ALL strings of a number grammar (sign x integer part x fraction x exponent) and a list of words, flags and file names, alone and in all pairs and triples as lists; lines: ALL combinations '
        'of indentation, spacing, separators, trailing comments and line endings; files: ALL sequences of three lines from an alphabet of assignments, comments, blank and repeated lines, and ALL histories of a file that changes between readings; '
        'parameters: every parameter of the model set alone; every result is compared with an independent reading of the text')
ASSUMPTIONS = ['names of files do not contain spaces']
CHUNK = 4


def BOUNDS(tier):
    return ('about 500 number strings, 30 words, lists of 2 and 3; 3 x 4 x 4 x 5 line layouts; all sequences of %d lines of an alphabet of 12; all histories of as many contents of one file, in one and two directories, over 8 contents; every parameter of the default configuration' % (3 if tier == 'quick' else 4))


NUM = [s + i + f + e for s in ('', '-', '+') for i in ('', '0', '7', '12', '007') for f in ('', '.', '.0', '.5', '.25') for e in ('', 'e3', 'e-4', 'E+2') if (i or len(f) > 1)]
WORDS = ['T', 'F', 'None', 'True', 'False', 'Nonesuch', 'NoneType', 'nan', 'inf', 'zb', 'Ct_avg', 'euler_forward', '1.2.3', '1-2', '2020-01-01', '12:30', '.', '..', '-', '+', 'e5', '1e', 'T1', 'TF', 'x.txt',
         'cb.py:func', './y.txt', 'sub/z.txt', 'no.txt', 'bad.txt', 'mask.txt', 'TT', 't', 'f', '1_000', '0x10', '1,5', '5m', '--5', '1.e', '9.9.', 'none']


def want_scalar(v, files=True):
    """Independent reading of one word: (kind, value)."""
    if v in ('T', 'F'):
        return v == 'T'
    if v == 'None' or v == '':
        return None
    body = v[1:] if v[0] in '+-' else v
    if body and all(ch in '0123456789' for ch in body):
        return int(v)
    m, e = body, None
    for ch in 'eE':
        if ch in m:
            m, e = m.split(ch, 1)
            break
    okm = m.count('.') <= 1 and m.replace('.', '').isdigit() and m.replace('.', '').isascii()
    oke = e is None or (e[1:] if e[:1] in ('+', '-') else e).isdigit()
    if okm and oke:
        return float(v)
    if files and os.path.isfile(v):
        return ('file', v)
    return v


FILES = {'x.txt': '1 2 3\n4 5 6\n', 'y.txt': '7.5\n', 'mask.txt': '(1+0.5j) (2-1j)\n', 'bad.txt': 'some text\n', 'zb': '1 2\n'}
FILEVAL = {'x.txt': np.array([[1., 2, 3], [4, 5, 6]]), './y.txt': np.array(7.5), 'y.txt': np.array(7.5), 'sub/z.txt': np.array([1., 2.]), 'mask.txt': np.array([1 + .5j, 2 - 1j]), 'bad.txt': 'bad.txt', 'zb': np.array([1., 2.])}


def setup():
    os.mkdir('sub')
    for k, v in FILES.items():
        open(k, 'w').write(v)
    open('sub/z.txt', 'w').write('1 2\n')


def equal(a, b):
    if isinstance(b, tuple) and b and b[0] == 'file':
        w = FILEVAL[b[1]]
        if isinstance(w, str):
            return isinstance(a, str) and a == w
        return isinstance(a, np.ndarray) and a.shape == w.shape and a.dtype.kind == w.dtype.kind and np.array_equal(a, w)
    if b is None:
        return a is None
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if isinstance(b, int):
        return isinstance(a, (int, np.integer)) and not isinstance(a, bool) and a == b
    if isinstance(b, float):
        return isinstance(a, (float, np.floating)) and a == b
    return isinstance(a, str) and a == b


def cases(tier):
    for i in range(0, len(NUM), 40):
        yield dict(kind='values', vals=NUM[i:i + 40])
    yield dict(kind='values', vals=WORDS)
    for a in ('1', '2.5', '1e-3', 'T', 'zb', 'None', 'x.txt'):
        yield dict(kind='lists', first=a)
    for ind, eq in itertools.product(('', '  ', '\t'), ('=', ' = ', '=  ', '\t=\t')):
        yield dict(kind='lines', ind=ind, eq=eq)
    n = 3 if tier == 'quick' else 4
    for first in range(len(LINES)):
        yield dict(kind='files', first=first, n=n)
    for first in range(len(CONTENT)):
        yield dict(kind='rewritten', first=first, n=n)
    yield dict(kind='params')
    yield dict(kind='derived')


CONTENT = ['1 2 3\n', '4 5 6\n', '7.5\n', '8.5\n', '1 2\n3 4\n', '(1+2j)\n', 'words\n', None]

LINES = ['dt = 30.\n', 'Tdry = 5.5 % 50 % of 11 %\n', 'dt = 45\n', '% dt = 10.\n', '  %% dt = 99.\n', '\n', 'some words without sign\n', 'solver = pieter % old: trunk\n', 'newparam = 3\n', 'scheme=euler_forward\n', 'callback = a=b.py:f\n',
         'grain_size = 1e-4 2e-4\n', 'accfac = \n']


def ref_file(lines):
    out = {}
    for ln in lines:
        ln = ln.rstrip('\n')
        if ln.strip().startswith('%') or '=' not in ln:
            continue
        k, v = ln.split('=', 1)
        v = v.split('%')[0].split()
        out[k.strip()] = [want_scalar(x) for x in v] if len(v) > 1 else want_scalar(v[0]) if v else None
    return out


def same(got, w):
    if isinstance(w, list):
        return isinstance(got, np.ndarray) and got.shape == (len(w),) and all(float(a) == float(b) if isinstance(b, (int, float)) else str(a) == str(b) for a, b in zip(got, w))
    return equal(got, w)


def run_case(rec, case):
    import aeolis.inout as IO
    from aeolis.constants import DEFAULT_CONFIG as D
    setup()
    kind = case['kind']

    def read(text, **kw):
        open('c.txt', 'w').write(text)
        return IO.read_configfile('c.txt', **kw)

    if kind == 'values':
        for v in case['vals']:
            for files in (True, False):
                w = want_scalar(v, files)
                for how in ('direct', 'file'):
                    got = IO.parse_value(v, parse_files=files) if how == 'direct' else read('newparam = %s\n' % v, parse_files=files)['newparam']
                    rec.step()
                    rec.check(equal(got, w), 'value', 'value of a parameter', text=v, files=files, got=repr(got), want=repr(w)); rec.state(v, files, how)
            w = IO.parse_value(v, parse_files=False, force_list=True)
            rec.check(isinstance(w, np.ndarray) and w.shape == (1,), 'forced-list', 'a forced list is a list', text=v)
        rec.trace(len(case['vals'])); rec.outcome('values')
    elif kind == 'lists':
        rest = ['1', '-2.5', '1e-3', 'F', 'Ct', 'x.txt']
        for tail in [t for k in (1, 2) for t in itertools.product(rest, repeat=k)]:
            words = [case['first']] + list(tail)
            if any(w in ('x.txt',) for w in words) and True:
                modes = (False,)
            else:
                modes = (True, False)
            for sep, files in itertools.product((' ', '  ', '\t', ' \t '), modes):
                got = read('newparam = %s  %% list\n' % sep.join(words), parse_files=files)['newparam']; rec.step()
                w = [want_scalar(x, files and x != 'zb') for x in words]
                if files and 'zb' in words:
                    continue
                ok = isinstance(got, np.ndarray) and got.shape == (len(w),)
                if ok and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in w):
                    ok = got.dtype.kind in 'if' and np.array_equal(got.astype(float), np.array(w, float))
                elif ok and all(isinstance(x, str) for x in w):
                    ok = [str(x) for x in got] == w
                rec.check(ok, 'list', 'list of values', words=words, sep=sep, got=repr(got), want=repr(w)); rec.state(words, sep, files)
        rec.trace(); rec.outcome('lists')
    elif kind == 'lines':
        for val, com, end, key in itertools.product(('30', '1.5', 'T', 'zb zs', 'word', ''), ('', ' % comment', '% c = 4', ' % 5 % of 10 %', '%%', '\t%', '   '), ('\n', '\r\n', ''), ('dt', 'newparam', 'th_moisture')):
            got = read(case['ind'] + key + case['eq'] + val + com + end, parse_files=False)[key]; rec.step()
            w = val.split()
            w = None if not w else want_scalar(w[0], False) if len(w) == 1 else w
            rec.check(same(got, w) if not isinstance(w, list) else [str(x) for x in got] == w, 'line', 'value on a line', line=case['ind'] + key + case['eq'] + val + com, got=repr(got), want=repr(w))
            rec.state(case, val, com, end, key)
        rec.trace(); rec.outcome('lines')
    elif kind == 'files':
        for tail in itertools.product(range(len(LINES)), repeat=case['n'] - 1):
            lines = [LINES[i] for i in (case['first'],) + tail]
            for defaults in (True, False):
                p = read(''.join(lines), load_defaults=defaults); rec.step()
                w = ref_file(lines)
                derived = {'grain_dist', 'grain_size', 'output_file', 'h', 'nsavetimes', 'process_fences', 'external_vars'}
                for k, v in w.items():
                    rec.check(k in p and same(p[k], v), 'file', 'value in a file: the last assignment counts', lines=lines, param=k, got=repr(p.get(k)), want=repr(v))
                extra = set(p) - set(w) - (set(D) if defaults else set()) - derived
                rec.check(not extra, 'file-extra', 'no parameters beyond the file and the defaults', extra=sorted(extra), lines=lines)
                if defaults:
                    for k in D:
                        if k not in w and k not in derived:
                            rec.check(p[k] is D[k] or np.all(p[k] == D[k]), 'default', 'a parameter that is not in the file keeps its default', param=k, lines=lines)
                rec.state(sorted(w.items(), key=str), defaults)
            rec.trace()
        rec.outcome('files')
    elif kind == 'rewritten':
        # files that change between the readings of one process, and files of one name in two directories
        vals = [np.array([1., 2, 3]), np.array([4., 5, 6]), np.array(7.5), np.array(8.5), np.array([[1., 2], [3, 4]]), np.array(1 + 2j), 'r.txt', 'r.txt']
        os.mkdir('a'); os.mkdir('b')
        for tail in itertools.product(range(len(CONTENT)), repeat=case['n'] - 1):
            for how, dirs in itertools.product(('direct', 'file'), (False, True)):
                hist = (case['first'],) + tail
                for k, i in enumerate(hist):
                    here = os.getcwd()
                    if dirs:
                        os.chdir('ab'[k % 2])
                    try:
                        if CONTENT[i] is not None:
                            open('r.txt', 'w').write(CONTENT[i])
                        elif os.path.exists('r.txt'):
                            os.remove('r.txt')
                        got = IO.parse_value('r.txt') if how == 'direct' else read('newparam = r.txt\n')['newparam']; rec.step()
                    finally:
                        os.chdir(here)
                    w = vals[i]
                    ok = isinstance(got, str) and got == w if isinstance(w, str) else isinstance(got, np.ndarray) and got.shape == w.shape and np.array_equal(got, w)
                    rec.check(ok, 'rewritten', 'a file is read as it is at the time of reading', history=[CONTENT[j] for j in hist[:k + 1]], directories=dirs, got=repr(got))
                    if isinstance(got, np.ndarray):
                        got[...] = -99.     # what is read belongs to the caller
                    rec.state(hist[:k + 1], how, dirs)
                rec.trace()
        rec.outcome('rewritten')
    elif kind == 'params':
        ref = {k: (list(v) if isinstance(v, list) else v) for k, v in D.items()}
        for k in ref:
            for txt, v in (('7', 7), ('0.125', .125), ('T', True), ('word', 'word')):
                p = read('%s = %s\n' % (k, txt)); rec.step()
                got = p[k]
                if k in ('grain_dist', 'grain_size', 'external_vars'):
                    ok = len(got) == 1 and (got[0] == v)
                else:
                    ok = equal(got, v) or (k == 'process_fences' and bool(got) == bool(v))
                rec.check(ok, 'parameter', 'a parameter set in the file', param=k, text=txt, got=repr(got))
                others = [j for j in ref if j != k and j not in ('h', 'nsavetimes', 'output_file', 'external_vars', 'grain_dist', 'grain_size', 'process_fences') and not (p[j] is D[j] or np.all(p[j] == D[j]))]
                rec.check(not others, 'parameter-others', 'setting one parameter leaves the others at their defaults', param=k, others=others)
                rec.state(k, txt)
            rec.trace()
        rec.check(all(D[k] == v for k, v in ref.items()) and set(D) == set(ref), 'defaults-changed', 'reading does not change the defaults')
        rec.outcome('params')
    else:
        for z, h, dz, dt, out, name in itertools.product((None, 5.), (None, 2.), (None, 7200), (None, 30.), (None, 'o.nc'), ('c.txt', 'my.conf.txt', 'sub/c.txt')):
            txt = ''.join('%s = %s\n' % (k, v) for k, v in (('z', z), ('h', h), ('dzb_interval', dz), ('dt', dt), ('output_file', out)) if v is not None)
            open(name, 'w').write(txt)
            p = IO.read_configfile(name); rec.step()
            rec.check(p['h'] == (h or z or 10.), 'height', 'saltation height is the measurement height unless given', text=txt, got=p['h'])
            rec.check(p['output_file'] == (out or os.path.splitext(name)[0] + '.nc'), 'output-file', 'output file has the name of the configuration file unless given', got=p['output_file'])
            rec.check(isinstance(p['grain_size'], np.ndarray) and isinstance(p['grain_dist'], np.ndarray), 'grain-lists', 'grain size distribution is a list')
            rec.state(txt, name); rec.trace()
        for d in ('2019-05-06 12:30', '2019-05-06 12:30:15', '2019-05-06', '2019-05-06  12:30   % start'):
            p = read('refdate = %s\n' % d)
            rec.check(p['refdate'] == ' '.join(d.split('%')[0].split()), 'refdate', 'reference date', text=d, got=repr(p['refdate']))
        for txt, w in (('', []), ('Hs', ['Hs']), ('Hs Tp zs', ['Hs', 'Tp', 'zs']), ('None', [])):
            p = read('external_vars = %s\n' % txt)
            rec.check([str(x) for x in p['external_vars']] == w, 'external', 'list of external variables', text=txt, got=repr(p['external_vars']))
        for fn in ('absent.txt', 'sub'):
            try:
                IO.read_configfile(fn); ok = False
            except OSError:
                ok = True
            rec.check(ok, 'absent', 'a missing configuration file is refused', name=fn)
        rec.outcome('derived')
    rec.sample(dict(case={k: v for k, v in case.items() if k != 'vals'}))
