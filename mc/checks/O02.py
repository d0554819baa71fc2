"""Complete runs: the output file of every combination of time axis, output interval, scheme and callback against a reference loop."""
import itertools, os
import numpy as np
from mc import tiny

TITLE = 'a complete run writes every due record of the simulation to the output file'
LEVEL = 'model_checking'
RULE = ('case = (start, end, time step, output interval, acceleration, scheme, grid, winds, callback form, working directory); the runner executes the complete simulation '
        'and its output file is read back; a reference loop over the plain model with the same callback gives the expected times, time bounds and values of all records')
ASSUMPTIONS = ['values are stored in single precision', 'no clearing requests by the callback']
CHUNK = 4
DIMS = {1: ('time',), 3: ('time', 'n', 's'), 4: ('time', 'n', 's', 'fractions'), 5: ('time', 'n', 's', 'layers', 'fractions')}


def BOUNDS(tier):
    return ('3 starts x 3 ends x 3 time steps x 4 output intervals x acceleration 1/4 (implicit), explicit and semi-implicit schemes with windy, calm-first and calm winds, 1-D and 2-D grids, 4 callback '
            'forms (none, function, configuration, file) x 2 ways of addressing the configuration file')


def cases(tier):
    for t0, dur, dt, every, acc, ny in itertools.product((0., 75., 3600.), (60., 240., 330.), (30., 60., 100.), (30., 60., 150., 1e5), (1., 4.), (0, 3)):
        odd = (t0 != 75.) + (dur != 240.) + (dt != 60.) + (every != 60.) + (acc != 1.) + (ny > 0)
        if tier == 'quick' and odd > 2:
            continue
        yield dict(t0=t0, dur=dur, dt=dt, every=every, acc=acc, ny=ny, scheme='euler_backward', wind='wind', cb='none', path='name')
    for scheme, wind, cb, path, t0, ny in itertools.product(('euler_forward', 'euler_backward', 'crank_nicolson'), ('wind', 'calmfirst', 'calm', 'calmlater'), ('none', 'function', 'config', 'file', 'missing'),
                                                            ('name', 'elsewhere'), (0., 75.), (0, 3)):
        odd = (cb != 'function') + (path != 'name') + (t0 > 0) + (ny > 0)
        if tier == 'quick' and odd > 1:
            continue
        yield dict(t0=t0, dur=60. if scheme == 'euler_forward' else 240., dt=10. if scheme == 'euler_forward' else 60., every=20. if scheme == 'euler_forward' else 60., acc=1., ny=ny, scheme=scheme, wind=wind,
                   cb=cb, path=path)
    for nf, nl in itertools.product((1, 2, 3), (1, 2, 4)):
        yield dict(t0=0., dur=120., dt=60., every=60., acc=1., ny=3, scheme='euler_backward', wind='wind', cb='none', path='name', nf=nf, nl=nl)


def warmup():
    tiny.warm()


CALLS = []


def callback(m):
    CALLS.append(m.t)
    zb = m.s['zb'].copy()
    zb[:, 1] += .01 * len(CALLS)
    m.set_var('zb', zb)


CB = '''
import numpy as np
def add(m):
    k = getattr(m, 'ncalls', 0) + 1
    m.ncalls = k
    zb = m.s['zb'].copy()
    zb[:, 1] += .01 * k
    m.set_var('zb', zb)
'''
VARS = ['zb', 'Ct', 'pickup', 'uw', 'q', 'mass']
WINDS = {'wind': [9., 13., 4., 11.], 'calm': [0., 0., 0., 0.], 'calmfirst': [0., 0., 9., 12.], 'calmlater': [11., 12., 0., 0.]}


def run_case(rec, case):
    import netCDF4
    import aeolis.model as M
    nx = 4 if case['ny'] else 5
    nf = case.get('nf', 2); nl = case.get('nl', 2)
    t0, t1 = case['t0'], case['t0'] + case['dur']
    x = np.linspace(0, 1, nx)
    zb = (x * .8 - .1)[None, :] + .1 * np.arange(case['ny'])[:, None] if case['ny'] else x * .8 - .1
    out = ' '.join(VARS) + ' zb_max Ct_avg pickup_sum uw_var mass_min'
    extra = dict(callback='cb.py:add') if case['cb'] == 'config' else {}
    cfg = tiny.base(nx=nx, ny=case['ny'], zb=zb, grain_size=[.0002, .0003, .0004][:nf], grain_dist=[1. / nf] * nf, nlayers=nl, tstart=t0, tstop=t1, dt=case['dt'], output_times=case['every'],
                    accfac=case['acc'], scheme=case['scheme'], output_vars=out, **extra)
    if case['t0'] > 0:     # coordinates of a national grid
        cfg['xgrid_file'] = cfg['xgrid_file'] + 72000.2
        if case['ny']:
            cfg['ygrid_file'] = cfg['ygrid_file'] + 452000.7
    W = WINDS[case['wind']]
    cfg['wind_file'] = np.array([[t0 - 1, W[0], 260.], [t0 + case['dur'] * .35, W[1], 265.], [t0 + case['dur'] * .55, W[2], 280.], [1e7, W[3], 265.]])
    d = os.path.join(os.getcwd(), 'run'); os.mkdir(d)
    tiny.write(cfg, 'a.txt', d)
    open(os.path.join(d, 'cb.py'), 'w').write(CB)
    conf = open(os.path.join(d, 'a.txt')).read()
    del CALLS[:]
    if case['path'] == 'name':
        os.chdir(d)
        r = M.AeoLiSRunner('a.txt')
    else:
        r = M.AeoLiSRunner(os.path.join('run', 'a.txt'))
    here = os.getcwd()
    cb = {'none': None, 'function': callback, 'config': None, 'file': 'cb.py:add', 'missing': 'nosuch.py:add'}[case['cb']]
    if case['cb'] == 'missing':
        try:
            r.run(callback=cb); ok = False
        except IOError:
            ok = True
        rec.check(ok, 'missing-callback', 'a callback in a missing file is refused')
        os.chdir(here); rec.trace(); return
    r.run(callback=cb)
    rec.check(os.getcwd() == here, 'cwd', 'the working directory after a run is the one before it', got=os.getcwd(), want=here)
    rec.check(open(os.path.join(d, 'a.txt')).read() == conf and not [f for f in os.listdir(d) if '~' in f], 'config-touched', 'an unchanged configuration is not written')
    rec.check(os.path.exists(os.path.join(d, 'a.log')), 'log', 'the run writes a log file')
    calls = list(CALLS)

    # reference
    os.chdir(d)
    m = M.AeoLiS('a.txt'); m.initialize()
    hist = [(m.t, snap(m))]; times = []; n = 0
    while m.t <= t1:
        if case['cb'] != 'none':
            n += 1
            b = m.s['zb'].copy(); b[:, 1] += .01 * n
            m.set_var('zb', b)
            times.append(m.t)
        m.update(); rec.step()
        hist.append((m.t, snap(m)))
        if len(hist) > 5000:
            break
    if case['cb'] == 'function':
        rec.check(calls == times, 'callback-times', 'the callback is called once at the start of each time step', got=calls, want=times)
    want = []; last = None; acc = []
    for k, (t, s) in enumerate(hist):
        if k:
            acc.append(s)
        if k == 0 or t - last >= case['every']:
            want.append((t, s, acc)); acc = []
            last = t
    with netCDF4.Dataset('a.nc') as ds:
        ds.set_auto_mask(False)
        T = ds['time'][:]
        if not rec.check(len(T) == len(want) and np.allclose(T, [w[0] for w in want], rtol=0, atol=1e-9), 'times', 'times of the records', got=T, want=[w[0] for w in want]):
            return
        B = ds['time_bounds'][:]
        lo = [want[0][0]] + [w[0] for w in want[:-1]]
        rec.close(B, np.array([lo, [w[0] for w in want]]).T, 'bounds', 'time bounds of the records', rtol=1e-12)
        for v in VARS:
            nd = hist[0][1][v].ndim + 1
            rec.check(ds[v].dimensions == DIMS[nd], 'dimensions', 'dimensions of a variable', name=v, got=ds[v].dimensions)
            rec.close(ds[v][:], np.array([w[1][v] for w in want]).astype('f4'), 'values-' + v, 'values in the output file', rtol=2e-6, atol=1e-12, name=v)
        for nm, v, f in (('zb_max', 'zb', lambda A: A.max(0)), ('Ct_avg', 'Ct', lambda A: A.mean(0)), ('pickup_sum', 'pickup', lambda A: A.sum(0)), ('mass_min', 'mass', lambda A: A.min(0)),
                         ('uw_var', 'uw', lambda A: A.var(0, ddof=1) if len(A) > 1 else A[0] * 0)):
            for k, w in enumerate(want):
                if w[2]:
                    A = np.array([z[v] for z in w[2]])
                    rec.close(ds[nm][k], f(A), 'statistics-' + nm, 'statistic in the output file over the steps since the previous record', rtol=3e-6, atol=1e-9 * (1 + float(np.max(np.abs(A)))**2), record=k)
        shp = (max(case['ny'], 1), nx)
        rec.check(ds['x'].shape == shp and np.allclose(ds['x'][:], hist[0][1]['x'], rtol=0, atol=1e-5) and np.allclose(ds['y'][:], hist[0][1]['y'], rtol=0, atol=1e-5), 'coordinates', 'coordinates in the output file')
        rec.close(ds['fractions'][:], [.0002, .0003, .0004][:nf], 'fractions', 'grain sizes in the output file', rtol=1e-6)
        rec.check(len(ds.dimensions['layers']) == nl and len(ds.dimensions['fractions']) == nf, 'sizes', 'sizes of the dimensions')
        rec.check('2020-01-01' in ds['time'].units and ds['time'].units.startswith('seconds since'), 'units', 'units of time', got=ds['time'].units)
    rec.state(case)
    for t, s in hist:
        rec.state(t, s['zb'], s['Ct'])
    rec.trace(); rec.outcome('%s %d records' % (case['scheme'], len(want)))
    rec.sample(dict(case=case, times=[w[0] for w in want]))


def snap(m):
    s = {v: np.array(m.s[v], copy=True) for v in VARS + ['x', 'y']}
    s['Ct'] = s['Ct'] / m.p['accfac']
    return s
