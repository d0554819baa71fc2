"""Restart files: every pattern of interruptions of a simulation against the uninterrupted simulation."""
import copy, itertools, os, pickle
import numpy as np
from mc import tiny

TITLE = 'a simulation restarted from a restart file continues as the uninterrupted one'
LEVEL = 'fault_enumeration'
RULE = ('case = (set of processes, grid, solver, scheme); inside a case EVERY subset of the step boundaries is taken as the points at which the simulation is stopped and restarted by a new '
        'model from the restart file just written; after every step all spatial grids, the time and the counters are compared bit for bit with the uninterrupted simulation; '
        'restart files cut at every block of 512 bytes must be refused; the times and names of the restart files are compared with the requested interval')
ASSUMPTIONS = ['same configuration before and after the restart', 'random numbers are the same', 'restarts between time steps']
CHUNK = 1
SETS = {
    'plain': dict(),
    'fractions': dict(grain_size=[.0002, .0004], grain_dist=[.4, .6], nlayers=3, layer_thickness=.0005),
    'shear': dict(process_shear=True, dx=1., dy=1., buffer_width=5.),
    'separation': dict(process_shear=True, process_separation=True, dx=1., dy=1., buffer_width=5.),
    'avalanche': dict(process_avalanche=True),
    'tide': dict(process_tide=True, process_wave=True, process_runup=True, process_moist=True, th_moisture=True, process_mixtoplayer=True, process_wet_bed_reset=True),
    'groundwater': dict(process_tide=True, process_wave=True, process_runup=True, process_groundwater=True, process_moist=True, method_moist_process='surf_moisture', process_scanning=True, th_moisture=True,
                        in_gw=-.4),
    'salt': dict(process_tide=True, process_salt=True, th_salt=True, th_sheltering=True),
    'vegetation': dict(process_vegetation=True, V_ver=5., germinate=1., lateral=1., veg_min_elevation=-9.),
    'duranmoore': dict(process_vegetation=True, V_ver=5., veggrowth_type='duranmoore14', veg_min_elevation=-9.),
    'fences': dict(process_fences=True),
    'duran': dict(method_grainspeed='duran', method_transport='bagnold'),
    'limited': dict(max_bedlevel_change=1e-6),
    'accelerated': dict(accfac=4.),
    'erosion': dict(process_tide=True, process_wave=True, process_runup=True, process_dune_erosion=True, Cs=.1, dune_toe_elevation=1.),
}


def BOUNDS(tier):
    return ('%d process sets x 1-D of 8 cells and 2-D of 3 x 5 cells x 4 solvers, 3 schemes; all 2^%d subsets of the first %d step boundaries as restarts, %d steps'
            % (len(SETS), nstep(tier) - 1, nstep(tier) - 1, nstep(tier)))


def nstep(tier):
    return 4 if tier == 'quick' else 6


def cases(tier):
    for ps, ny, solver, scheme in itertools.product(SETS, (0, 3), ('trunk', 'steadystate', 'pieter', 'steadystatepieter'), ('euler_backward', 'euler_forward', 'crank_nicolson')):
        odd = (solver != 'trunk') + (scheme != 'euler_backward')
        if odd > (1 if tier == 'quick' else 2) or (tier == 'quick' and odd and ps not in ('plain', 'fractions', 'limited', 'tide')):
            continue
        yield dict(ps=ps, ny=ny, solver=solver, scheme=scheme, n=nstep(tier))
    for ps, hot in itertools.product(('plain', 'fractions', 'groundwater'), ('moist', 'zb', 'mass', 'Ct')):
        yield dict(ps=ps, ny=0, solver='trunk', scheme='euler_backward', n=3, hot=hot)
    for ny in (0, 3):
        yield dict(kind='torn', ny=ny)
    for t0, dt, every, acc in itertools.product((0., 90., 1000.), (30., 60.), (60., 90., 100., 400.), (1., 2.)):
        yield dict(kind='schedule', t0=t0, dt=dt, every=every, acc=acc)


def warmup():
    tiny.warm()
    for ps in ('groundwater', 'shear'):
        go(model(dict(ps=ps, ny=3, solver='trunk', scheme='euler_backward'), 'w'))
    go(model(dict(ps='shear', ny=0, solver='trunk', scheme='euler_backward'), 'w'))


def model(c, name='a', init=True):
    nx = 5 if c['ny'] else 8
    prof = np.array([-.9, -.5, -.2, .1, .5, .9, 1.6, 1.2])
    zb = prof[:nx] * (2. if c['ps'] == 'avalanche' else 1.)
    if c['ny']:
        zb = zb + np.array([0., .13, -.2])[:, None]
    kw = dict(SETS[c['ps']])
    wave = np.array([[0., .5, 5.], [250., 1.2, 7.], [1e6, .3, 6.]])
    tide = np.array([[0., -.3], [200., .4], [1e6, -.5]])
    kw.update(tide_file=tide, wave_file=wave, meteo_file=np.array([[0., 10., 8., 0., 100., 80.], [300., 10., 8., 5., 100., 80.], [1e6, 10., 8., 0., 100., 80.]]))
    if c['ps'] == 'fences':
        kw['fence_file'] = np.where(np.arange(nx) == 2, .8, 0.) * np.ones(zb.shape)
    if 'vegetation' in kw or kw.get('process_vegetation'):
        kw['veg_file'] = np.where(np.arange(nx) == 3, .4, 0.) * np.ones(zb.shape)
    if c.get('kind') == 'schedule':
        kw = dict()
    wind = np.array([[0., 9., 255.], [100., 13., 280.], [220., 0., 270.], [300., 11., 100.], [1e6, 12., 250.]])
    cfg = tiny.base(nx=nx, ny=c['ny'], zb=zb, **{**dict(solver=c['solver'], scheme=c['scheme'], dt=60., tstop=1e6, output_vars='zb_avg zb Ct_max'), **kw, **c.get('over', {})})
    cfg['wind_file'] = wind
    return tiny.model(cfg, name=name + '.txt', runner=True, init=init)


def go(m):
    np.random.seed(7 + int(m.t) % 1000)
    m.update()
    m.output_write()


def snap(m):
    out = {}
    for k, v in m.s.items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, dict):
            out[k] = np.array([v[x] for x in sorted(v)])
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def files():
    return {f for f in os.listdir('.') if '.r0' in f}


def dump(m):
    for f in files():
        os.remove(f)
    m.dump_restartfile()
    fs = files()
    return fs.pop() if len(fs) == 1 else None


def run_case(rec, case):
    if case.get('kind') == 'torn':
        return torn(rec, case)
    if case.get('kind') == 'schedule':
        return schedule(rec, case)
    n = case['n']
    fresh = model(case)
    if case.get('hot'):
        v = fresh.s[case['hot']]
        np.savetxt(case['hot'] + '.hotstart', (v * 1.02 + .01).reshape(v.shape[0], -1))
    m = copy.deepcopy(fresh); m.load_hotstartfiles()
    full = []
    for k in range(n):
        go(m); rec.step()
        full.append((m.t, m.dt, snap(m), dict(m.c)))
    for pattern in itertools.product((0, 1), repeat=n - 1):
        m = copy.deepcopy(fresh); m.load_hotstartfiles()
        for k in range(n):
            go(m); rec.step()
            t, dt, want, cnt = full[k]
            got = snap(m)
            det = dict(pattern=pattern, step=k)
            rec.check(m.t == t and m.dt == dt, 'time', 'time or time step after a restart', got=[m.t, m.dt], want=[t, dt], **det)
            rec.check(set(got) == set(want), 'grids', 'spatial grids after a restart', diff=sorted(set(got) ^ set(want)), **det)
            for v in want:
                if v in got:
                    rec.check(same(got[v], want[v]), 'state-' + v,
                              'spatial grid %s after a restart' % v, got=got[v], want=want[v], **det)
            rec.check(dict(m.c) == cnt, 'counters', 'counters after a restart', got=m.c, want=cnt, **det)
            rec.state(*[got[v] for v in sorted(got)])
            if k < n - 1 and pattern[k]:
                f = dump(m)
                if not rec.check(f is not None, 'no-file', 'restart file is written', **det):
                    return
                rec.check(f == 'a.r%010d' % int(m.t), 'name', 'name of the restart file', got=f, **det)
                m = copy.deepcopy(fresh)
                m.load_hotstartfiles()
                rec.check(m.load_restartfile(f) is True, 'load', 'restart file is loaded', **det)
                rec.check(m.t == t, 'time', 'time after loading', got=m.t, want=t, **det)
        rec.trace()
    rec.outcome('%s' % case['ps'])
    rec.sample(dict(case=case, t=[x[0] for x in full], zb=np.round(full[-1][2]['zb'][0], 6).tolist()))


def torn(rec, case):
    c = dict(ps='plain', ny=case['ny'], solver='trunk', scheme='euler_backward')
    m = model(c); go(m)
    f = dump(m)
    if not rec.check(f is not None, 'no-file', 'restart file is written'):
        return
    data = open(f, 'rb').read()
    other = model(c, 'b')
    cuts = list(range(0, len(data), 512)) + list(range(max(0, len(data) - 64), len(data)))
    for cut in cuts:
        open('cut', 'wb').write(data[:cut])
        before = (other.t, snap(other))
        try:
            ok = other.load_restartfile('cut')
        except Exception:
            ok = False
        rec.step(); rec.state('cut', cut)
        rec.check(not ok, 'torn-accepted', 'a truncated restart file is refused', cut=cut, size=len(data))
        after = snap(other)
        rec.check(other.t == before[0] and all(same(before[1][k], after[k]) for k in after), 'torn-loaded', 'a refused restart file leaves the model as it was', cut=cut)
    try:
        ok = other.load_restartfile('missing'); bad = ok
    except IOError:
        bad = False
    rec.check(not bad, 'missing', 'missing restart file is refused')
    rec.check(other.load_restartfile(None) in (None, False) and other.t == 0., 'none', 'no restart file requested')
    rec.check(other.load_restartfile(f) is True, 'load', 'complete restart file is loaded')
    rec.trace(len(cuts))


def schedule(rec, case):
    c = dict(ps='plain', ny=0, solver='trunk', scheme='euler_backward', over=dict(restart=case['every'], tstart=case['t0'], dt=case['dt'], accfac=case['acc'], output_times=50.), kind='schedule')
    m = model(c)
    t = case['t0']; last = t; want = set()
    m.output_write()
    for k in range(16):
        m.update(); m.output_write(); rec.step()
        t += case['dt'] * case['acc']
        if t - last >= case['every']:
            want.add('a.r%010d' % int(t)); last = t
        rec.check(files() == want, 'restart-schedule', 'restart files after the requested interval', got=sorted(files()), want=sorted(want), time=t)
        rec.state('schedule', t, case)
    rec.trace()
