"""Process combinations: every set of up to three processes, on every history of forcing, stays finite and in range."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'any combination of processes runs and keeps the state finite and in range'
LEVEL = 'model_checking'
RULE = ('case = a set of processes added to the default model on a one- or two-dimensional beach and dune; inside a case ALL histories of forcing (onshore storm, calm at high water, seaward wind at low water, '
        'surge with waves and rain) to the depth are executed by snapshot and restore; after every step every spatial grid must be finite and in its physical range; a process that has nothing to '
        'act on (no water, no plants, no fences, gentle slopes, dry bed) is added to every smaller set and must not change bed, air and thresholds')
ASSUMPTIONS = ['processes that need others are enabled with them (runup with waves, groundwater with tide, scanning with groundwater)',
               'the elevation of the non-erodible layer (zne) is undefined without file', 'in calm steps the explicit scheme does not execute processes and the shear velocity may be set to a small positive value']
CHUNK = 2
FORCE = {'storm': (18., 265., 0., 0., 0.), 'calm': (0., 270., 1.2, 0., 0.), 'off': (12., 100., -1.5, .4, 0.), 'surge': (14., 290., 2.6, 1.5, 12.)}
# each part: parameters, and other parts that it needs
PARTS = {
    'tide': ({}, ()), 'wave': (dict(process_wave=True), ('tide',)), 'runup': (dict(process_runup=True), ('wave',)),
    'moist': (dict(process_moist=True, th_moisture=True), ('tide',)), 'groundwater': (dict(process_groundwater=True, process_moist=True, method_moist_process='surf_moisture', th_moisture=True), ('tide',)),
    'scanning': (dict(process_scanning=True), ('groundwater',)), 'seepage': (dict(process_seepage_face=True), ('groundwater',)),
    'mix': (dict(process_mixtoplayer=True), ('wave',)), 'reset': (dict(process_wet_bed_reset=True, Tbedreset=300.), ('tide',)), 'salt': (dict(process_salt=True, th_salt=True), ('tide',)),
    'shelter': (dict(th_sheltering=True), ()), 'nelayer': (dict(th_nelayer=True), ('ne',)), 'ne': ({}, ()),
    'avalanche': (dict(process_avalanche=True), ('ne',)), 'shear': (dict(process_shear=True), ()), 'separation': (dict(process_separation=True), ('shear',)),
    'vegetation': (dict(process_vegetation=True, V_ver=3., germinate=.5, lateral=.5, V_lat=1.), ()), 'okin': (dict(process_vegetation=True, vegshear_type='okin', veggrowth_type='duranmoore14', V_ver=2.), ()),
    'fences': (dict(process_fences=True), ()), 'erosion': (dict(process_dune_erosion=True, dune_toe_elevation=1.), ('wave', 'ne', 'Cs')), 'Cs': ({}, ()),
    'nobed': (dict(process_bedupdate=False), ()), 'notransport': (dict(process_transport=False), ()), 'nothreshold': (dict(process_threshold=False), ()),
    'duran': (dict(method_grainspeed='duran'), ()), 'grains': (dict(grain_size=[.0001, .0003, .001], grain_dist=[.3, .5, .2]), ()), 'fast': (dict(accfac=20.), ()),
    'pieter': (dict(solver='pieter'), ()), 'steady': (dict(solver='steadystate'), ()), 'forward': (dict(scheme='euler_forward'), ()), 'limit': (dict(max_bedlevel_change=1e-4), ()),
    'thin': (dict(layer_thickness=2e-4), ()), 'rough': (dict(method_roughness='median_grainsize_adaptive'), ()),
}
# processes with nothing to act on: parameters, and parts that exclude them
NEUTRAL = {
    'tide': ('tide', {}), 'wave': ('wave', {}), 'runup': ('wave', {}), 'dry': ('moist tide', {}), 'mix': ('wave', {}), 'reset': ('reset tide', {}), 'salt': ('', dict(process_salt=True)),
    'nelayer': ('nelayer ne', dict(th_nelayer=True)), 'avalanche': ('avalanche', dict(process_avalanche=True, theta_stat=89., theta_dyn=88.)),
    'vegetation': ('vegetation okin', dict(process_vegetation=True)), 'bare': ('vegetation okin', dict(process_vegetation=True, vegshear_type='okin', veggrowth_type='duranmoore14')),
    'fences': ('fences', dict(process_fences=True)), 'erosion': ('erosion avalanche', dict(process_dune_erosion=True, dune_toe_elevation=50.)), 'bedslope': ('', dict(th_bedslope=True)),
    'inertia': ('', dict(process_inertia=True)), 'humidity': ('', dict(process_humidity=True)), 'meteo': ('groundwater', dict(process_meteo=True)), 'scanning': ('groundwater', dict(process_scanning=True)),
    'seepage': ('groundwater', dict(process_seepage_face=True)), 'separation': ('shear', dict(process_separation=True)),
}
PROF = np.array([-2., -1., -.3, .3, .9, 1.5, 2.6, 4.2, 3.4, 3.4])
NONNEG = ('Ct', 'Cu', 'Cuf', 'Cu0', 'mass', 'w', 'w_init', 'w_air', 'w_bed', 'uth', 'uthf', 'uth0', 'ustar', 'ustar0', 'u', 'uw', 'Hs', 'Tp', 'R', 'fence_height', 'rhoveg', 'hveg', 'moist', 'salt', 'thlyr', 'dsdn', 'q')
UNIT = ('w', 'w_bed', 'rhoveg', 'vegfac', 'salt', 'moist', 'germinate')


def depth(tier):
    return 2 if tier == 'quick' else 3


def nset(tier):
    return 2 if tier == 'quick' else 3


def BOUNDS(tier):
    return ('all sets of up to %d of %d processes and options (with what they need) on 1-D and 2-D (4 rows, 10 cells), all histories of 4 forcings to depth %d (one less for the largest sets); %d processes with nothing '
            'to act on x all smaller sets x one history; figures on and off for %d sets' % (nset(tier), len(PARTS), depth(tier), len(NEUTRAL), len(FIGURES) + (tier != 'quick') * len(PARTS)))


FIGURES = [(), ('runup', 'moist', 'mix'), ('groundwater', 'salt', 'ne'), ('vegetation', 'fences', 'shear'), ('grains', 'erosion', 'shelter')]


def cases(tier):
    for parts in FIGURES if tier == 'quick' else FIGURES + [(q,) for q in PARTS]:
        for ny in (0, 4):
            yield dict(parts=parts, ny=ny, figures=True)
    for n in range(nset(tier) + 1):
        for parts in itertools.combinations(PARTS, n):
            for ny in (0, 4):
                if tier == 'thorough' and n == 3 and ny:
                    continue
                yield dict(parts=parts, ny=ny, depth=depth(tier) - (n == nset(tier)), neutral=n < nset(tier))


def warmup():
    tiny.warm()
    for parts in (('groundwater', 'scanning', 'seepage', 'erosion'), ('shear', 'separation', 'avalanche', 'vegetation', 'fences')):
        m = build(parts, 4); force(m, 'storm'); m.update()


def closure(parts):
    out = list(parts)
    for q in out:
        out += [r for r in PARTS[q][1] if r not in out]
    return out


def build(parts, ny, extra={}, name='a'):
    P = closure(parts)
    rows = max(ny, 1); zb = PROF + np.array([0., .25, -.15, .1])[:rows, None]
    one = lambda a: a if ny else a[0]
    kw = dict(dt=60., tstart=60.)
    for q in P:
        kw.update(PARTS[q][0])
    flat = lambda *v: np.array([[0.] + list(v), [1e9] + list(v)])
    if 'tide' in P: kw.update(process_tide=True, tide_file=flat(0.))
    if 'wave' in P: kw.update(wave_file=flat(0., 8.))
    if 'ne' in P: kw.update(ne_file=one(zb - np.resize([3., .002, 3.], zb.shape)))
    if 'groundwater' in P or 'salt' in P: kw.update(process_meteo=True, meteo_file=flat(10., 50., 0., 100., 80.))
    if 'vegetation' in P or 'okin' in P: kw.update(veg_file=one(np.where(np.arange(10) == 6, .5, 0.) * np.ones(zb.shape)))
    if 'fences' in P: kw.update(fence_file=one(np.where(np.arange(10) == 5, .8, 0.) * np.ones(zb.shape)))
    if 'Cs' in P: kw.update(Cs=1e-4)
    for q in extra:
        kw.update(NEUTRAL[q][1])
        if q in ('tide', 'wave', 'runup', 'dry', 'mix', 'reset', 'erosion') and not kw.get('process_tide'):
            kw.update(process_tide=True, tide_file=flat(-9.))
        if q in ('wave', 'runup', 'mix', 'erosion') and not kw.get('process_wave'):
            kw.update(process_wave=True, wave_file=flat(0., 8.))
        if q == 'runup': kw.update(process_runup=True)
        if q == 'mix': kw.update(process_mixtoplayer=True)
        if q == 'dry': kw.update(process_moist=True, th_moisture=True)
        if q == 'reset': kw.update(process_wet_bed_reset=True)
        if q in ('nelayer', 'avalanche', 'erosion') and 'ne' not in P: kw.update(ne_file=one(zb - 50.))
        if q == 'erosion': kw.update(Cs=1e-4)
        if q == 'vegetation' or q == 'bare': kw.update(veg_file=one(0. * zb))
        if q == 'fences': kw.update(fence_file=one(0. * zb))
        if q == 'meteo': kw.update(meteo_file=flat(10., 50., 0., 100., 80.))
    np.random.seed(3)
    return tiny.model(tiny.base(nx=10, ny=ny, zb=one(zb), **kw), name + '.txt')


def force(m, f, water=True):
    u, d, zs, H, rain = FORCE[f]
    flat = lambda *v: np.array([[0.] + list(v), [1e9] + list(v)])
    m.set_var('wind_file', flat(u, d))
    if water:
        if m.p['process_tide']: m.set_var('tide_file', flat(zs))
        if m.p['process_wave']: m.set_var('wave_file', flat(H, 8.))
        if m.p['process_meteo']: m.set_var('meteo_file', flat(10., 50., rain, 100., 80.))


def run_figures(rec, case):
    """Drawing figures of the input and of the first step leaves the simulation alone."""
    import contextlib, io, logging, os, warnings
    a = build(case['parts'], case['ny'])
    real = tiny.base
    try:
        tiny.base = lambda **kw: dict(real(**kw), visualization=True)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore'); logging.getLogger('matplotlib').setLevel(logging.ERROR)
            b = build(case['parts'], case['ny'], name='b')
            for f in ('storm', 'surge', 'off'):
                for m in (a, b):
                    np.random.seed(5); force(m, f); m.update()
                rec.step(2)
                bad = [v for v in a.s if isinstance(a.s[v], np.ndarray) and not np.array_equal(a.s[v], b.s[v], equal_nan=True)]
                rec.check(not bad and a.t == b.t and set(a.s) == set(b.s), 'figures', 'drawing figures changes the simulation', grids=bad, forcing=f)
                rec.state(case['parts'], case['ny'], 'figures', f)
    finally:
        tiny.base = real
    n = [f for f in os.listdir('.') if f.endswith('.png')]
    rec.check(len(n) == 3 and all(os.path.getsize(f) > 1000 for f in n), 'figures-written', 'figures of grid, series and parameters', files=n)
    for f in n:
        os.remove(f)
    rec.trace(); rec.outcome('figures')


def run_case(rec, case):
    if case.get('figures'):
        return run_figures(rec, case)
    parts, ny = case['parts'], case['ny']
    P = closure(parts)
    root = build(parts, ny)
    def walk(m, hist):
        for f in FORCE:
            k = copy.deepcopy(m)
            np.random.seed(len(hist))
            force(k, f)
            k.update()
            h = hist + [f]; det = dict(history=h)
            rec.step(); rec.trace()
            rec.state(k.s['zb'], k.s['Ct'], k.s['mass'], k.s['moist'], k.s['gw'], k.s['rhoveg'], f, tuple(P), ny)
            for v in sorted(k.s):
                a = k.s[v]
                if not isinstance(a, np.ndarray) or a.dtype.kind not in 'fc':
                    continue
                rec.check(v not in m.s or a.shape == m.s[v].shape, 'shape:' + v, 'grid changes shape', **det)
                if v == 'zne' and 'ne' not in P:
                    continue
                inf = v in ('uth', 'uthf')
                rec.check(not np.isnan(a).any() and (inf or np.isfinite(a).all()), 'nonfinite:' + v, 'grid is not finite', values=a, **det)
                if v in NONNEG:
                    rec.check(np.all(a >= -1e-9), 'negative:' + v, 'grid becomes negative', values=a, **det)
                if v in UNIT:
                    rec.check(np.all(a <= 1 + 1e-6), 'above-one:' + v, 'grid exceeds one', values=a, **det)
            s = k.s
            rec.check(k.t > m.t, 'time', 'time does not advance', **det)
            # fluxes and speed belong together
            rec.close(s['q'], np.hypot(s['qs'], s['qn']), 'flux', 'flux magnitude and components', atol=1e-12, **det)
            if FORCE[f][0] == 0. and 'forward' not in P:
                rec.check(np.all(s['pickup'] == 0.), 'calm-pickup', 'pickup without wind', **det)
            if 'notransport' in P:
                rec.check(np.all(s['Ct'] == 0.) and np.all(s['pickup'] == 0.), 'transport-off', 'sediment is transported although transport is disabled', **det)
            if 'nobed' in P and not {'erosion', 'avalanche', 'reset'} & set(P):
                rec.check(np.array_equal(s['zb'], root.s['zb']), 'bed-off', 'bed level changes although bed update is disabled', **det)
            rec.outcome(f)
            if rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
    walk(root, [])
    if case['neutral']:
        hist = ('storm', 'calm', 'off', 'surge', 'storm')
        dry = not root.p['process_tide']
        ref = []
        k = build(parts, ny)
        for f in hist:
            np.random.seed(7); force(k, f); k.update(); ref.append({v: np.array(k.s[v]) for v in ('zb', 'Ct', 'pickup', 'mass', 'uth', 'ustar', 'us', 'un')})
        for q, (without, _) in NEUTRAL.items():
            if set(without.split()) & set(P):
                continue
            k = build(parts, ny, (q,), 'b')
            for f, want in zip(hist, ref):
                np.random.seed(7); force(k, f, water=False)
                if not dry:
                    u, d, zs, H, rain = FORCE[f]
                    k.set_var('tide_file', np.array([[0., zs], [1e9, zs]]))
                    if 'wave' in P: k.set_var('wave_file', np.array([[0., H, 8.], [1e9, H, 8.]]))
                    if 'groundwater' in P or 'salt' in P: k.set_var('meteo_file', np.array([[0., 10., 50., rain, 100., 80.], [1e9, 10., 50., rain, 100., 80.]]))
                k.update(); rec.step()
                for v, w in want.items():
                    if v == 'ustar' and FORCE[f][0] == 0.:
                        continue
                    rec.close(k.s[v], w, 'idle-%s:%s' % (q, v), 'a process with nothing to act on changes the result', rtol=1e-9, atol=1e-12, step=f, process=q)
            rec.trace()
