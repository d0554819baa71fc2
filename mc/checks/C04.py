"""Names of methods: every documented name selects its own method, every other name is refused before it has an effect."""
import itertools
import numpy as np
from mc import tiny

TITLE = 'documented option names select their own method and any other name is refused'
LEVEL = 'model_checking'
RULE = ('case = an option with a scenario in which it matters (and a set of other options); ALL documented names run and give pairwise different results; ALL single edits of every documented name (a letter dropped, '
        'doubled or swapped with the next, an affix, other separators, capitals), the names of all other options, numbers, flags and nothing either give exactly the result of the name they spell or are '
        'refused with an error before the end of the first step')
ASSUMPTIONS = ['names that differ in capitals only may be accepted or refused', 'an option of a process that is switched off is not looked at']
CHUNK = 1

MOIST = dict(process_tide=True, process_moist=True, th_moisture=True, tide_file=np.array([[0., .42], [60., .42], [120., -1.], [1e6, -1.]]), dt=60.)
GW = dict(process_tide=True, process_groundwater=True, process_moist=True, method_moist_process='surf_moisture', th_moisture=True, process_meteo=True,
          meteo_file=np.array([[0., 10., 50., 0., 100., 80.], [1e6, 10., 50., 0., 100., 80.]]), tide_file=np.array([[0., .4], [600., .1], [1e6, .1]]))
VEG = dict(process_vegetation=True, V_ver=3., rhoveg_max=1., dzb_interval=60., veg_min_elevation=-10.)
# option: documented names, scenario, whether the scenario is one-dimensional
OPTIONS = {
    'scheme': (['euler_backward', 'crank_nicolson', 'euler_forward'], dict(CFL=.5), False),
    'solver': (['trunk', 'pieter', 'steadystate', 'steadystatepieter'], {}, False),
    'boundary_lateral': (['circular', 'constant'], {}, False),
    'boundary_offshore': (['constant', 'flux', 'uniform', 'gradient'], dict(offshore_flux=.7), False),
    'boundary_onshore': (['gradient', 'flux', 'constant', 'uniform'], dict(onshore_flux=.7), False),
    'boundary_gw': (['no_flow', 'static'], dict(GW, GW_stat=.9), True),
    'method_moist_threshold': (['belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish', 'cornelis', 'dong_2007'], dict(MOIST, Tdry=26.), True),
    'method_moist_process': (['infiltration', 'surf_moisture'], dict(GW), True),
    'method_transport': (['bagnold', 'bagnold_gs', 'kawamura', 'lettau', 'dk', 'sauermann', 'vanrijn_strypsteen'], {}, False),
    'method_roughness': (['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive', 'median_grainsize_adaptive', 'vanrijn_strypsteen'], {}, False),
    'method_grainspeed': (['windspeed', 'duran', 'constant'], {}, False),
    'wind_convention': (['nautical', 'cartesian'], {}, False),
    'vegshear_type': (['raupach', 'okin'], VEG, True),
    'veggrowth_type': (['orig', 'duranmoore14'], VEG, False),
}
ALSO = {'boundary_offshore': ['circular', 'noflux'], 'boundary_onshore': ['circular', 'noflux'], 'boundary_lateral': ['uniform', 'gradient', 'flux', 'noflux'], 'method_moist_process': ['surface_moisture']}
OTHERS = sorted({n for v, _, _ in OPTIONS.values() for n in v})
WITH = {'boundary_offshore': ('solver', 'scheme'), 'boundary_onshore': ('solver', 'scheme'), 'boundary_lateral': ('solver', 'scheme'), 'scheme': ('solver',), 'solver': ('scheme',),
        'method_transport': ('method_grainspeed',), 'method_grainspeed': ('method_transport', 'solver'), 'method_roughness': ('method_transport',), 'method_moist_process': ('boundary_gw',)}


def BOUNDS(tier):
    return ('%d options, %d documented names; all single edits of each, all %d names of other options and 8 other values%s' % (len(OPTIONS), sum(len(v[0]) for v in OPTIONS.values()), len(OTHERS),
            ', combined with every name of related options' if tier == 'thorough' else '; documented names combined with every name of related options'))


def cases(tier):
    for key, (names, scen, one) in OPTIONS.items():
        rel = [dict()] + [{k: v} for k in WITH.get(key, ()) for v in OPTIONS[k][0]]
        for r in rel:
            for part in range(4):
                if r and tier == 'quick' and part:
                    continue
                yield dict(key=key, rel=r, part=part, edits=not r or tier == 'thorough')


def warmup():
    tiny.warm()
    for k in ('boundary_gw', 'vegshear_type'):
        run(k, OPTIONS[k][0][0], {})


def edits(name):
    out = {name.upper(), name.capitalize(), name.title(), name + '_', '_' + name, name + 's', name + '1', name.replace('_', '-'), name.replace('_', ''), name.replace('-', '_')}
    for i in range(len(name)):
        out |= {name[:i] + name[i + 1:], name[:i] + name[i] + name[i:], name[:i] + name[i:i + 2][::-1] + name[i + 2:], name[:i + 1], name[i:], name[:i] + name[i].upper() + name[i + 1:]}
    return out - {''}


def variants(key):
    out = set(OTHERS) | set(ALSO.get(key, ())) | {'T', 'F', '1', '0', '2.5', 'none', 'default', 'None'}
    for n in OPTIONS[key][0]:
        out |= edits(n)
    return sorted(out - set(OPTIONS[key][0]))


VARS = ('zb', 'Ct', 'pickup', 'uth', 'us', 'un', 'qs', 'ustar', 'mass', 'moist', 'gw', 'rhoveg', 'hveg', 'uws')


def run(key, name, rel):
    """Result of a short simulation, or the error with the change of the bed until then."""
    names, scen, one = OPTIONS[key]
    rows = 1 if one else 3
    zb = np.array([-.6, .2, .4, .5, .9, 1.3, 1.2])[:7] + np.array([0., .2, .1])[:rows, None]
    kw = dict(grain_size=[.0002, .0005], grain_dist=[.6, .4], dt=60., tstart=60., Cb=1.5, constant_offshore_flux=1e-3, constant_onshore_flux=2e-3)
    kw.update(scen)
    kw['wind_file'] = np.array([[0., 9., 262.], [120., 9., 262.], [121., 11., 95.], [180., 11., 95.], [181., 14., 290.], [1e6, 14., 290.]])
    if 'process_vegetation' in kw:
        kw['veg_file'] = np.where(np.arange(7) == 4, .5, .1) * np.ones((rows, 1)) if rows > 1 else np.where(np.arange(7) == 4, .5, .1)
    kw.update(rel); kw[key] = name
    seen = []
    try:
        np.random.seed(1)
        m = tiny.model(tiny.base(nx=7, ny=0 if one else 3, zb=zb[0] if one else zb, **kw), init=False)
        m.initialize()
        for i in range(4):
            m.update()
            seen.append(np.where(np.isfinite(m.s['uth']), m.s['uth'], -1.))
    except Exception as e:
        return ('error', type(e).__name__, str(e), len(seen))
    return ('ok', {**{v: np.array(m.s[v]) for v in VARS}, 'seen': np.array(seen)})


def same(a, b):
    return all(np.array_equal(a[1][v], b[1][v], equal_nan=True) for v in a[1])


def run_case(rec, case):
    key, rel = case['key'], case['rel']
    names = OPTIONS[key][0]
    ref = {}
    for n in names:
        r = run(key, n, rel); rec.trace(); rec.step(4)
        rec.state(key, n, rel)
        if r[0] == 'error':
            if not rel:
                rec.fail('refused:%s:%s' % (key, n), 'a documented name is refused: %s %s' % r[1:3])
            else:
                rec.check(r[1] in ('ValueError', 'NotImplementedError'), 'crash:%s' % key, 'a combination of documented names ends in an unexpected error: %s %s' % r[1:3], name=n)
            rec.outcome('combination refused')
            continue
        ref[n] = r
        rec.check(all(np.isfinite(r[1][v]).all() for v in VARS if v != 'uth'), 'nonfinite:%s' % key, 'result is not finite', name=n)
        rec.outcome('ran')
    for a, b in itertools.combinations(ref, 2):
        if 'scheme' in rel or key == 'scheme' and 'steady' in rel.get('solver', ''):
            continue        # the steady state does not depend on the numerical scheme, and short explicit steps do not reach the boundaries
        rec.check(not same(ref[a], ref[b]), 'same:%s:%s:%s' % (key, a, b), 'two documented names give exactly the same result', a=a, b=b)
    if not case['edits']:
        return
    for n in variants(key)[case['part']::4]:
        r = run(key, n, rel); rec.trace(); rec.state(key, n, rel)
        if r[0] == 'ok':
            spelled = n.lower()
            if n in ALSO.get(key, ()):
                rec.outcome('undocumented name')
                continue
            rec.check(spelled in names, 'accepted:%s' % key, 'a name that does not exist is accepted', name=n)
            if spelled in ref:
                rec.check(same(r, ref[spelled]), 'other:%s' % key, 'capitals select another method', name=n)
            rec.outcome('capitals accepted')
        else:
            typed = n in ('T', 'F', 'None') or n.replace('.', '').isdigit()     # not read as a name
            rec.check(typed or r[1] in ('ValueError', 'NotImplementedError'), 'crash:%s' % key, 'a name that does not exist ends in an unexpected error: %s %s' % r[1:3], name=n)
            rec.check(r[3] == 0, 'late:%s' % key, 'a name that does not exist is refused after the first step only', name=n, error=r[2])
            rec.outcome('refused')
