"""Symmetry of the model: rotation, reflection and shift of the grid, one row and many rows, both wind conventions."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'results do not depend on the orientation or numbering of the grid'
LEVEL = 'model_checking'
RULE = ('case = (solver, process set, transformation); the reference model and the transformed model are stepped together through ALL wind '
        'histories to the depth by snapshot and restore; after every step bed level, bed composition, airborne sediment, pickup, threshold '
        'and the flux vectors of one must be the transformation of those of the other')
ASSUMPTIONS = ['shear perturbation and fences in two dimensions (computed on a rotated auxiliary grid) are not exactly invariant and left to W02 and F01',
               'winds are not exactly along a grid axis, where the sign of a rounding error would select the boundary condition or the upwind neighbour',
               'relative tolerance 1e-6',
               'avalanching, vegetation and the slope terms of Duran treat the lateral boundary as closed, so periodic shifts are not applied to them']
CHUNK = 1
WINDS = {'calm': (0., 270.), 'on9': (9., 262.), 'ob20': (20., 225.), 'ob12': (12., 318.), 'land13': (13., 70.)}
TRANS = ('alfa', 'rot30', 'rot-20', 'rot60', 'rot135', 'rot-100', 'mirror', 'shift', 'onerow', 'cartesian', 'mirror-rot45', 'origin', 'onerow-rot180')
FEATURES = ('plain', 'mask', 'avalanche', 'moist', 'veg', 'tworow', 'accel', 'constspeed', 'duran')
ONLY_ALFA = ('okin1', 'fence1', 'shear1', 'sep1', 'fence2', 'shear2')


def depth(tier):
    return 3 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('4 solvers x 9 process sets x 13 transformations of a 4 x 6 grid, and 6 process sets with shear, vegetation and fences under a change of the orientation parameter and of the direction of the coordinate; all histories of 5 winds to depth %d' % depth(tier))


def cases(tier):
    for solver, f, t in itertools.product(('trunk', 'pieter', 'steadystate', 'steadystatepieter'), FEATURES, TRANS):
        if solver != 'trunk' and f not in ('plain', 'mask', 'tworow') and tier == 'quick':
            continue
        if t == 'shift' and f in ('avalanche', 'veg', 'duran') or t.startswith('onerow') and f == 'avalanche':
            continue        # closed, not periodic, in lateral direction
        yield dict(solver=solver, feat=f, trans=t, depth=depth(tier))
    for solver, f in itertools.product(('trunk', 'pieter', 'steadystate', 'steadystatepieter'), ONLY_ALFA):
        if solver == 'trunk' or tier != 'quick':
            yield dict(solver=solver, feat=f, trans='alfa', depth=2 if f[-1] == '2' else depth(tier))
            if f[-1] == '1':
                yield dict(solver=solver, feat=f, trans='rot180', depth=depth(tier))


def warmup():
    tiny.warm()


V2 = ('zb', 'ustar', 'tau', 'uw', 'rhoveg', 'hveg', 'moist', 'zs')
V3 = ('Ct', 'pickup', 'Cu', 'uth', 'u', 'w')
VEC = (('qs', 'qn'), ('uws', 'uwn'), ('ustars', 'ustarn'), ('taus', 'taun'))
GRIDVEC = (('us', 'un'),)


def run_case(rec, case):
    f, t = case['feat'], case['trans']
    oned = f in ONLY_ALFA and f[-1] == '1'
    rows = 1 if oned else 2 if f == 'tworow' else 4
    nx = 6
    one = t.startswith('onerow')
    prof = np.array([-.4, -.1, .3, .35, .8, .5])
    if one:
        zb = np.tile(prof, (rows, 1))
    else:
        zb = prof + .15 * np.array([[0, 1, -1, 2, 0, 1], [1, 0, 2, -1, 1, 0], [0, 2, 0, 1, -1, 1], [2, 0, 1, 0, 1, -1]])[:rows]
    base = dict(solver=case['solver'], grain_size=[.0002, .0005], grain_dist=[.6, .4], layer_thickness=2e-3, tstart=60., dt=20.)
    fields = dict(bed_file=zb)
    if f == 'mask':
        fields['threshold_mask'] = np.resize([1, 1 + .1j, 1.2, 1, 1.4, 1 + .3j, 1], (rows, nx)).astype(complex)
        if one:
            fields['threshold_mask'] = np.tile(fields['threshold_mask'][:1], (rows, 1))
    if f == 'avalanche':
        base.update(process_avalanche=True, theta_stat=20., theta_dyn=15.)
        fields['ne_file'] = zb - 2.
    if f == 'moist':
        base.update(process_tide=True, process_moist=True, th_moisture=True, tide_file=np.array([[0., -.3], [60., -.3], [100., .2], [1e9, .2]]), Tdry=40.)
    if f == 'veg':
        base.update(process_vegetation=True, V_ver=1., veg_sigma=.8, veg_min_elevation=-9.)
        fields['veg_file'] = np.resize([0, .1, .3, 0, .8], (rows, nx)) if not one else np.tile([0, .1, .3, 0, .8, .1], (rows, 1))
    if f == 'okin1':
        base.update(process_vegetation=True, vegshear_type='okin', veg_min_elevation=-9.)
        fields['veg_file'] = np.array([[0, .2, 0, .5, 0, 0]])
    if f in ('fence1', 'fence2'):
        base.update(process_fences=True)
        fields['fence_file'] = np.zeros((rows, nx)); fields['fence_file'][rows // 2, 3] = .8
    if f in ('shear1', 'shear2', 'sep1'):
        base.update(process_shear=True, process_separation=f == 'sep1', buffer_width=10.)
        if f == 'sep1':
            zb = np.array([[0, 1, 2, 3, 4, 4, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0.]]); fields['bed_file'] = zb; nx = 16
    if f == 'accel':
        base.update(accfac=10.)
    if f == 'constspeed':
        base.update(method_grainspeed='constant')
    if f == 'duran':
        base.update(method_grainspeed='duran')
    # transformation: rows map, field map, wind map
    orient, alpha, flip, roll, conv, x0, y0 = 0., 0., False, 0, 'nautical', 0., 0.
    for part in t.split('-rot') if '-rot' in t else [t]:
        if part.startswith('rot'):
            alpha = float(part[3:])
        elif part == 'mirror':
            flip = True
        elif part == 'shift':
            roll = 1
        elif part == 'cartesian':
            conv = 'cartesian'
        elif part == 'alfa':
            orient = 40.
        elif part == 'origin':
            x0, y0 = 83000.25, 455000.5
        elif part not in ('onerow',):
            alpha = float(part)
    def T(a):
        if flip:
            a = a[::-1]
        a = np.roll(a, roll, 0)
        return a[:1] if one else a
    def build(tr):
        fl = {k: (tr(v)[0] if tr is T and one or oned else tr(v)) for k, v in fields.items()}
        zz = fl.pop('bed_file')
        kw = dict(base); kw.update(fl)
        if tr is T:
            c = tiny.base(nx=nx, ny=0 if one or oned else rows, zb=zz, alpha=alpha, wind_convention=conv, alfa=orient, **kw)
            if (one or oned) and alpha == 180.:
                c['xgrid_file'] = -c['xgrid_file']
            if not one and not oned:
                c['xgrid_file'], c['ygrid_file'] = tiny.grid2d(nx, rows, 1., 1., alpha, x0, y0)
        else:
            c = tiny.base(nx=nx, ny=0 if oned else rows, zb=zz, **kw)
        return c
    names = ('zsep', 'hsep') if f == 'sep1' else ()
    ref = tiny.model(build(lambda a: a), 'ref.txt')
    new = tiny.model(build(T), 'new.txt')
    # the convention is applied at initialisation, so wind files for it are converted the way the documentation says
    def wdir(d):
        d = 180. - d if flip else d
        return d - alpha + orient
    def R(u, v, a):
        a = np.deg2rad(a)
        return u * np.cos(a) - v * np.sin(a), u * np.sin(a) + v * np.cos(a)
    def walk(m, k0, hist):
        for name, (u, d) in WINDS.items():
            a, b = copy.deepcopy(m), copy.deepcopy(k0)
            a.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
            b.set_var('wind_file', np.array([[0., u, wdir(d)], [1e9, u, wdir(d)]]))
            a.update(); b.update()
            h = hist + [name]; det = dict(history=h)
            rec.step(2); rec.trace()
            fresh = rec.state(a.s['zb'], a.s['Ct'], a.s['mass'], name, t, f, case['solver'])
            tol = dict(rtol=1e-6, atol=1e-9)
            for v in V2 + V3 + names:
                rec.close(b.s[v], T(a.s[v]), v, '%s differs after %s' % (v, t), **tol, **det)
            rec.close(b.s['mass'], T(a.s['mass']), 'mass', 'mass differs after %s' % t, rtol=1e-6, atol=1e-6, **det)
            sg = -1. if flip else 1.
            for p, q in VEC:
                uu, vv = T(a.s[p]), sg * T(a.s[q])
                uu, vv = R(uu, vv, alpha)
                rec.close(b.s[p], uu, p, '%s differs after %s' % (p, t), **tol, **det)
                rec.close(b.s[q], vv, q, '%s differs after %s' % (q, t), **tol, **det)
            for p, q in GRIDVEC:
                rec.close(b.s[p], T(a.s[p]), p, '%s differs after %s' % (p, t), **tol, **det)
                rec.close(b.s[q], sg * T(a.s[q]), q, '%s differs after %s' % (q, t), **tol, **det)
            dd = (b.s['udir'] - wdir(d)) % 360.
            rec.check(u == 0 or np.all(np.minimum(dd, 360 - dd) < 1e-6), 'udir', 'reported wind direction', **det)
            rec.outcome('%s.%d' % (name, int(np.sign(np.abs(a.s['pickup']).max()))))
            if len(h) < case['depth'] and fresh:
                walk(a, b, h)
    if conv == 'cartesian':
        # same series through the input file in both conventions
        for name, (u, d) in WINDS.items():
            base['wind_file'] = np.array([[0., u, d], [1e9, u, d]])
            a = tiny.model(build(lambda z: z), 'ref.txt')
            base['wind_file'] = np.array([[0., u, 270. - d], [1e9, u, 270. - d]])
            b = tiny.model(build(T), 'new.txt')
            for i in range(case['depth']):
                a.update(); b.update(); rec.step(2); rec.trace()
                for v in V2 + V3 + ('qs', 'qn'):
                    rec.close(b.s[v], a.s[v], 'cartesian:' + v, wind=(u, d), rtol=1e-4, atol=1e-6)
        return
    walk(ref, new, [])
    rec.sample(dict(case=case, alpha=alpha))
