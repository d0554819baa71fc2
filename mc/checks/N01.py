"""Initial state: every form in which a bed, a composition, masks and a grid can be given; dumps of output files."""
import itertools, os
import numpy as np
from mc import tiny

TITLE = 'a model starts from exactly the bed and composition it is given'
LEVEL = 'model_checking'
RULE = ('init: ALL combinations of the form of the composition, its number type, rows, layers, fractions, thickness of the layers, orientation and the way of giving the bed; the initial state and the '
        'state after calm steps are compared with a direct evaluation of the definition; dump: ALL records and variables of the output files of all histories of wind to the depth are dumped, '
        'read back and used as initial state of a new model, which must have the state of that record and continue as a model that is set to it')
ASSUMPTIONS = ['rectangular grids in two dimensions (one cell size per direction)', 'output is stored in single precision']
CHUNK = 4
FORMS = ('default', 'number', 'ints', 'floats', 'unnormalised', 'layers', 'bedcomp', 'bedcomp-ints')
ALPHA = (0., 30., 90., 135., 180., 250., 300.)


def BOUNDS(tier):
    return ('%d forms of the composition x 1-3 layers x 1-3 fractions x thickness per bed or per layer x 1-D grids (ascending, descending, offset, varying) and 2-D grids of 2 and 3 rows in %d orientations x beds and '
            'masks given as row, matrix or absent; dumps: all histories of 3 winds to depth %d, every record, 5 variables'
            % (len(FORMS), 3 if tier == 'quick' else len(ALPHA), 2 if tier == 'quick' else 4))


def cases(tier):
    for form, nl, nf, thick in itertools.product(FORMS, (1, 2, 3), (1, 2, 3), ('one', 'list')):
        if form in ('default', 'number') and nf > 1:
            continue
        for grid in ['up', 'down', 'offset', 'varying'] + [(ny, a) for ny in (2, 3) for a in (ALPHA if tier != 'quick' else (0., 90., 250.))]:
            if tier == 'quick' and nl == 3 and nf == 3 and thick == 'list' and form not in ('layers', 'bedcomp'):
                continue
            yield dict(kind='init', form=form, nl=nl, nf=nf, thick=thick, grid=grid)
    winds = (0., 11., 15.)
    for ny, nl, nf in itertools.product((0, 2, 3), (1, 2, 3), (1, 2, 3)):
        for first in itertools.product(winds, repeat=2):
            yield dict(kind='dump', ny=ny, nl=nl, nf=nf, winds=list(first), depth=2 if tier == 'quick' else 4)


def warmup():
    tiny.warm()


GS = [.0002, .0003, .0005]


def dist(form, nl, nf):
    """(configuration value, weights per layer and fraction)"""
    if form == 'default':
        return None, np.ones((nl, 1))
    if form == 'number':
        return 1, np.ones((nl, 1))
    if form in ('ints', 'bedcomp-ints'):
        g = [1, 3, 2][:nf]
    elif form == 'unnormalised':
        g = [.5, 1.5, 4.][:nf]
    elif form == 'layers':
        g = np.array([[1., 3., 2.], [2., 0., 5.], [.1, .2, .3]])[:nl, :nf]
        return g, g / g.sum(axis=1)[:, None]
    else:
        g = {1: [1.], 2: [.25, .75], 3: [.5, .3, .2]}[nf]
    w = np.array(g, float); w = w / w.sum()
    return g, np.tile(w, (nl, 1))


def run_case(rec, case):
    (init if case['kind'] == 'init' else dump)(rec, case)
    rec.sample(dict(case=case))


def init(rec, case):
    nl, nf, form, grid = case['nl'], case['nf'], case['form'], case['grid']
    gd, w = dist(form, nl, nf)
    if form == 'layers' and (nl == 1 or nf == 1):
        rec.skipped['a distribution per layer of one layer or one fraction is not a matrix'] = 1
        return
    th = np.full(nl, .0125) if case['thick'] == 'one' else np.array([.0125, .02, .005])[:nl]
    cfg = dict(nlayers=nl, layer_thickness=float(th[0]) if case['thick'] == 'one' or nl == 1 else [float(t) for t in th], u=0., porosity=.35, rhog=2600.)
    if gd is not None:
        cfg['grain_size'] = GS[:nf]; cfg['grain_dist'] = gd
    if isinstance(grid, str):
        rows, nx = 1, 4
        x = {'up': np.arange(4.), 'down': np.arange(4.)[::-1] * 2. - 7., 'offset': np.arange(4.) * .5 + 72000.25, 'varying': np.array([-3., -1., 0., .5])}[grid]
        y = np.zeros(4)
        d = np.abs(np.diff(x)); ds = np.r_[d[0], d][None]; dn = np.ones((1, 4))
    else:
        rows, nx = grid[0], 4
        x, y = tiny.grid2d(nx, rows, 2., 3., grid[1], 100., -50.)
        ds = np.full((rows, nx), 2.); dn = np.full((rows, nx), 3.)
    cells = np.arange(rows * nx).reshape(rows, nx)
    zb = 1. + .01 * cells * (-1.) ** cells
    for bed in ('plain', 'row') if rows == 1 else ('plain',):
        for ne, mask, uth in itertools.product((False, True), ('none', 'real', 'complex'), (False, True)):
            c = tiny.base(nx=nx, ny=0 if rows == 1 else rows, **cfg)
            c['xgrid_file'] = x if bed == 'plain' else x[None]
            if rows > 1:
                c['ygrid_file'] = y
            c['bed_file'] = zb[0] if rows == 1 and bed == 'plain' else zb
            if ne:
                c['ne_file'] = zb - .3 if rows > 1 else zb[0] - .3
            mk = None
            if mask != 'none':
                mk = .1 * (cells + 1) * (1. if mask == 'real' else 1. + .25j)
                for k in ('wave_mask', 'tide_mask', 'runup_mask', 'gw_mask', 'threshold_mask'):
                    c[k] = mk
            if uth:
                c['threshold_file'] = .2 + .01 * cells
            comp = None
            if form.startswith('bedcomp'):
                comp = (1. + np.arange(rows * nx * nl * nf).reshape(rows, nx, nl, nf)) * 1.7
                c['bedcomp_file'] = comp.reshape(-1, nl * nf) if not ne else comp.reshape(-1, nx)
            m = tiny.model(c); rec.trace(); s = m.s; p = m.p
            det = dict(ne=ne, mask=mask, uth=uth, bed=bed)
            rec.check((p['nx'], p['ny'], p['nlayers'], p['nfractions']) == (nx - 1, rows - 1, nl, nf), 'dimensions', 'dimensions of the model', **det)
            rec.close(s['zb'], zb, 'bed', 'initial bed level', **det)
            rec.close(s['zb0'], zb, 'bed0', 'reference bed level', **det)
            rec.close(s['zne'], zb - .3 if ne else zb * np.nan, 'zne', 'non-erodible layer', **det)
            rec.close(s['x'], np.reshape(x, (rows, nx)), 'x', 'coordinates', rtol=1e-15, **det)
            rec.close(s['y'], np.reshape(y, (rows, nx)), 'y', 'coordinates', rtol=1e-15, **det)
            rec.close(s['ds'], ds, 'ds', 'cell sizes along the grid lines', rtol=1e-9, **det)
            rec.close(s['dn'], dn, 'dn', 'cell sizes across the grid lines', rtol=1e-9, **det)
            rec.close(s['dsdn'], ds * dn, 'area', 'cell areas', rtol=1e-9, **det)
            rec.close(s['thlyr'], np.broadcast_to(th, (rows, nx, nl)), 'thickness', 'layer thickness', **det)
            want = comp if comp is not None else np.broadcast_to(2600. * .65 * th[:, None] * w, (rows, nx, nl, nf))
            rec.close(s['mass'], want, 'composition', 'initial bed composition', **det)
            for k in ('wave_mask', 'tide_mask', 'runup_mask', 'gw_mask', 'threshold_mask'):
                got = np.asarray(s[k])
                if mk is None:
                    rec.check(got.ndim == 0 and got == 1., 'mask', 'mask %s' % k, got=got, **det)
                else:
                    rec.check(got.shape == (rows, nx) and np.allclose(got, mk, rtol=1e-9), 'mask', 'mask %s' % k, got=repr(got), **det)
            if uth:
                rec.close(s['uth'], np.repeat((.2 + .01 * cells)[:, :, None], nf, axis=2), 'threshold', 'initial threshold', **det)
            rec.state(s['zb'], s['mass'], s['x'], ne, mask, uth)
            for k in range(2):
                m.update(600.); rec.step()
                rec.close(m.s['zb'], zb, 'calm-bed', 'bed level after a calm step', rtol=0, atol=0, **det)
                rec.close(m.s['mass'], want, 'calm-composition', 'composition after a calm step', **det)
    rec.outcome(form)


def dump(rec, case):
    import netCDF4
    import aeolis.netcdf as N, aeolis.model as M
    ny, nl, nf = case['ny'], case['nl'], case['nf']
    nx = 5; rows = max(ny, 1)
    out = ['zb', 'mass', 'Ct', 'ustar', 'uth']
    for rest in itertools.product((0., 11., 15.), repeat=case['depth'] - 2):
        W = case['winds'] + list(rest)
        zb = 1. + .05 * np.sin(np.arange(rows * nx)).reshape(rows, nx)
        cfg = tiny.base(nx=nx, ny=ny, zb=zb if ny else zb[0], nlayers=nl, grain_size=GS[:nf], grain_dist=[1. / nf] * nf, layer_thickness=.001, output_vars=' '.join(out), tstop=60. * len(W), dt=60.,
                        output_times=60., output_file='out.nc')
        cfg['wind_file'] = np.array([[60. * k, u, 262.] for k, u in enumerate(W + [W[-1]])])
        m = tiny.model(cfg, name='a.txt', runner=True)
        states = []
        m.output_init(); m.output_write(); states.append({k: m.s[k].copy() for k in out})
        for k in range(len(W)):
            m.update(); rec.step(); m.output_write()
            states.append({k: m.s[k].copy() for k in out})
        nrec = len(states)
        for ix in list(range(nrec)) + [-1, -nrec]:
            for v in out:
                name = 'd_%s.txt' % v
                if v == 'mass' and ix == -1:
                    N.dump('out.nc', name)
                else:
                    N.dump('out.nc', name, var=v, ix=ix)
                got = np.loadtxt(name); want = states[ix][v].astype('f4')
                rec.check(got.size == want.size and np.array_equal(got.reshape(want.shape), want), 'dump', 'a dumped grid has the values of the record', var=v, ix=ix, got=got, want=want, winds=W)
                rec.step()
            c = dict(cfg); c['bedcomp_file'] = 'd_mass.txt'; c['bed_file'] = 'd_zb.txt'; c['threshold_file'] = 'DROP'
            c = {k: q for k, q in c.items() if not (isinstance(q, str) and q == 'DROP')}
            c['wind_file'] = np.array([[0., 13., 262.], [1e6, 13., 262.]])
            b = tiny.model(c, name='b.txt'); rec.trace()
            want = states[ix]
            rec.close(b.s['mass'], want['mass'].astype('f4'), 'resume-composition', 'composition of a model that starts from a dump', rtol=0, atol=0, ix=ix, winds=W)
            rec.close(b.s['zb'], want['zb'].astype('f4'), 'resume-bed', 'bed of a model that starts from a dump', rtol=0, atol=0, ix=ix, winds=W)
            rec.state(b.s['mass'], b.s['zb'])
            c2 = {k: q for k, q in c.items() if k not in ('bedcomp_file', 'bed_file')}; c2['bed_file'] = cfg['bed_file']
            f = tiny.model(c2, name='c.txt')
            f.set_var('mass', b.s['mass'].copy()); f.set_var('zb', b.s['zb'].copy())
            b.update(); f.update(); rec.step(2)
            # the sediment below the lowest layer follows the initial composition: compare what does not depend on it
            for v in ('Ct', 'pickup', 'zb', 'uth', 'ustar'):
                rec.close(b.s[v], f.s[v], 'resume-%s' % v, 'a model that starts from a dump continues as one that is set to that state', rtol=1e-9, ix=ix, winds=W)
            rec.close(b.s['mass'][:, :, :-1], f.s['mass'][:, :, :-1], 'resume-mass', 'composition of the upper layers', rtol=1e-9, ix=ix, winds=W)
    rec.outcome('dump')
