"""Wetting, drying, salt, wave mixing of the bed and bed reset: every history of water levels and waves."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'moisture, salt, mixing and bed reset follow the water level history'
LEVEL = 'model_checking'
RULE = ('case = (processes, layers, fractions, rows, time step, parameters); inside a case ALL histories of water level, wave height and wind to the depth '
        'are executed by snapshot and restore; after every step moisture, salt, composition and bed level of each cell are compared with a reference '
        'model of that cell (wetting, exponential drying, mixing over the depth of disturbance, relaxation to the initial bed)')
ASSUMPTIONS = ['infiltration moisture model', 'layers of equal thickness', 'time scale of the bed reset longer than the time step',
               'the wind is below the threshold of motion, so that the bed changes by the reset only (its change by transport is the subject of T02)',
               'salinity: a flooded cell is saturated, others decay and gain by precipitation, as implemented']
THICK = [.03, .01, .06, .02, .05]
CHUNK = 1
LEVELS = (-1., .25, 1.1)
WAVES = (0., .5, 3.)


def depth(tier):
    return 3 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('moisture x salt x mixing x bed reset on/off, 1-5 layers of equal and different thickness, 1 and 3 fractions, 1-D and 2 rows, runup on/off, steps of 60 and 1800 s (and requested steps of 0.5 and 1.4 times these), acceleration; all histories '
            'of 3 water levels x 3 wave heights x calm/weak wind (9 combinations) to depth %d, plus external changes of moisture and bed' % depth(tier))


def cases(tier):
    for moist, salt, mix, reset in itertools.product((0, 1), repeat=4):
        if moist + salt + mix + reset == 0:
            continue
        for nl, nf, ny, runup, dt in itertools.product((1, 3, 5), (1, 3), (0, 2), (0, 1), (60., 1800.)):
            if not mix and (nl != 3 or nf == 3):
                continue
            if tier == 'quick' and moist + salt + mix + reset not in (1, 4):
                continue
            if tier == 'quick' and ((nl == 5) + (ny == 2) + runup + (dt == 60.) > 1):
                continue
            yield dict(moist=moist, salt=salt, mix=mix, reset=reset, nl=nl, nf=nf, ny=ny, runup=runup, dt=dt, depth=depth(tier))
    # layers of different thickness
    for nl, nf, ny, salt in itertools.product((2, 3, 5), (1, 3), (0, 2), (0, 1)):
        yield dict(moist=0, salt=salt, mix=1, reset=0, nl=nl, nf=nf, ny=ny, runup=0, dt=1800., depth=depth(tier), uneven=1)


def warmup():
    tiny.warm()


def run_case(rec, case):
    ny = case['ny']; rows = max(1, ny); nx = 6; nl, nf, dt = case['nl'], case['nf'], case['dt']
    zb0 = np.array([-2., -.6, -.05, .2501, .9, 2.])[None, :] + np.array([0., .37])[:rows, None]
    TH = np.array(THICK[:nl] if case.get('uneven') else [.03] * nl); C = TH.cumsum()
    gs, gd = ([.0003], [1.]) if nf == 1 else ([.0002, .0004, .0009], [.2, .5, .3])
    kw = dict(process_tide=True, process_wave=True, process_runup=bool(case['runup']), tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 0., 5.], [1e9, 0., 5.]]),
              process_moist=bool(case['moist']), process_salt=bool(case['salt']), process_mixtoplayer=bool(case['mix']), process_wet_bed_reset=bool(case['reset']),
              nlayers=nl, grain_size=gs, grain_dist=gd, dt=dt, Tdry=3000., Tsalt=20000., Tbedreset=7200., layer_thickness=list(TH) if case.get('uneven') else .03, facDOD=.1, u=3.)
    if case['salt']:
        kw['meteo_file'] = np.array([[0., 10., 1., 2., 100., 80.], [1e9, 10., 1., 2., 100., 80.]])
    M = 2650 * .6 * TH
    if case['mix']:
        comp = np.resize(np.arange(1., 12.), (rows * nx, nl * nf)).reshape(rows * nx, nl, nf)
        comp = comp / comp.sum(2, keepdims=True) * M[:, None]
        kw['bedcomp_file'] = comp.reshape(rows * nx, nl * nf)
    m = tiny.model(tiny.base(nx=nx, ny=ny, zb=zb0 if ny else zb0[0], **kw))
    # the bed has moved since the start
    m.s['zb'][:] += np.array([.3, -.2, .1, 0., -.4, .2])
    A = list(itertools.product(LEVELS, WAVES))
    def cell_mix(mass, D):
        """Composition of one column after waves with depth of disturbance D."""
        if D <= 0:
            return mass
        total = C[-1]
        f = min(1., total / D)
        k = sum(1 for i in range(nl) if C[i] <= D * (1 + 1e-12))
        out = mass.copy()
        if k > 0:
            avg = mass[:k].sum(axis=0) / mass[:k].sum()
            out[:k] = avg * mass[:k].sum(axis=1, keepdims=True) * f + mass[:k] * (1 - f)
        return out
    def walk(m, hist):
        for lv, hw in A:
            n = copy.deepcopy(m)
            u = (0., 3.)[(len(hist) + A.index((lv, hw))) % 2]
            n.set_var('tide_file', np.array([[0., lv], [1e9, lv]])); n.set_var('wave_file', np.array([[0., hw, 6.], [1e9, hw, 6.]]))
            n.set_var('wind_file', np.array([[0., u, 270.], [1e9, u, 270.]]))
            if len(hist) == 1 and lv == LEVELS[2]:
                n.set_var('moist', np.full((rows, nx), .05)); n.s['zb'][:, 2] += .2
            b = {k: n.s[k].copy() for k in ('zb', 'moist', 'salt', 'mass')}
            st = dt * (1., .5, 1.4)[(2 * len(hist) + A.index((lv, hw))) % 3]
            n.update(st); rec.step(); rec.trace()
            s = n.s; h = hist + [(lv, hw, u, st)]; det = dict(history=h)
            twl = s['TWL']
            rec.close(s['SWL'], lv, 'SWL', 'water level', **det)
            near = np.abs(twl - b['zb'] - 1e-3) < 1e-9
            wet = twl - b['zb'] > 1e-3
            if case['moist']:
                want = np.where(wet, .4, np.clip(b['moist'] * .5**(st / 3000.), 0, .4))
                rec.close(s['moist'][~near], want[~near], 'moist', 'moisture', rtol=1e-9, **det)
            else:
                rec.close(s['moist'], b['moist'], 'moist-off', 'moisture changed', **det)
            if case['salt']:
                want = np.minimum(1., np.where(wet, 1., b['salt'][:, :, 0] * .5**(st / 20000.)) + 2. / 3.6e6 * st / .03)
                rec.close(s['salt'][:, :, 0][~near], want[~near], 'salt', 'salt content', rtol=1e-9, **det)
            else:
                rec.close(s['salt'], b['salt'], 'salt-off', 'salt changed', **det)
            mass = b['mass'].copy()
            if case['mix']:
                Hm = np.minimum(.5 * np.maximum(0, twl - b['zb']), hw)
                rec.close(s['Hsmix'], Hm, 'Hsmix', 'wave height for mixing', **det)
                for j in range(rows):
                    for i in range(nx):
                        mass[j, i] = cell_mix(b['mass'][j, i], .1 * Hm[j, i])
                edge = (np.abs(.1 * Hm[:, :, None] - C) < 1e-10).any(axis=2)
                edge &= Hm > 0
                ok = ~edge
                rec.close(s['mass'][ok], mass[ok], 'mass', 'composition after mixing', rtol=1e-9, atol=1e-9, **det)
                rec.close(s['mass'].sum(axis=3), M + 0 * s['mass'].sum(axis=3), 'layer', 'mass of the layers', rtol=1e-9, **det)
                rec.close(s['mass'].sum(axis=2), b['mass'].sum(axis=2), 'fraction', 'mass of the fractions', rtol=1e-9, **det)
                rec.outcome('mixed' if np.any(np.abs(mass - b['mass']) > 1e-9) else 'unmixed')
            else:
                rec.close(s['mass'], mass, 'mass-off', 'composition changed', rtol=1e-9, **det)
            zb = b['zb'].copy()
            if case['reset'] and u > 0:
                deep = np.maximum(lv, b['zb']) > b['zb'] + .01
                zb[deep] += (zb0[deep] - zb[deep]) * st / 7200.
                ok = np.abs(lv - b['zb'] - .01) > 1e-9
            else:
                ok = np.ones(zb.shape, bool)
            rec.close(s['zb'][ok], zb[ok], 'zb', 'bed level', rtol=1e-9, atol=1e-10, **det)
            fresh = rec.state(s['zb'], s['moist'], s['salt'], s['mass'])
            if len(h) < case['depth'] and fresh:
                walk(n, h)
    walk(m, [])
    rec.sample(dict(case=case))
