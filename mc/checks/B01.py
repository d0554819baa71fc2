"""Bed layer bookkeeping: every sequence of pickups, every column, against a reference column model."""
import itertools
import numpy as np
from mc import tiny

TITLE = 'bed layer bookkeeping'
LEVEL = 'model_checking'
RULE = ('case = (layers, fractions, initial composition kind, update options); inside a case ALL sequences over the '
        'pickup alphabet up to the stated depth run at once, one sequence per grid column; a state is the composition '
        'of one column plus its bed level, a transition one bed update of one column')
ASSUMPTIONS = ['erosion of a fraction never exceeds what the top layer holds (guaranteed by the transport solver, see T01)',
               'all layers have the same thickness', 'fraction masses compared with relative tolerance 1e-9']
CHUNK = 1

# pickup alphabet: (name, function(top layer mass vector, layer mass) -> pickup vector); positive = erosion
def _alpha(nf, tier):
    A = [('none', lambda t, M: np.zeros(nf)),
         ('ero10', lambda t, M: .1 * t),
         ('eroall', lambda t, M: t.copy()),
         ('dep.first', lambda t, M: np.eye(nf)[0] * -.3 * M),
         ('dep.even', lambda t, M: -np.ones(nf) * .8 * M / nf),
         ('dep1.0', lambda t, M: np.eye(nf)[-1] * -M),
         ('dep1.5', lambda t, M: -np.arange(1, nf + 1) / np.arange(1, nf + 1).sum() * 1.5 * M),
         ('dep2.25', lambda t, M: np.eye(nf)[0] * -2.25 * M),
         ('dep9', lambda t, M: -np.ones(nf) / nf * 9. * M)]
    if nf > 1:
        def mix(a, b):
            def f(t, M):
                v = np.zeros(nf); v[0] = a * t[0]; v[1] = -b * M; return v
            return f
        def mixr(a, b):
            def f(t, M):
                v = np.zeros(nf); v[-1] = a * t[-1]; v[0] = -b * M; return v
            return f
        A += [('ero1.dep2', mix(1., .9)), ('ero1.dep2s', mix(.5, .02)), ('dep1.eron', mixr(1., 1.7)),
              ('dep1s.eron', mixr(.9, .01))]
    return A


def depth(nl, nf, tier):
    n = len(_alpha(nf, tier))
    return 3 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('layers 1-4 x fractions 1-3 x 3 kinds of initial composition/base x bed update on/off x tide on/off; all '
            'sequences of length %d over 9 (one fraction) or 13 (more) pickup patterns from -9 to +1 layer masses'
            % depth(1, 1, tier))


def cases(tier):
    for nl in (1, 2, 3, 4):
        for nf in (1, 2, 3):
            for comp in ('uniform', 'layered', 'file'):
                d = depth(nl, nf, tier)
                for bedupdate, tide in ((True, False), (False, False), (True, True)):
                    dd = d if (bedupdate and not tide) else d - 1
                    n = len(_alpha(nf, tier)) if dd > 2 else 1
                    for first in range(n):
                        yield dict(nl=nl, nf=nf, comp=comp, bedupdate=bedupdate, tide=tide, depth=dd,
                                   first=first if dd > 2 else None, tier=tier)
    # the same columns one at a time and in another order: cells do not influence each other
    for nl in (1, 2, 3):
        for nf in (1, 2):
            yield dict(nl=nl, nf=nf, comp='file', bedupdate=True, tide=False, depth=2, first=None, tier=tier, solo=True)


def warmup():
    tiny.warm()


GS = {1: [0.0003], 2: [0.0002, 0.0005], 3: [0.0002, 0.0004, 0.001]}
GD = {1: [1.], 2: [.25, .75], 3: [.5, .3, .2]}


def reference(m, pick, base, M):
    """One column. m: (nl,nf), pick: (nf,), base: composition below the lowest layer.
    Returns the new composition; layer masses are M before and after."""
    m = m.copy(); nl, nf = m.shape
    net = pick.sum()
    if net >= 0 and not np.any(pick != 0):
        return m
    if net > 0:
        E = net
        comp = m / m.sum(axis=1, keepdims=True)
        m[0] -= pick
        for i in range(1, nl):
            m[i - 1] += E * comp[i]; m[i] -= E * comp[i]
        m[-1] += E * base
        return m
    # net deposition (or exact balance): swap the erosional part against an equal mass of deposits first
    ero = np.maximum(pick, 0.); dep = np.maximum(-pick, 0.)
    fresh = dep / dep.sum()
    m[0] += -ero + ero.sum() * fresh
    D = dep.sum() - ero.sum()
    n = int(D // M + 1e-9) if abs(D / M - round(D / M)) > 1e-9 else int(round(D / M))
    k = min(n, nl)
    if k:
        m[k:] = m[:nl - k].copy()
        m[:k] = fresh * M
    R = D - k * M
    if n >= nl and R > 0:
        return m
    comp = m / m.sum(axis=1, keepdims=True)
    m[0] += R * fresh
    for i in range(1, nl):
        m[i - 1] -= R * comp[i - 1]; m[i] += R * comp[i - 1]
    m[-1] -= R * comp[-1]
    return m


def build(case, ncol):
    nl, nf = case['nl'], case['nf']
    thick = .01
    M = 2650. * .6 * thick
    cfg = tiny.base(nx=max(ncol, 2), nlayers=nl, layer_thickness=thick, grain_size=GS[nf], grain_dist=GD[nf],
                    process_bedupdate=case['bedupdate'])
    nx = max(ncol, 2)
    if case['comp'] == 'layered' and nl > 1 and nf > 1:
        gd = np.array([np.roll(GD[nf], i) for i in range(nl)], dtype=float)
        cfg['grain_dist'] = gd
        base = np.tile(gd[-1] / gd[-1].sum(), (nx, 1))
    elif case['comp'] == 'file':
        bc = np.zeros((nx, nl, nf))
        for c in range(nx):
            for l in range(nl):
                v = np.roll(GD[nf], l + c)
                if (c + l) % 5 == 0 and nf > 1:
                    v = np.eye(nf)[(c + l) % nf]     # a layer of a single fraction
                bc[c, l] = v / np.sum(v) * M
        cfg['bedcomp_file'] = bc.reshape((nx * nl, nf)) if nf > 1 else bc.reshape((nx, nl))
        base = bc[:, -1, :] / M
    else:
        base = np.tile(np.array(GD[nf]) / np.sum(GD[nf]), (nx, 1))
    if case['tide']:
        cfg['process_tide'] = True
        cfg['tide_file'] = np.array([[0., -5.], [1e6, -5.]])
    m = tiny.model(cfg)
    return m, M, base


def run_case(rec, case):
    import aeolis.bed
    nl, nf = case['nl'], case['nf']
    A = _alpha(nf, case['tier'])
    d = case['depth']
    rng = range(len(A))
    seqs = list(itertools.product([case['first']] if case['first'] is not None else rng, *[rng] * (d - 1)))
    if case.get('solo'):
        _solo(rec, case, A, seqs); return
    m, M, base = build(case, len(seqs))
    n = len(seqs)
    s, p = m.s, m.p
    p['_time'] = 0.
    rec.close(s['mass'].sum(axis=3), M, 'init-layer-mass', 'initial layer mass')
    zb_ref = s['zb'][0].copy(); zs_ref = s['zs'][0].copy()
    for k in range(d):
        before = s['mass'][0].copy()
        pick = np.array([A[q[k]][1](before[c, 0], M) for c, q in enumerate(seqs)])
        if pick.shape[0] < before.shape[0]:
            pick = np.vstack([pick, np.zeros((before.shape[0] - n, nf))])
        s['pickup'] = pick[np.newaxis].copy()
        m.s = s = aeolis.bed.update(s, p)
        after = s['mass'][0]
        tol = 1e-9 * M + 2e-6          # the code removes negatives down to max_error
        net = -pick.sum(axis=1)
        rec.step(n)
        dz = net / (2650. * .6)
        if case['bedupdate']:
            zb_ref = zb_ref + dz
        if case['bedupdate'] and case['tide']:
            zs_ref = zs_ref + dz
        for c in range(n):
            lab = A[seqs[c][k]][0]
            st = rec.state('col', before[c], pick[c])
            if not st:
                continue
            detail = dict(seq=[A[i][0] for i in seqs[c][:k + 1]], before=before[c], pickup=pick[c], after=after[c], column=c)
            rec.check(np.all(np.isfinite(after[c])), 'nonfinite:' + lab, 'composition not finite', **detail)
            rec.check(after[c].min() >= -1e-9, 'negative-mass:' + lab, 'negative fraction mass', **detail)
            rec.check(np.all(np.abs(after[c].sum(axis=1) - M) <= tol), 'layer-mass:' + lab, 'layer mass changed', **detail)
            ref = reference(before[c], pick[c], base[c], M)
            rec.check(np.all(np.abs(after[c] - ref) <= tol), 'composition:' + lab, 'composition differs from reference', ref=ref, **detail)
            # fraction budget: change = -pickup + exchange with the base, which balances the net mass
            ex = after[c].sum(axis=0) - before[c].sum(axis=0) + pick[c]
            rec.check(abs(ex.sum() + net[c]) <= tol * nl, 'budget:' + lab, 'mass budget open', **detail)
            rec.check(abs(s['zb'][0, c] - zb_ref[c]) <= 1e-9, 'bedlevel:' + lab, 'bed level does not follow net mass',
                      zb=s['zb'][0, c], want=zb_ref[c], **detail)
            rec.check(abs(s['zs'][0, c] - zs_ref[c]) <= 1e-9, 'waterlevel:' + lab, 'water level moved without tide, or not with it',
                      **detail)
            rec.outcome(lab)
    rec.trace(n)
    rec.sample(dict(case=case, sequence=[A[i][0] for i in seqs[-1]], final=s['mass'][0, n - 1]))


def _solo(rec, case, A, seqs):
    """Columns evolved one by one equal the same columns evolved together."""
    import aeolis.bed
    m, M, base = build(case, len(seqs))
    s, p = m.s, m.p; p['_time'] = 0.
    m0 = s['mass'][0].copy(); bc = p['bedcomp_file']
    picks = []
    for k in range(case['depth']):
        pick = np.array([A[q[k]][1](s['mass'][0][c, 0], M) for c, q in enumerate(seqs)])
        picks.append(pick); s['pickup'] = pick[np.newaxis].copy()
        s = aeolis.bed.update(s, p)
    together = s['mass'][0].copy(); zb = s['zb'][0].copy()
    bcs = m0.copy()
    for c in range(len(seqs)):
        # a grid of two columns: c and a quiet neighbour
        m2, _, _ = build(dict(case), 2)
        s2, p2 = m2.s, m2.p; p2['_time'] = 0.
        s2['mass'][0, 0] = m0[c]; s2['mass'][0, 1] = m0[0]
        p2['bedcomp_file'] = np.array([m0[c], m0[0]])
        for k in range(case['depth']):
            s2['pickup'] = np.array([picks[k][c], np.zeros(case['nf'])])[np.newaxis].copy()
            s2 = aeolis.bed.update(s2, p2)
            rec.step()
        rec.state('solo', m0[c], picks[0][c], picks[1][c]); rec.trace()
        lab = A[seqs[c][-1]][0]
        rec.close(s2['mass'][0, 0], together[c], 'cell-coupling:' + lab, 'a column depends on other columns', atol=3e-6,
                  seq=[A[i][0] for i in seqs[c]])
        rec.close(s2['mass'][0, 1], m0[0], 'quiet-neighbour:' + lab, 'a column without pickup changed', atol=3e-6)
        rec.close(s2['zb'][0, 0], zb[c], 'cell-coupling-zb:' + lab, 'bed level depends on other columns')
