"""Supply limitation: every history of winds over scarce beds, on every solver."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'pickup never exceeds the sediment available in the top layer'
LEVEL = 'model_checking'
RULE = ('case = (solver, scheme, bed interaction, grid rows, layer thickness, bed composition pattern, boundaries); inside a case '
        'the tree of ALL wind histories up to the stated depth is explored by snapshot and restore of the real model; a state is '
        '(bed composition, airborne sediment), a transition one model step')
ASSUMPTIONS = ['layers of at least 0.00001 m (thinner layers than that do not converge in the steady state solver)',
               'tolerance is ten times the configured solver error (1e-6 kg/m2)']
CHUNK = 2
WINDS = {'calm': (0., 270.), 'onsh9': (9., 270.), 'obl25': (25., 225.), 'land14': (14., 80.), 'along18': (18., 5.)}
COMBOS = [('trunk', 'euler_backward'), ('trunk', 'crank_nicolson'), ('trunk', 'euler_forward'),
          ('pieter', 'euler_backward'), ('pieter', 'crank_nicolson'), ('pieter', 'euler_forward'),
          ('steadystate', 'euler_backward'), ('steadystatepieter', 'euler_backward')]
PAT = {'mixed': [0., .3, 1., .05, .999], 'one': [1., 0., 1., 1., 0.], 'even': [.5]}
BND = {'default': {}, 'flux': dict(boundary_offshore='flux', offshore_flux=1., boundary_onshore='flux', onshore_flux=0.),
       'const': dict(boundary_onshore='constant', boundary_lateral='constant')}


def depth(tier):
    return 3 if tier == 'quick' else 5


def BOUNDS(tier):
    return ('8 solver/scheme combinations x bed interaction 1, 0.5, 0.05 x 1, 2 or 3 rows of 6 cells x layers 1e-2, 1e-3, 1e-5 m x 3 '
            'composition patterns x 3 boundary sets; all wind histories over 5 winds to depth %d' % depth(tier))


def cases(tier):
    for (solver, scheme), bi, ny, lt, pat, bnd in itertools.product(
            COMBOS, (1., .5, .05), (0, 2, 3), (1e-2, 1e-3, 1e-5), PAT, BND):
        if bnd == 'const' and ny == 0:
            continue
        if tier == 'quick' and ((ny == 2 and bi == .5) or (pat == 'even' and lt == 1e-3) or (bnd != 'default' and lt == 1e-2)):
            continue
        yield dict(solver=solver, scheme=scheme, bi=bi, ny=ny, lt=lt, pat=pat, bnd=bnd, depth=depth(tier))
    for nf, bi in itertools.product((1, 2, 3), (1., .5, .05)):
        yield dict(kind='weights', nf=nf, bi=bi)


def warmup():
    tiny.warm()


def weights(rec, case):
    """The weighing of fractions itself, for all small contents of air and bed, cells without any sediment included."""
    import aeolis.transport as T
    nf, bi = case['nf'], case['bi']
    V = (0., .25, 1., 3.)
    bed = np.array(list(itertools.product(V, repeat=nf)))
    air = np.array(list(itertools.product((0., .5, 2.), repeat=nf)))
    cap = np.array(list(itertools.product((0., 1.), repeat=nf)))
    for c in cap:
        Ct = np.repeat(air, len(bed), axis=0)[None]; ms = np.tile(bed, (len(air), 1))[None]
        s = dict(Ct=Ct.copy(), Cu=np.broadcast_to(c, Ct.shape).copy(), mass=ms[:, :, None, :].copy())
        w = T.compute_weights(s, dict(bi=bi))[0]
        sat = np.where(c > 0, Ct / np.where(c > 0, c, 1), 0)
        wb = ms / np.where(ms.sum(-1, keepdims=True) > 0, ms.sum(-1, keepdims=True), 1)
        raw = (1 - bi) * sat + (1 - np.minimum(1, (1 - bi) * sat.sum(-1, keepdims=True))) * wb
        tot = raw.sum(-1, keepdims=True)
        rec.close(w, raw / np.where(tot > 0, tot, 1), 'compute-weights', 'weights by bed interaction', rtol=1e-9)
        rec.step(Ct.shape[1]); rec.state(c, nf, bi)
        for ix in range(nf):
            r = T.renormalize_weights(w.copy(), ix)
            rec.check(np.all(r >= 0) and np.all(np.abs(r.sum(-1) - 1) <= 1e-9), 'renormalize-sum', 'weights do not sum to one', worst=np.abs(r.sum(-1) - 1).max(), ix=ix)
            rec.trace(r.shape[1])
        rec.outcome('empty %d' % int((tot == 0).sum() > 0))
    # limited weights: fractions before ix keep their weight, the others fill up
    lim = np.array(list(itertools.product((0., .2, .7), repeat=nf)))[None]
    for ix in range(nf):
        f = lim[:, :, :ix].sum(-1); rest = lim[:, :, ix:].sum(-1)
        ok = (f <= 1) & (rest > 0)
        r = T.renormalize_weights(lim.copy(), ix)
        rec.close(r[ok][:, :ix], lim[ok][:, :ix], 'renormalize-limited', 'weights of limited fractions change', rtol=1e-9)
        rec.close(r[ok].sum(-1), 1., 'renormalize-fill', 'weights do not sum to one', rtol=1e-9)
        rec.close(r[ok][:, ix:] * rest[ok][:, None], lim[ok][:, ix:] * (1 - f[ok])[:, None], 'renormalize-share', 'remaining fractions do not share the rest by weight', rtol=1e-9, atol=1e-12)


def run_case(rec, case):
    if case.get('kind') == 'weights':
        return weights(rec, case)
    ny, lt = case['ny'], case['lt']
    rows = max(ny, 1)
    N = 2650. * .6 * lt
    f = np.resize(PAT[case['pat']], rows * 6)
    mass = np.stack([f * N, (1 - f) * N], -1)[:, None, :].repeat(2, 1)
    mass[:, 1] = mass[::-1, 1]
    cfg = tiny.base(nx=6, ny=ny, zb=np.zeros(6) if ny == 0 else np.zeros((rows, 6)), solver=case['solver'],
                    scheme=case['scheme'], grain_size=[.0002, .0004], grain_dist=[.4, .6], CFL=.9, bi=case['bi'],
                    layer_thickness=lt, bedcomp_file=mass.reshape((-1, 2)), tstart=60., **BND[case['bnd']])
    root = tiny.model(cfg)
    tol = 1e-5
    def walk(m, hist):
        for name, (u, d) in WINDS.items():
            k = copy.deepcopy(m)
            k.set_var('wind_file', np.array([[0., u, d], [1e9, u, d]]))
            before = k.s['mass'].copy()
            k.update()
            h = hist + [name]
            rec.step(); rec.trace()
            s = k.s
            rec.state('T01', s['mass'], s['Ct'], name, case['solver'], case['bi'])
            det = dict(history=h)
            w = h[-1]
            if u == 0.:
                rec.check(np.array_equal(s['mass'], before), 'calm-bed-moves', 'bed composition changes without wind', **det)
            else:
                over = (s['pickup'] - before[:, :, 0, :]).max()
                rec.check(over <= tol, 'over-pickup:' + w, 'more picked up than there is', over=over, **det)
                rec.check(np.isfinite(s['pickup']).all(), 'pickup-nonfinite:' + w, **det)
                rec.check(s['w'].min() >= -1e-9 and s['w'].sum(axis=2).max() <= 1. + 1e-6, 'weights:' + w,
                          'fraction weights outside [0,1]', w=s['w'], **det)
            rec.check(np.isfinite(s['Ct']).all() and s['Ct'].min() >= -1e-9, 'negative-air:' + w, 'negative or non-finite airborne sediment',
                      Ct=s['Ct'], **det)
            rec.check(np.isfinite(s['mass']).all() and s['mass'].min() >= -tol, 'negative-bed:' + w,
                      'negative or non-finite bed mass', mass=s['mass'].min(), **det)
            rec.check(np.abs(s['mass'].sum(axis=3) - N).max() <= tol, 'layer-mass:' + w, 'layer mass drifts', **det)
            # a fraction absent from the bed column is never picked up
            none = before.sum(axis=2) == 0.
            if u and none.any():
                rec.check(s['pickup'][none].max() <= tol, 'phantom-fraction:' + w, 'picked up a fraction that is not there', **det)
            rec.outcome('%s.%s' % (name, 'limited' if u and (s['pickup'] >= before[:, :, 0, :] - tol).any() else 'free'))
            if rec.deeper(case['depth'] - len(h), k):
                walk(k, h)
            elif len(h) == case['depth']:
                rec.sample(dict(case=case, history=h, Ct=s['Ct'].ravel()[:6]))
    walk(root, [])
