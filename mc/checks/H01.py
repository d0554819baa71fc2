"""Water levels and waves: every combination of processes and masks, every series, at every knot and gap."""
import contextlib, copy, io, itertools
import numpy as np
from mc import tiny

TITLE = 'water levels, waves and runup follow their series and masks'
LEVEL = 'model_checking'
RULE = ('case = (tide, wave, runup processes, files present, masks, rows, bed); all series of the bounded set are assigned in turn to one model, '
        'which is moved through knots, gaps and exterior times; after each step every hydrodynamic variable is compared with independent '
        'interpolation, depth limitation, masks and the runup formula')
ASSUMPTIONS = ['beyond its last entry a series repeats, starting one second after the last entry', 'no masks on fields that an external model provides',
               'wave periods are positive']
CHUNK = 1
LEVELS = (-1.5, 0., .8)
WAVES = ((0., 5.), (.4, 8.), (2.5, 3.))
TK = np.array([20., 60., 160.])


def BOUNDS(tier):
    return ('tide x wave x runup on/off, each file present or not, 3 masks on/off, 1-D and 3 rows with different profiles, beach slope 0.02 and 0.1; all series of %d entries over '
            '3 levels and 3 wave conditions at %s times, continued for two repetitions; all histories of 2 (3) fields of an external model for water level and/or waves (5 levels, 3 waves, or unchanged)' % (3 if tier != 'quick' else 2, 'all'))


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for tide, wave, runup, tf, wf, tm, wm, rm, ny, sl in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 3), (.02, .1)):
        if (not tide and (not tf or tm)) or (not wave and (not wf or wm)) or (not runup and (rm or sl == .02)):
            continue
        if tier == 'quick' and ((not tf) + (not wf) + tm + wm + rm not in (0, 1, 3)):
            continue
        yield dict(tide=tide, wave=wave, runup=runup, tf=tf, wf=wf, tm=tm, wm=wm, rm=rm, ny=ny, slope=sl, n=n)
    for zs, hs, runup, ny, sl in itertools.product((0, 1), (0, 1), (0, 1), (0, 3), (.02, .1)):
        if zs or hs:
            yield dict(external=True, zs=zs, hs=hs, runup=runup, ny=ny, slope=sl, n=n)


def warmup():
    tiny.warm()


def at(tk, v, t):
    """Piecewise linear; the series repeats with its length plus one second; interpolation only inside the series."""
    t0, t1 = tk[0], tk[-1]
    per = t1 - t0 + 1.
    while t > t1:
        t -= per
    while t < t0 - 1.:
        t += per
    return float(np.interp(t, tk, v))


def stockdon(H, T, b):
    if H <= 0 or T <= 0:
        return 0., 0., 0.
    L = 9.81 * T**2 / 2 / np.pi
    if b / np.sqrt(H / L) < .3:
        R = .043 * np.sqrt(H * L); sg = .023 * np.sqrt(H * L)
        return R - sg, sg, R
    eta = .35 * b * np.sqrt(H * L)
    sg = np.sqrt(H * L * (.563 * b**2 + .0004)) / 2
    return eta, sg, 1.1 * (eta + sg)


def run_external(rec, case):
    """An external model provides water levels and/or waves; every history of its fields, which may also stay as they are."""
    ny = case['ny']; rows = max(ny, 1); nx = 6
    prof = np.array([-3., -1., -.2, .3, 1., 2.])
    zb = (prof + np.array([0., 1.9, 4.5])[:, None])[:rows]
    dep = np.resize([2., .7, 1.4, 0., 0., .5, 1., 0., 0.], (rows, nx))
    fields = dict(zs=[zb.copy(), np.maximum(zb, .45), np.maximum(zb, 1.2 + .1 * np.arange(nx)), zb + dep, zb + 4.],
                  hs=[(np.zeros((rows, nx)), np.full((rows, nx), 6.)), (np.resize([.4, 1.7, 0.], (rows, nx)), np.resize([8., 3.], (rows, nx))), (np.full((rows, nx), 2.5), np.full((rows, nx), 14.))])
    ext = ['zs'] * case['zs'] + ['Hs', 'Tp'] * case['hs']
    m0 = tiny.model(tiny.base(nx=nx, ny=ny, zb=zb if ny else zb[0], process_tide=True, process_wave=True, process_runup=bool(case['runup']), beach_slope=case['slope'],
                              external_vars=ext, tide_file=np.array([[0., .6], [1e9, .6]]), wave_file=np.array([[0., 1., 5.], [1e9, 1., 5.]]), u=2., process_bedupdate=False))
    ops = list(itertools.product([None] + list(range(5)) if case['zs'] else [None], [None] + list(range(3)) if case['hs'] else [None]))
    for seq in itertools.product(ops, repeat=2 if case['zs'] and case['hs'] and case['n'] == 2 else case['n']):
        if seq[0][0] is None and case['zs'] or seq[0][1] is None and case['hs']:
            continue                                    # the external model starts with a field
        m = copy.deepcopy(m0)
        zs = Hs = Tp = None
        for iz, ih in seq:
            if iz is not None:
                zs = fields['zs'][iz]; m.set_var('zs', zs.copy())
            if ih is not None:
                Hs, Tp = fields['hs'][ih]; m.set_var('Hs', Hs.copy()); m.set_var('Tp', Tp.copy())
            m.update(); rec.step(); rec.trace(); s = m.s
            det = dict(seq=seq)
            rec.state(case['zs'], case['hs'], seq)
            swl = np.full((rows, nx), .6)
            if case['zs']:
                wet = np.argwhere(zs - zb > 2e-4)
                rec.outcome('wet' if len(wet) == zb.size else 'dry' if len(wet) == 0 else 'partly wet')
                if len(wet):
                    for i, j in np.ndindex(rows, nx):   # the level of a nearest wet cell
                        d = ((wet - [i, j])**2).sum(1)
                        near = [zs[a, b] for a, b in wet[d == d.min()]]
                        rec.check(min(abs(s['SWL'][i, j] - v) for v in near) < 1e-9, 'external-level', 'water level is not that of a nearest wet cell', cell=(i, j), got=s['SWL'][i, j], want=near, **det)
                    swl = s['SWL'].copy()
                else:
                    swl = zs
                    rec.close(s['SWL'], zs, 'external-dry', 'water level without any wet cell', **det)
            else:
                rec.close(s['SWL'], swl, 'SWL', 'still water level', **det)
            h, p = (Hs, Tp) if case['hs'] else (np.minimum(.5 * np.maximum(0, swl - zb), 1.), np.full((rows, nx), 5.))
            rec.close(s['Hs'], h, 'external-Hs', 'wave height', rtol=1e-9, **det); rec.close(s['Tp'], p, 'external-Tp', 'wave period', rtol=1e-9, **det)
            R = np.zeros((rows, nx)); eta = np.zeros((rows, nx))
            if case['runup']:
                for i, j in np.ndindex(rows, nx):
                    jj = j if case['hs'] else 0
                    eta[i, j], _, R[i, j] = stockdon(h[i, jj], p[i, jj], case['slope'])
            rec.close(s['TWL'], swl + R, 'external-TWL', 'total water level', rtol=1e-9, atol=1e-10, **det)
            rec.close(s['DSWL'], swl if case['hs'] else swl + eta, 'external-DSWL', 'dynamic still water level', rtol=1e-9, atol=1e-10, **det)
            rec.close(s['zs'], np.maximum(swl, zb), 'external-zs', 'water surface', rtol=1e-9, **det)
    rec.sample(dict(case=case))


def run_case(rec, case):
    if case.get('external'):
        with contextlib.redirect_stdout(io.StringIO()):     # the code prints a note at every step
            return run_external(rec, case)
    ny = case['ny']; rows = max(ny, 1); nx = 6
    prof = np.array([-3., -1., -.2, .3, 1., 2.])
    zb = prof + np.array([0., 1.9, 4.5])[:rows, None] * (np.arange(nx) < 9)
    if rows == 1:
        zb = zb[:1]
    mask = lambda k: np.resize([1., .5, 1 + .3j, 0, 0.2 - .4j, 2.], (rows, nx)).astype(complex) * (1. if k == 0 else 1. + .1 * k)
    kw = dict(process_tide=bool(case['tide']), process_wave=bool(case['wave']), process_runup=bool(case['runup']), beach_slope=case['slope'],
              tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 0., 5.], [1e9, 0., 5.]]), dt=1., u=2., process_bedupdate=False)
    masks = {}
    for i, (f, name) in enumerate((('tm', 'tide_mask'), ('wm', 'wave_mask'), ('rm', 'runup_mask'))):
        if case[f]:
            masks[name] = mask(i)
            kw[name] = masks[name] if ny else masks[name][0]
    if not case['tf']:
        kw['tide_file'] = 'DROP'
    if not case['wf']:
        kw['wave_file'] = 'DROP'
    m0 = tiny.model(tiny.base(nx=nx, ny=ny, zb=zb if ny else zb[0], **kw))
    def apply(v, name):
        if name not in masks:
            return v
        return v * masks[name].real + masks[name].imag
    tk = TK[:case['n']]
    L = list(itertools.product(LEVELS, repeat=case['n'])) if case['tide'] and case['tf'] else [(0.,) * case['n']]
    W = list(itertools.product(WAVES, repeat=case['n'])) if case['wave'] and case['wf'] else [((0., 5.),) * case['n']]
    times = [0., 7., 20., 20. + 13., 60.] + ([97., 160., 161., 175., 331.] if case['n'] == 3 else [61., 75., 132.])
    one = np.ones((rows, nx))
    if case['n'] == 3 and len(L) * len(W) > 100:
        W = [w for w in W if len(set(w)) > 1][::3]
    for il, lv in enumerate(L):
        for iw, wv in enumerate(W):
            m = copy.deepcopy(m0)
            if case['tf']:
                m.set_var('tide_file', np.array([tk, lv]).T)
            if case['wf']:
                m.set_var('wave_file', np.array([tk, [a for a, b in wv], [b for a, b in wv]]).T)
            for t in times:
                if t - m.t > 1.:
                    m.update(-(t - m.t))
                if abs(m.t - t) > 1e-9:
                    continue
                m.update(); rec.step(); rec.trace()
                s = m.s
                det = dict(levels=lv, waves=wv, t=t)
                swl = 0. * one
                if case['tide']:
                    swl = apply((at(tk, lv, t) if case['tf'] else 0.) * one, 'tide_mask')
                Hs, Tp = 0. * one, 0. * one
                if case['wave'] and case['wf']:
                    h0 = at(tk, [a for a, b in wv], t); t0 = at(tk, [b for a, b in wv], t)
                    Hs = apply(np.minimum(.5 * np.maximum(0, swl - zb), h0), 'wave_mask')
                    Tp = apply(t0 * one, 'wave_mask')
                twl, dswl = swl, swl
                eta, sg, R = 0. * one, 0. * one, 0. * one
                if case['runup']:
                    for j in range(rows):
                        eta[j], sg[j], R[j] = stockdon(Hs[j, 0], Tp[j, 0], case['slope'])
                    eta, R = apply(eta, 'runup_mask'), apply(R, 'runup_mask')
                    twl, dswl = swl + R, swl + eta
                hm = 0. * one
                if case['wave'] and case['wf']:
                    hm = apply(np.minimum(.5 * np.maximum(0, twl - zb), h0), 'wave_mask')
                rec.state(swl, Hs, Tp, R, case['slope'])
                rec.outcome('R%d.H%d' % (int(R.max() > 0), int(Hs.max() > 0)))
                tol = dict(rtol=1e-9, atol=1e-10)
                for k, v in dict(SWL=swl, Hs=Hs, Tp=Tp, TWL=twl, DSWL=dswl, R=R, eta=eta, Hsmix=hm, zs=np.maximum(swl, zb)).items():
                    rec.close(s[k], v, k, '%s does not follow its series' % k, **tol, **det)
                if case['runup']:
                    rec.close(s['sigma_s'], sg, 'sigma_s', 'swash', **tol, **det)
                rec.close(s['zb'], zb, 'zb', 'bed changed', **det)
    rec.sample(dict(case=case, times=times))
