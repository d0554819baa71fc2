"""Groundwater and surface moisture: every history of water levels and waves, against a reference transect."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'groundwater and surface moisture follow the water level history'
LEVEL = 'model_checking'
RULE = ('case = (rows, landward boundary, seepage, runup, sub-steps, scanning curves, mask, water level start, start time); inside a case ALL histories of water level, wave and '
        'rain to the depth are executed by snapshot and restore; after every step the groundwater level of each row is compared with an independent Runge-Kutta solution of the '
        'Boussinesq equation for that row alone, and the moisture of each cell with the retention and scanning curves; bounds are checked throughout')
ASSUMPTIONS = ['the water level is constant or changes linearly during one step', 'the wind is below the threshold of motion', 'profiles of eleven cells of 5 m']
CHUNK = 1
LEVELS = (-1.6, -.3, .42, 2.2)
NX = 11; DX = 5.
PROF = np.array([[-1.5, -1.1, -.7, -.3, .05, .4, .8, 1.1, 1.3, 1.5, 1.8],
                 [-1.2, -.9, .2, .6, .3, .1, .5, .9, 1.4, 1.2, 1.0],
                 [-2., -1.8, -1.6, -1.4, -1., -.4, .3, 1.2, 2.6, 2.8, 3.]])


def depth(tier):
    return 3 if tier == 'quick' else 4


def BOUNDS(tier):
    return ('1 and 3 rows (slope, berm with trough, steep) of %d cells, no_flow/static boundary, seepage on/off, waves on/off, 1/4 groundwater steps, scanning curves on/off, mask on/off, '
            '2 initial levels, start at 0 or 60 s or skip the first 60 s; all histories of 4 water levels (below, within, above the profile) x rain on/off x wave on/off to depth %d; without waves also water levels that rise or fall within the steps' % (NX, depth(tier)))


def cases(tier):
    for ny, bound, seep, wave, nsub, scan, mask, gw0, t0, moist in itertools.product((0, 3), ('no_flow', 'static'), (0, 1), (0, 1), (1, 4), (0, 1), (0, 1), (0., -.8), (0., 60., -60.), (0, 1)):
        if not moist and scan:
            continue
        if nsub == 4 and not wave and not moist | mask | scan and (tier != 'quick' or (gw0 == t0 == 0)):
            for r in (.35, -.6):
                yield dict(ny=ny, bound=bound, seep=seep, wave=wave, nsub=nsub, scan=scan, mask=mask, gw0=gw0, t0=t0, moist=moist, depth=depth(tier), ramp=r)
        odd = (bound == 'static') + seep + (nsub == 4) + mask + (gw0 != 0 or t0 != 0) + (gw0 != 0 and t0 > 0) + (not moist)
        if tier == 'quick' and odd > 1:
            continue
        if tier != 'quick' and (odd > 3 or (odd == 3 and ny)):
            continue
        yield dict(ny=ny, bound=bound, seep=seep, wave=wave, nsub=nsub, scan=scan, mask=mask, gw0=gw0, t0=t0, moist=moist, depth=depth(tier), ramp=0.)
    for tot in (60., 120.):
        yield dict(kind='overheight', total=tot)


def warmup():
    tiny.warm()
    m = tiny.model(config(dict(ny=0, bound='no_flow', seep=0, wave=1, nsub=1, scan=1, mask=0, gw0=0., t0=0., moist=1)))
    m.update()


P = dict(K=.002, ne=.3, D=5., GW=.3, Cl=3.)


def config(c, **over):
    ny = c['ny']
    zb = PROF if ny else PROF[0]
    kw = dict(process_tide=True, process_wave=bool(c['wave']), process_runup=bool(c['wave']), tide_file=np.array([[0., 0.], [1e9, 0.]]), wave_file=np.array([[0., 0., 6.], [1e9, 0., 6.]]),
              process_groundwater=True, process_moist=bool(c['moist']), method_moist_process='surf_moisture', process_scanning=bool(c['scan']), process_seepage_face=bool(c['seep']),
              boundary_gw=c['bound'], GW_stat=P['GW'], K_gw=P['K'], ne_gw=P['ne'], D_gw=P['D'], Cl_gw=P['Cl'], tfac_gw=c['nsub'], in_gw=c['gw0'], dt=120., tstart=max(c['t0'], 0.), tstop=1e7,
              meteo_file=np.array([[0., 10., 8., 0., 100., 80.], [1e9, 10., 8., 0., 100., 80.]]), th_moisture=True, u=3., fc=.1, Tdry=1500., thick_moist=.05)
    if c['mask']:
        mk = np.resize([1., 1., .9, 1. + .02j, 1., .8 - .05j, 1.], PROF.shape if ny else NX).astype(complex)
        kw['gw_mask'] = mk
    kw.update(over)
    return tiny.base(**{**dict(nx=NX, ny=ny, dx=DX, dy=5., zb=zb), **kw})


def rate(g, sh):
    """d gw / dt of one row (Boussinesq, central differences), nonzero landward of the shoreline and away from the landward boundary."""
    n = len(g); out = np.zeros(n)
    flux = np.zeros(n)
    lo, hi = sh, n - 3          # flux b defined on lo..hi
    for i in range(lo, hi + 1):
        flux[i] = g[i] * (g[i + 1] - g[i - 1]) / (2 * DX)
    for i in range(sh + 1, n - 3):
        out[i] = P['K'] / P['ne'] * (P['D'] * (g[i + 1] - 2 * g[i] + g[i - 1]) / DX**2 + (flux[i + 1] - flux[i - 1]) / (2 * DX))
    return out


def bc(g, zb, lev, sh, c):
    g = g.copy()
    g[sh] = lev[sh]; g[sh - 1] = lev[sh - 1]
    g[-3:] = g[-4] if c['bound'] == 'no_flow' else P['GW']
    if c['seep']:
        below = np.nonzero(g + .05 < zb)[0]
        k = below[0] if len(below) else 0
        if sh < k - 1:
            g[sh:k - 1] = zb[sh:k - 1]
    return g


def limit(zb, level):
    ix = np.nonzero(zb > level)[0]
    return (ix[0] - 1) if len(ix) else len(zb) - 1


def ref_gw(g, zb, last, twl, x, c, dt, mask):
    for k in range(c['nsub']):
        h = dt / c['nsub']
        lev = last - c['ramp'] * (c['nsub'] - 1 - k) / c['nsub']     # the water level at the start of the sub-step
        twl = lev if c['ramp'] else twl
        sh = max(limit(zb, lev), 1) if np.any(zb > lev) else len(zb) - 1
        ru = max(limit(zb, twl), sh) if np.any(zb > twl) else len(zb) - 1
        ru = max(ru, sh)
        g0 = bc(g, zb, lev, sh, c); f1 = rate(g0, sh)
        g1 = bc(g0 + h / 2 * f1, zb, lev, sh, c); f2 = rate(g1, sh)
        g2 = bc(g0 + h / 2 * f2, zb, lev, sh, c); f3 = rate(g2, sh)
        g3 = bc(g0 + h * f3, zb, lev, sh, c); f4 = rate(g3, sh)
        g = g0 + h / 6 * (f1 + 2 * f2 + 2 * f3 + f4)
        if c['wave'] and ru > sh:
            L = x[ru] - x[sh]
            pk = int(sh + 2 / 3 * (ru - sh))
            for i in range(sh, ru):
                f = (x[i] - x[sh]) / (2 / 3 * L) if i < pk else 3 - (x[i] - x[sh]) / (L / 3)
                if i == pk:
                    f = 1.
                g[i] += h * P['Cl'] * P['K'] / P['ne'] * f
        if mask is not None:
            g = g * mask.real + mask.imag
        g = np.minimum(g, zb)
        g = np.where(zb < lev, lev, g)
    return g


VG = dict(w=(.01, .35, 2.3, .57, -.07), d=(.01, .5, 4.5, .42, -.035))


def vg(k, h):
    r, s, n, mm, a = VG[k]
    return r + (s - r) / (1 + abs(a * h)**n)**mm


def ref_swr(pre, gw, zb, init, scan):
    """Moisture by capillary rise in one cell; pre = values before the step."""
    h = max(0., (zb - gw) * 100)
    w, d = vg('w', h), vg('d', h)
    if not scan:
        return dict(moist_swr=w if pre['wetting'] else d)
    if init:
        return dict(moist_swr=w, h_delta=h, scan_w=0, scan_d=0)
    wet, sw, sd, gp = pre['wetting'], pre['scan_w'], pre['scan_d'], pre['gw']
    hd = pre['h_delta']
    rising = gw > gp; falling = gw < gp
    ws = .35; ds = .5; res = .01
    # depth at the reversal
    if (not sw and wet and falling) or (not sd and not wet and rising):
        hd = h
    if sw and wet and falling:
        x = min((pre['scan_w_moist'] - pre['w_h']) * (ds - pre['w_h']) / (pre['d_h'] - pre['w_h']) + pre['w_h'], ws)
        r, s, n, mm, a = VG['w']
        hd = max(1 / a * ((s - r) / max(x - r, 1e-5)) ** 0 * ((((s - r) / max(x - r, 1e-5))**(1 / mm)) - 1)**(1 / n), 0)
    if sd and not wet and rising:
        hh = 0.
        while True:
            hh += .01
            a, b = vg('w', hh), vg('d', hh)
            if pre['w_h'] + (ws - pre['w_h']) / max(ws - a, 1e-4) * (b - a) - pre['scan_d_moist'] <= .01:
                break
        hd = hh
    wd, dd = vg('w', hd), vg('d', hd)
    onw = max(min(w + (ws - w) / max(ws - wd, 1e-4) * (dd - wd), d), w)
    ond = max(min(w + (wd - w) / max(ds - w, 1e-4) * (d - w), d), w)
    if falling:
        if not wet and not sd:
            out, nw, nd = d, 0, 0
        else:
            out, nw, nd = ond, 0, int(ond < d)
    else:
        if wet and not sw:
            out, nw, nd = w, 0, 0
        else:
            out, nw, nd = onw, int(onw > w), 0
    return dict(moist_swr=out, h_delta=hd, scan_w=nw, scan_d=nd, scan_w_moist=onw, scan_d_moist=ond)


def penman(T, Q, pr, U, uw, z=10.):
    es = .6108 * np.exp(17.27 * T / (T + 237.3))
    mm = 4098. * es / (T + 237.3)**2
    lam = 2.26
    gam = 1.0035e-3 * pr / (.622 * lam)
    u2 = .174 / np.log10(z / 2) * uw
    return (mm * Q + 6.43 * gam * es * (1 - U / 100) * (1 + .86 * u2)) / (lam * (mm + gam))


def run_case(rec, case):
    if case.get('kind') == 'overheight':
        return overheight(rec, case)
    m0 = tiny.model(config(case))
    if case['t0'] < 0:
        m0.update(case['t0'])        # the start of the simulation is skipped
    ny = case['ny']; rows = max(ny, 1); zb0 = PROF[:rows]; x = np.arange(NX) * DX
    mask = None
    if case['mask']:
        mask = np.resize([1., 1., .9, 1. + .02j, 1., .8 - .05j, 1.], (rows, NX))
    acts = [(lv, H, rain) for lv in LEVELS for H in ((0., 1.5) if case['wave'] else (0.,)) for rain in ((0., 4.) if case['moist'] else (0.,))]
    if len(acts) == 16 and case['depth'] < 4:
        acts = [a for i, a in enumerate(acts) if a[2] == 0 or a[0] < 0]
    elif len(acts) == 16:
        acts = acts[::2]
    depth = case['depth'] if len(acts) <= 8 else case['depth'] - 1
    keep = ('gw', 'gw_prev', 'wetting', 'scan_w', 'scan_d', 'h_delta', 'w_h', 'd_h', 'scan_w_moist', 'scan_d_moist', 'moist_swr', 'moist')

    def go(m, hist):
        for a in acts:
            n = copy.deepcopy(m); h = hist + [a]
            lv, H, rain = a
            lv += .013 * (case['ramp'] != 0)          # not exactly at the level of a cell
            dt = 120. * (1., .5, 1.4)[(2 * len(hist) + acts.index(a)) % 3]
            n.set_var('tide_file', np.array([[n.t - 1., lv - case['ramp'] / dt], [n.t + dt + 1., lv + case['ramp'] * (1 + 1 / dt)]]))
            uw = (3., 1., 2.)[(len(hist) + acts.index(a) // 2) % 3]     # below the threshold of motion
            n.set_var('wind_file', np.array([[0., uw, 270.], [1e9, uw, 270.]]))
            n.set_var('wave_file', np.array([[0., H, 6.], [1e9, H, 6.]]))
            n.set_var('meteo_file', np.array([[0., 10., 8., rain, 100., 80.], [1e9, 10., 8., rain, 100., 80.]]))
            pre = {k: np.array(n.s[k], copy=True) for k in keep}
            t = n.t
            zb = zb0 + .31 * len(hist)         # the bed rises between the steps
            n.s['zb'][:] = zb
            n.update(dt); rec.step()
            check(rec, case, pre, n, t, zb, x, mask, dict(history=h), rain)
            rec.state(*[n.s[k] for k in keep[:8]])
            if len(h) < depth:
                go(n, h)
            else:
                rec.trace()
    go(m0, [])
    rec.sample(dict(case=case, last=np.round(m0.s['gw'][0], 3).tolist()))


def check(rec, case, pre, m, t, zb, x, mask, det, rain):
    s = m.s; dt = m.t - t
    init = abs(t - abs(case['t0'])) < 1e-9
    for j in range(len(zb)):
        lev, twl = s['DSWL'][j], s['TWL'][j]
        g0 = np.full(NX, case['gw0']) if init else pre['gw'][j]
        want = ref_gw(g0, zb[j], lev, twl, x, case, dt, None if mask is None else mask[j])
        rec.close(s['gw'][j], want, 'gw', 'groundwater level of a row', rtol=1e-8, atol=1e-9, row=j, before=g0, level=lev[0], **det)
        rec.close(s['gw_prev'][j], g0, 'gw-previous', 'groundwater of the previous step', row=j, **det)
    wetp = (pre['gw'] > pre['gw_prev']) & (not init)
    rec.check(np.array_equal(np.asarray(s['wetting'], bool), wetp), 'wetting', 'wetting flag', got=s['wetting'], want=wetp, **det)
    sub = zb < s['DSWL']
    rec.check(np.all(s['gw'] <= np.maximum(zb, s['DSWL']) + 1e-12), 'gw-above-bed', 'groundwater above bed and water level', **det)
    rec.check(np.array_equal(s['gw'][sub], s['DSWL'][sub]), 'gw-submerged', 'groundwater equals water level in submerged cells', **det)
    rec.outcome('submerged %d of %d, %s' % (sub.sum(), sub.size, 'rising' if np.any(s['gw'] > pre['gw']) else 'falling'))
    if not case['moist']:
        rec.check(np.array_equal(s['moist'], pre['moist']), 'moist-off', 'moisture changed without process', **det)
        return
    mo = s['moist']
    rec.check(np.all(np.isfinite(mo)) and np.all(mo >= .01 - 1e-9) and np.all(mo <= .5 + 1e-9), 'moist-range', 'moisture between residual and satiated', moist=mo, **det)
    evo = penman(10., 8., 100., 80., float(s['uw'][0, 0])) / 24 / 3600 / 1000.
    for j, i in np.ndindex(zb.shape):
        pc = {k: pre[k][j, i] for k in pre}
        if init:
            pc['gw'] = case['gw0']
        pc['wetting'] = wetp[j, i]
        r = ref_swr(pc, s['gw'][j, i], zb[j, i], init, case['scan'])
        for k, tol in (('moist_swr', 3e-3), ('scan_w_moist', 3e-3), ('scan_d_moist', 3e-3), ('h_delta', .05)):
            if k in r:
                rec.evals += 1
                v = float(s[k][j, i])
                if not abs(v - r[k]) <= (tol if case['scan'] else 1e-9):
                    rec.fail('swr-' + k, 'capillary moisture', cell=(j, i), got=v, want=r[k], pre=pc, **det)
        for k in ('scan_w', 'scan_d'):
            if k in r:
                rec.check(int(s[k][j, i]) == r[k], k, 'scanning flag', cell=(j, i), **det)
        v = float(pc['moist'])
        v += min(0., (v - .1) * (np.exp(np.log(.5) / 1500. * dt) - 1))
        if s['TWL'][j, i] > zb[j, i]:
            v = .5
        else:
            v = min(max(v + (rain / 3600 / 1000. - evo) * dt / .05, .01), .5)
        v = min(max(v, float(s['moist_swr'][j, i])), .5)
        rec.evals += 1
        if not abs(mo[j, i] - v) <= 1e-9 + 1e-4 * abs(evo * dt / .05):
            rec.fail('moist', 'surface moisture', cell=(j, i), got=float(mo[j, i]), want=v, pre=pc, **det)


def overheight(rec, case):
    """The infiltration of runup into the groundwater over a fixed time must not depend on the number of groundwater steps."""
    res = []
    for nsub in (4, 8, 16):
        m = tiny.model(config(dict(ny=0, bound='no_flow', seep=0, wave=1, nsub=nsub, scan=0, mask=0, gw0=-.8, t0=0., moist=0), dt=case['total'], Cl_gw=1., zb=np.r_[-5., np.linspace(-.3, .6, NX - 1)],
                              tide_file=np.array([[0., -.2], [1e9, -.2]]), wave_file=np.array([[0., 1.5, 6.], [1e9, 1.5, 6.]])))
        m.update(); rec.step(); rec.trace(); rec.state(m.s['gw'])
        res.append(m.s['gw'].copy())
    rec.outcome('overheight')
    rec.sample([r[0].tolist() for r in res])
    d1, d2 = np.abs(res[1] - res[0]).max(), np.abs(res[2] - res[1]).max()
    rec.check(d2 <= d1 + 1e-9 or d2 < 1e-4, 'overheight-depends-on-groundwater-step', 'runup infiltration is added per groundwater step whatever its length', d1=d1, d2=d2)
