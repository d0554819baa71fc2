"""Vegetation: every answer of the random generator, every history of wind and water level."""
import contextlib, copy, itertools
import numpy as np
from mc import tiny

TITLE = 'vegetation germinates, spreads, grows, drowns and shelters as specified'
LEVEL = 'model_checking'
RULE = ('case = (rows, cell size, growth formulation, vertical growth, probabilities, roughness model, orientation, time step, acceleration); the random generator is replaced by a '
        'choice point: inside a case ALL patterns of answers (certain germination, none, just below and just above each probability) x winds x water levels to the depth are executed '
        'by snapshot and restore and compared with a reference automaton of each cell; the shear velocity is compared with the Raupach or Okin reduction')
ASSUMPTIONS = ['the random numbers are drawn with one call of numpy.random per time step and shape of the grid', 'time step shorter than the growth time scale']
CHUNK = 1
YEAR = 365.25 * 86400.


def BOUNDS(tier):
    return ('1-D of 4 cells: all 16 answer patterns; 2 and 3 rows x 3 cells: all single-cell patterns and all/none; boundary answers; x 3 environments (weak wind, storm, flood); 5 exchanged covers; depth 2%s'
            % ('' if tier == 'quick' else ' and 3 on one third of the patterns'))


def cases(tier):
    for ny, dx, gt, V, (pg, pl), shear, dt, acc in itertools.product((0, 2, 3), (1., 2.5), ('orig', 'duranmoore14'), (0., 6.), ((0., 0.), (.9, 0.), (0., .9), (.6, .8), (1., 1.)),
                                                                      ('raupach', 'okin'), (3600., 10 * 86400.), (1., 3.)):
        if shear == 'okin' and ny:
            continue
        if tier == 'quick' and (dx != 1.) + (V == 0) + ((pg, pl) != (.6, .8)) + (shear == 'okin') + (dt == 3600.) + (acc != 1.) + (ny == 2) > 1:
            continue
        if tier != 'quick' and (dx != 1.) + (V == 0) + ((pg, pl) != (.6, .8)) + (shear == 'okin') + (dt == 3600.) + (acc != 1.) + (ny == 2) > 3:
            continue
        yield dict(ny=ny, dx=dx, gt=gt, V=V, pg=pg, pl=pl, shear=shear, dt=dt, acc=acc, deep=tier != 'quick')
    for gt, scheme in itertools.product(('orig', 'duranmoore14'), ('euler_forward', 'euler_backward')):
        yield dict(kind='timestep', gt=gt, scheme=scheme)


def warmup():
    tiny.warm()


@contextlib.contextmanager
def answers(values):
    """Let the random generator answer the given field."""
    def give(*shape, **kw):
        return values.copy()
    names = ('random', 'rand', 'random_sample', 'uniform', 'ranf', 'sample')
    old = {k: getattr(np.random, k) for k in names}
    try:
        for k in names:
            setattr(np.random, k, give)
        yield
    finally:
        for k in names:
            setattr(np.random, k, old[k])


def neighbours(r, dx, dy):
    n = np.zeros(r.shape)
    ny, nx = r.shape
    for j, i in np.ndindex(r.shape):
        for a, b in ((j, i - 1), (j, i + 1), (j - 1, i), (j + 1, i)):
            if 0 <= a < ny and 0 <= b < nx and r[a, b] > r[j, i]:
                n[j, i] += 1
    return n


P = dict(hmax=.8, dzb_opt=.1, gam=1.2, rmax=.6, t_veg=300., v_gam=.7, zmin=.5, rough=16., sigma=.8)


def gauss(v, sigma):
    """Separable Gaussian with reflection, truncated at four sigma."""
    r = int(4 * sigma + .5); k = np.exp(-.5 * (np.arange(-r, r + 1) / sigma)**2); k /= k.sum()
    for ax in (0, 1):
        n = v.shape[ax]
        idx = np.arange(-r, n + r) % (2 * n)
        idx = np.where(idx >= n, 2 * n - 1 - idx, idx)
        w = np.take(v, idx, ax)
        v = sum(k[q] * np.take(w, np.arange(q, q + n), ax) for q in range(2 * r + 1))
    return v


def okin(x, h, sign, c=.48, r0=.32):
    red = np.zeros(len(x))
    for i in range(len(x)):
        if h[i] > 0:
            d = sign * (x - x[i])
            ok = (d >= 0) & (d / h[i] < 20)
            r = 1 - (r0 + (1 - r0) * (1 - np.exp(-d * c / h[i])))
            r = np.where(ok, r, 0.); r[r < 1e-5] = 0
            red += r
    return 1 - np.minimum(red, 1)


def run_case(rec, case):
    if case.get('kind') == 'timestep':
        return timestep(rec, case)
    ny = case['ny']; rows = max(1, ny); nx = 3 if ny else 4; dx = case['dx']; dy = 1.5
    zb = np.array([[.2, .8, 1.4, 2.]])[:, :nx] + np.array([[0.], [.35], [.1]])[:rows]
    veg = np.array([[.3, 0., .5, 0.]])[:, :nx] * np.array([[1.], [0.], [.5]])[:rows]
    kw = dict(process_vegetation=True, veg_file=veg if ny else veg[0], V_ver=case['V'], veggrowth_type=case['gt'], germinate=case['pg'], lateral=case['pl'], hveg_max=P['hmax'],
              dzb_opt=P['dzb_opt'], veg_gamma=P['gam'], rhoveg_max=P['rmax'], t_veg=P['t_veg'], v_gam=P['v_gam'], veg_min_elevation=P['zmin'], vegshear_type=case['shear'],
              process_tide=True, tide_file=np.array([[0., -1.], [1e12, -1.]]), dt=1.7 * case['dt'], accfac=case['acc'], tstop=1e12, T=max(1., case['dt'] / 50), gamma_vegshear=P['rough'], veg_sigma=P['sigma'])
    m0 = tiny.model(tiny.base(nx=nx, ny=ny, dx=dx, dy=dy, zb=zb if ny else zb[0], tend=1e12, **kw))
    rec.close(m0.s['rhoveg'], veg, 'initial', 'initial cover', rtol=0, atol=0)
    rec.close(m0.s['hveg'], P['hmax'] * np.sqrt(veg), 'initial-height', 'initial height')
    dtl = case['dt'] * case['acc']
    pg = 1 - (1 - case['pg'])**(dtl / YEAR)
    pl = 1 - (1 - (1 - (1 - case['pl'])**(dtl / YEAR)))**(1. / dx)
    lo, hi = 1e-14, 1 - 1e-12
    if ny:
        pats = [np.full((rows, nx), hi), np.full((rows, nx), lo)] + [np.where(np.arange(rows * nx).reshape(rows, nx) == k, lo, hi) for k in range(rows * nx)]
    else:
        pats = [np.array([[lo if b >> i & 1 else hi for i in range(nx)]]) for b in range(1 << nx)]
    edge = []
    for q in (pg, pl, 2 * pl, 3 * pl):
        if 1e-12 < q < .999:
            edge += [np.full((rows, nx), q * (1 - 1e-7)), np.full((rows, nx), q * (1 + 1e-7))]
    envs = (('weak', 3., -1.), ('storm', 22. if case['dt'] < 1e5 else 9.5, -1.), ('flood', 3., 1.1))
    keep = ('zb', 'rhoveg', 'hveg', 'germinate', 'lateral', 'dzbavg')

    def go(m, hist):
        last = len(hist) + 1
        pp = pats + edge if last == 1 or case['deep'] else pats + edge[::2]
        if last == 3:
            pp = pp[::3]
        for k, r in enumerate(pp):
            for name, u, lv in envs:
                n = copy.deepcopy(m); h = hist + [(k, name)]
                n.set_var('wind_file', np.array([[0., u, 263.], [1e12, u, 263.]]))
                n.set_var('tide_file', np.array([[0., lv], [1e12, lv]]))
                pre = {v: n.s[v].copy() for v in keep}
                with answers(r):
                    n.update(case['dt'])    # another step than the configured one
                rec.step(); rec.trace()
                check(rec, case, pre, n, r, pg, pl, dict(history=h), nx, dx, dy)
                rec.state(case['gt'], case['V'], n.s['rhoveg'], n.s['hveg'], n.s['germinate'], n.s['lateral'])
                if rec.deeper((3 if case['deep'] and k % 3 == 0 else 2) - last, n):
                    go(n, h)
    # covers with the same total, exchanged the way a callback does
    m = copy.deepcopy(m0)
    for k, c in enumerate((veg, np.flip(veg, 1), np.flip(veg, 0), np.roll(veg, 1, axis=1), veg)):
        m.set_var('rhoveg', c.copy()); m.set_var('hveg', P['hmax'] * np.sqrt(c))
        m.set_var('wind_file', np.array([[0., 7., 263.], [1e12, 7., 263.]]))
        pre = {v: m.s[v].copy() for v in keep}
        with answers(pats[0]):
            m.update(case['dt'])
        rec.step(); rec.trace()
        check(rec, case, pre, m, pats[0], pg, pl, dict(exchanged=k, cover=c), nx, dx, dy)
        rec.state(case['gt'], case['V'], m.s['rhoveg'], m.s['hveg'], m.s['germinate'], m.s['lateral'])
    go(m0, [])
    rec.sample(dict(case=case, p=[pg, pl]))


def check(rec, case, pre, m, r, pg, pl, det, nx, dx, dy):
    s = m.s; dtl = case['dt'] * case['acc']
    rho, h = pre['rhoveg'], pre['hveg']
    # shear velocity with the vegetation present at the start of the step
    ust = s['ustar0']
    if case['shear'] == 'raupach':
        fac = gauss(1 / np.sqrt(1 + P['rough'] * rho), P['sigma'])
        rec.close(s['vegfac'], fac, 'vegfac', 'Raupach factor', rtol=1e-7, **det)
        want = ust * fac
    else:
        fac = okin(np.arange(nx) * dx, h[0], 1.)[None]
        want = np.maximum(ust * fac, .01)
    rec.close(s['ustar'], want, 'ustar', 'shear velocity in vegetation', rtol=1e-7, **det)
    rec.close(np.hypot(s['ustars'], s['ustarn']), want, 'ustar-components', 'components of the shear velocity', rtol=1e-7, **det)
    rec.close(s['ustars'] * s['ustarn0'], s['ustarn'] * s['ustars0'], 'direction', 'vegetation turns the wind', rtol=1e-7, atol=1e-12, **det)
    rec.close(s['tau'], 1.225 * want**2, 'tau', 'stress', rtol=1e-6, **det)
    # bed level change as seen by the vegetation
    dzy = (s['zb'] - pre['zb']) * YEAR / dtl
    rec.close(s['dzbveg'], dzy, 'dzbveg', 'bed level change per year', rtol=1e-6, atol=1e-9, **det)
    n = dtl / 86400.
    rec.close(s['dzbavg'], n * dzy + (1 - n) * pre['dzbavg'], 'dzbavg', 'averaged bed level change', rtol=1e-6, atol=1e-6, **det)
    dz = s['dzbveg']
    cnt = neighbours(rho, dx, dy)
    germ = (rho > 0) | ((dz >= 0) & (r <= pg))
    lat = (pre['lateral'] > 0) | (r <= pl * cnt)
    act = (germ | lat) & (case['V'] > 0)
    if case['gt'] == 'orig':
        rate = np.where(act, case['V'] * (1 - h / P['hmax']) - np.abs(dz - P['dzb_opt']) * P['gam'], 0.)
        h2 = np.clip(h + rate * dtl / YEAR, 0, P['hmax'])
        r2 = (h2 / P['hmax'])**2
    else:
        r1 = np.minimum(rho, P['rmax'])
        rate = np.where(act, (P['rmax'] - r1) / (P['t_veg'] / 365) - P['v_gam'] / P['hmax'] * np.abs(dz - P['dzb_opt']) * P['gam'], 0.)
        r2 = np.where(rho > 0, np.maximum(r1 + rate * dtl / YEAR, 0), 0.)
        h2 = P['hmax'] * np.sqrt(r2)
    alive = r2 != 0
    germ, lat = germ & alive, lat & alive
    dead = (s['zb'] + .01 < s['zs']) | (s['zb'] < P['zmin'])
    for a in (h2, r2, germ, lat):
        a[dead] = 0
    rec.close(s['rhoveg'], r2, 'rhoveg', 'cover', rtol=1e-7, atol=1e-10, before=rho, random=r, **det)
    rec.close(s['hveg'], h2, 'hveg', 'height', rtol=1e-7, atol=1e-9, before=h, random=r, **det)
    rec.close(s['germinate'], germ * 1., 'germinate', 'germination', random=r, **det)
    rec.close(s['lateral'], lat * 1., 'lateral', 'lateral expansion', before=rho, random=r, **det)
    rec.check(np.all((s['rhoveg'] >= 0) & (s['rhoveg'] <= 1) & (s['hveg'] >= 0) & (s['hveg'] <= P['hmax'])), 'range', 'cover or height out of range', **det)
    rec.outcome('%s germ%d lat%d dead%d %s' % (case['gt'], germ.sum() > (rho > 0).sum(), lat.any(), (dead & (rho > 0)).any(), 'bury' if np.abs(dz).max() > .5 else ''))


def timestep(rec, case):
    """Growth over a limited time step uses the step that was taken."""
    for u, cfl, dmax in itertools.product((8., 15.), (.5, .1), (-1., 1e-3)):
        veg = np.array([0., .3, .3, .3, .2])
        m = tiny.model(tiny.base(nx=5, zb=np.full(5, 4.), u=u, process_vegetation=True, veg_file=veg, V_ver=5., veggrowth_type=case['gt'], scheme=case['scheme'], CFL=cfl, max_bedlevel_change=dmax if dmax > 0 else 999.,
                                 veg_min_elevation=0., hveg_max=1., dt=600., rhoveg_max=.5, t_veg=300., germinate=0., lateral=0.))
        for k in range(4):
            h, rho, zb, t = m.s['hveg'].copy(), m.s['rhoveg'].copy(), m.s['zb'].copy(), m.t
            m.update(); rec.step(); rec.trace()
            dt = m.t - t
            dz = (m.s['zb'] - zb) * YEAR / dt
            rec.state(case['gt'], m.s['rhoveg'], m.s['zb'], dt)
            rec.outcome('dt %s' % ('full' if dt == 600. else 'limited'))
            if case['gt'] == 'orig':
                want = h + np.where(rho > 0, 5. * (1 - h) - np.abs(dz), 0.) * dt / YEAR
                rec.close(m.s['hveg'], np.clip(want, 0, 1), 'limited-step-height', 'growth in a limited time step', rtol=1e-9, atol=1e-12, u=u, dt=dt)
            else:
                want = np.where(rho > 0, np.maximum(rho + ((.5 - rho) / (300. / 365) - np.abs(dz)) * dt / YEAR, 0), 0)
                rec.close(m.s['rhoveg'], want, 'limited-step-cover', 'growth in a limited time step', rtol=1e-9, atol=1e-12, u=u, dt=dt)
