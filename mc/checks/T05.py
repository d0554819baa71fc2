"""Shear velocity threshold: every combination of surface properties, every moisture formulation, every history of wetting and burial."""
import copy, itertools
import numpy as np
from mc import tiny

TITLE = 'threshold follows from the bed surface alone'
LEVEL = 'model_checking'
RULE = ('case = (moisture formulation or none, salt, sheltering, mask, non-erodible bed, tide, rows, grain sizes); the cells of the grid '
        'hold all values of a moisture ladder (crossed with salt contents), and ALL orders of a set of surface states up to the depth '
        'are applied through set_var before each step; after every step the threshold of each cell and fraction is compared with the '
        'product and sum of independently written factors')
ASSUMPTIONS = ['the th_grainsize factor is on (the others are defined relative to it)', 'threshold masks are not negative',
               'th_drylayer and th_humidity have no implementation in this version (see C04)']
CHUNK = 2
LADDER = np.array([0., .01, .0155, .02, .03, .05, .08, .095, .098, .1, .2, .4])
MOIST = ('none', 'belly_johnson', 'hotta', 'chepil', 'saleh_fryear', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish',
         'cornelis', 'dong_2007', 'file')
INCREASING = ('belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish')
STATES = ('dry', 'ladder', 'reversed', 'wet')
RAISED = dict(dry=0., ladder=.015, reversed=0., wet=.0005)


def depth(tier):
    return 2 if tier == 'quick' else 3


def BOUNDS(tier):
    return ('10 moisture formulations, none and a given threshold x salt x sheltering x mask x non-erodible bed x tide x 1 and 2 rows of 12 cells x 1 and 3 grain '
            'sizes (d50 in each class of dong_2002), weights that sum to one or not, or per layer; all histories of 4 surface states (dry, moisture ladder on a raised bed, ladder and salt reversed, saturated) x 2 winds to depth %d' % depth(tier))


GRAINS = ([.0001], [.00014], [.00018], [.00022], [.0003], [.0005], [.0002, .0004, .002])


def cases(tier):
    for m, salt, sh, mask, ne, tide, ny in itertools.product(MOIST, (0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 2)):
        if tier == 'quick' and salt + sh + mask + ne + tide not in (0, 1, 2, 5):
            continue
        gs = GRAINS if salt + sh + mask + ne + tide == 0 else GRAINS[-3:]
        for i in range(len(gs)):
            yield dict(moist=m, salt=salt, shelter=sh, mask=mask, ne=ne, tide=tide, ny=ny, gs=gs[i], depth=depth(tier),
                       dist=('floats', 'whole', 'layers')[(salt + sh + mask + 2 * ne + 2 * tide + ny) % 3])


def warmup():
    tiny.warm()


def moist_factor(m, u, mv, gs, gd):
    """Threshold of one cell and fraction after the moisture formulation, from threshold u and volumetric moisture mv."""
    rhow, rhog, rhoa, por, w15, g = 1025., 2650., 1.225, .4, .02, 9.81
    w = mv * rhow / (rhog * (1 - por))
    d = float(np.dot(gs, gd))
    if w > .01 * rhow / (rhog * (1 - por)) + .005:
        if m == 'belly_johnson':
            u = u * max(1., 1.8 + .6 * np.log10(100 * w))
        elif m == 'hotta':
            u = u + 7.5 * w
        elif m == 'chepil':
            u = np.sqrt(u**2 + .6 * w**2 / (rhoa * w15**2))
        elif m == 'saleh_fryear':
            u = .305 + .022 * w / w15 + .506 * (w / w15)**2
        elif m == 'saleh_fryear_mod':
            u = u + .022 * w / w15 + .506 * (w / w15)**2
        elif m == 'shao':
            u = u * np.exp(22.7 * w)
        elif m == 'dong_2002':
            mm = d * 1000
            K = [2.51, 2.05, 2.75, 1.59, 1.87, 2.15][sum(mm >= b for b in (.135, .15, .2, .25, .4))]
            u = u * np.sqrt(1 + 100 * K * w)
        elif m == 'gregory_darwish':
            u = u * np.sqrt(1 + w + 6 / np.pi * 6.12e-5 / (rhog * g * d**2)
                            + 738.8 / (rhow * g * d) * np.exp(-.1 * w / w15) * max(w - .5 * w15, 0.))
        elif m == 'cornelis':
            u = np.sqrt(.013 * (1 + w + 1.7e-4 / ((rhog - rhoa) * g * d**2) * (1 + 3e14 * .075**2 * d / (1e9 * np.exp(-6.5 * w / w15)))
                                * (rhog - rhoa) / rhoa * g * d))
        elif m == 'dong_2007':
            u = .16 * np.sqrt((rhog - rhoa) / rhoa * g * d) * (1 + 478.2 * w**1.52)
    return np.inf if w > .064 else u


def run_case(rec, case):
    ny = case['ny']; rows = max(ny, 1); nx = len(LADDER)
    gs = np.array(case['gs']); nf = len(gs)
    gd = np.ones(nf) if nf == 1 else np.array([.3, .5, .2])
    given = .1 + .05 * np.arange(rows * nx).reshape(rows, nx) % .6; given[0, 3] = .1; given[-1, 6] = 3.
    cfg = dict(th_moisture=case['moist'] != 'none', grain_size=list(gs), grain_dist=list(gd), th_salt=bool(case['salt']),
               th_sheltering=bool(case['shelter']), tstart=60., dt=1., layer_thickness=1., process_bedupdate=False)
    if nf > 1 and case['dist'] != 'floats':
        cfg['grain_dist'] = [3, 5, 2] if case['dist'] == 'whole' else np.array([[.6, 1., .4], [3., 5., 2.]])
    one = lambda a: a if ny else a[0]
    if case['moist'] == 'file':
        cfg['threshold_file'] = one(given)
    elif case['moist'] != 'none':
        cfg['method_moist_threshold'] = case['moist']
    zb = np.zeros((rows, nx)); zb[:, 1] = -2.; zb[0, 4] = -.0005; zb[-1, 6] = -.002
    mask = np.ones((rows, nx), dtype=complex)
    if case['mask']:
        mask[:, ::3] = 1.7 + .2j; mask[0, 5] = .6; mask[-1, 4] = 1 + .7j; mask[0, 8] = .25j; mask[-1, 11] = .3j; mask[0, 10] = 0
        cfg['threshold_mask'] = one(mask)
    ne = np.full((rows, nx), -9.)
    if case['ne']:
        ne[:, 2] = 0.; ne[0, 3] = -.0099; ne[-1, 7] = -.0101; ne[-1, 8] = 3.
        cfg.update(th_nelayer=True, ne_file=one(ne))
    if case['tide']:
        cfg.update(process_tide=True, tide_file=np.array([[0., 0.], [1e9, 0.]]))
    root = tiny.model(tiny.base(nx=nx, ny=ny, zb=one(zb), **cfg))
    salt0 = np.resize([0., .3, 1.], (rows, nx))
    salts = {st: salt0[:, ::-1] if st == 'reversed' else salt0 for st in STATES}      # the same total in other cells
    ladders = dict(dry=np.zeros((rows, nx)), ladder=np.tile(LADDER, (rows, 1)), reversed=np.tile(LADDER[::-1], (rows, 1)), wet=np.full((rows, nx), .4))
    seen = {}; mass0 = root.s['mass'].copy()
    u0 = .085 * np.sqrt((2650. - 1.225) / 1.225 * 9.81 * gs)
    def expect(st, ust):
        bed = zb + RAISED[st]; out = np.zeros((rows, nx, nf)); rti = np.ones((rows, nx))
        for j in np.ndindex(rows, nx):
            u = u0.copy()
            if case['moist'] == 'file':       # replaces all but the non-erodible layer
                u[:] = given[j]
                if case['ne'] and bed[j] <= ne[j] + .01:
                    u[:] = np.inf
                out[j] = u
                continue
            if case['moist'] != 'none':
                u = np.array([moist_factor(case['moist'], v, ladders[st][j], gs, gd) for v in u])
            elif case['tide'] and bed[j] - 0. < -1e-3:
                u[:] = np.inf
            if case['salt']:
                u = u * 1.03 * np.exp(102.7 * .035 * (1 - salts[st][j]))
            if case['shelter']:
                lam = (np.roll(gd, 1) if st == 'reversed' else gd)[ust <= u].sum()
                rti[j] = np.sqrt((1 - .5 * lam) * (1 + .5 * 130. / 4.2 * lam))
                u = u * rti[j]
            u = u * mask[j].real + mask[j].imag if mask[j].real else np.full(nf, mask[j].imag)
            if case['ne'] and bed[j] <= ne[j] + .01:
                u[:] = np.inf
            out[j] = u
        return out, rti
    def walk(m, hist):
        for st in STATES:
            for uw in (6., 12.):
                k = copy.deepcopy(m)
                k.set_var('wind_file', np.array([[0., uw, 270.], [1e9, uw, 270.]]))
                k.set_var('moist', ladders[st].copy())
                sal = np.zeros((rows, nx, 2)); sal[:, :, 0] = salts[st]
                k.set_var('salt', sal)
                k.s['zb'][:] = zb + RAISED[st]
                k.s['mass'][:] = np.roll(mass0, 1, axis=3) if st == 'reversed' else mass0      # the fractions exchange their mass
                k.update()
                h = hist + [st, uw]; det = dict(history=h)
                rec.step(); rec.trace()
                rec.state(k.s['uth'], k.s['Ct'], case['moist'], case['gs'])
                ust = .41 * uw / np.log(10. / .001)
                if (st, uw) not in seen:
                    seen[st, uw] = expect(st, ust)
                want, rti = seen[st, uw]
                rec.close(k.s['uth'], want, 'uth', 'shear velocity threshold', rtol=1e-7, **det)
                rec.close(k.s['uthf'], want, 'uthf', 'fluid threshold', rtol=1e-7, **det)
                rec.close(k.s['uth0'], np.broadcast_to(u0, want.shape), 'uth0', 'grain size threshold', **det)
                if case['shelter'] and case['moist'] != 'file':
                    rec.close(k.s['Rti'], rti, 'Rti', 'roughness factor', rtol=1e-7, **det)
                if case['moist'] in INCREASING or case['moist'] == 'none':
                    rec.check(np.all(k.s['uth'] >= (u0 * mask.real[:, :, None] + mask.imag[:, :, None]) * (1 - 1e-9)), 'lowered',
                              'a surface property lowers the threshold', **det)
                # what may not move does not move
                stop = ~np.isfinite(want)
                rec.check(np.all(k.s['Cu'][stop] == 0.), 'capacity-over-infinite-threshold', 'transport capacity where the threshold is infinite', **det)
                if stop.all(axis=(0, 1)).any():
                    for i in np.where(stop.all(axis=(0, 1)))[0]:
                        rec.check(k.s['pickup'][:, :, i].max() <= 1e-12, 'erosion-over-infinite-threshold', 'erosion from a bed that cannot move', **det)
                rec.outcome('inf%d' % min(9, int(stop.sum() * 10 / stop.size)))
                if rec.deeper(case['depth'] - len(h) // 2, k):
                    walk(k, h)
    walk(root, [])
    rec.sample(dict(case=case, uth=root.s['uth'].shape))
