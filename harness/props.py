"""One generator per property: drive the real code, record the cases to be judged."""
import cmath
import copy
import json
import math

import tlc
from rec import Case, call, code, dec, num, nums, spell, NAN
from pick import Pick, area_he, smooth

PROPS = {}


def prop(pid):
    def reg(f):
        PROPS[pid] = f
        return f
    return reg


def got(o, k, default):
    """A value the code reported, if it is usable, for choosing further inputs."""
    try:
        v = dec(o[k][0])
        return v if math.isfinite(v) else default
    except Exception:
        return default


# --------------------------------------------------------------------------
# area mode
def twins(p, hg):
    """Now and then two antennas of exactly the same height."""
    return [hg[0], hg[0]] if p.r.random() < 0.1 else hg


def area_params(p, f='uhf', h1='mid', h2='low', dh='rolling', pol=None, kst=None, **_):
    a = p.radio(p.freq(f), pol)
    a['hg'] = twins(p, [p.height(h1), p.height(h2)])
    a['dh'] = p.rough(dh)
    kst = kst if kst is not None else [p.r.randrange(3), p.r.randrange(3)]
    he = [area_he(kst[j], a['hg'][j], a['dh']) for j in (0, 1)]
    return a, kst, smooth(he, a['gme'])


def distance(p, cls, dlsa, dx):
    """A distance in a class of the sweep model; dx is the scatter crossover if known."""
    r = p.r
    if cls == 'zero':
        return r.choice([0, 0.0])
    if cls == 'los':
        return dlsa * r.uniform(0.1, 0.95)
    if cls == 'near':
        return p.log(0.05, 50) if r.random() < 0.15 else dlsa * p.log(0.002, 0.1)
    if cls == 'edge':
        return r.choice([dlsa, dlsa * (1 + 1e-12), dlsa * (1 - 1e-12), math.nextafter(dlsa, 0)])
    if cls == 'diff':
        hi = max(dx, dlsa * 1.0001) if dx else dlsa * 2
        return r.uniform(dlsa * 1.000001, min(hi, dlsa * 4))
    if cls == 'scat':
        lo = max(dx, dlsa) if dx else dlsa * 2
        if lo > 3e6:
            return dlsa * r.uniform(2, 10)
        return lo * p.log(1.00001, 4) if r.random() < 0.9 else p.log(max(lo, 2e6), 1.5e7)
    if cls == 'any':
        return p.log(500, 2.2e6) if r.random() < 0.8 else p.log(1, 1.5e7)
    raise ValueError(cls)


SIX = ['zero', 'los', 'near', 'edge', 'diff', 'scat']
VALUE = ['aref', 'dlsa', 'dla', 'tha', 'diffline', 'scatline', 'scatdx', 'loscurve']


def crossover(a, kst):
    """The crossover the code reports for this area (only used to choose distances)."""
    c = Case('')
    c.begin('x', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'])
    c.qlra('x', kst, 5, 3)
    k = c.lrprop('x', 0)
    return got(c.ev[k - 1]['o'], 'dx', None)


def fresh_value(a, kst, d):
    c = Case('')
    c.begin('x', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'])
    c.qlra('x', kst, 5, 3)
    k = c.lrprop('x', d)
    return dec(c.ev[k - 1]['o']['aref'][0])


@prop('C01')
def c01(ctx):
    p = Pick(ctx.rnd)
    length = ctx.scale(4, 5)
    ctx.design('HistoryIndependent')
    ctx.model('ITMSweepAny', 'SPECIFICATION Spec\nINVARIANTS TypeOK NeverStale HistoryIndependent\n', emit=False)
    hs = ctx.model('ITMSweep', 'SPECIFICATION Spec\nINVARIANTS HistoryIndependent NeverStale Emit\nPROPERTY Refines\n',
                   {'ITM_LEN': str(length)})
    if not ctx.thorough:
        hs = [h for h in hs if any(w in SIX for w in h['h'])]
    for k, h in enumerate(hs):
        cl = dict(f=p.r.choice(['vhf', 'uhf', 'shf', 'limit']), h1=p.r.choice(['low', 'mid', 'high']),
                  h2=p.r.choice(['tiny', 'low', 'mid']), dh=p.r.choice(['zero', 'smooth', 'rolling', 'hilly', 'rugged']))
        a, kst, dlsa = area_params(p, **cl)
        dx = crossover(a, kst)
        c = Case('sweep %s' % '-'.join(h['h']))
        c.begin('A', **a)
        c.qlra('A', kst, 5, 3)
        pool = {}
        for w in h['h']:
            if w in SIX:
                if w in pool and p.r.random() < 0.5:
                    d = pool[w]
                else:
                    d = pool[w] = distance(p, w, dlsa, dx)
                chk = ['aref', 'dist', 'mdp', 'others']
                if w != 'zero':
                    chk += ['fresh']
                c.lrprop('A', d, chk, fresh=fresh_value(a, kst, d))
            elif w == 'again':
                c.qlra('A', kst, 5, 3, ['he', 'dl', 'the', 'mdp'])
            else:
                b, kst2, _ = area_params(p, **cl)
                what = p.r.choice([('hg', 'dh', 'kst'), ('hg', 'dh'), ('hg',), ('dh',), ('kst',), ('wn',), ('zgnd',),
                                   ('ens', 'gme'), ('gme',), ('wn', 'zgnd', 'ens', 'gme')])
                if what in (('dh',), ('wn',)) and p.r.random() < 0.5:
                    kst = [0, 0]                 # the effective heights stay as they were
                for q in what:
                    if q == 'kst':
                        kst = kst2
                    else:
                        a[q] = b[q]
                he = [area_he(kst[j], a['hg'][j], a['dh']) for j in (0, 1)]
                dlsa = smooth(he, a['gme'])
                dx = crossover(a, kst)
                pool = {}
                c.set('A', **dict((q, a[q]) for q in what if q != 'kst'))
                c.qlra('A', kst, 5, 3, ['he', 'dl', 'the', 'mdp'])
        ctx.add(c)
    # long random sweeps
    for k in range(ctx.scale(40, 300)):
        a, kst, dlsa = area_params(p, p.r.choice(['vhf', 'uhf', 'shf']), p.r.choice(['low', 'mid', 'high']),
                                   p.r.choice(['low', 'mid']), p.r.choice(['smooth', 'rolling', 'hilly', 'rugged']))
        dx = crossover(a, kst)
        c = Case('long sweep %d' % k)
        c.begin('A', **a)
        c.qlra('A', kst, 5, 3)
        ds = [distance(p, p.r.choice(SIX + ['any']), dlsa, dx) for _ in range(12 if k % 4 else 90)]
        ds += p.r.sample(ds, len(ds) // 2)
        for d in ds:
            c.lrprop('A', d, ['aref', 'dist', 'mdp', 'others'] + (['fresh'] if d > 0 else []),
                     fresh=fresh_value(a, kst, d))
        ctx.add(c)
    # unusual areas, asked near and far in turn
    for k, w in enumerate(guided(ctx, p, ctx.scale(160, 1500), ctx.scale(1500, 15000))):
        c = Case('wide sweep %d' % k)
        start_wide(c, 'A', w)
        ds = [distance(p, q, w['dlsa'], w['dx']) for q in ['zero', 'los', 'near', 'diff', 'scat', 'scat']]
        ds += [p.log(9e5, 4e6), p.log(9e5, 4e6)]
        ds += p.r.sample(ds, 3)
        p.r.shuffle(ds)
        for d in ds:
            c.lrprop('A', d, ['aref', 'dist', 'mdp', 'others'] + (['fresh'] if d > 0 else []), fresh=fresh_wide(w, d))
        ctx.add(c)


def fresh_wide(w, d):
    c = Case('')
    start_wide(c, 'x', w)
    k = c.lrprop('x', d)
    return dec(c.ev[k - 1]['o']['aref'][0])


def reps(ctx, scen, quick, thorough):
    """Every scenario, the given number of times."""
    for _ in range(ctx.scale(quick, thorough)):
        for s in scen:
            yield s


def some(ctx, scen, k):
    """A seeded selection of scenarios for the quick tier, all of them for the thorough one."""
    if ctx.thorough or len(scen) <= k:
        return scen
    return ctx.rnd.sample(scen, k)


@prop('C02')
def c02(ctx):
    p = Pick(ctx.rnd)
    for s in reps(ctx, ctx.scenarios('area'), 1, 12):
        a, kst, dlsa = area_params(p, **s)
        dx = crossover(a, kst)
        c = Case('area %(f)s %(h1)s/%(h2)s dh %(dh)s pol %(pol)d' % s)
        c.begin('A', **a)
        c.qlra('A', kst, 5, 3, ['he', 'dl', 'the'])
        for w in p.r.sample(['los', 'near', 'edge', 'diff', 'scat', 'any'], 3):
            c.lrprop('A', distance(p, w, dlsa, dx), VALUE)
        ctx.add(c)
    for k, w in enumerate(guided(ctx, p, ctx.scale(500, 6000), ctx.scale(5000, 60000))):
        c = Case('area wide %d' % k)
        start_wide(c, 'A', w)
        for cls in p.r.sample(['los', 'near', 'edge', 'any'], 2) + ['diff', 'scat']:
            c.lrprop('A', distance(p, cls, w['dlsa'], w['dx']), VALUE)
        ctx.add(c)


# --------------------------------------------------------------------------
# point to point
def path_params(p, s, most=None, npts=None):
    z, xi = p.profile(s['shape'], s.get('np', 'some'), most, npts)
    a = p.radio(p.freq(s.get('f') or p.r.choice(['vhf', 'uhf', 'shf'])))
    a['hg'] = twins(p, [p.height(s['h1']), p.height(s['h2'])])
    return z, xi, a


def long_paths(ctx, p, quick, thorough):
    """Paths of up to 600 points, the most a profile is sampled with."""
    for k in range(ctx.scale(quick, thorough)):
        s = dict(shape=p.r.choice(SHAPES), np='most', h1=p.r.choice(['low', 'mid', 'high']), h2=p.r.choice(['tiny', 'low', 'mid']))
        yield path_params(p, s, npts=p.r.choice([None, None, 599, 600]))


def start_p2p(c, s, a, **kw):
    return c.begin(s, a['hg'], a['wn'], 0.0, a['ens'], a['gme'], a['zgnd'], **kw)


@prop('C03')
def c03(ctx):
    p = Pick(ctx.rnd)
    for s in reps(ctx, ctx.scenarios('path'), 1, 8):
        z, xi, a = path_params(p, s, most=None if ctx.thorough else 120)
        c = Case('path %(shape)s %(np)s %(f)s %(h1)s/%(h2)s' % s)
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, VALUE)
        ctx.add(c)
    for k, (z, xi, a) in enumerate(guided_paths(ctx, p, ctx.scale(500, 6000), ctx.scale(3000, 40000))):
        c = Case('path wide %d' % k)
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, VALUE)
        ctx.add(c)
    for z, xi, a in long_paths(ctx, p, 16, 160):
        c = Case('path of %d points' % len(z))
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, VALUE)
        ctx.add(c)
    # what the parameter set was used for before does not matter
    for s in reps(ctx, some(ctx, ctx.scenarios('path'), 160), 1, 2):
        z, xi, a = path_params(p, s, most=40)
        c = Case('path again %(shape)s %(np)s %(f)s %(h1)s/%(h2)s' % s)
        start_p2p(c, 'A', a)
        did = []
        for _ in range(p.r.randint(1, 3)):
            if p.r.random() < 0.3:
                b, kst, dlsa = area_params(p, p.r.choice(['vhf', 'uhf', 'shf']), s['h1'], s['h2'])
                for q in ('hg', 'dh'):
                    a[q] = b[q]
                c.set('A', hg=a['hg'], dh=a['dh'])
                c.qlra('A', kst, 5, 3)
                for w in p.r.sample(SIX, 2):
                    c.lrprop('A', distance(p, w, dlsa, None), ['aref'])
            else:
                c.qlrpfl('A', z, xi, 5, 11, VALUE)
            z2, xi2, b = path_params(p, s, most=40)
            what = p.r.choice([('z',), ('z',), ('xi',), ('hg',), ('wn',), ('zgnd',), ('gme',), ('ens', 'gme'), ('z', 'xi', 'hg'), ()])
            if 'z' in what:
                z = z2
            if 'xi' in what:
                xi = xi2
            ch = [q for q in what if q in a]
            for q in ch:
                a[q] = b[q]
            if ch:
                c.set('A', **dict((q, a[q]) for q in ch))
        c.qlrpfl('A', z, xi, 5, 11, VALUE)
        ctx.add(c)


@prop('C04')
def c04(ctx):
    p = Pick(ctx.rnd)
    ctx.design('NonNegative', 'Continuous')
    scen = ctx.scenarios('area')

    def areas():
        for s in reps(ctx, some(ctx, scen, 400), 1, 6):
            a, kst, dlsa = area_params(p, **s)
            dx = crossover(a, kst)
            c = Case('curve %(f)s %(h1)s/%(h2)s dh %(dh)s pol %(pol)d' % s)
            c.begin('A', **a)
            c.qlra('A', kst, 5, 3)
            yield c, dlsa, dx
        for k, w in enumerate(guided(ctx, p, ctx.scale(350, 4000), ctx.scale(4000, 50000))):
            c = Case('curve wide %d' % k)
            start_wide(c, 'A', w)
            yield c, w['dlsa'], w['dx']
    for c, dlsa, dx in areas():
        k0 = c.lrprop('A', dlsa * 0.5, ['nonneg'])
        dl = got(c.ev[k0 - 1]['o'], 'dlsa', dlsa)
        e = 1e-11                        # the curve may be as steep as some dB per metre
        chk = ['nonneg', 'dxfar']
        i1 = c.lrprop('A', dl * (1 - e), chk)
        i2 = c.lrprop('A', dl, chk)
        i3 = c.lrprop('A', dl * (1 + e), chk)
        c.rel('same', i1, i2, ['aref'], at=1e-4)
        c.rel('same', i2, i3, ['aref'], at=1e-4)
        if dx and dx < 5e6:
            j1 = c.lrprop('A', dx * (1 - e), chk)
            j2 = c.lrprop('A', dx, chk)
            j3 = c.lrprop('A', dx * (1 + e), chk)
            c.rel('same', j1, j2, ['aref'], at=1e-4)
            c.rel('same', j2, j3, ['aref'], at=1e-4)
        hi = min(dx, 2e6) if dx else dl * 3
        if hi > dl * 1.01:
            d = sorted(p.r.uniform(dl * 1.000001, hi * 0.999999) for _ in range(3))
            if p.r.random() < 0.5:               # right after the horizon, right before the change-over
                d[0], d[2] = dl + min(p.log(0.01, 1e3), 0.3 * (hi - dl)), hi - min(p.log(0.01, 1e3), 0.3 * (hi - dl))
                d.sort()
            if d[1] - d[0] > 1 and d[2] - d[0] > 1:
                q = [c.lrprop('A', x, chk) for x in d]
                c.add('collinear', dict(i=q[0], j=q[2], k=q[1]), {}, ['line'])
        lo = max(dx or dl, dl) * 1.000001
        if lo < 5e6:
            d = sorted(p.r.uniform(lo, lo * 3) for _ in range(3))
            if p.r.random() < 0.5:
                d[0] = lo / 1.000001 + p.log(0.01, 1e3)
                d.sort()
            if d[1] - d[0] > 1 and d[2] - d[0] > 1:
                q = [c.lrprop('A', x, chk) for x in d]
                c.add('collinear', dict(i=q[0], j=q[2], k=q[1]), {}, ['line'])
        for _ in range(2):
            c.lrprop('A', distance(p, p.r.choice(['near', 'los', 'any']), dl, dx), chk)
        ctx.add(c)


# --------------------------------------------------------------------------
# warnings
def base_prop(p):
    r = p.r
    a = p.radio(r.uniform(80, 4000), 0, ens=r.uniform(290, 330))
    a['zgnd'] = complex(3.7, 0.3)
    a['hg'] = [r.uniform(10, 200), r.uniform(10, 200)]
    a['dh'] = r.uniform(10, 150)
    return a


def side_value(p, lim, side, low):
    """A value on the given side of a limit (low: values below it are out of range)."""
    if side == 'at':
        return lim
    rel = p.r.choice([1e-6, 1e-4, 0.02])
    out = (1 - rel) if low else (1 + rel)
    inn = (1 + rel) if low else (1 - rel)
    return lim * (out if side == 'out' else inn)


def apply_limit(p, a, q, lim, side, t):
    """Put parameter set a (and extra settings q) at a limit."""
    v = lambda x, low: side_value(p, x, side, low)
    if lim == 'wn1lo': a['wn'] = v(0.838, True)
    elif lim == 'wn1hi': a['wn'] = v(210.0, False)
    elif lim == 'wn4lo': a['wn'] = v(0.419, True)
    elif lim == 'wn4hi': a['wn'] = v(420.0, False)
    elif lim == 'h1lo': a['hg'][t] = v(1.0, True)
    elif lim == 'h1hi': a['hg'][t] = v(1000.0, False)
    elif lim == 'h4lo': a['hg'][t] = v(0.5, True)
    elif lim == 'h4hi': a['hg'][t] = v(3000.0, False)
    elif lim == 'enslo': a['ens'] = v(250.0, True)
    elif lim == 'enshi': a['ens'] = v(400.0, False)
    elif lim == 'gmelo': a['gme'] = v(75e-9, True)
    elif lim == 'gmehi': a['gme'] = v(250e-9, False)
    elif lim == 'zgnd':
        sgn = p.r.choice([1, -1])
        im = p.r.uniform(2, 6)
        a['zgnd'] = complex(v(im, True), sgn * im)
    elif lim == 'the': q['the'][t] = p.r.choice([1, -1]) * v(0.2, False)
    elif lim in ('dllo', 'dlhi'): q['dlf'][t] = v(0.1, True) if lim == 'dllo' else v(3.0, False)
    elif lim == 'd1hi': q['d'] = v(1000e3, False)
    elif lim == 'd4lo': q['d'] = v(1000.0, True)
    elif lim == 'd4hi': q['d'] = v(2000e3, False)
    elif lim == 'd1lo': q['d'] = v(1000.0, True)
    elif lim == 'dmin': q['dmin'] = v(1.0, True)


@prop('C05')
def c05(ctx):
    p = Pick(ctx.rnd)
    ctx.design('MarkerRange', prop=['MarkerGrows'])
    scen = [s for s in ctx.scenarios('warn')]
    for s in reps(ctx, scen if ctx.thorough else [s for s in scen if s['lim2'] == 'none'] * 4 +
                  ctx.rnd.sample([s for s in scen if s['lim2'] != 'none'], 450), 1, 3):
        a = base_prop(p)
        q = dict(the=[p.r.uniform(-0.01, 0.02), p.r.uniform(-0.01, 0.02)],
                 dlf=[p.r.uniform(0.5, 0.95), p.r.uniform(0.5, 0.95)], d=p.r.uniform(20e3, 300e3), dmin=None)
        apply_limit(p, a, q, s['lim'], s['side'], s['t'])
        if s['lim2'] != s['lim']:
            apply_limit(p, a, q, s['lim2'], p.r.choice(['out', 'out', 'at', 'in']), p.r.randrange(2))
        he = [max(h, 1.0) * p.r.uniform(1, 1.3) for h in a['hg']]
        if q['dmin']:
            d = p.r.uniform(2000, 8000)
            he[1] = he[0] + (1 if p.r.random() < 0.5 or he[0] < 2000 else -1) * 0.2 * d / q['dmin']
            q['d'] = d
            if p.r.random() < 0.5:
                he.reverse()
        dl = [f * math.sqrt(2 * h / a['gme']) for f, h in zip(q['dlf'], he)]
        c = Case('warn %(lim)s/%(side)s/%(t)d + %(lim2)s %(mode)s' % s)
        start = p.r.choice([0, 0, 0, 0, 1, 2, 3, 4])
        c.begin('A', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'], kwx=start, lvar=5,
                klim=p.r.choice([1, 3, 5, 7, 5, 5, 0, 8, -1]), mdvar=p.r.choice([0, 1, 2, 3, 11, 13, 23, 33, 4, 9, 14, 25, -1, 40]))
        if s['mode'] == 'area':
            c.set('A', he=he, dl=dl, the=q['the'], mdp=1)
            c.lrprop('A', q['d'], ['kwx'])
            for _ in range(2):
                c.lrprop('A', p.r.choice([50e3, 100e3, 0, p.log(900, 2.1e6), p.r.choice([999.0, 1000.0, 1e6, 1000001.0, 2e6, 2000001.0])]), ['kwx'])
        else:
            c.set('A', he=he, dl=dl, the=q['the'], mdp=-1, dist=q['d'])
            c.lrprop('A', 0, ['kwx'])
        for _ in range(2):
            z = [p.r.choice([0.0, 1.0, -1.3, 3.1, -3.1, 3.11, -3.11, math.nextafter(3.1, 4), -math.nextafter(3.1, 4), 3.09, p.r.uniform(-4, 4)])
                 for _ in range(3)]
            c.avar('A', *z, chk=['kwx'])
        ctx.add(c)
    # the life of the marker: every history of preparations, questions, quantiles and resets
    ctx.model('ITMMarkerAny', 'SPECIFICATION Spec\nINVARIANT Worst\nPROPERTY Grows\n', emit=False)
    hs = ctx.model('ITMMarker', 'SPECIFICATION Spec\nINVARIANTS Worst Emit\nPROPERTIES Grows Refines\n',
                   {'ITM_LEN': str(ctx.scale(4, 5))})
    for h in some_hist(ctx, hs, 700, 9000):
        ctx.add(marker_life(p, h))
    # whole sessions, prepared by the library
    for k in range(ctx.scale(250, 3000)):
        f, h1, h2 = p.r.choice(['limit', 'vhf', 'shf', 'ehf']), p.r.choice(list(HS)), p.r.choice(list(HS))
        c = Case('warn session %d' % k)
        if p.r.random() < 0.5:
            a, kst, dlsa = area_params(p, f, h1, h2, p.r.choice(['zero', 'rolling', 'rugged']))
            c.begin('A', **a)
            c.qlra('A', kst, p.r.choice([0, 5, 9]), p.r.choice([-1, 3, 7]))
            d = 0
            for _ in range(4):
                if p.r.random() < 0.2:
                    c.set('A', kwx=0)
                if not d or p.r.random() < 0.7:
                    d = p.r.choice([distance(p, 'any', dlsa, None), p.log(100, 3e6)])
                c.lrprop('A', d, ['kwx'])
                c.set('A', lvar=1)
                c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['kwx'])
        else:
            z, xi, a = path_params(p, dict(shape=p.r.choice(SHAPES), np=p.r.choice(['three', 'few', 'some']), f=f, h1=h1, h2=h2), 40)
            if p.r.random() < 0.3:                # more than 1000 or 2000 km long, or less than one
                xi = p.r.choice([p.log(300, 3000), p.log(0.9e6, 2.5e6), 1e6, 2e6, 1e3]) / (len(z) - 1)
            start_p2p(c, 'A', a)
            if p.r.random() < 0.5:                # a condition met before is still in force
                c.set('A', kwx=p.r.choice([1, 2, 2, 3, 4]))
            c.qlrpfl('A', z, xi, p.r.choice([0, 5, 9]), p.r.choice([-1, 11, 17]), ['kwx'])
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['kwx'])
        ctx.add(c)


def marker_life(p, h):
    """Replay one history of ITMMarker; what each step meets is judged by the session state."""
    r = p.r
    c = Case('marker %s = %d' % ('-'.join(h['h']), h['m']))
    a = p.radio(r.uniform(100, 4000), ens=r.uniform(280, 330))
    c.begin('A', [20.0, 10.0], a['wn'], r.uniform(10, 90), a['ens'], a['gme'], a['zgnd'], 0, 5, 5, 3)
    p2p, asked = False, {}
    for w in h['h']:
        what, sev = w.rstrip('0123456789'), w[-1]
        if what in ('area', 'p2p'):
            p2p = what == 'p2p'
            hg = {'1': [r.uniform(0.6, 0.9), r.uniform(5, 40)], '4': [r.uniform(0.2, 0.4), r.uniform(5, 40)]}.get(
                sev, [r.uniform(8, 40), r.uniform(8, 40)])
            if sev in '14' and r.random() < 0.5:
                hg[0] = {'1': 1200.0, '4': 3300.0}[sev]
                hg[1] = r.uniform(700, 900)
            if r.random() < 0.5:
                hg.reverse()
            c.set('A', hg=hg, dh=r.uniform(10, 90))
        if what == 'area':
            c.qlra('A', [r.randrange(3), r.randrange(3)], r.choice([0, 5]), r.choice([-1, 3]), ['kwx'])
            if sev == '3':
                he = [hg[0], hg[1]]
                dl = [0.9 * math.sqrt(2 * x / a['gme']) for x in he]
                dl[r.randrange(2)] *= r.choice([0.05, 4])
                c.set('A', he=he, dl=dl, the=[0.001, 0.002], mdp=1)
        elif what == 'p2p':
            n = r.randrange(20, 40)
            xi = r.uniform(900, 1500)
            z = [100 + 30 * math.sin(0.4 * k + 1) for k in range(n + 1)]
            if sev == '3':
                z[r.choice([1, n - 1])] += 1200
            elif hg[0] < 100:
                z[n // 2] += 250
            c.qlrpfl('A', z, xi, r.choice([0, 5]), r.choice([-1, 11]), ['kwx'])
        elif what == 'ask':
            d = {'0': r.uniform(30e3, 900e3), '1': r.uniform(1.01e6, 1.9e6), '4': r.choice([500.0, 2.5e6])}[sev]
            if r.random() < 0.5:                 # the very distance asked before
                d = asked.get(sev, d)
            asked[sev] = d
            c.lrprop('A', 0 if p2p else d, ['kwx'])
            c.set('A', lvar=1)
        elif what == 'quant':
            z = [r.uniform(-2, 2) for _ in range(3)]
            if sev == '1':
                z = [v + r.choice([-6, 6]) for v in z]
            if r.random() < 0.4:
                z = asked.get('q' + sev, z)
            asked['q' + sev] = z
            if sev == '2':
                if r.random() < 0.5:
                    c.set('A', klim=r.choice([0, -1, 8, 12]), lvar=5)
                else:
                    c.set('A', mdvar=r.choice([4, 9, 17, 36, 40, -3]), lvar=4)
            c.avar('A', *z, chk=['kwx'])
            if sev == '2':
                c.set('A', klim=5, mdvar=3, lvar=5)
        else:
            c.set('A', kwx=0)
    return c


HS = ('tiny', 'low', 'mid', 'high', 'vhigh')
SHAPES = ('flat', 'ramp', 'noise', 'walk', 'ridge', 'tworidges', 'nearridge', 'farridge', 'edgeridge',
          'valley', 'cliff', 'sea', 'island', 'steps', 'hump', 'spike', 'slope')


# --------------------------------------------------------------------------
# variability
def vary_params(p, s):
    r = p.r
    wn = p.freq(s.get('f') or r.choice(['vhf', 'uhf', 'shf'])) / 47.7
    he = r.choice([[p.log(1, 500), p.log(1, 200)], [p.log(1, 500), p.log(1, 200)], [p.log(0.3, 6000), p.log(0.3, 6000)],
                   [p.log(1000, 6000), p.log(1000, 6000)]])
    if r.random() < 0.1:
        wn = p.log(0.02, 900)
    dist = {'near': p.log(1e3, 30e3), 'mid': p.log(30e3, 150e3), 'far': p.log(150e3, 500e3),
            'vfar': p.log(500e3, 2e6)}[s['reg']]
    dh = r.choice([0.0, p.log(0.01, 3), p.log(1, 90), p.log(50, 500)])
    if r.random() < 0.1:                         # on either side of the effective distance, or anywhere
        dist = r.choice([p.log(10, 1e7), (sum(math.sqrt(18e6 * h) for h in he) + (575.7e12 / wn) ** (1 / 3)) * r.uniform(0.6, 1.2)])
        dh = r.choice([dh, p.log(500, 5000)])
    aref = r.choice([0.0, r.uniform(0, 5), r.uniform(0, 40), r.uniform(10, 120), r.uniform(50, 400)])
    return dict(wn=wn, he=he, dist=dist, dh=dh, aref=aref)


def start_vary(c, p, s, v, klim, mdvar, lvar=5):
    c.begin(s, [10.0, 10.0], v['wn'], v['dh'], 301.0, 130e-9, complex(3.7, 0.3), 0, lvar, klim, mdvar)
    c.set(s, he=v['he'], dist=v['dist'], aref=v['aref'])


@prop('C06')
def c06(ctx):
    p = Pick(ctx.rnd)
    for s in reps(ctx, ctx.scenarios('vary'), 1, 12):
        v = vary_params(p, s)
        c = Case('quantile climate %(klim)d mode %(mdvar)d %(f)s %(reg)s' % s)
        start_vary(c, p, 'A', v, s['klim'], s['mdvar'])
        for _ in range(3):
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val'])
        c.avar('A', p.r.uniform(-3, 3), p.r.uniform(-3, 3), p.r.uniform(0.5, 4), ['val'])
        ctx.add(c)
    for klim in (0, -1, -7, 8, 9, 100):
        for mdvar in (0, 1, 2, 3, 13, 21):
            v = vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far'])))
            c = Case('impossible climate %d mode %d' % (klim, mdvar))
            start_vary(c, p, 'A', v, klim, mdvar)
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val', 'klim'])
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val', 'klim'])
            ctx.add(c)
    for mdvar in list(range(-3, 0)) + list(range(4, 10)) + list(range(14, 20)) + list(range(24, 30)) + list(range(34, 45)):
        for klim in p.r.sample(range(1, 8), 3):
            v = vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far'])))
            c = Case('impossible mode %d climate %d' % (mdvar, klim))
            start_vary(c, p, 'A', v, klim, mdvar)
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val'])
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val'])
            ctx.add(c)
    # distances close to where the effective distance changes its slope
    for k in range(ctx.scale(150, 2000)):
        v = vary_params(p, dict(reg='mid'))
        bend = math.sqrt(18e6 * v['he'][0]) + math.sqrt(18e6 * v['he'][1]) + (575.7e12 / v['wn']) ** (1 / 3)
        v['dist'] = bend * (1 + p.r.choice([0, 1, -1, 1, -1]) * p.log(1e-9, 0.05))
        klim, mdvar = p.r.randint(1, 7), p.r.choice([0, 1, 2, 3]) + p.r.choice([0, 10, 20, 30])
        c = Case('quantile at the bend climate %d mode %d' % (klim, mdvar))
        start_vary(c, p, 'A', v, klim, mdvar)
        for _ in range(2):
            c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val'])
        ctx.add(c)
    # deviates far out in either tail, and at the end of the straight part of each climate
    for klim in range(1, 8):
        for mdvar in (0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33):
            for rep in range(ctx.scale(1, 10)):
                v = vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far', 'vfar'])))
                c = Case('far quantile climate %d mode %d' % (klim, mdvar))
                start_vary(c, p, 'A', v, klim, mdvar)
                for _ in range(4):
                    far = [p.r.choice([p.r.uniform(-6, 6), p.r.uniform(-25, 25), p.r.choice([1, -1]) * p.r.uniform(6, 25),
                                       p.r.choice([1.282, 2.161, 20.0]) + p.r.choice([0.0, 0.0, 1e-9, -1e-9, 0.3])])
                           for _ in range(3)]
                    c.avar('A', *far, chk=['val'])
                ctx.add(c)


@prop('C07')
def c07(ctx):
    p = Pick(ctx.rnd)
    ctx.design('Monotone')
    for s in reps(ctx, ctx.scenarios('varys'), 2, 12):
        v = vary_params(p, s)
        c = Case('monotone climate %(klim)d mode %(mdvar)d %(reg)s' % s)
        start_vary(c, p, 'A', v, s['klim'], s['mdvar'])
        base = s['mdvar'] % 10
        for coord in range(3):
            fixed = [p.deviate(), p.deviate(), p.deviate()]
            x = p.r.uniform(-4.5, 4.5)
            grid = sorted(p.r.sample([-4.0, -3.1, -2.3267, -1.2815, -0.5, -0.01, 0.0, 0.01, 0.6, 1.28, 1.282, 1.2821, 1.7, 2.16, 2.162, 2.3267, 3.1, 4.0], 5)
                          + [x, x + p.log(1e-4, 0.3), p.r.choice([1, -1]) * p.r.uniform(4, 8)])
            prev = None
            for g in grid:
                zz = list(fixed)
                zz[coord] = g
                k = c.avar('A', *zz, chk=['finite'])
                if prev:
                    c.rel('notmore', prev, k, ['val'], at=1e-9)
                    if (base == 0 and coord in (0, 1)) or (base in (1, 2) and coord == 1):
                        c.rel('same', prev, k, ['val'], at=1e-9)
                prev = k
        ctx.add(c)


@prop('C08')
def c08(ctx):
    p = Pick(ctx.rnd)
    ctx.design('UsesCurrent')
    ctx.model('ITMControlAny', 'SPECIFICATION Spec\nINVARIANTS Coherent Settled Covered\n', emit=False)
    ctx.model('ITMControl', 'SPECIFICATION Spec\nPROPERTY Refines\n', {'ITM_LEN': str(ctx.scale(3, 4))}, emit=False)
    hs = ctx.model('ITMControl', 'SPECIFICATION Spec\nINVARIANTS Coherent Settled Emit\n',
                   {'ITM_LEN': str(ctx.scale(4, 5))})
    modes = [0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33]
    quiet_ones = [h for h in hs if any(w.endswith('0') for w in h['h'])]
    plain = [h for h in hs if not any(w.endswith('0') for w in h['h'])]
    # longer walks between few values, which come back
    # (only a first history may rely on everything being announced when it begins)
    walks = [dict(h=sum((p.r.choice(plain if n else hs)['h'] for n in range(p.r.randint(2, 4))), []), few=1)
             for _ in range(ctx.scale(500, 6000))]
    for h in some_hist(ctx, plain, 2200, 25000) + some_hist(ctx, quiet_ones, 700, 8000) + walks:
        c = Case('announce %s' % '-'.join(h['h']))
        few = 'few' in h
        climates, kinds = (p.r.sample(range(1, 8), 2), p.r.sample(modes, 2)) if few else (range(1, 8), modes)
        us = [vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far']))) for _ in range(2)]
        v = vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far'])))
        klim, mdvar = p.r.choice(climates), p.r.choice(kinds)
        a = p.radio(v['wn'] * 47.7)
        c.begin('A', [p.log(1, 100), p.log(1, 50)], v['wn'], v['dh'], a['ens'], a['gme'], a['zgnd'], 0, 5, klim, mdvar)
        c.set('A', he=v['he'], dist=v['dist'], aref=v['aref'])
        for w in h['h']:
            u = p.r.choice(us) if few else vary_params(p, dict(reg=p.r.choice(['near', 'mid', 'far'])))
            if w == 'ask':
                c.avar('A', p.deviate(), p.deviate(), p.deviate(), ['val', 'lvar', 'klim'])
            elif w == 'klim':
                klim = p.r.choice([k for k in climates if k != klim])
                c.set('A', klim=klim, lvar=5)
            elif w in ('mdvar', 'mdvar5'):
                mdvar = p.r.choice([m for m in kinds if m != mdvar])
                c.set('A', mdvar=mdvar, lvar=5 if w[-1] == '5' else 4)
            elif w == 'klim0':
                klim = p.r.choice([k for k in climates if k != klim])
                c.set('A', klim=klim)
            elif w == 'mdvar0':
                mdvar = p.r.choice([m for m in kinds if m != mdvar])
                c.set('A', mdvar=mdvar)
            elif w == 'wn0':
                c.set('A', wn=u['wn'])
            elif w in ('wn', 'wn4'):
                c.set('A', wn=u['wn'], lvar=4 if w == 'wn4' else 3)
            elif w in ('he', 'he3'):
                c.set('A', he=u['he'], lvar=3 if w == 'he3' else 2)
            elif w in ('dist', 'dist5'):
                c.set('A', dist=u['dist'], dh=u['dh'] if p.r.random() < 0.3 else v['dh'], aref=u['aref'], lvar=5 if w == 'dist5' else 1)
            elif w.startswith('area'):
                klimx, mdvarx = 0, -1
                if w == 'areaK':
                    klimx = klim = p.r.choice([k for k in climates if k != klim])
                if w == 'areaKM=':
                    klimx, mdvarx = klim, mdvar
                if w == 'areaM':
                    mdvarx = mdvar = p.r.choice([m for m in kinds if m != mdvar])
                c.qlra('A', [p.r.randrange(3), p.r.randrange(3)], klimx, mdvarx, ['lvar', 'klim', 'mdvar'])
                c.lrprop('A', u['dist'])
            else:
                klimx, mdvarx = 0, -1
                if w[-1] == '=':
                    klimx, mdvarx = klim if 'K' in w else 0, mdvar if 'M' in w else -1
                if w == 'p2pKM':
                    klimx = klim = p.r.choice([k for k in climates if k != klim])
                    mdvarx = mdvar = p.r.choice([m for m in kinds if m != mdvar])
                z, xi = p.profile(p.r.choice(SHAPES), 'few')
                c.qlrpfl('A', z, xi, klimx, mdvarx, ['lvar', 'klim', 'mdvar'])
        ctx.add(c)


def some_hist(ctx, hs, quick, thorough):
    k = ctx.scale(quick, thorough)
    return hs if len(hs) <= k else ctx.rnd.sample(hs, k)


# --------------------------------------------------------------------------
# bare profiles
@prop('C09')
def c09(ctx):
    p = Pick(ctx.rnd)
    for z in ctx.profiles('Seen', 'HorizonsExchange', quick='5', thorough='7'):
        c = Case('horizons of %s' % z)
        for hg in ([10.0, 10.0], [90.0, 2.0]):
            c.hzns(z, p.r.choice(SPACING), hg, 117.6e-9, ['angle', 'point', 'clear'])
        ctx.add(c)
    for z, xi, a in long_paths(ctx, p, 16, 160):
        c = Case('horizons of %d points' % len(z))
        c.hzns(z, xi, a['hg'], a['gme'], ['angle', 'point', 'clear'])
        ctx.add(c)
    for s in reps(ctx, ctx.scenarios('profile'), 12, 120):
        z, xi = p.profile(s['shape'], s['np'], 90)
        if p.r.random() < 0.15:          # a short path, maybe shorter than the antennas are high
            xi = p.log(0.5, 60)
        hg = [p.height(p.r.choice(HS)), p.height(p.r.choice(HS))]
        gme = p.r.choice([157e-9, 117.6e-9, p.r.uniform(75e-9, 250e-9)])
        c = Case('horizons %(shape)s %(np)s' % s)
        c.hzns(z, xi, hg, gme, ['angle', 'point', 'clear'])
        k = p.r.random()
        if k < 0.2:                      # obstacle exactly as high as the direct ray, flat earth
            i = p.r.randrange(len(z))
            z2 = list(z)
            z2[i] += p.log(0.1, 300)
            c.hzns(z2, xi, hg, gme, ['angle', 'point', 'clear'])
        elif k < 0.4:                    # obstacle grazing the ray of one terminal
            np = len(z) - 1
            if np >= 2:
                i = p.r.randint(1, np - 1)
                a, b = z[0] + hg[0], z[-1] + hg[1]
                t = i / np
                ray = a + (b - a) * t - 0.5 * gme * (np * xi) ** 2 * t * (1 - t)
                for dz in (-1e-3, 1e-3, p.log(0.01, 3)):
                    z2 = list(z)
                    z2[i] = ray + dz
                    c.hzns(z2, xi, hg, gme, ['angle', 'point', 'clear'])
        elif k < 0.6:
            c.hzns(z[::-1], xi, hg[::-1], gme, ['angle', 'point', 'clear'])
            c.rel('swap', 1, 2, ['the'], at=1e-11, rt=1e-9)
        ctx.add(c)


def stretch(p, np, xi):
    """A stretch 0 <= x1 <= x2 <= length, often on the grid, sometimes empty."""
    r = p.r
    length = np * xi
    k = r.randrange(10)
    if k == 9:                                   # just beside the grid
        i, j = sorted((r.randint(0, np), r.randint(0, np)))
        e = lambda: xi * r.choice([0, 1, -1]) * r.choice([1e-3, 1e-4, 1e-5, 0.02])
        a = min(max(i * xi + e(), 0.0), length)
        return a, min(max(j * xi + e(), a), length)
    if k == 0:
        return 0.0, length
    if k == 1:
        return 0, length
    if k == 2:                                   # on the grid
        i = r.randint(0, np)
        j = r.randint(i, np)
        return i * xi, j * xi
    if k == 3:                                   # one end on the grid
        i = r.randint(0, np)
        return i * xi, r.uniform(i * xi, length)
    if k == 4:                                   # inside one interval
        i = r.randint(0, np - 1)
        a = r.uniform(i, i + 1)
        return a * xi, r.uniform(a, i + 1) * xi
    if k == 5:                                   # empty
        a = r.choice([r.uniform(0, length), r.randint(0, np) * xi, length, 0.0])
        return a, a
    if k == 6:
        a = r.uniform(0, length * 0.4)
        return a, length - a
    if k == 7:                                   # narrow
        a = r.uniform(0, length)
        return a, min(length, a + xi * r.uniform(0, 2.5))
    a, b = sorted((r.uniform(0, length), r.uniform(0, length)))
    return a, b


SPACING = (4096.0, 512.0, 1000.0, 15000.0)


def affine(z, k, b, slope=0.0):
    return [k * v + b + slope * i for i, v in enumerate(z)]


@prop('C10')
def c10(ctx):
    p = Pick(ctx.rnd)
    for z in ctx.profiles('LineShifts', quick='4', thorough='5'):
        c = Case('fits to %s' % z)
        xi = p.r.choice(SPACING)
        for a in range(len(z)):
            for b in range(a, len(z)):
                c.zlsq1(z, xi, a * xi, b * xi, ['line'])
        ctx.add(c)
    for s in reps(ctx, ctx.scenarios('profile'), 10, 90):
        z, xi = p.profile(s['shape'], s['np'], 90)
        np = len(z) - 1
        x1, x2 = stretch(p, np, xi)
        c = Case('fit %(shape)s %(np)s' % s)
        i = c.zlsq1(z, xi, x1, x2, ['line'])
        k = p.r.random()
        if k < 0.25:
            sh = p.r.choice([100.0, -250.0, p.r.uniform(-1000, 1000)])
            z2 = affine(z, 1.0, sh)
            j = c.zlsq1(z2, xi, x1, x2, ['line'])
            c.rel('map', i, j, ['line'], at=1e-6 * max(1, np) ** 0.5 + 1e-9 * max(map(abs, z2)) * np * 10, rt=1e-7, k=1.0, b=[sh, sh])
        elif k < 0.5:
            f = p.r.choice([2.0, -1.0, 0.5, p.r.uniform(-3, 3)])
            j = c.zlsq1(affine(z, f, 0.0), xi, x1, x2, ['line'])
            c.rel('map', i, j, ['line'], at=1e-6 + 1e-9 * max(map(abs, z)) * np * 30, rt=1e-7, k=f, b=[0.0, 0.0])
        elif k < 0.75:
            b, m = p.r.uniform(-300, 300), p.r.uniform(-30, 30)
            c.zlsq1([b + m * i for i in range(np + 1)], xi, x1, x2, ['line', 'straight'])
        else:
            for _ in range(3):
                c.zlsq1(z, xi, *stretch(p, np, xi), chk=['line'])
        ctx.add(c)
    # profiles of up to 600 points
    for z, xi, a in long_paths(ctx, p, 36, 500):
        np = len(z) - 1
        c = Case('fit long profile np %d' % np)
        for _ in range(2):
            c.zlsq1(z, xi, *stretch(p, np, xi), chk=['line'])
        c.zlsq1(z, xi, p.r.uniform(0, 0.1) * np * xi, p.r.uniform(0.9, 1) * np * xi, ['line'])
        ctx.add(c)
    # every stretch with end points on a half-interval grid of short profiles
    for np in range(1, ctx.scale(6, 9)):
        z = [p.r.uniform(-50, 200) for _ in range(np + 1)]
        for xi in (p.r.choice([1.0, 64.0]), p.r.choice([100.0, 90.5])):
            c = Case('fit grid np %d' % np)
            for a in range(2 * np + 1):
                for b in range(a, 2 * np + 1):
                    c.zlsq1(z, xi, a * xi / 2, b * xi / 2, ['line'])
            ctx.add(c)


@prop('C11')
def c11(ctx):
    p = Pick(ctx.rnd)
    for z in ctx.profiles('Irregularity', quick='5', thorough='7'):
        xi = p.r.choice(SPACING)
        np = len(z) - 1
        c = Case('irregularity of %s' % z)
        i = c.dlthx(z, xi, 0.0, np * xi, ['dh', 'nonneg'])
        j = c.dlthx(z[::-1], xi, 0.0, np * xi, ['dh', 'nonneg'])
        c.rel('same', i, j, ['dh'], at=1e-6, rt=1e-7)
        ctx.add(c)
    for s in reps(ctx, ctx.scenarios('profile'), 7, 60):
        npts = None
        if s['np'] == 'many' and p.r.random() < 0.4:
            npts = p.r.randint(150, 600)
        z, xi = p.profile(s['shape'], s['np'], None, npts)
        np = len(z) - 1
        x1, x2 = stretch(p, np, xi)
        if p.r.random() < 0.5 and np >= 3:
            a = p.r.uniform(0, 0.3) * np * xi
            x1, x2 = a, np * xi - p.r.uniform(0, 0.3) * np * xi
        c = Case('irregularity %(shape)s %(np)s' % s)
        chk = ['dh', 'nonneg']
        if s['shape'] in ('flat',):
            chk.append('zero')
        i = c.dlthx(z, xi, x1, x2, chk)
        tol = 1e-6 + 1e-9 * max(map(abs, z)) * 100
        k = p.r.randrange(6)
        if k == 0:
            sh = p.r.choice([500.0, -300.0, p.r.uniform(-1000, 1000)])
            j = c.dlthx(affine(z, 1, sh), xi, x1, x2, ['nonneg'])
            c.rel('same', i, j, ['dh'], at=tol + 1e-6, rt=1e-7)
        elif k == 1:
            sl = p.r.uniform(-20, 20)
            j = c.dlthx(affine(z, 1, 0, sl), xi, x1, x2, ['nonneg'])
            c.rel('same', i, j, ['dh'], at=tol + 1e-6 * np, rt=1e-7)
        elif k == 2:
            f = p.r.choice([2.0, 0.25, 3.0])
            j = c.dlthx(affine(z, f, 0), xi, x1, x2, ['nonneg'])
            c.rel('map', i, j, ['dh'], at=tol * 5, rt=1e-7, k=f, b=[0.0])
        elif k == 3 and (x1, x2) == (0.0, np * xi):
            j = c.dlthx(z[::-1], xi, x1, x2, ['nonneg'])
            c.rel('same', i, j, ['dh'], at=tol, rt=1e-7)
        elif k == 4:
            b, m = p.r.uniform(-300, 300), p.r.uniform(-30, 30)
            c.dlthx([b + m * i for i in range(np + 1)], xi, x1, x2, ['dh', 'nonneg', 'zero'])
        else:
            a = p.r.uniform(0, np)
            c.dlthx(z, xi, a * xi, min(np, a + p.r.uniform(0, 1.99)) * xi, ['dh', 'zero'])
        ctx.add(c)
    # stretches at which the number of points taken changes, exactly and to either side
    for span in [2, 3, 41, 42, 43, 52, 92, 142, 232, 241, 242, 243, 252, 262]:
        for rep in range(ctx.scale(1, 12)):
            z, xi = p.profile(p.r.choice(['noise', 'walk', 'ridge', 'cliff']), 'some', None, span + p.r.randint(0, 12))
            xi = 2.0 ** p.r.randint(4, 9)
            np = len(z) - 1
            i = p.r.randint(0, np - span)
            c = Case('irregularity over exactly %d intervals' % span)
            c.dlthx(z, xi, i * xi, (i + span) * xi, ['dh', 'nonneg'])
            e = p.r.choice([2.0 ** -20, 0.25])
            c.dlthx(z, xi, (i + e) * xi, (i + span) * xi, ['dh', 'nonneg'] + (['zero'] if span == 2 else []))
            c.dlthx(z, xi, i * xi, (i + span) * xi - e, ['dh', 'nonneg'] + (['zero'] if span == 2 else []))
            ctx.add(c)


# --------------------------------------------------------------------------
# preparation
@prop('C12')
def c12(ctx):
    p = Pick(ctx.rnd)
    chk = ['dist', 'dh', 'he', 'dl', 'the', 'heup']
    for z in ctx.profiles('Geometry', quick='5', thorough='7'):
        c = Case('geometry of %s' % z)
        a = p.radio(p.freq(p.r.choice(['vhf', 'uhf', 'shf'])))
        a['hg'] = p.r.choice([[10.0, 10.0], [90.0, 2.0], [3.0, 40.0]])
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, p.r.choice(SPACING), 5, 11, chk)
        ctx.add(c)
    for s in reps(ctx, ctx.scenarios('paths'), 3, 30):
        z, xi, a = path_params(p, s, most=None if ctx.thorough else 130)
        c = Case('geometry %(shape)s %(np)s %(h1)s/%(h2)s' % s)
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, chk)
        if p.r.random() < 0.3:           # the same session goes on to another path
            z, xi, b = path_params(p, s, most=60)
            c.qlrpfl('A', z, xi, p.r.choice([0, 5]), p.r.choice([-1, 11]), chk)
        ctx.add(c)
    for k, (z, xi, a) in enumerate(guided_paths(ctx, p, ctx.scale(400, 5000), ctx.scale(2500, 30000))):
        c = Case('geometry wide %d' % k)
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, chk)
        ctx.add(c)
    # smooth clear paths whose horizons just reach, or just do not reach, across
    for k in range(ctx.scale(60, 800)):
        a = p.radio(p.freq(p.r.choice(['vhf', 'uhf', 'shf'])))
        a['hg'] = [p.log(1, 300), p.log(1, 300)]
        reach = sum(math.sqrt(2 * h / a['gme']) for h in a['hg'])
        n = p.r.choice([1, 1, 2, 3])
        off = p.r.choice([-1, 1]) * p.r.choice([1e-5, 1e-4, 4e-4, 9e-4, 3e-3, 0.02, p.log(1e-5, 0.3)])
        c = Case('geometry of a path %g longer than its horizons' % off)
        start_p2p(c, 'A', a)
        c.qlrpfl('A', [p.r.choice([0.0, 120.0, -3.0])] * (n + 1), reach * (1 + off) / n, 5, 11, chk)
        ctx.add(c)
    for z, xi, a in long_paths(ctx, p, 16, 160):
        c = Case('geometry of %d points' % len(z))
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, chk)
        ctx.add(c)


@prop('C13')
def c13(ctx):
    p = Pick(ctx.rnd)
    for s in reps(ctx, ctx.scenarios('siting'), 2, 30):
        a = p.radio(p.freq(p.r.choice(['vhf', 'uhf', 'shf'])))
        a['hg'] = [p.height(s['h1']), p.height(s['h2'])]
        if p.r.random() < 0.2:
            a['hg'][p.r.randrange(2)] = p.r.choice([5.0, 4.999999, 5.000001, 10.0, 1.0])
        a['dh'] = p.rough(s['dh'])
        c = Case('siting %(k1)d/%(k2)d %(h1)s/%(h2)s dh %(dh)s' % s)
        c.begin('A', **a)
        c.qlra('A', [s['k1'], s['k2']], p.r.choice([0, 5]), p.r.choice([-1, 3]), ['he', 'dl', 'the', 'heup'])
        c.begin('B', **a)
        c.qlra('B', [s['k2'], s['k1']], 5, 3, ['he', 'dl', 'the', 'heup'])
        c.set('A', dh=p.rough(p.r.choice(['zero', 'smooth', 'rolling', 'rugged'])))
        c.qlra('A', [p.r.randrange(3), p.r.randrange(3)], 0, -1, ['he', 'dl', 'the', 'heup'])
        ctx.add(c)


@prop('C14')
def c14(ctx):
    p = Pick(ctx.rnd)
    n = 0
    for f in ('limit', 'vhf', 'uhf', 'shf', 'ehf'):
        for zs in ('none', 'low', 'high', 'deep'):
            for pol in (0, 1):
                for g in ('poor', 'average', 'good', 'fresh', 'sea', 'dry', 'any'):
                    for _ in range(ctx.scale(4, 40)):
                        fmhz = p.freq(f)
                        zsys = {'none': p.r.choice([0, 0.0]), 'low': p.log(1, 500), 'high': p.log(500, 5000),
                                'deep': -p.log(1, 400)}[zs]
                        en0 = p.r.choice([301.0, 314, 250.0, 400.0, p.r.uniform(240, 420), p.r.uniform(150, 500)])
                        eps, sgm = {'poor': (4, 0.001), 'average': (15, 0.005), 'good': (25, 0.02), 'fresh': (81, 0.01),
                                    'sea': (81, 5.0), 'dry': (4.0, 0.0),
                                    'any': p.r.choice([(p.r.uniform(1.5, 90), p.log(1e-4, 6)), (p.r.uniform(1.02, 2), p.log(1e-7, 1e-2)),
                                                       (p.r.choice([1.2, 1.5, 1, 80]), p.log(1e-7, 100))])}[g]
                        # horizontal polarisation is 0, vertical any other choice
                        ok, res = call(code('qlrps'), fmhz, zsys, en0, pol, eps, sgm)
                        o = {}
                        try:
                            wn, gme, ens, z = res
                        except Exception:
                            wn = gme = ens = z = None
                        try:
                            z = complex(z)
                            o['zgnd'] = [num(z.real), num(z.imag)]
                        except Exception:
                            o['zgnd'] = [NAN, NAN]
                        o.update(wn=[num(wn)], ens=[num(ens)], gme=[num(gme)])
                        c = Case('system %s %s pol %d %s' % (f, zs, pol, g))
                        c.add('qlrps', dict(fmhz=num(fmhz), zsys=num(zsys), en0=num(en0), ipol=pol, eps=num(eps),
                                            sgm=num(sgm)), o, ['wn', 'ens', 'gme', 'zgnd'])
                        ctx.add(c)


# --------------------------------------------------------------------------
# statistics
@prop('C15')
def c15(ctx):
    import numpy as np
    p = Pick(ctx.rnd)

    def q_of(z):
        ok, r = call(code('qerf'), z)
        return num(r) if ok else NAN
    zs = [i / 16 for i in range(-112, 113)] + [0.0, -0.0, 1e-12, -1e-12, 5, -5, 10, -10, 14.0, -14.0]
    zs += [p.r.uniform(-8, 8) for _ in range(ctx.scale(400, 20000))]
    zs += [p.r.gauss(0, 1e-3) for _ in range(20)]
    zs = sorted(zs)
    for k in range(0, len(zs), 25):
        c = Case('qerf %d' % k)
        prev = None
        for z in zs[k:k + 26]:
            i = c.add('qerf', dict(z=num(z)), dict(q=[q_of(z)]), ['acc', 'unit'])
            if prev:
                c.rel('notmore', prev, i, ['q'], at=1e-12)
            prev = i
            if p.r.random() < 0.3:
                j = c.add('qerf', dict(z=num(-z)), dict(q=[q_of(-z)]), ['acc', 'unit'])
                c.rel('map', i, j, ['q'], at=2e-8, k=-1.0, b=[1.0])
        ctx.add(c)

    def x_of(q):
        ok, r = call(code('qerfi'), q)
        if not ok:
            return [NAN]
        return nums(r)
    base = [0.000001, 0.00001, 0.0001, 0.001, 0.01, 0.05, 0.1, 0.25, 0.4, 0.49, 0.499, 0.4999, 0.49999, 0.5,
            0.50001, 0.5001, 0.501, 0.51, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.99999, 0.999999]
    lists = [base, list(reversed(base)), [0.5], [0.1], [0.9], [0.0, 1.0], [1e-9, 1 - 1e-9], [0.01, 0.1, 0.5, 0.9, 0.99], [0.5, 0.9, 0.1]]
    for n in (0.000001, 0.000002, 0.0000005, 0.999999, 0.999998, 0.9999995):
        lists.append([n])
    for _ in range(ctx.scale(120, 3000)):
        n = p.r.choice([1, 1, 2, 3, 5, 12, 25])
        lists.append([p.r.choice([p.r.random(), p.log(1e-6, 0.5), 1 - p.log(1e-6, 0.5), p.r.choice(base)]) for _ in range(n)])
    for k, qs in enumerate(lists):
        arg = list(qs)
        x = x_of(arg)
        o = dict(x=x, y=x_of([1 - q for q in qs]), each=[(x_of([q]) or [NAN])[0] for q in qs])
        c = Case('qerfi %d' % k)
        chk = ['acc', 'mono', 'antisym', 'elementwise']
        c.add('qerfi', dict(q=nums(qs)), o, chk)
        ctx.add(c)


@prop('C16')
def c16(ctx):
    import itertools
    p = Pick(ctx.rnd)

    def ask(c, z, ir):
        arg = list(z)
        ok, r = call(code('qtile'), arg, ir)
        c.add('qtile', dict(z=nums(z), ir=ir), dict(v=[num(r) if ok else NAN], after=nums(arg)), ['rank', 'arg'])
    # every list of up to n values from a small set, every rank (so every pattern of order and ties)
    for n in range(1, ctx.scale(5, 6)):
        for v in itertools.product(range(min(n, ctx.scale(3, 4))), repeat=n):
            c = Case('qtile small %s' % (v,))
            for ir in range(n):
                ask(c, [float(x) for x in v], ir)
            ctx.add(c)
    for n in range(5, ctx.scale(6, 8)):
        for v in itertools.permutations(range(n)):
            c = Case('qtile perm %s' % (v,))
            for ir in (0, n - 1, p.r.randrange(n)):
                ask(c, [float(x) for x in v], ir)
            ctx.add(c)
    for k in range(ctx.scale(250, 4000)):
        n = p.r.choice([p.r.randint(2, 12), p.r.randint(10, 60), p.r.choice([35, 45, 245, 95])])
        if k % 40 == 11:
            n = p.r.choice([246, 500, 1001, 3000])
        kind = p.r.randrange(6)
        if kind == 0:
            z = [p.r.gauss(0, 50) for _ in range(n)]
        elif kind == 5:                                   # values that differ in the last digits only
            v = p.r.choice([0.0, 100.0, -7.25, 1e-9, 1e6])
            z = [v + p.r.choice([0, 1, -1, 2, -2]) * p.r.choice([1e-12, 1e-9, 1e-6, 1e-3]) for _ in range(n)]
        elif kind == 1:
            z = [float(p.r.randint(-3, 3)) for _ in range(n)]
        elif kind == 2:
            z = sorted(p.r.gauss(0, 50) for _ in range(n))
        elif kind == 3:
            z = sorted((p.r.gauss(0, 50) for _ in range(n)), reverse=True)
        else:
            z = [math.sin(i * 0.3) * 10 for i in range(n)]
            if p.r.random() < 0.5:
                z = [1.5] * n
        c = Case('qtile %d' % k)
        for ir in sorted({0, n - 1, p.r.randrange(n), n // 10, n - 1 - n // 10}):
            ask(c, z, ir)
        ctx.add(c)


# --------------------------------------------------------------------------
# relations between predictions
def swap_area(c, p, a, prep, dlsa, dx, classes):
    """Ask an area and its mirror image the same questions."""
    klim, mode = p.r.randint(1, 7), p.r.choice([0, 1, 2, 3, 13, 23])
    b = dict(a, hg=a['hg'][::-1])
    c.begin('A', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'], 0, 5, klim, mode)
    c.begin('B', b['hg'], b['wn'], b['dh'], b['ens'], b['gme'], b['zgnd'], 0, 5, klim, mode)
    if 'kst' in prep:
        i = c.qlra('A', prep['kst'], 0, -1)
        j = c.qlra('B', prep['kst'][::-1], 0, -1)
        c.rel('swap', i, j, ['he', 'dl', 'the'], at=1e-7, rt=1e-9)
    else:
        c.set('A', mdp=1, **{k: prep[k] for k in ('he', 'dl', 'the')})
        c.set('B', mdp=1, **{k: prep[k][::-1] for k in ('he', 'dl', 'the')})
    for w in classes:
        d = distance(p, w, dlsa, dx)
        i = c.lrprop('A', d)
        j = c.lrprop('B', d)
        c.rel('same', i, j, ['aref'], at=1e-4, rt=1e-6)
        c.rel('same', i, j, ['kwx'])
        c.set('A', lvar=1)
        c.set('B', lvar=1)
        zz = [p.deviate(), p.deviate(), p.deviate()]
        i = c.avar('A', *zz, chk=[])
        j = c.avar('B', *zz, chk=[])
        c.rel('same', i, j, ['val'], at=1e-4, rt=1e-6)


def twin_paths(c, p, a, b, z1, z2, xi, how):
    """Prepare two paths that have to come out alike (how: 'swap' exchanges the terminals)."""
    klim, mode = p.r.randint(1, 7), p.r.choice([10, 11, 12, 13, 1, 3, 31])
    start_p2p(c, 'A', a)
    start_p2p(c, 'B', b)
    i = c.qlrpfl('A', z1, xi, klim, mode)
    j = c.qlrpfl('B', z2, xi, klim, mode)
    c.rel(how, i, j, ['he', 'dl'], at=1e-3, rt=1e-6, amb=i)
    c.rel(how, i, j, ['the'], at=1e-8, rt=1e-6, amb=i)
    c.rel('same', i, j, ['dh'], at=1e-4, rt=1e-6, amb=i)
    c.rel('same', i, j, ['dist'], at=1e-3, rt=1e-9)
    c.rel('same', i, j, ['aref'], at=1e-3, rt=1e-5, amb=i)
    c.rel('same', i, j, ['kwx'], amb=i)
    for _ in range(2):
        zz = [p.deviate(), p.deviate(), p.deviate()]
        u = c.avar('A', *zz, chk=[])
        v = c.avar('B', *zz, chk=[])
        c.rel('same', u, v, ['val'], at=1e-3, rt=1e-5, amb=i)


@prop('C17')
def c17(ctx):
    p = Pick(ctx.rnd)
    ctx.design('Reciprocal')
    for k, z in enumerate(ctx.profiles('HorizonsExchange', 'Geometry', quick='5')):
        a = p.radio(p.freq(p.r.choice(['vhf', 'uhf', 'shf'])))
        a['hg'] = p.r.choice([[10.0, 10.0], [90.0, 2.0], [3.0, 40.0]])
        c = Case('swap small path %s' % z)
        twin_paths(c, p, a, dict(a, hg=a['hg'][::-1]), z, z[::-1], p.r.choice(SPACING), 'swap')
        ctx.add(c)
    for s in reps(ctx, some(ctx, ctx.scenarios('areas'), 300), 1, 4):
        a, kst, dlsa = area_params(p, s['f'], s['h1'], s['h2'], s['dh'], kst=[s['k1'], s['k2']])
        c = Case('swap area %(f)s %(h1)s/%(h2)s dh %(dh)s siting %(k1)d/%(k2)d' % s)
        swap_area(c, p, a, dict(kst=kst), dlsa, crossover(a, kst), p.r.sample(['los', 'near', 'diff', 'scat', 'any'], 3))
        ctx.add(c)
    for k, w in enumerate(guided(ctx, p, ctx.scale(250, 3000), ctx.scale(2500, 30000))):
        c = Case('swap area wide %d' % k)
        swap_area(c, p, w['a'], w, w['dlsa'], w['dx'], p.r.sample(['los', 'diff', 'scat'], 2))
        ctx.add(c)
    for s in reps(ctx, ctx.scenarios('paths'), 2, 12):
        z, xi, a = path_params(p, s, most=90)
        c = Case('swap path %(shape)s %(np)s %(h1)s/%(h2)s' % s)
        twin_paths(c, p, a, dict(a, hg=a['hg'][::-1]), z, z[::-1], xi, 'swap')
        ctx.add(c)
    for k, (z, xi, a) in enumerate(guided_paths(ctx, p, ctx.scale(250, 3000), ctx.scale(2000, 20000))):
        c = Case('swap path wide %d' % k)
        twin_paths(c, p, a, dict(a, hg=a['hg'][::-1]), z, z[::-1], xi, 'swap')
        ctx.add(c)
    for z, xi, a in long_paths(ctx, p, 10, 100):
        c = Case('swap path of %d points' % len(z))
        twin_paths(c, p, a, dict(a, hg=a['hg'][::-1]), z, z[::-1], xi, 'swap')
        ctx.add(c)


@prop('C18')
def c18(ctx):
    p = Pick(ctx.rnd)
    for k, z in enumerate(ctx.profiles('Geometry', quick='5')):
        a = p.radio(p.freq(p.r.choice(['vhf', 'uhf', 'shf'])))
        a['hg'] = p.r.choice([[10.0, 10.0], [90.0, 2.0], [3.0, 40.0]])
        c = Case('datum small path %s' % z)
        sh = p.r.choice([-35.0, -240.0, -1000.0, 500.0])
        twin_paths(c, p, a, a, z, [v + sh for v in z], p.r.choice(SPACING), 'same')
        ctx.add(c)

    def shift(z):
        low, high = min(z), max(z)
        return p.r.choice([-low, -high, -(low + high) / 2, 1000.0, -1000, p.r.uniform(-500, 3000), -z[0], -z[-1], -5000.0,
                           -12000.0, 20000.0, p.r.choice([-9999.0, -32768.0, 32767.0, -10000.0]) - z[p.r.randrange(len(z))]])
    for s in reps(ctx, ctx.scenarios('paths'), 2, 14):
        z, xi, a = path_params(p, s, most=90)
        c = Case('datum %(shape)s %(np)s %(h1)s/%(h2)s' % s)
        if p.r.random() < 0.1:                    # hardly any relief
            f = p.log(1e-5, 1e-2)
            z = [float(v) * f for v in z]
        sh = shift(z)
        twin_paths(c, p, a, a, z, [v + sh for v in z], xi, 'same')
        ctx.add(c)
    for k, (z, xi, a) in enumerate(guided_paths(ctx, p, ctx.scale(350, 4000), ctx.scale(2000, 20000))):
        c = Case('datum wide %d' % k)
        sh = shift(z)
        twin_paths(c, p, a, a, z, [v + sh for v in z], xi, 'same')
        ctx.add(c)


ALLP = ['aref', 'kwx', 'dist', 'mdp', 'he', 'dl', 'the', 'hg', 'wn', 'ens', 'gme', 'zgnd', 'dh', 'lvar', 'klim', 'mdvar']


def elsewhere(p, z):
    """Now and then: the same terrain far below or above the datum, or with an odd height among the others."""
    k = p.r.random()
    if k < 0.12:
        sh = p.r.choice([-700.0, -9999.0, 5000.0, -40000.0])
        return [v + sh for v in z]
    if k < 0.3:
        z = list(z)
        z[p.r.choice([0, -1, p.r.randrange(len(z))])] = p.r.choice([-9999.0, -32768.0, -600.0, 9000.0, 0.0, -0.5])
    return z


class Worker:
    """One session of the interleaving model and its program; every list passed is kept and compared."""

    def __init__(self, p, kind):
        self.kind = kind
        self.klim, self.mdvar = p.r.randint(1, 7), p.r.choice([0, 1, 2, 3])
        if kind == 'area':
            self.a, self.kst, dlsa = area_params(p, p.r.choice(['vhf', 'uhf', 'shf']), p.r.choice(['low', 'mid', 'high']),
                                                 'low', p.r.choice(['smooth', 'rolling', 'hilly']))
            self.ds = [distance(p, p.r.choice(['los', 'diff', 'scat', 'near']), dlsa, None) for _ in range(2)]
        else:
            self.z, self.xi, self.a = path_params(p, dict(shape=p.r.choice(SHAPES), np='few', h1='mid', h2='low'))
            self.z2, self.xi2 = p.profile(p.r.choice(SHAPES), 'few')
            self.z = elsewhere(p, self.z)
            self.a['dh'] = 0.0
            self.mdvar += 10
        self.probe = p.r.choice([('adiff', p.log(1e5, 6e5)), ('adiff', p.log(1e5, 6e5)), ('alos', p.log(500, 3e4))])
        self.zz = [[p.deviate(), p.deviate(), p.deviate()] for _ in range(3)]
        self.hglist = self.pfl = None

    def sibling(self, p):
        """The same work, but for one thing that differs, perhaps by very little."""
        w = copy.deepcopy(self)
        f = p.r.choice([1 + 1e-9, 1 - 1e-6, 1 + 1e-4, 1.01, 0.9, 1.3])
        names = ['hg', 'wn', 'ens', 'gme', 'zgnd', 'klim', 'mdvar', 'zz']
        names += ['swaphg', 'probe']
        names += (['kst', 'ds', 'ds', 'dh'] if self.kind == 'area' else
                  ['z', 'z', 'xi', 'order', 'inner', 'inner', 'move', 'tail', 'tail', 'second'])
        what = p.r.choice(names)
        k = p.r.randrange(2)
        if what == 'hg':
            w.a['hg'][k] *= f
        elif what in ('wn', 'ens', 'gme', 'zgnd', 'dh'):
            w.a[what] *= f
        elif what == 'klim':
            w.klim = w.klim % 7 + 1
        elif what == 'mdvar':
            w.mdvar = w.mdvar // 10 * 10 + (w.mdvar + 1) % 4
        elif what == 'zz':
            w.zz = [[z * f for z in zs] for zs in w.zz]
        elif what == 'kst':
            w.kst[k] = (w.kst[k] + 1) % 3
        elif what == 'ds':
            w.ds = [d * f if p.r.random() < 0.5 else d + p.r.choice([1e-3, 0.3, 5.0]) for d in w.ds]
        elif what == 'z':
            w.z[p.r.randrange(len(w.z))] += p.r.choice([1e-6, 0.01, 1.0, 40.0, -30.0])
        elif what == 'xi':
            w.xi *= f
        elif what == 'swaphg':
            w.a['hg'].reverse()
        elif what == 'probe':
            w.probe = (w.probe[0], w.probe[1] * f)
        elif what == 'inner':                        # the same heights in another order between the same ends
            mid = w.z[1:-1]
            p.r.shuffle(mid)
            w.z[1:-1] = mid
        elif what == 'move':
            i, j = p.r.randrange(len(w.z)), p.r.randrange(len(w.z))
            w.z[i] += 20
            w.z[j] -= 20
        elif what == 'tail':
            i = p.r.randrange(1, len(w.z))
            w.z[i:] = [v + p.r.uniform(-30, 30) for v in w.z[i:]]
        elif what == 'second':
            w.z2, w.xi2 = w.z[:1] + [v + p.r.uniform(-30, 30) for v in w.z[1:]], w.xi
        else:
            w.z.reverse()
        return w

    def begin(self, c, s):
        self.nq = self.nd = 0
        c.begin(s, **self.a)
        if self.hglist is not None:                  # the very list the other session was given
            c.sessions[s]['hg'] = c.passed[s] = self.hglist

    def step(self, c, s, w):
        """One call; returns the event number and the fields to compare."""
        if w == 'prep' and self.kind == 'area':
            return c.qlra(s, self.kst, self.klim, self.mdvar), ALLP + ['kst', 'hgin']
        if w == 'probe':
            c.at(self.probe[0], s, self.probe[1], chk=())
            return len(c.ev), ['val']
        if w == 'ask':
            self.nd += 1
            return c.lrprop(s, self.ds[self.nd - 1]), ALLP
        if w == 'quant':
            self.nq += 1
            c.set(s, lvar=1)
            return c.avar(s, *self.zz[(self.nq - 1) % 3], chk=[]), ALLP + ['val']
        z, xi = (self.z, self.xi) if w == 'prep' else (self.z2, self.xi2)
        return c.qlrpfl(s, z, xi, self.klim, self.mdvar, zlist=self.pfl if w == 'prep' else None), ALLP + ['pfl', 'hgin']


PROGRAM = {'area': ['prep', 'ask', 'quant', 'probe', 'ask', 'quant'],
           'p2p': ['prep', 'quant', 'probe', 'quant', 'prep2', 'quant']}


def alone(w):
    """The work of one session in a process in which nothing else has happened."""
    c = Case('')
    w.begin(c, 'x')
    at = [w.step(c, 'x', what) for what in PROGRAM[w.kind]]
    return c.ev, at


def tooling(job):
    """The profile functions on one profile; nothing of it is kept."""
    z, xi, hg, gme, x1, x2 = job
    c = Case('')
    c.hzns(z, xi, hg, gme, ())
    c.zlsq1(z, xi, x1, x2, ())
    c.dlthx(z, xi, x1, x2, ())
    return c.ev


def hasty(jobs):
    """The same, one after another, each profile list dropped as soon as it has been used."""
    line, rough, view = [], [], []
    for z, xi, hg, gme, x1, x2 in jobs:
        line.append(call(code('zlsq1'), [len(z) - 1, spell(xi)] + z, spell(x1), spell(x2))[1])
    for z, xi, hg, gme, x1, x2 in jobs:
        rough.append(call(code('dlthx'), [len(z) - 1, spell(xi)] + z, spell(x1), spell(x2))[1])
    for z, xi, hg, gme, x1, x2 in jobs:
        view.append(call(code('hzns'), [len(z) - 1, spell(xi)] + z, (len(z) - 1) * xi, list(hg), gme)[1])

    def two(v):
        try:
            return [num(v[0]), num(v[1])]
        except Exception:
            return [NAN, NAN]

    def one(v, k):
        try:
            return v[k]
        except Exception:
            return None
    return [[dict(the=two(one(v, 0)), dl=two(one(v, 1))), dict(line=two(a)), dict(dh=[num(b)])]
            for a, b, v in zip(line, rough, view)]


def pristine(fn, jobs):
    """fn of every job, each in its own fork of this process; call before using the code in here."""
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        return pool.map(fn, jobs, chunksize=1)


ALL_CODE = ('lrprop', 'adiff', 'aknfe', 'fht', 'alos', 'ahd', 'h0f', 'curv', 'avar', 'qerf', 'qerfi', 'qtile', 'dlthx',
            'hzns', 'qlra', 'qlrpfl', 'qlrps', 'zlsq1')


@prop('C19')
def c19(ctx):
    p = Pick(ctx.rnd)
    hs = ctx.model('ITMInterleave', 'SPECIFICATION Spec\nINVARIANTS Isolated Emit\n')
    for name in ALL_CODE:
        code(name)
    plan = []
    for h in reps(ctx, some_hist(ctx, hs, 450, 100000), 1, 2):
        ws = [Worker(p, h['pair'][0])]
        k = p.r.random() if h['pair'][0] == h['pair'][1] else 1
        if k < 0.65:
            ws.append(ws[0].sibling(p))
        elif k < 0.75:
            ws.append(copy.deepcopy(ws[0]))
        else:
            ws.append(Worker(p, h['pair'][1]))
        plan.append((h, ws))
    series = []
    for k in range(ctx.scale(36, 400)):
        series.append(Worker(p, p.r.choice(['area', 'p2p', 'p2p'])))
        for _ in range(7):
            series.append(p.r.choice([series[-1], series[-1 - p.r.randrange(len(series)) % 8]]).sibling(p))
    tools = []
    for k in range(ctx.scale(24, 300)):
        z, xi, a = path_params(p, dict(shape=p.r.choice(SHAPES), np='some', h1='mid', h2='low'), most=30)
        for _ in range(6):
            x1, x2 = stretch(p, len(z) - 1, xi) if p.r.random() < 0.3 else (0.0, (len(z) - 1) * xi)
            tools.append((list(z), xi, a['hg'], a['gme'], x1, x2))
            i = p.r.randrange(1, len(z))
            if p.r.random() < 0.5:
                z = z[:i] + [v + p.r.uniform(-30, 30) for v in z[i:]]
            else:
                z = z[:i] + p.r.sample(z[i:], len(z) - i)
    solo_tools = pristine(tooling, tools)
    solo = pristine(alone, [w for h, ws in plan for w in ws] + series)
    for ev, raw in zip(solo_tools, hasty(tools)):
        c = Case('series of profiles')
        c.ev = [dict(e, o=dict(e['o'], **o)) for e, o in zip(ev, raw)] + ev
        for i, fields in enumerate((['the', 'dl'], ['line'], ['dh'])):
            c.rel('ident', i + 1, i + 4, fields)
        ctx.add(c)
    # much alike work done one after another, nothing kept in between
    for w, (ev, at) in zip(series, solo[2 * len(plan):]):
        c = Case('series %s' % w.kind)
        mine, here = alone(w)
        c.ev = [dict(e, s='a') for e in mine] + [dict(e, s='x') for e in ev]
        for (i, fields), (j, _) in zip(here, at):
            c.rel('ident', i, len(mine) + j, fields)
        ctx.add(c)
    for n, (h, ws) in enumerate(plan):
        c = Case('interleave %s %s' % ('+'.join(h['pair']), ''.join(map(str, h['h']))))
        a, b = ws
        if a.kind == b.kind and a.a['hg'] == b.a['hg'] and p.r.random() < 0.5:
            a.hglist = b.hglist = [spell(h) for h in a.a['hg']]
        if a.kind == b.kind == 'p2p' and (a.z, a.xi) == (b.z, b.xi) and p.r.random() < 0.5:
            a.pfl = b.pfl = [len(a.z) - 1, spell(a.xi)] + list(a.z)
        seen = [[], []]
        for k, w in enumerate(ws):
            w.begin(c, 'ab'[k])
        for i in h['h']:
            w = ws[i - 1]
            seen[i - 1].append(w.step(c, 'ab'[i - 1], PROGRAM[w.kind][len(seen[i - 1])]))
        for k, w in enumerate(ws):                # and what each gave alone
            ev, at = solo[2 * n + k]
            base = len(c.ev)
            for e in ev:
                c.ev.append(dict(e, s='xy'[k]))
            for (i, fields), (j, _) in zip(seen[k], at):
                c.rel('ident', i, base + j, fields)
        ctx.add(c)
    # what the caller passes in is not changed
    for s in reps(ctx, ctx.scenarios('profile'), 2, 12):
        z, xi, a = path_params(p, dict(s, h1=p.r.choice(HS), h2=p.r.choice(HS)), most=60)
        z = elsewhere(p, z)
        c = Case('arguments %(shape)s %(np)s' % s)
        np = len(z) - 1
        length = np * xi
        x1, x2 = stretch(p, np, xi)
        c.hzns(z, xi, a['hg'], a['gme'], ['kept'])
        c.zlsq1(z, xi, x1, x2, ['kept'])
        c.dlthx(z, xi, 0.0, length, ['kept'])
        start_p2p(c, 'A', a)
        c.qlrpfl('A', z, xi, 5, 11, ['kept'])
        zz = [p.deviate(), p.deviate(), p.deviate()]
        c.avar('A', *zz, chk=[])
        q = [p.r.random() for _ in range(4)]
        q += p.r.sample([0.0, 1.0, 1e-9, 1 - 1e-9, 1e-6, 0.5, 0.999999, 0, 1, 1e-4, 0.9999], 4)
        p.r.shuffle(q)
        arg = list(q)
        ok, r = call(code('qerfi'), arg)
        c.add('qerfi', dict(q=nums(q)), dict(after=nums(arg)), ['kept'])
        a2, kst, dlsa = area_params(p, 'uhf', p.r.choice(HS), p.r.choice(HS), 'rolling')
        if p.r.random() < 0.3:                     # any siting that is not positive is the random one
            kst[p.r.randrange(2)] = -1
        c.begin('B', **a2)
        c.qlra('B', kst, 5, 3, ['kept'])
        ctx.add(c)
    # nor by the runners
    for s in reps(ctx, some(ctx, ctx.scenarios('profile'), 20), 1, 3):
        c = Case('runner arguments %(shape)s %(np)s' % s)
        for name in ('p2p', 'p2p_2tiles', 'pimter'):
            m = script(name)
            if m is None:
                continue
            z, xi = p.profile(s['shape'], s['np'], 24)
            z = elsewhere(p, z)
            hg = [p.height(p.r.choice(HS)), p.height(p.r.choice(HS))]
            if name == 'pimter':
                xs = [i * xi for i in range(len(z))]
                lists = [list(z), xs]
                was = [list(v) for v in lists]
                quiet(m.run_itmlogic, *lists)
            else:
                lists = [list(z), hg]
                was = [list(v) for v in lists]
                quiet(m.itmlogic_p2p, dict(fmhz=p.freq('uhf'), d=(len(z) - 1) * xi / 1000, hg=hg, ipol=0), lists[0])
            for before, after in zip(was, lists):
                c.add('runner', dict(q=nums(before)), dict(after=nums(after)), ['kept'])
        ctx.add(c)


# --------------------------------------------------------------------------
# threads
class Tools:
    """The profile functions used directly."""
    kind = 'tools'

    def __init__(self, p):
        self.z, self.xi, a = path_params(p, dict(shape=p.r.choice(SHAPES), np='few', h1='mid', h2='low'))
        self.hg, self.gme = a['hg'], a['gme']
        self.q = [p.r.random() for _ in range(3)]

    def sibling(self, p):
        w = copy.deepcopy(self)
        w.z = [v + p.r.uniform(-30, 30) for v in w.z]
        w.hg = [h * p.r.uniform(0.5, 2) for h in w.hg]
        w.q = [p.r.random() for _ in range(3)]
        return w

    def begin(self, c, s):
        pass

    def step(self, c, s, w):
        end = (len(self.z) - 1) * self.xi
        if w == 'view':
            return c.hzns(self.z, self.xi, self.hg, self.gme, ()), ['the', 'dl']
        if w == 'line':
            return c.zlsq1(self.z, self.xi, 0.0, end, ()), ['line']
        if w == 'rough':
            return c.dlthx(self.z, self.xi, 0.0, end, ()), ['dh']


class Runner:
    """A run of one of the runners."""
    kind = 'runner'

    def __init__(self, p):
        self.name = p.r.choice(['area', 'area_2tiles', 'p2p', 'p2p', 'p2p_2tiles', 'pimter'])
        self.z, self.xi = p.profile(p.r.choice(SHAPES), 'few')
        self.u = dict(fmhz=p.freq('uhf'), hg=[p.height('mid'), p.height('low')], dh=p.rough('hilly'), ipol=p.r.randrange(2))

    def sibling(self, p):
        w = copy.deepcopy(self)
        k = p.r.randrange(3)
        if k:
            w.u['fmhz'] = p.freq('uhf')
        if k != 1:
            w.z = [v + p.r.uniform(-30, 30) for v in w.z]
            w.u['dh'] *= p.r.uniform(0.3, 3)
        return w

    def begin(self, c, s):
        pass

    def step(self, c, s, w):
        m = script(self.name)
        u = dict(self.u, hg=list(self.u['hg']))
        if self.name == 'pimter':
            ok, res = call(m.run_itmlogic, self.z, [i * self.xi for i in range(len(self.z))])
            loss = [num(r[3]) for r in res] if ok else [NAN]
        elif self.name.startswith('area'):
            ok, res = call(m.itmlogic_area, u)
            loss = col(res, 'propagation_loss_dB') if ok else [NAN]
        else:
            u['d'] = (len(self.z) - 1) * self.xi / 1000
            ok, res = call(m.itmlogic_p2p, u, self.z)
            loss = col(res, 'propagation_loss_dB') if ok else [NAN]
        return c.add('runner', dict(q=nums(self.z)), dict(loss=loss), ()), ['loss']


THREAD_PROGRAM = {'area': ['prep', 'ask', 'quant'], 'p2p': ['prep', 'quant', 'prep2'], 'tools': ['view', 'line', 'rough'],
                  'runner': ['run']}


def thread_worker(p, kind):
    return Tools(p) if kind == 'tools' else Runner(p) if kind == 'runner' else Worker(p, kind)


def share(w, v):
    if w.kind == 'runner':
        v.z, v.xi = w.z, w.xi
        return
    v.a['hg'] = list(w.a['hg'])
    w.hglist = v.hglist = [spell(h) for h in w.a['hg']]
    if w.kind == 'p2p':
        v.z, v.xi = list(w.z), w.xi
        w.pfl = v.pfl = [len(w.z) - 1, spell(w.xi)] + list(w.z)


def thread_alone(w):
    """The work by itself, and the lines each call passes."""
    import contextlib
    import io
    import threads
    c = Case('')
    at = []
    w.begin(c, 'x')
    with contextlib.redirect_stdout(io.StringIO()):
        lines = threads.footprint([lambda what=what: at.append(w.step(c, 'x', what)) for what in THREAD_PROGRAM[w.kind]])
    return c.ev, at, lines


def stop_at(p, lines, seg, segs, between):
    """A line count in a piece of a call: any line of the code there alike, however often it is passed."""
    n = len(lines)
    lo, hi = max(1, n * (seg - 1) // (segs - 1)), n * seg // (segs - 1)
    if hi <= lo:
        return lo
    places = {}
    for i in range(lo, hi):
        places.setdefault(lines[i], []).append(i + 1)
    if between and p.r.random() < 0.5:           # code that the other thread passes too
        both = [k for k in places if k in between]
        if both:
            return p.r.choice(places[p.r.choice(sorted(both))])
    return p.r.choice(places[p.r.choice(sorted(places))])


@prop('C31')
def c31(ctx):
    import contextlib
    import io
    import threads
    p = Pick(ctx.rnd)
    env = {'ITM_SWITCH': ctx.scale('2', '3'), 'ITM_SCRATCH': 'own'}
    hs = ctx.model('ITMThreads', 'SPECIFICATION Spec\nINVARIANTS Isolated Emit\n', env)
    out, _ = tlc.run('ITMThreads', 'SPECIFICATION Spec\nINVARIANT Isolated\n', dict(env, ITM_SCRATCH='one'), workers=4)
    if 'Invariant Isolated is violated' not in out:
        raise tlc.MachineryError('shared scratch goes unnoticed in ITMThreads: ' + out[-2000:])
    for name in ALL_CODE:
        code(name)
    for name in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles', 'pimter'):
        script(name)
    plan = []
    for h in hs:
        few = h['pair'][0] == 'runner'
        for _ in range(ctx.scale(10 if few else 1, 40 if few else 2)):
            w = thread_worker(p, h['pair'][0])
            if h['pair'][0] == h['pair'][1] and p.r.random() < 0.75:
                v = w.sibling(p)
                if p.r.random() < 0.6 and w.kind != 'tools':       # the threads share what they only read
                    share(w, v)
            else:
                v = thread_worker(p, h['pair'][1])
            plan.append((h, [w, v]))
    solo = pristine(thread_alone, [w for h, ws in plan for w in ws])
    for k, (h, ws) in enumerate(plan):
        mine = solo[2 * k:2 * k + 2]
        seen = [set(q for call_ in m[2] for q in call_) for m in mine]
        c = Case('threads %s first %d %s' % ('+'.join(h['pair']), h['first'], json.dumps(h['h'])))
        there = []
        for i in (0, 1):
            there.append(len(c.ev))
            c.ev += [dict(e, s='xy'[i]) if e['s'] != '-' else e for e in mine[i][0]]
        for turn in range(3 if h['h'] else 1):       # the same schedule, stopped at other lines
            stops = [{}, {}]
            for who, n in h['h']:
                i, seg = divmod(n, 3)
                lines = mine[who - 1][2]
                stops[who - 1].setdefault(i, []).append(stop_at(p, lines[i], seg, 3, seen[2 - who]) if seg else 0)
            for s in stops:
                for v in s.values():
                    v.sort()
            cs, ats = [Case(''), Case('')], [[], []]
            names = ['%s%d' % (q, turn) for q in 'ab']
            for i, w in enumerate(ws):
                w.begin(cs[i], names[i])
            works = [[lambda i=i, w=w, what=what: ats[i].append(w.step(cs[i], names[i], what)) for what in THREAD_PROGRAM[w.kind]]
                     for i, w in enumerate(ws)]
            with contextlib.redirect_stdout(io.StringIO()):
                ok = threads.together(works, stops, h['first'] - 1)
            for i in (0, 1):
                base = len(c.ev)
                c.ev += cs[i].ev
                for (a, fields), (b, _) in zip(ats[i], mine[i][1]):
                    c.rel('ident', base + a, there[i] + b, fields)
                c.add('threads', {}, dict(done=[num(len(ats[i]) if ok else 0)], want=[num(len(mine[i][1]))]), ['done'])
        ctx.add(c)


# --------------------------------------------------------------------------
# runners (scripts/)
_scripts = {}


def script(name):
    """A runner module of scripts/, or None if it cannot be imported."""
    if name not in _scripts:
        import importlib
        ok, m = call(importlib.import_module, name, limit=120)
        _scripts[name] = m if ok else None
    return _scripts[name]


def quiet(fn, *args, limit=60):
    """Call with stdout captured: (ok, result, text)."""
    import contextlib
    import io
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ok, res = call(fn, *args, limit=limit)
    return ok, res, buf.getvalue()


def col(rows, key):
    try:
        return [num(r[key]) for r in rows]
    except Exception:
        return [NAN]


def odd(p, u):
    """Now and then parameters outside the range the model warns about."""
    r = p.r
    k = r.random()
    if k < 0.07:
        u['fmhz'] = r.choice([p.log(8, 20), p.log(20100, 40000), 20.0, 10.0])
    elif k < 0.14:
        u['hg'][r.randrange(2)] = r.choice([p.log(0.2, 0.5), p.log(3000, 5000), 0.5, 3000.0])


def uses(p, own):
    """What a parameter set was used for before: runs of the same kind, or of any kind."""
    r = p.r
    names = [r.choice(own)] if r.random() < 0.5 else [r.choice(['area', 'area_2tiles', 'p2p', 'p2p_2tiles']) for _ in range(r.randint(1, 2))]
    out = [(n, None if n.startswith('area') else [r.uniform(0, 200) for _ in range(r.randint(3, 9))]) for n in names]
    if r.random() < 0.35:                # worked on with the library itself, another climate and mode in force
        lib = ('lib', dict(wn=p.log(0.5, 300), ens=r.uniform(260, 380), gme=r.uniform(90e-9, 150e-9), zgnd=complex(r.uniform(1, 8), 0.4),
                           klim=r.choice([1, 2, 3, 4, 6, 7]), mdvar=r.choice([0, 1, 2, 3, 13, 30]), d=p.log(5e3, 6e5),
                           kst=[r.randrange(3), r.randrange(3)]))
        if r.random() < 0.6:
            lib[1]['later'] = dict(klim=r.choice([5, 5, 5, 1, 4, 7]), mdvar=r.choice([12, 12, 0, 1, 3, 11, 21]))
        out = r.choice([[lib], out + [lib], [lib] + out])
    return out


def library_use(par, u):
    par.update(kwx=0, lvar=5, klimx=0, mdvarx=-1, **dict((k, u[k]) for k in ('wn', 'ens', 'gme', 'zgnd', 'klim', 'mdvar')))
    call(code('qlra'), list(u['kst']), par)
    call(code('lrprop'), u['d'], par)
    for z in (0.3, -0.8):
        call(code('avar'), z, z, z, par)
    if u.get('later'):                   # a climate and mode asked for, and no quantile taken yet
        par.update(lvar=5, klimx=0, mdvarx=-1, **u['later'])


@prop('C20')
def c20(ctx):
    p = Pick(ctx.rnd)
    a1, a2 = script('area'), script('area_2tiles')

    def run(m, u):
        if m is None:
            return []
        par = {}
        if u.get('used'):                # a parameter set the caller worked with before
            par = dict(u['used'], hg=list(u['used']['hg']))
            for name, z in u['uses']:
                if name == 'lib':
                    library_use(par, z)
                elif z is None:
                    quiet(getattr(script(name), 'itmlogic_area', m.itmlogic_area), par)
                else:
                    par['d'] = (len(z) - 1) * 0.4
                    quiet(getattr(script(name), 'itmlogic_p2p', m.itmlogic_area), par, list(z))
        par.update(fmhz=u['fmhz'], hg=list(u['hg']), dh=u['dh'], ipol=u['ipol'])
        ok, res, _ = quiet(m.itmlogic_area, par)
        return res if ok else []
    last = None
    scen = ctx.scenarios('area')
    for s in reps(ctx, some(ctx, scen, 230), 1, 1):
        u = dict(fmhz=p.freq(s['f']), hg=[p.height(s['h1']), p.height(s['h2'])], dh=p.rough(s['dh']), ipol=s['pol'])
        k = p.r.random()
        odd(p, u)
        if k < 0.2:
            u['dh'] = int(u['dh'])
        if k < 0.1:
            u['fmhz'] = int(u['fmhz'])
        if last and p.r.random() < 0.3:
            u['used'] = dict(last)
            u['uses'] = uses(p, ['area', 'area_2tiles'])
        last = dict((k, u[k]) for k in ('fmhz', 'hg', 'dh', 'ipol'))
        rows = run(a1, u)
        two = run(a2, u)
        o = dict(d=col(rows, 'distance_km'), c=col(rows, 'confidence_level_%'), loss=col(rows, 'propagation_loss_dB'),
                 d2=col(two, 'distance_km'), c2=col(two, 'confidence_level_%'), loss2=col(two, 'propagation_loss_dB'))
        c = Case('area run %(f)s %(h1)s/%(h2)s dh %(dh)s pol %(pol)d' % s)
        c.add('area_run', dict(fmhz=num(u['fmhz']), hg=nums(u['hg']), dh=num(u['dh']), ipol=u['ipol']), o,
              ['grid', 'loss', 'twin'])
        ctx.add(c)


def announced(text):
    """What a point-to-point run printed: class of path, dominant mode, free-space value, levels."""
    import re
    low = text.lower()
    paths = [n for n in ('Double-horizon path', 'Line of sight path', 'Single horizon path') if n.lower() in low]
    modes = [n for n in ('Diffraction is the dominant mode', 'Tropospheric scatter is the dominant mode')
             if n.lower() in low]
    fs = re.search(r'free space value\s+(\S+)', low)
    conf = re.search(r'confidence levels?\s+([-\d., ]+)', low)
    try:
        levels = [num(float(x)) for x in conf.group(1).replace(',', ' ').split()]
    except Exception:
        levels = [NAN]
    try:
        val = num(float(fs.group(1)))
    except Exception:
        val = NAN
    return dict(path=paths[0] if len(paths) == 1 else 'unclear', mode=(modes + ['none'])[0] if len(modes) < 2 else 'unclear',
                fs=[val], conf=levels)


@prop('C21')
def c21(ctx):
    p = Pick(ctx.rnd)
    m1, m2 = script('p2p'), script('p2p_2tiles')

    def run(m, u):
        if m is None:
            return [], ''
        par = {}
        if u.get('used'):                # a parameter set the caller worked with before
            par = dict(u['used'], hg=list(u['used']['hg']), dh=40.0)
            z0 = par.pop('z')
            for name, z in u['uses']:
                if name == 'lib':
                    library_use(par, z)
                elif z is None:
                    quiet(getattr(script(name), 'itmlogic_area', m.itmlogic_p2p), par)
                else:
                    quiet(getattr(script(name), 'itmlogic_p2p', m.itmlogic_p2p), par, list(z0))
        par.update(fmhz=u['fmhz'], d=u['d'], hg=list(u['hg']), ipol=u['ipol'])
        ok, res, text = quiet(m.itmlogic_p2p, par, list(u['z']))
        return (res, text) if ok else ([], text)
    last = None
    for k, s in enumerate(reps(ctx, ctx.scenarios('paths'), 1, 10)):
        z, xi = p.profile(s['shape'], s['np'], 90, npts=p.r.choice([150, 260, 599, 600, 720]) if k % 40 == 3 else None)
        d = (len(z) - 1) * xi / 1000
        u = dict(fmhz=p.freq(p.r.choice(['vhf', 'uhf', 'shf', 'limit'])), d=d, hg=[p.height(s['h1']), p.height(s['h2'])],
                 ipol=p.r.randrange(2), z=z)
        odd(p, u)
        if last and p.r.random() < 0.3:
            u['used'] = dict(last)
            u['uses'] = uses(p, ['p2p', 'p2p_2tiles'])
        last = dict((k, u[k]) for k in ('fmhz', 'd', 'hg', 'ipol', 'z'))
        r1, t1 = run(m1, u)
        r2, t2 = run(m2, u)
        o = dict(r=col(r1, 'reliability_level_%'), c=col(r1, 'confidence_level_%'), d=col(r1, 'distance_km'),
                 loss=col(r1, 'propagation_loss_dB'), r2=col(r2, 'reliability_level_%'), c2=col(r2, 'confidence_level_%'),
                 loss2=col(r2, 'propagation_loss_dB'))
        o.update(announced(t1))
        b = announced(t2)
        o.update(path2=b['path'], mode2=b['mode'], fs2=b['fs'], conf2=b['conf'])
        c = Case('p2p run %(shape)s %(np)s %(h1)s/%(h2)s' % s)
        c.add('p2p_run', dict(fmhz=num(u['fmhz']), d=num(d), hg=nums(u['hg']), ipol=u['ipol'], z=nums(z)), o,
              ['levels', 'loss', 'path', 'mode', 'fs', 'conf', 'twin'])
        ctx.add(c)


@prop('C25')
def c25(ctx):
    p = Pick(ctx.rnd)
    m = script('pimter')
    for k, s in enumerate(reps(ctx, some(ctx, ctx.scenarios('profile'), 24), 1, 3)):
        z, xi = p.profile(s['shape'], s['np'], 24, npts={5: p.r.randint(610, 900), 17: p.r.choice([180, 599])}.get(k % 24))
        if p.r.random() < 0.7:                     # campaign-like: short paths
            xi = p.log(1000, 12000) / (len(z) - 1)
        x0 = p.r.choice([0.0, 0.0, 0.0, p.r.uniform(1, 500)])
        xs = [x0 + i * xi for i in range(len(z))]
        rows = []
        if m is not None:
            ok, res, _ = quiet(m.run_itmlogic, list(z), list(xs))
            rows = res if ok else []
        try:
            o = dict(f=[num(r[0]) for r in rows], h=[num(r[1]) for r in rows], r=[num(r[2]) for r in rows],
                     loss=[num(r[3]) for r in rows])
        except Exception:
            o = dict(f=[NAN], h=[NAN], r=[NAN], loss=[NAN])
        c = Case('campaign %(shape)s %(np)s' % s)
        c.add('pimter_run', dict(z=nums(z), xs=nums(xs)), o, ['heights', 'freq', 'level', 'loss'])
        ctx.add(c)


# --------------------------------------------------------------------------
# the three attenuations
def prepared(ctx, p, quick, thorough):
    """Prepared sessions: area and point-to-point, over all classes."""
    areas = some(ctx, ctx.scenarios('areas'), quick)
    paths = some(ctx, ctx.scenarios('paths'), quick)
    for _ in range(ctx.scale(1, thorough)):
        for s in areas:
            a, kst, dlsa = area_params(p, s['f'], s['h1'], s['h2'], s['dh'], kst=[s['k1'], s['k2']])
            c = Case('area %(f)s %(h1)s/%(h2)s dh %(dh)s siting %(k1)d/%(k2)d' % s)
            c.begin('A', **a)
            c.qlra('A', kst, 5, 3)
            yield 'area', c, dlsa, crossover(a, kst)
        for s in paths:
            z, xi, a = path_params(p, s, most=60)
            if p.r.random() < 0.5:
                a = dict(p.radio(p.freq(p.r.choice(['limit', 'vhf', 'ehf']))), hg=a['hg'])
            c = Case('path %(shape)s %(np)s %(h1)s/%(h2)s' % s)
            start_p2p(c, 'A', a)
            yield 'p2p', c, (z, xi), None


def wide_candidate(p):
    """Radio, terrain and geometry from anywhere in (and somewhat beyond) the model's range."""
    r = p.r
    a = p.radio(p.log(*r.choice([(1.5, 40), (20, 20000), (20, 20000), (5000, 40000)])))
    if a['wn'] < 0.15 and r.random() < 0.6:      # medium waves over the sea: negative slopes of the diffraction line
        z = complex(81, 376.62 * 5 / a['wn'])
        a['zgnd'] = cmath.sqrt(z - 1) / z
    if r.random() < 0.15:                        # a curvature of its own
        a['gme'] = p.log(60e-9, 300e-9)
    a['hg'] = [p.log(0.15, 3500), p.log(0.15, 3500)] if r.random() < 0.5 else [p.log(0.5, 60), p.log(0.5, 60)]
    a['hg'] = twins(p, a['hg'])
    a['dh'] = r.choice([0.0, p.log(0.01, 3000), p.log(5, 500), p.log(5, 500)])
    if r.random() < 0.5:
        kst = [r.randrange(3), r.randrange(3)]
        he = [area_he(kst[j], a['hg'][j], a['dh']) for j in (0, 1)]
        return dict(a=a, kst=kst, dlsa=smooth(he, a['gme']))
    he = [h * r.choice([1.0, r.uniform(1, 1.2), r.uniform(1, 6)]) for h in a['hg']]
    dls = [math.sqrt(2 * h / a['gme']) for h in he]
    dl = [x * r.choice([r.uniform(0.3, 1), p.log(0.02, 1), r.uniform(0.9, 1.3)]) for x in dls]
    if r.random() < 0.1:                         # horizons nearly alike, heights not
        dl[1] = dl[0] * r.uniform(0.97, 1.03)
    the = [r.choice([r.uniform(-0.003, 0.003), r.uniform(-0.02, 0.05), r.uniform(-0.2, 0.2)]) for _ in dl]
    return dict(a=a, he=he, dl=dl, the=the, dlsa=sum(dls))


def start_wide(c, s, w):
    a = w['a']
    c.begin(s, a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'])
    if 'kst' in w:
        c.qlra(s, w['kst'], 5, 3)
    else:
        c.set(s, he=w['he'], dl=w['dl'], the=w['the'], mdp=1)


def arms(prop):
    """On which arm of each limit of the model the outcome lies (for choosing inputs)."""
    g = prop.get
    try:
        return tuple(bool(b) for b in (
            g('dx') == g('dlsa'), g('dx') == 10e6, g('tha') == -g('dla') * g('gme'),
            g('dlsa') > 1.3787 * g('xae', 0) + g('dla'), g('afo') == 15, g('aref') == 0, g('aed') >= 0,
            (g('ak2') or 0) > 0, (g('ak1') or 0) == g('emd'), (g('ak1') or 0) == 0, g('dlsa') > 10e3,
            (g('h0s') or 0) > 15, (g('h0s') or 0) == 0, (g('emd') or 0) < 0, (g('emd') or 0) < (g('ems') or 0)))
    except Exception:
        return ('?',)


def limits(prop):
    """How far the outcome lies from the places where the model changes its way (for choosing inputs)."""
    g = prop.get

    def of(*names):
        v = [g(k) for k in names]
        return None if any(x is None for x in v) else [float(x) for x in v]

    def sub(f, *names):
        v = of(*names)
        try:
            return None if v is None else f(*v)
        except Exception:
            return None
    he = g('he') or [1, 1]
    d0 = sub(lambda wn: 1.908 * wn * he[0] * he[1], 'wn')
    neg = (g('aed') or 0) < 0
    return (sub(lambda aed, emd, dla: d0 - max(-aed / emd, 0.25 * dla) if neg else None, 'aed', 'emd', 'dla'),
            sub(lambda aed, emd, dla: -aed / emd - 0.25 * dla if neg else None, 'aed', 'emd', 'dla'),
            sub(lambda dla: None if neg else d0 - 0.5 * dla, 'dla'), g('aed'), g('ak1') or None,
            sub(lambda v: v - 1e-12, 'ak2'), g('emd'), sub(lambda v: v - 10e3, 'dlsa'),
            sub(lambda a, x, b: a - 1.3787 * x - b, 'dlsa', 'xae', 'dla'),
            sub(lambda t, d, e: t + d * e * (1 - 1e-9), 'tha', 'dla', 'gme'), sub(lambda v: v - 15 + 1e-9, 'afo'),
            sub(lambda x, d: x - d - 1e-3, 'dx', 'dlsa'),
            sub(lambda x, d, e, w: x - d - 0.3 * e * math.log(47.7 * w) - 1e-3, 'dx', 'dla', 'xae', 'wn'),
            sub(lambda v: v - 9e6, 'dx'), sub(lambda v: v - 15, 'h0s'), sub(lambda v: v - 1e-9, 'h0s'),
            sub(lambda a, b: a - b, 'emd', 'ems'), sub(lambda v: v - 1e-9, 'ad'), sub(lambda v: v - 1, 'rr'))


def path_limits(prop, z, xi, a):
    """The same for a prepared path."""
    out = (0.0,) * 6
    try:
        dist = xi * (len(z) - 1)
        dl, he, hg = prop['dl'], prop['he'], a['hg']
        the = [(z[-1] + hg[1] - z[0] - hg[0]) / dist - a['gme'] * dist / 2]
        fore = [15 * hg[j] - 0.1 * dl[j] for j in (0, 1)]
        out = (dist - prop['dlsa'], dist - prop.get('dx', 1e9), he[0] - hg[0] - 1e-9, he[1] - hg[1] - 1e-9,
               prop['the'][0] - the[0] - 1e-12, dist - dl[0] - dl[1], fore[0], fore[1], hg[0] * 15 - xi, hg[1] * 15 - xi,
               dist - min(15 * hg[0], 0.1 * dl[0]) - min(15 * hg[1], 0.1 * dl[1]) - 2 * xi, prop['dh'] - 1e-9)
        return out + limits(prop)
    except Exception:
        return out


def guided(ctx, p, want, pool, per=3):
    """Candidates from the wide domain that make the code go many different ways."""
    import guide

    def run(w):
        c = Case('')
        start_wide(c, 'x', w)
        tags = ()
        for d in (w['dlsa'] * 0.5, 0.0, w['dlsa'] * 3):
            c.lrprop('x', d)
            tags += arms(c.sessions['x'])
        w['dx'] = got(c.ev[-1]['o'], 'dx', None)
        return tags
    out, n = guide.choose([wide_candidate(p) for _ in range(pool)], run, want, per)
    ctx.notes.append('guided choice: %d of %d candidates, %d different ways through the code' % (len(out), pool, n))

    def along(w):
        r = p.r
        lists = ['hg'] if 'kst' in w else ['hg', 'he', 'dl', 'the']
        q, j, f = r.choice(['wn', 'wn', 'dh'] + lists), r.randrange(2), r.choice([1.3, 2, 5])
        add = r.uniform(-0.02, 0.02)

        def at(t):
            v = dict(w, a=dict(w['a']))
            if q in ('wn', 'dh'):
                v['a'][q] = w['a'][q] * f ** (t - 0.5)
            else:
                old = w['a'][q] if q == 'hg' else w[q]
                new = list(old)
                new[j] = new[j] + add * t if q == 'the' else new[j] * f ** (t - 0.5)
                if q == 'hg':
                    v['a'][q] = new
                else:
                    v[q] = new
            he = v['he'] if 'he' in v else [area_he(v['kst'][i], v['a']['hg'][i], v['a']['dh']) for i in (0, 1)]
            v['dlsa'] = smooth(he, v['a']['gme'])
            return v
        return at
    near, n = guide.edges([p.r.choice(out) if p.r.random() < 0.5 else wide_candidate(p) for _ in range(pool // 12)],
                          run, along, want // 2, p.r)

    def margins(w):
        c = Case('')
        start_wide(c, 'x', w)
        c.lrprop('x', w['dlsa'] * 0.5)
        c.lrprop('x', 0.0)
        return limits(c.sessions['x'])
    zeros = guide.roots([wide_candidate(p) for _ in range(pool // 6)], margins, along, max(want // 12, 8), p.r)
    ctx.notes.append('inputs at the zeros of margins: ' + ', '.join('%d: %d' % (k, len(v)) for k, v in sorted(zeros.items())))
    for v in zeros.values():
        near += v
    for w in near:
        run(w)
    ctx.notes.append('%d inputs at %d kinds of change-over' % (len(near), n))
    return out + near


def guided_paths(ctx, p, want, pool, most=40):
    """Profiles and antennas that make the preparation and the attenuation go many different ways."""
    import guide

    def cand():
        r = p.r
        z, xi = p.profile(r.choice(SHAPES), r.choice(['two', 'three', 'few', 'few', 'some']), most)
        a = p.radio(p.log(*r.choice([(5, 40), (20, 20000), (20, 20000)])))
        hs = r.choice([(0.3, 60), (0.5, 300), (10, 3500)])
        a['hg'] = twins(p, [p.log(*hs), p.log(*hs)])
        return z, xi, a

    def run(w):
        z, xi, a = w
        c = Case('')
        start_p2p(c, 'x', a)
        c.qlrpfl('x', z, xi, 5, 11)
        pr = c.sessions['x']
        try:
            np = len(z) - 1
            more = (pr['dist'] < pr['dlsa'], pr['dist'] > pr.get('dx', 1e9), pr['he'][0] == a['hg'][0], pr['he'][1] == a['hg'][1],
                    pr['dl'][0] == xi, pr['dl'][1] == xi, abs(pr['dla'] - pr['dist']) < 1, pr['kwx'])
        except Exception:
            more = ('?',)
        return arms(pr) + more
    out, n = guide.choose([cand() for _ in range(pool)], run, want, 4)
    ctx.notes.append('guided choice: %d of %d paths, %d different ways through the code' % (len(out), pool, n))

    def along(w):
        r = p.r
        z, xi, a = w
        q, j, f = r.choice(['wn', 'hg', 'hg', 'xi', 'z', 'point']), r.randrange(2), r.choice([1.3, 2, 5])
        i, add = r.randrange(len(z)), r.uniform(-200, 200)

        def at(t):
            g = f ** (t - 0.5)
            if q == 'wn':
                return z, xi, dict(a, wn=a['wn'] * g)
            if q == 'hg':
                return z, xi, dict(a, hg=[h * g if k == j else h for k, h in enumerate(a['hg'])])
            if q == 'xi':
                return z, xi * g, a
            if q == 'z':
                return [v * g for v in z], xi, a
            return [v + add * t if k == i else v for k, v in enumerate(z)], xi, a
        return at
    near, n = guide.edges([p.r.choice(out) if p.r.random() < 0.5 else cand() for _ in range(pool // 12)],
                          run, along, want // 2, p.r)

    def margins(w):
        z, xi, a = w
        c = Case('')
        start_p2p(c, 'x', a)
        c.qlrpfl('x', z, xi, 5, 11)
        return path_limits(c.sessions['x'], z, xi, a)
    zeros = guide.roots([cand() for _ in range(pool // 4)], margins, along, max(want // 16, 8), p.r)
    ctx.notes.append('inputs at the zeros of margins: ' + ', '.join('%d: %d' % (k, len(v)) for k, v in sorted(zeros.items())))
    for v in zeros.values():
        near += v
    ctx.notes.append('%d inputs at %d kinds of change-over' % (len(near), n))
    return out + near


def near_values(p, vals, rel=(1e-9, 1e-4, 0.1)):
    out = []
    for v in vals:
        out.append(v)
        for e in rel:
            out += [v * (1 - e), v * (1 + e)]
    return out


@prop('C26')
def c26(ctx):
    p = Pick(ctx.rnd)
    n = 0
    for kind, c, g, dx in prepared(ctx, p, 350, 3):
        if kind == 'area':
            k = c.lrprop('A', g * p.r.uniform(1.1, 3), ['diffline'])
        else:
            k = c.qlrpfl('A', g[0], g[1], 5, 11, ['diffline'])
        o = c.ev[k - 1]['o']
        dla = got(o, 'dla', 5e4)
        dlsa = got(o, 'dlsa', 5e4)
        lo = max(dla, dlsa)
        for d in (lo * (1 + p.log(1e-4, 0.1)), lo * p.r.uniform(1.1, 3), lo + p.log(1e3, 1e6)):
            c.at('adiff', 'A', d)
        ctx.add(c)
    for k, w in enumerate(guided(ctx, p, ctx.scale(300, 4000), ctx.scale(3000, 40000))):
        c = Case('diffraction wide %d' % k)
        start_wide(c, 'A', w)
        i = c.lrprop('A', w['dlsa'] * p.r.uniform(1.1, 3), ['diffline'])
        lo = max(got(c.ev[i - 1]['o'], 'dla', 5e4), w['dlsa'])
        for d in (lo * (1 + p.log(1e-4, 0.1)), lo + p.log(1e3, 1e6)):
            c.at('adiff', 'A', d)
        ctx.add(c)
    vs = near_values(p, [5.76, 0.00001, 1.0]) + [0.0, 0, -1.0, -1e-9, 1e-12, 1e6, 5.76]
    vs += [p.log(1e-6, 1e5) for _ in range(ctx.scale(150, 3000))]
    fx = near_values(p, [200.0, 2000.0, 1.0]) + [0.0, 0.5, 100.0, 500.0, 1000.0, 1e4, 1e5]
    ks = [1e-6, 1e-5, 0.99e-5, 1.01e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 1.5]
    pairs = [(x, k) for x in fx for k in ks]
    for _ in range(ctx.scale(300, 6000)):
        pairs.append((p.log(0.01, 1e5), p.log(1e-6, 1.5)))
    for _ in range(ctx.scale(60, 600)):          # around x * (-ln K)^3 = 5495
        k = p.log(1e-5, 0.04)
        x = 5495 / (-math.log(k)) ** 3
        pairs += [(x * (1 + e), k) for e in (-1e-6, 1e-6, -0.05, 0.05)]
    for group in chunks(vs, 20):
        c = Case('knife edge %g..' % group[0])
        for v in group:
            c.fn('aknfe', ['x'], v)
        ctx.add(c)
    for group in chunks(pairs, 20):
        c = Case('height gain %g..' % group[0][0])
        for x, k in group:
            c.fn('fht', ['x', 'pk'], x, k)
        ctx.add(c)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


@prop('C27')
def c27(ctx):
    p = Pick(ctx.rnd)
    for kind, c, g, dx in prepared(ctx, p, 350, 3):
        if kind == 'area':
            c.lrprop('A', distance(p, p.r.choice(['diff', 'scat', 'scat']), g, dx), ['scatline', 'scatdx', 'aref', 'dxfar'])
            c.lrprop('A', distance(p, 'scat', g, dx), ['scatline', 'scatdx', 'aref', 'dxfar'])
        else:
            c.qlrpfl('A', g[0], g[1], 5, 11, ['scatline', 'scatdx', 'aref', 'dxfar'])
        ctx.add(c)
    for k, w in enumerate(guided(ctx, p, ctx.scale(300, 4000), ctx.scale(3000, 40000))):
        c = Case('scatter wide %d' % k)
        start_wide(c, 'A', w)
        for cls in ('diff', 'scat'):
            c.lrprop('A', distance(p, cls, w['dlsa'], w['dx']), ['scatline', 'scatdx', 'aref', 'dxfar'])
        ctx.add(c)
    # geometry given directly: inadmissible, barely admissible, large frequency gain, unequal horizons
    for k in range(ctx.scale(500, 8000)):
        r = p.r
        a = p.radio(p.freq(r.choice(['limit', 'vhf', 'uhf', 'shf'])))
        a['hg'] = [p.log(0.5, 30), p.log(0.5, 30)]
        a['dh'] = p.rough(r.choice(['smooth', 'rolling', 'hilly']))
        he = [a['hg'][0] * r.uniform(1, 2), a['hg'][1] * r.uniform(1, 2)]
        dls = [math.sqrt(2 * h / a['gme']) for h in he]
        dl = [dls[0] * r.uniform(0.2, 1), dls[1] * r.uniform(0.2, 1)]
        if r.random() < 0.06:                        # so unequal that the path asymmetry meets its limit
            dl[r.randrange(2)] = p.log(5e5, 4e6)
        span = sum(dl) + 2e5
        want = r.choice([p.log(0.02, 0.3), p.log(0.1, 3), p.log(0.5, 50)])      # r1 or r2 wanted at the near point
        th = want / (2 * a['wn'] * r.choice(he))
        the = (th - span * a['gme']) / 2
        dd = r.uniform(-0.01, 0.01)
        the = [max(-0.19, min(0.19, the + dd)), max(-0.19, min(0.19, the - dd))]
        c = Case('scatter geometry %d' % k)
        c.begin('A', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'])
        c.set('A', he=he, dl=dl, the=the, mdp=1)
        c.lrprop('A', p.log(2e5, 1.5e6), ['scatline', 'scatdx', 'aref', 'dxfar'])
        c.lrprop('A', p.log(2e5, 1.5e6), ['scatline', 'scatdx', 'aref', 'dxfar'])
        ctx.add(c)
    tds = near_values(p, [10e3, 70e3]) + [10e3, 70e3, 1.0, 1e6]
    tds += [p.log(100, 1e6) for _ in range(ctx.scale(100, 2000))]
    for group in chunks(tds, 20):
        c = Case('F0 %g..' % group[0])
        for x in group:
            c.fn('ahd', ['x'], x)
        ctx.add(c)
    ets = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 0.0, 0.5, 0.999999, 1.000001, 4.999999, 5.000001, 1.5, 2.5, 3.5, 4.5, 9.0, 1, 3]
    pr = [(p.log(0.05, 500), e) for e in ets for _ in range(3)]
    pr += [(p.log(0.05, 500), p.r.uniform(0, 7)) for _ in range(ctx.scale(200, 4000))]
    for group in chunks(pr, 20):
        c = Case('H01 %g..' % group[0][1])
        for x, e in group:
            c.fn('h0f', ['x', 'et'], x, e)
        ctx.add(c)


@prop('C28')
def c28(ctx):
    p = Pick(ctx.rnd)
    for kind, c, g, dx in prepared(ctx, p, 420, 3):
        if kind == 'area':
            k = c.lrprop('A', g * p.log(0.01, 0.98), ['loscurve', 'losln', 'aref'])
        else:
            k = c.qlrpfl('A', g[0], g[1], 5, 11, ['loscurve', 'losln', 'aref'])
        o = c.ev[k - 1]['o']
        dlsa = got(o, 'dlsa', 5e4)
        if got(o, 'ael', None) is None and kind == 'p2p':
            ctx.add(c)                        # not in line of sight: the code prepares no such curve
            continue
        for d in (dlsa * p.log(0.003, 0.1), dlsa * p.r.uniform(0.1, 0.6), dlsa * p.r.uniform(0.6, 1)):
            c.at('alos', 'A', d)
        ctx.add(c)
    for k, w in enumerate(guided(ctx, p, ctx.scale(300, 4000), ctx.scale(3000, 40000))):
        c = Case('sight wide %d' % k)
        start_wide(c, 'A', w)
        c.lrprop('A', w['dlsa'] * p.log(0.01, 0.98), ['loscurve', 'losln', 'aref'])
        for d in (w['dlsa'] * p.log(0.003, 0.1), w['dlsa'] * p.r.uniform(0.1, 1)):
            c.at('alos', 'A', d)
        ctx.add(c)
    # geometry given directly: strong and weak reflections, small grazing angles, every roughness
    for k in range(ctx.scale(400, 6000)):
        r = p.r
        a = p.radio(p.freq(r.choice(['limit', 'vhf', 'uhf', 'shf', 'ehf'])))
        a['hg'] = [p.log(0.5, 1000), p.log(0.5, 300)]
        a['dh'] = p.rough(r.choice(['zero', 'smooth', 'rolling', 'hilly', 'rugged']))
        he = [a['hg'][0] * r.uniform(1, 3), a['hg'][1] * r.uniform(1, 3)]
        dls = [math.sqrt(2 * h / a['gme']) for h in he]
        dl = [dls[0] * r.uniform(0.3, 1), dls[1] * r.uniform(0.3, 1)]
        the = [r.uniform(-0.03, 0.1), r.uniform(-0.03, 0.1)]
        c = Case('sight geometry %d' % k)
        c.begin('A', a['hg'], a['wn'], a['dh'], a['ens'], a['gme'], a['zgnd'])
        c.set('A', he=he, dl=dl, the=the, mdp=1)
        n = c.lrprop('A', sum(dls) * p.log(0.01, 0.95), ['loscurve', 'losln', 'aref'])
        dlsa = got(c.ev[n - 1]['o'], 'dlsa', sum(dls))
        for d in (dlsa * p.log(0.003, 0.1), dlsa * p.r.uniform(0.1, 1)):
            c.at('alos', 'A', d)
        ctx.add(c)


# --------------------------------------------------------------------------
# terrain extraction, files and plots: everything happens in a scratch folder
class Scratch:
    """A scratch folder that is also the working directory while it is open."""

    def __enter__(self):
        import os
        import tempfile
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix='itmfiles.')
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        import os
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


def write_dem(path, x0, y0, dx, dy, z, nodata=None, dtype='float64'):
    import numpy as np
    import rasterio
    from rasterio.transform import from_origin
    arr = np.array(z, dtype=dtype)
    with rasterio.open(path, 'w', driver='GTiff', height=arr.shape[0], width=arr.shape[1], count=1, dtype=dtype,
                       crs='EPSG:4326', transform=from_origin(x0, y0, dx, dy), nodata=nodata) as f:
        f.write(arr, 1)


def surface(p, kind, rows, cols):
    r = p.r
    if kind == 'plane':
        b, u, v = r.uniform(0, 300), r.uniform(-20, 20), r.uniform(-20, 20)
        return [[b + u * j + v * i for j in range(cols)] for i in range(rows)]
    if kind == 'waves':
        return [[100 + 80 * math.sin(0.7 * i + 1.1 * j) + 3 * j for j in range(cols)] for i in range(rows)]
    if kind == 'integers':
        return [[float(r.randint(0, 900)) for _ in range(cols)] for _ in range(rows)]
    if kind == 'coast':                            # sea level, polders below it, land beyond
        return [[r.choice([0.0, 0.0, 0.0, -3.0, -1.0, 7.0, 400.0]) for _ in range(cols)] for _ in range(rows)]
    return [[r.uniform(0, 1000) for _ in range(cols)] for _ in range(rows)]


@prop('C22')
def c22(ctx):
    import os
    p = Pick(ctx.rnd)
    tm = script('terrain_module')
    ds = [0, 0.0, 1.0, 10.0, 100.0, 1e3, 1e4, 5e4, 1e5, 1e6, 1e7, 2e7, 1e9, 1e12] + [float(i * 7) for i in range(1, 200)]
    ds += [p.log(1, 2e7) for _ in range(ctx.scale(600, 20000))]
    for group in chunks(sorted(ds), 60):
        ns = []
        for d in group:
            ok, v = call(tm.determine_num_samples, d) if tm else (False, None)
            ns.append(num(v) if ok else NAN)
        c = Case('samples %g..' % group[0])
        c.add('nsamples', dict(d=nums(group)), dict(n=ns), ['count', 'mono'])
        ctx.add(c)
    with Scratch() as d:
        for k in range(ctx.scale(96, 800)):
            r = p.r
            lat = r.choice([0.0, r.uniform(-60, 60), r.uniform(-75, 75) if k % 8 < 7 else 10.0, r.uniform(30, 60), -3.5])
            lon = r.choice([0.0, r.uniform(-170, 170) if k % 8 < 7 else r.uniform(-130, 130), r.uniform(-10, 30)])
            rows, cols = r.randint(6, 16), r.randint(6, 16)
            size = [0.000005, 0.00001, 0.00002, 0.00005, 0.0002, p.log(0.002, 0.02), p.log(0.02, 0.1), p.log(0.1, 2.0)][k % 8]
            dx, dy = size * r.uniform(0.7, 1.3), size * r.uniform(0.7, 1.3)
            z = surface(p, r.choice(['plane', 'waves', 'noise', 'integers', 'coast']), rows, cols)
            x0, y0 = lon - dx * cols / 2, lat + dy * rows / 2
            dem = os.path.join(d, 'dem%d.tif' % (k % 4))
            write_dem(dem, x0, y0, dx, dy, z, nodata=r.choice([None, -9999.0]))

            def place():
                return (x0 + dx * r.uniform(1.5, cols - 1.5), y0 - dy * r.uniform(1.5, rows - 1.5))
            a, b = place(), place()
            kind = r.randrange(8)
            if k % 8 > 4 and kind > 3:           # long: from one corner to another
                a, b = ((x0 + dx * r.uniform(1.5, 2.5), y0 - dy * r.uniform(1.5, 2.5)),
                        (x0 + dx * (cols - r.uniform(1.5, 2.5)), y0 - dy * (rows - r.uniform(1.5, 2.5))))
                if kind == 5:
                    a, b = (a[0], b[1]), (b[0], a[1])
                if r.random() < 0.5:
                    a, b = b, a
            if kind == 0:
                b = (a[0], b[1])                 # north-south
            elif kind == 1:
                b = (b[0], a[1])                 # east-west
            elif kind == 2:
                b = (a[0] + dx * 1e-3, a[1])     # very short
            elif kind == 3 and k % 3 == 0:
                b = a                            # no distance at all
            line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [a, b]}, 'properties': {'id': 'x'}}
            o = dict(z=[NAN], dist=[NAN], px=[], py=[], pz=[])
            ok, res, _ = quiet(tm.terrain_p2p, dem, line) if tm else (False, None, '')
            if ok:
                try:
                    prof, km, pts = res
                    o = dict(z=nums(prof), dist=[num(km)], px=[num(q['geometry']['coordinates'][0]) for q in pts],
                             py=[num(q['geometry']['coordinates'][1]) for q in pts],
                             pz=[num(q['properties']['elevation']) for q in pts])
                except Exception:
                    pass
            c = Case('profile over raster %d' % k)
            c.add('profile', dict(x0=num(x0), y0=num(y0), dx=num(dx), dy=num(dy), z=[nums(row) for row in z], tx=nums(a), rx=nums(b)),
                  o, ['count', 'dist', 'spacing', 'elev', 'points'])
            ctx.add(c)


def metres(lon, lat, x, y):
    """Roughly; only to choose which cells to leave out."""
    return math.hypot((x - lon) * 111320 * math.cos(math.radians((lat + y) / 2)), (y - lat) * 110950)


@prop('C23')
def c23(ctx):
    import os
    import numpy as np
    p = Pick(ctx.rnd)
    tm = script('terrain_module')
    for k in range(ctx.scale(250, 4000)):
        r = p.r
        n = r.choice([1, 2, 3, r.randint(2, 12), r.randint(10, 80)])
        if k % 60 == 7:
            n = r.choice([300, 1100, 5200, 10500])
        x = [r.choice([r.uniform(-50, 900), float(r.randint(0, 30)), float(r.randint(-500, 4000))]) for _ in range(n)]
        if r.random() < 0.1:
            x = [x[0]] * n
        m = [0] * n
        kind = r.randrange(4)
        if kind == 0:
            arg = list(x)
        elif kind == 1:
            arg = np.array(x)
        else:
            m = [1 if r.random() < 0.3 else 0 for _ in x]
            if all(m):
                m[0] = 0
            y = [(r.choice([-9999.0, 1e6, -32768.0]) if q else v) for v, q in zip(x, m)]
            arg = np.ma.masked_array(y, mask=[bool(q) for q in m])
        c = Case('interdecile %d' % k)

        def ask(arg, x, m):
            ok, v = call(tm.interdecile_range, arg) if tm else (False, None)
            return c.add('interdecile', dict(x=nums(x), m=m), dict(v=[num(v) if ok else NAN]), ['range'])
        i = ask(arg, x, m)
        perm = list(range(n))
        r.shuffle(perm)
        x2, m2 = [x[q] for q in perm], [m[q] for q in perm]
        if kind < 2:
            arg2 = list(x2)
        else:
            arg2 = np.ma.masked_array([(777.0 if q else v) for v, q in zip(x2, m2)], mask=[bool(q) for q in m2])
        j = ask(arg2, x2, m2)
        # the value before rounding may lie on a tie, where the last bit of the sum order decides
        c.rel('same', i, j, ['v'], at=1.0 if kind else 0.0)
        ctx.add(c)
    for k in range(ctx.scale(60, 600)):
        r = p.r
        lon, lat = r.uniform(-160, 160), r.choice([0.0, r.uniform(-80, 80), r.uniform(-80, 80), 51.42, -3.54, 75.0, -75.0])
        rad = r.choice([20000, p.log(100, 60000), 1000.0])
        ok, b = call(tm.geodesic_point_buffer, lon, lat, rad) if tm else (False, None)
        try:
            xy = list(b.exterior.coords)[:-1]
            o = dict(x=[num(q[0]) for q in xy], y=[num(q[1]) for q in xy])
        except Exception:
            o = dict(x=[NAN], y=[NAN])
        c = Case('buffer %d' % k)
        c.add('buffer', dict(lon=num(lon), lat=num(lat), r=num(rad)), o, ['radius', 'round'])
        ctx.add(c)
    with Scratch() as d:
        for k in range(ctx.scale(90, 900)):
            r = p.r
            lon, lat = r.choice([r.uniform(-170, 170), -0.07, 27.0]), r.choice([0.0, r.uniform(-70, 70), 51.4, -3.5, 65.0, -45.0])
            rad = r.choice([20000, p.log(500, 50000), p.log(150, 1500)])
            n = r.randint(14, 26)
            wide = rad * r.uniform(1.15, 1.6)
            dy = 2 * wide / 110950 / n
            dx = 2 * wide / (111320 * math.cos(math.radians(lat))) / n
            x0, y0 = lon - dx * n / 2 + dx * r.uniform(-0.5, 0.5), lat + dy * n / 2 + dy * r.uniform(-0.5, 0.5)
            inside = surface(p, r.choice(['plane', 'waves', 'noise', 'integers']), n, n)
            nodata = r.choice([None, -9999.0, -9999.0, -32768.0, 0.0, 0.0, 32767.0, -1.0])
            gone = -9999.0 if nodata is None else nodata
            hole = r.choice([0, 0, 0.1, 0.4])
            out = r.choice([5000.0, -400.0, gone])
            z = []
            for i in range(n):
                row = []
                for j in range(n):
                    m = metres(lon, lat, x0 + (j + 0.5) * dx, y0 - (i + 0.5) * dy)
                    if m > rad * 1.03:
                        v = out
                    elif m > rad * 0.97 or r.random() < hole:
                        v = gone
                    else:
                        v = inside[i][j]
                    row.append(v)
                z.append(row)
            if r.random() < 0.35:                   # the raster ends within the circle
                cut = r.randint(1, n // 2 - 1)
                side = r.randrange(4)
                if side == 0:
                    z = z[cut:]
                    y0 -= cut * dy
                elif side == 1:
                    z = z[:-cut]
                elif side == 2:
                    z = [row[cut:] for row in z]
                    x0 += cut * dx
                else:
                    z = [row[:-cut] for row in z]
            dem = os.path.join(d, 'dem%d.tif' % (k % 4))
            dtype = 'float64'
            if r.random() < 0.4:
                z = [[round(v) + 0.0 for v in row] for row in z]
                dtype = r.choice(['int16', 'int32', 'float32'])
            write_dem(dem, x0, y0, dx, dy, z, nodata=nodata, dtype=dtype)
            ok, v, _ = quiet(tm.terrain_area, dem, lon, lat, rad) if tm else (False, None, '')
            c = Case('irregularity of area %d' % k)
            c.add('tip', dict(x0=num(x0), y0=num(y0), dx=num(dx), dy=num(dy), z=[nums(row) for row in z], lon=num(lon),
                              lat=num(lat), r=num(rad), nodata=num(gone)), dict(v=[num(v) if ok else NAN]), ['tip'])
            ctx.add(c)


# --- files -------------------------------------------------------------------
TEXTS = ['plain', 'with, comma', 'with "quote"', 'two\nlines', ' leading', 'trailing ', 'semi;colon', "it's", 'Crystal Palace', '0', '1e5', 'a,b,"c"',
         '', '', 'back\\slash', 'C:\\new\\table', 'tab\there', 'Z\u00fcrich', '\'', '"', '#1', '%d', 'null', 'nan', '-', '=1+1']


def cell(p, kind):
    import numpy as np
    r = p.r
    if kind == 'text':
        return r.choice(TEXTS)
    if kind == 'int':
        return r.choice([0, 1, 50, 90, -7, r.randint(-10**6, 10**6)])
    v = r.choice([r.uniform(-200, 400), 0.1, 1 / 3, 1e-7, 1.5e10, 0.0, p.log(1e-12, 1e12)])
    return np.float64(v) if r.random() < 0.3 else v


def content(header, rows):
    """Encoded table: what was given to a writer."""
    kind, text, nm = [], [], []
    for row in rows:
        kind.append(['s' if isinstance(v, str) else 'n' for v in row])
        text.append([v if isinstance(v, str) else '' for v in row])
        nm.append([NAN if isinstance(v, str) else num(v) for v in row])
    return dict(header=list(header), kind=kind, text=text, num=nm)


def shown(header, rows):
    """Encoded table: what a file shows."""
    def n_of(v):
        try:
            return num(float(v))
        except Exception:
            return NAN
    return dict(header=[str(h) for h in header], text=[[str(v) for v in row] for row in rows],
                num=[[n_of(v) for v in row] for row in rows])


def read_csv(path):
    import csv
    try:
        with open(path, newline='') as f:
            rows = list(csv.reader(f))
        return shown(rows[0], rows[1:])
    except Exception:
        return shown(['unreadable'], [])


def read_shp(path):
    import fiona
    try:
        with fiona.open(path) as f:
            header = list(f.schema['properties'])
            feats = list(f)
            crs = f.crs.to_epsg() if f.crs else None
            o = shown(header, [[x['properties'][h] for h in header] for x in feats])
            geom = []
            kinds = set()
            for x in feats:
                g = x['geometry']
                kinds.add(g['type'])
                cs = [g['coordinates']] if g['type'] == 'Point' else g['coordinates']
                geom.append([num(v) for q in cs for v in q])
            o.update(type=kinds.pop() if len(kinds) == 1 else 'mixed', geom=geom, crs='EPSG:%s' % crs)
            return o
    except Exception:
        return dict(shown(['unreadable'], []), type='-', geom=[], crs='-')


# two names of one history, which differ in case, spaces, dots, length or ending
NAMES = [('a', 'b'), ('Results', 'results'), ('A results', 'A_results'), ('p2p.v1', 'p2p.v2'), ('x', 'x' * 60), ('p2p_results', 'P2P_RESULTS'),
         ('Z\u00fcrich', 'Zurich'), ('csv', 'shp'), ('1', '01'), ('-a', 'a-')]
NAME_IDS = ('a', 'b')
SIZE = {'one': 1, 'short': 3, 'long': 9}


@prop('C24')
def c24(ctx):
    import os
    p = Pick(ctx.rnd)
    writers = {n: script(n) for n in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles')}
    h2 = ctx.model('ITMStore', 'SPECIFICATION Spec\nINVARIANTS LastWriteWins Emit\n', {'ITM_LEN': '2'})
    h3 = ctx.model('ITMStore', 'SPECIFICATION Spec\nINVARIANTS LastWriteWins Emit\n', {'ITM_LEN': '3'})
    FIELDS = {'F': [('distance_km', 'int'), ('confidence_level_%', 'int'), ('propagation_loss_dB', 'float')],
              'G': [('b', 'text'), ('a', 'float'), ('id', 'int'), ('note', 'text')]}
    OTHERS = [[(' name', 'text'), ('value ', 'float'), ('NAME', 'text')], [('one', 'text')], [('', 'text'), ('x', 'int')],
              [('a, b', 'float'), ('"q"', 'text')], [('t1', 'text'), ('t2', 'text'), ('T1', 'text')],
              [('z%d' % i, 'float') for i in range(12)], [('1', 'int'), ('0', 'int')]]

    def table(fs, size):
        recs = []
        fields = p.r.choice(OTHERS) if fs == 'G' and p.r.random() < 0.5 else FIELDS[fs]
        blank = p.r.random() < 0.3
        for _ in range(SIZE[size]):
            rec = {n: cell(p, k) for n, k in fields}
            if blank and p.r.random() < 0.5:
                rec = {n: '' for n, _ in fields}
            elif recs and p.r.random() < 0.2:
                rec = dict(p.r.choice(recs))     # the same record again
            recs.append(rec)
        header = [n for n, _ in fields]
        for i in range(1, len(recs)):            # later records may list their fields in another order
            if p.r.random() < 0.3:
                ks = list(recs[i])
                p.r.shuffle(ks)
                recs[i] = {q: recs[i][q] for q in ks}
        return header, recs

    def seen(root, ext):
        got_ = []
        for base, _, names in os.walk(root):
            got_ += [os.path.relpath(os.path.join(base, n), root) for n in names if n.endswith(ext)]
        return sorted(got_)

    with Scratch() as d:
        for k, h in enumerate(h2 + some_hist(ctx, h3, 160, 1728)):
            root = os.path.join(d, 'csv%d' % k)
            os.makedirs(os.path.join(root, 'here'))
            w = p.r.choice(list(writers))
            named = dict(zip(NAME_IDS, p.r.choice(NAMES)))
            c = Case('store csv %s %s' % (w, '; '.join('%(dir)s/%(name)s %(size)s %(fields)s' % x for x in h['h'])))
            c.add('disk', {}, {}, (), 'disk')
            done = []
            for x in h['h']:
                header, recs = table(x['fields'], x['size'])
                folder = {'here': 'here', 'deep': os.path.join('new', 'deep')}[x['dir']]
                name = named[x['name']] + '.csv'
                rel = os.path.join(folder, name)
                keep = [dict(q) for q in recs]
                ok, _, _ = quiet(writers[w].csv_writer, recs, os.path.join(root, folder), name) if writers[w] else (False, 0, 0)
                c.add('write', dict(path=rel, data=content(header, [[q[n] for n in header] for q in keep])),
                      dict(ok='yes' if ok else 'no'), ['written'], 'disk')
                if rel not in done:
                    done.append(rel)
                for f in done:
                    c.add('read', dict(path=f), read_csv(os.path.join(root, f)), ['csv'], 'disk')
                c.add('list', {}, dict(names=seen(root, '')), ['listing'], 'disk')
            ctx.add(c)
            import shutil
            shutil.rmtree(root, ignore_errors=True)
        for k, h in enumerate(some_hist(ctx, h2, 50, 144) + some_hist(ctx, h3, 20, 400)):
            root = os.path.join(d, 'shp%d' % k)
            os.makedirs(os.path.join(root, 'here'))
            w = p.r.choice(['p2p', 'p2p_2tiles'])
            named = dict(zip(NAME_IDS, p.r.choice(NAMES)))
            c = Case('store shp %s %s' % (w, '; '.join('%(dir)s/%(name)s %(size)s %(fields)s' % x for x in h['h'])))
            c.add('disk', {}, {}, (), 'disk')
            done = []
            for x in h['h']:
                gtype = p.r.choice(['Point', 'LineString'])
                crs = p.r.choice(['EPSG:4326', 'EPSG:4326', 'EPSG:3857'])
                n = SIZE[x['size']]
                names = [('elevation', 'float')] if x['fields'] == 'F' else [('id', 'text'), ('z', 'float'), ('k', 'int')]

                def pt():
                    return tuple(p.r.choice([w, -w, 0.0]) if p.r.random() < 0.1 else p.r.uniform(-w, w) for w in (180.0, 90.0))
                feats = []
                for _ in range(n):
                    cs = pt() if gtype == 'Point' else [pt() for _ in range(p.r.choice([2, 2, 3, 5]))]
                    props = {}
                    for nm, kd in names:
                        props[nm] = {'text': p.r.choice(['Mursley', 'A', 'Crystal Palace radio transmitter', 'x,y']),
                                     'float': p.r.choice([p.r.uniform(-100, 3000), 0.0, 12.5]), 'int': p.r.randint(-10**6, 10**6)}[kd]
                    feats.append({'type': 'Feature', 'geometry': {'type': gtype, 'coordinates': cs}, 'properties': props})
                    if len(feats) > 1 and p.r.random() < 0.25:    # the same feature, place or properties again
                        f, g = feats[-1], p.r.choice(feats[:-1])
                        q = p.r.randrange(3)
                        if q != 1:
                            f['geometry'] = dict(g['geometry'])
                        if q != 2:
                            f['properties'] = dict(g['properties'])
                folder = {'here': 'here', 'deep': os.path.join('new', 'deep')}[x['dir']]
                name = named[x['name']] + '.shp'
                rel = os.path.join(folder, name)
                data = content([nm for nm, _ in names], [[f['properties'][nm] for nm, _ in names] for f in feats])
                data.update(type=gtype, crs=crs, geom=[[num(v) for q in ([f['geometry']['coordinates']] if gtype == 'Point' else f['geometry']['coordinates']) for v in q] for f in feats])
                ok, _, _ = quiet(writers[w].write_shapefile, feats, os.path.join(root, folder), name, crs) if writers[w] else (False, 0, 0)
                c.add('write', dict(path=rel, data=data), dict(ok='yes' if ok else 'no'), ['written'], 'disk')
                if rel not in done:
                    done.append(rel)
                for f in done:
                    c.add('read', dict(path=f), read_shp(os.path.join(root, f)), ['shp', 'geom', 'crs'], 'disk')
                c.add('list', {}, dict(names=seen(root, '.shp')), ['listing'], 'disk')
            ctx.add(c)
            shutil.rmtree(root, ignore_errors=True)
    for k in range(ctx.scale(120, 1200)):
        edge = lambda w: p.r.choice([w, -w, 0.0, 0, w - 1e-9, 1e-9, -w + 0.03, int(w)])
        place = lambda: tuple(edge(w) if p.r.random() < 0.3 else p.r.uniform(-w, w) for w in (180.0, 90.0))
        a, b = place(), place()
        if p.r.random() < 0.1:
            b = a

        def feat(q):
            return {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': q}, 'properties': {'id': 'x'}}
        w = p.r.choice(['p2p', 'p2p_2tiles'])
        ok, res, _ = quiet(writers[w].straight_line_from_points, feat(a), feat(b)) if writers[w] else (False, None, '')
        try:
            o = dict(type=str(res['geometry']['type']), feature=str(res['type']), c=[num(v) for q in res['geometry']['coordinates'] for v in q])
        except Exception:
            o = dict(type='-', feature='-', c=[NAN])
        c = Case('line %d' % k)
        c.add('line', dict(p=nums(a), q=nums(b)), o, ['line'])
        ctx.add(c)


# --- plots ---------------------------------------------------------------------
def load_vis():
    import importlib.util
    import os
    from rec import REPO
    import matplotlib
    matplotlib.use('Agg')
    spec = importlib.util.spec_from_file_location('itm_vis', os.path.join(REPO, 'vis', 'vis.py'))
    m = importlib.util.module_from_spec(spec)
    ok, _ = call(spec.loader.exec_module, m, limit=120)
    return m if ok else None


def figure_curves(ax, bars):
    """Legend label -> points drawn in that label's colour."""
    import matplotlib.colors as mc
    leg = ax.get_legend()
    labels, xs, ys = [], [], []
    handles = getattr(leg, 'legend_handles', None) or leg.legendHandles
    rgba = lambda col: tuple(round(v, 6) for v in mc.to_rgba(col))
    for t, hnd in zip(leg.get_texts(), handles):
        labels.append(t.get_text())
        if not bars:
            colour = rgba(hnd.get_color())
            lines = [l for l in ax.get_lines() if rgba(l.get_color()) == colour and len(l.get_xdata()) > 0]
            pts = [(x, y) for l in lines for x, y in zip(l.get_xdata(), l.get_ydata())]
        else:
            colour = rgba(hnd.get_facecolor())
            ticks = {}
            for pos, lab in zip(ax.get_xticks(), ax.get_xticklabels()):
                ticks[float(pos)] = lab.get_text()
            pts = []
            for patch in ax.patches:
                if rgba(patch.get_facecolor()) == colour:
                    mid = patch.get_x() + patch.get_width() / 2
                    pos = min(ticks, key=lambda q: abs(q - mid))
                    pts.append((float(ticks[pos]), patch.get_height()))
        xs.append([num(float(x)) for x, _ in pts])
        ys.append([num(float(y)) for _, y in pts])
    # a bar stands at a place on the axis, a point of a line at its own distance
    at = [w.get_x() + w.get_width() / 2 for w in ax.patches] if bars else [float(x) for l in ax.get_lines() for x in l.get_xdata()]
    return dict(labels=labels, xs=xs, ys=ys, ylim=nums(ax.get_ylim()), xlim=nums(ax.get_xlim()), at=nums(at))


@prop('C29')
def c29(ctx):
    import os
    p = Pick(ctx.rnd)
    with Scratch() as d:
        for f in ('data', 'results', os.path.join('vis', 'figures')):
            os.makedirs(os.path.join(d, f))
        vis = load_vis()
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        real_savefig = Figure.savefig
        for k in range(ctx.scale(40, 300)):
            r = p.r
            bars = k % 2 == 1
            ties = r.random() < 0.35                  # several rows with the same loss
            loss = lambda: r.choice([100.0, 120.5, 150.25, 99]) if ties else round(r.uniform(30, 400), r.choice([3, 9]))
            if bars:
                xs = r.choice([[1, 10, 50, 90, 99], [1, 10, 50, 90, 99], sorted(r.sample(range(1, 100), r.randint(1, 6))),
                               sorted(r.sample([0.1, 0.5, 1, 2, 10.5, 50, 95, 98.5, 99, 99.5, 99.9, 99.99, 100], r.randint(2, 6)))])
                rows = [(rl, cl, loss()) for rl in xs for cl in (50, 90, 10)]
                head = 'distance_km,reliability_level_%,confidence_level_%,propagation_loss_dB'
            else:
                xs = r.choice([list(range(10, 151, 10)) + list(range(200, 501, 50)), sorted(r.sample(range(1, 900), r.randint(2, 15)))])
                if r.random() < 0.2:
                    xs = [x + r.choice([0.0, 0.5, 0.125]) for x in xs]
                if k % 4 == 0:                        # places near the transmitter
                    xs = sorted(set(xs) | set(r.sample([0.25, 0.5, 1, 1.5, 2, 3, 4, 4.5], r.randint(1, 4))))
                rows = [(dd, cl, loss()) for dd in xs for cl in (50, 90, 10)]
                head = 'distance_km,confidence_level_%,propagation_loss_dB'
            if r.random() < 0.3:                      # one loss far above (or below) the others, or losses that rise
                i, up = r.randrange(len(rows)), r.choice([-1, 1]) * r.uniform(100, 300)
                rows[i] = rows[i][:-1] + (round(max(rows[i][-1] + up, 5.0), 3),)
            elif r.random() < 0.3:
                step = r.uniform(3, 12)
                rows = [q[:-1] + (round(60 + i * step + r.random(), 3),) for i, q in enumerate(rows)]
            if r.random() < 0.6:
                r.shuffle(rows)
            name = 'p2p_results' if bars else 'area_results'
            path = os.path.join(d, 'results', r.choice([name, 'other']) + '.csv')
            with open(path, 'w') as f:
                f.write(head + '\n')
                for row in rows:
                    f.write(('77.8,' if bars else '') + ','.join(map(repr, row)) + '\n')
            png = os.path.join(d, 'vis', 'figures', name + '.png')
            if os.path.exists(png):
                os.remove(png)
            plt.close('all')
            ok = False
            o = dict(labels=[], xs=[], ys=[], ylim=[NAN, NAN], xlim=[NAN, NAN], at=[0.0])
            shown = []

            def savefig(fig, *args, **kw):           # what the figure shows when it is saved
                try:
                    shown.append(figure_curves(fig.axes[0], bars))
                except Exception:
                    pass
                return real_savefig(fig, *args, **kw)
            Figure.savefig = savefig
            try:
                if vis is not None:
                    ok, _, _ = quiet(vis.plot_p2p_results if bars else vis.plot_area_results, path)
            finally:
                Figure.savefig = real_savefig
            if ok and shown:
                o = shown[-1]
            o['saved'] = 'yes' if ok and os.path.exists(png) and os.path.getsize(png) > 1000 else 'no'
            c = Case('plot %s %d' % (name, k))
            c.add('plot', dict(x=[num(q[0]) for q in rows], c=[q[1] for q in rows], loss=[num(q[2]) for q in rows]), o,
                  ['curves', 'inside', 'across', 'saved'] + ([] if bars else ['order']))
            ctx.add(c)
        plt.close('all')


# --- the scripts as programs -----------------------------------------------------
CAMPAIGN = ['PIMTER_Tx_Rx1', 'PIMTER_2019_Rx_Tx0', 'PIMTER_2019_Rx_Tx2', 'PIMTER_2019_Rx_Tx3', 'PIMTER_2019_Rx_Tx4',
            'PIMTER_2019_Rx_Tx5']
HOME = {'csv': 'results', 'shp': 'data/processed/shapes', 'png': 'vis/figures'}


def raster_around(p, site, west, east, south, north, ends):
    """A raster over the box in which no cell centre lies near the rim of the 20 km cell around the site."""
    r = p.r
    for _ in range(4000):
        dx, dy = r.uniform(0.045, 0.11), r.uniform(0.045, 0.09)
        x0, y0 = west - r.uniform(0, dx), north + r.uniform(0, dy)
        x1 = east
        if r.random() < 0.4:                       # the cell reaches beyond the raster
            x1 = max(e[0] for e in ends + [site]) + 1.6 * dx
        cols, rows = math.ceil((x1 - x0) / dx) + 1, math.ceil((y0 - south) / dy) + 1
        rim = [1 for i in range(rows) for j in range(cols)
               if 0.982 < metres(site[0], site[1], x0 + (j + 0.5) * dx, y0 - (i + 0.5) * dy) / 20000 < 1.013]
        if not rim:
            break
    else:
        raise AssertionError('no raster')
    z = surface(p, r.choice(['plane', 'waves', 'noise', 'integers']), rows, cols)
    dtype = r.choice(['float64', 'int16'])
    if dtype == 'int16':
        z = [[float(round(v)) for v in row] for row in z]
    return dict(x0=x0, y0=y0, dx=dx, dy=dy, z=z, dtype=dtype)


def enc_raster(w):
    return dict(x0=num(w['x0']), y0=num(w['y0']), dx=num(w['dx']), dy=num(w['dy']), z=[nums(row) for row in w['z']],
                nodata=num(-9999.0))


def elevation_data(p):
    """What a workspace needs: one tile around London, two tiles in Africa."""
    cp, mu = (-0.07491679518573545, 51.42413477117786), (-0.8119433954872186, 51.94972494521946)
    ast = raster_around(p, cp, -1.05, 0.35, 51.15, 52.15, [cp, mu])
    a, b = (26.676, -3.513), (27.594, -3.514)
    vrt = raster_around(p, (26.9976, -3.5409), 26.3, 28.0, -3.85, -3.2, [a, b])
    vrt['split'] = p.r.randint(2, len(vrt['z'][0]) - 2)
    return dict(ast=ast, vrt=vrt)


def put_data(ws, data):
    import os
    d = os.path.join(ws, 'data')
    os.makedirs(d, exist_ok=True)
    w = data['ast']
    write_dem(os.path.join(d, 'ASTGTM2_N51W001_dem.tif'), w['x0'], w['y0'], w['dx'], w['dy'], w['z'], dtype=w['dtype'])
    w = data['vrt']
    k, n, m = w['split'], len(w['z'][0]), len(w['z'])
    gdal = {'float64': 'Float64', 'int16': 'Int16'}[w['dtype']]
    parts = []
    for name, lo, hi in (('S004E026_AVE_DSM.tif', 0, k), ('S004E027_AVE_DSM.tif', k, n)):
        write_dem(os.path.join(d, name), w['x0'] + lo * w['dx'], w['y0'], w['dx'], w['dy'], [row[lo:hi] for row in w['z']],
                  dtype=w['dtype'])
        parts.append('<SimpleSource><SourceFilename relativeToVRT="1">%s</SourceFilename><SourceBand>1</SourceBand>'
                     '<SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/><DstRect xOff="%d" yOff="0" xSize="%d" ySize="%d"/>'
                     '</SimpleSource>' % (name, hi - lo, m, lo, hi - lo, m))
    with open(os.path.join(d, 'S_AVE_DSM.vrt'), 'w') as f:
        f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d"><SRS>EPSG:4326</SRS><GeoTransform>%r, %r, 0, %r, 0, %r'
                '</GeoTransform><VRTRasterBand dataType="%s" band="1">%s</VRTRasterBand></VRTDataset>' % (
                    n, m, w['x0'], w['dx'], w['y0'], -w['dy'], gdal, ''.join(parts)))


def program(ws, name, limit=120):
    """Run a script as a program in the workspace: (completed, what it printed, what its figures showed)."""
    import json
    import os
    import runpy
    import sys
    import tempfile
    from rec import REPO
    out = tempfile.mkdtemp(prefix='itmrun.')
    path = os.path.join(REPO, 'vis' if name == 'vis' else 'scripts', name + '.py')
    pid = os.fork()
    if pid == 0:
        code_ = 1
        try:
            fd = os.open(os.path.join(out, 'text'), os.O_WRONLY | os.O_CREAT)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout, sys.stderr = os.fdopen(1, 'w'), os.fdopen(2, 'w')
            os.chdir(ws)
            figs = {}
            if name == 'vis':
                from matplotlib.figure import Figure
                real = Figure.savefig

                def savefig(fig, fname, *a, **kw):
                    try:
                        base = os.path.basename(str(fname))
                        figs[base] = figure_curves(fig.axes[0], base.startswith('p2p'))
                    except Exception:
                        pass
                    return real(fig, fname, *a, **kw)
                Figure.savefig = savefig
            sys.argv = [path]
            ok, _ = call(lambda: runpy.run_path(path, run_name='__main__'), limit=limit)
            with open(os.path.join(out, 'figs'), 'w') as f:
                json.dump(figs, f)
            code_ = 0 if ok else 1
        except SystemExit as e:
            code_ = 0 if not e.code else 1
        except BaseException:
            pass
        finally:
            try:
                sys.stdout.flush()
            finally:
                os._exit(code_)
    _, status = os.waitpid(pid, 0)
    text, figs = '', {}
    try:
        text = open(os.path.join(out, 'text'), errors='replace').read()
        figs = json.load(open(os.path.join(out, 'figs')))
    except Exception:
        pass
    import shutil
    shutil.rmtree(out, ignore_errors=True)
    return status == 0, text, figs


def workspace_files(ws):
    import os
    names = []
    for base, dirs, fs in os.walk(ws):
        rel = os.path.relpath(base, ws)
        if rel == os.path.join('data', 'pimter'):
            continue
        for f in fs:
            ext = f.rsplit('.', 1)[-1]
            if ext in HOME:
                names.append(f if rel == HOME[ext] else os.path.join(rel, f))
    return sorted(names)


def fingerprint(ws):
    import hashlib
    import os
    h = hashlib.sha256()
    d = os.path.join(ws, 'data')
    for base, dirs, fs in os.walk(d):
        dirs.sort()
        if 'processed' in dirs:
            dirs.remove('processed')
        for f in sorted(fs):
            if f.endswith(('.tif', '.vrt', '.csv')):
                h.update(f.encode() + open(os.path.join(base, f), 'rb').read())
    return h.hexdigest()


def look(ws, f):
    """What a file of the workspace shows."""
    import os
    path = os.path.join(ws, HOME[f.rsplit('.', 1)[-1]], f)
    if f.endswith('.csv'):
        t = read_csv(path)
        wide = len(t['header'])
        cols = [[row[k] if k < len(row) else NAN for row in t['num']] for k in range(wide)] + [[NAN]] * 4
        return dict(header=t['header'], cols=cols)
    t = read_shp(path)
    try:
        g = t['geom']
        return dict(header=t['header'], px=[q[0] for q in g], py=[q[1] for q in g], z=[row[0] for row in t['num']] or [NAN],
                    ids=[row[0] for row in t['text']], crs=t['crs'])
    except Exception:
        return dict(header=['unreadable'], px=[], py=[], z=[NAN], ids=[], crs='-')


OWN = {'area': ['area_results.csv'], 'area_2tiles': ['area_results_2tiles.csv'],
       'p2p': ['p2p_results.csv', 'transmitter.shp', 'receiver.shp', 'points.shp'],
       'p2p_2tiles': ['p2p_results_2tiles.csv', 'p2p_2tiles.shp'], 'pimter': [], 'vis': []}


def csv_rows(path, x):
    """(x, confidence, loss) of a result table, as vis.py finds it."""
    import csv
    try:
        with open(path, newline='') as f:
            return [(float(q[x]), int(float(q['confidence_level_%'])), float(q['propagation_loss_dB'])) for q in csv.DictReader(f)]
    except Exception:
        return []


def subsequence(part, whole):
    it = iter(whole)
    return all(any(x == y for y in it) for x in part)


def workflow(job):
    """One history in a workspace of its own."""
    import os
    import random
    import shutil
    import tempfile
    h, seed = job
    p = Pick(random.Random(seed))
    ws = tempfile.mkdtemp(prefix='itmws.')
    try:
        data = elevation_data(p)
        put_data(ws, data)
        os.makedirs(os.path.join(ws, 'data', 'pimter'))
        for name in CAMPAIGN:
            z, _ = p.profile(p.r.choice(SHAPES), 'few')
            xi = p.log(1000, 8000) / len(z)
            with open(os.path.join(ws, 'data', 'pimter', name + '_dem_height.csv'), 'w') as f:
                f.writelines('%r\n' % float(v) for v in z)
            with open(os.path.join(ws, 'data', 'pimter', name + '_dem_length.csv'), 'w') as f:
                f.writelines('%r\n' % (i * xi) for i in range(len(z)))
        c = Case('workflow ' + ', '.join(h))
        c.add('ws', dict(ast=enc_raster(data['ast']), vrt=enc_raster(data['vrt'])), {}, (), 'ws')
        drawn = {}                                 # what each figure on the disk shows
        for n, what in enumerate(h):
            if what == 'dem':
                data = elevation_data(p)
                put_data(ws, data)
                c.add('dem', dict(ast=enc_raster(data['ast']), vrt=enc_raster(data['vrt'])), {}, (), 'ws')
                continue
            before = fingerprint(ws)
            tables = {'area_results.png': csv_rows(os.path.join(ws, 'results', 'area_results.csv'), 'distance_km'),
                      'p2p_results.png': csv_rows(os.path.join(ws, 'results', 'p2p_results.csv'), 'reliability_level_%')}
            ok, text, figs = program(ws, what)
            said = [q + '_dem_height.csv' for q in CAMPAIGN if q + '_dem_height.csv' in text]
            c.add('run', dict(script=what), dict(ok='yes' if ok else 'no', names=workspace_files(ws),
                                                 same='yes' if fingerprint(ws) == before else 'no', said=said),
                  ['done', 'listing', 'inputs'] + (['campaign'] if what == 'pimter' else []), 'ws')
            last = n == len(h) - 1
            for f in OWN[what] if not last else [f for fs in OWN.values() for f in fs]:
                if os.path.exists(os.path.join(ws, HOME[f.rsplit('.', 1)[-1]], f)):
                    c.add('look', dict(file=f), look(ws, f), ['file'], 'ws')
            drawn.update(figs)
            if what == 'vis':
                for png, rows in tables.items():
                    if rows:
                        o = drawn.get(png) or dict(labels=[], xs=[], ys=[], ylim=[NAN, NAN])
                        q = os.path.join(ws, 'vis', 'figures', png)
                        o['saved'] = 'yes' if os.path.exists(q) and os.path.getsize(q) > 1000 else 'no'
                        c.add('plot', dict(x=[num(r[0]) for r in rows], c=[r[1] for r in rows], loss=[num(r[2]) for r in rows]),
                              o, ['curves', 'inside', 'saved'])
        return c
    finally:
        shutil.rmtree(ws, ignore_errors=True)


@prop('C30')
def c30(ctx):
    import multiprocessing
    import os
    os.environ['MPLBACKEND'] = 'Agg'
    import fiona, rasterio, rasterstats, shapely.geometry, pandas, pyproj      # what the scripts need, loaded once
    import matplotlib.pyplot
    hs = []
    for n in ctx.scale('23', '234'):
        got_ = ctx.model('ITMWorkflow', 'SPECIFICATION Spec\nINVARIANTS OwnLastRun PlotsFollow Emit\n', {'ITM_LEN': n})
        hs += got_ if n == '2' else some_hist(ctx, got_, 54, 300)
    # the table drawn, drawn again after it changed, other work in between
    got_ = ctx.model('ITMWorkflow', 'SPECIFICATION Spec\nINVARIANTS OwnLastRun PlotsFollow Emit\n', {'ITM_LEN': '5'})
    redrawn = [h for h in got_ if subsequence(['area', 'vis', 'dem', 'area', 'vis'], h['h'])]
    rerun = [h for h in got_ if any(subsequence([s, 'dem', s], h['h']) for s in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles'))]
    hs += some_hist(ctx, redrawn, 3, 3) + some_hist(ctx, rerun, 8, 120) + some_hist(ctx, got_, 2, 60)
    jobs = [(h['h'], '%s/%d' % (ctx.seed, k)) for k, h in enumerate(hs)]
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for c in pool.map(workflow, jobs, chunksize=1):
            ctx.add(c)
