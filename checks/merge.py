"""Merging soundings stored in parts."""
from sx.harness import scenario
from checks.dmfile import CHAR, REAL, build
from checks.reader import DEC, SROWS
from checks.select import station_values

FIELDS = {'TTAA': ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'), 'PPAA': ('PRES', 'DRCT', 'SPED'), 'TRPA': ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'),
          'MXWA': ('PRES', 'DRCT', 'SPED'), 'TTBB': ('PRES', 'TEMP', 'DWPT'), 'PPBB': ('HGHT', 'DRCT', 'SPED'),
          'TTCC': ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'), 'PPCC': ('PRES', 'DRCT', 'SPED'), 'TRPC': ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED'),
          'MXWC': ('PRES', 'DRCT', 'SPED'), 'TTDD': ('PRES', 'TEMP', 'DWPT'), 'PPDD': ('HGHT', 'DRCT', 'SPED')}
KEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN']
RANGE = {'PRES': (1, 1059), 'TEMP': (-90, 50), 'DWPT': (-95, 40), 'DRCT': (0, 360), 'SPED': (0, 200), 'HGHT': (-100, 40000)}
MISS = -9999.0


def part_levels(env, part, n, fixed, miss):
    """Values of the levels of a part: lists of dicts."""
    out = []
    for k in range(n):
        lev = {}
        for f in FIELDS[part]:
            key = f'{part}{k}{f}'
            lo, hi = RANGE['PRES' if f == 'HGHT' and part in env.p.get('as_pressure', ()) else f]
            lev[f] = fixed.get(key, fixed.get(f'{part}{f}', None))
            if lev[f] is None:
                if miss is True or f in miss or f'{part}{f}' in miss or key in miss:
                    lev[f] = env.float(key, MISS, hi, f32=True)
                    env.assume(env.Or(lev[f] == MISS, lev[f] >= lo))
                else:
                    lev[f] = env.float(key, lo, hi, f32=True)
        out.append(lev)
    return out


def stand_ins(env):
    """Calculations whose values do not matter for merging give any number (only while reasoning; replays run the real ones)."""
    if not env.symbolic:
        return
    gc = env.mod('gempakio.gemcalc')

    def scale(tb, tt, db, dt, pb, pt, missing=-9999):
        if missing in [tb, tt, pb, pt]:
            return missing
        return env.havoc('scale', 3000, 12000)

    def height(zb, pb, pt, scale_height, missing=-9999):
        if missing in [zb, pb, pt, scale_height] or pb <= 0 or pt <= 0:
            return missing
        h = env.havoc('height', -1e5, 1e5)
        env.assume(env.And(env.iff(h > zb, pt < pb), env.iff(h == zb, pt == pb)))
        return h

    def between(vlev, adata, bdata, missing=-9999):
        a, b = adata['PRES'], bdata['PRES']
        if not ((a < vlev < b) or (b < vlev < a)) or a <= 0 or b <= 0:
            raise ValueError('Current pressure does not fall between levels.')
        out = {'PRES': vlev}
        for k in adata:
            if k != 'PRES':
                out[k] = missing if missing in [adata[k], bdata[k]] else env.havoc(k, *RANGE[k])
        return out
    if env.p.get("exact"):
        from sx.nparr import issym  # values that are given are calculated with
        plain = lambda v: all(map(plain, v.values())) if isinstance(v, dict) else not issym(v)
        either = lambda real, instead: (
            lambda *a, **k: real(*a, **k) if all(map(plain, a)) and all(map(plain, k.values())) else instead(*a, **k))
        scale, height, between = (either(r, i) for r, i in ((gc.scale_height, scale), (gc.moist_hydrostatic_height, height), (gc.interp_parameters, between)))
    gc.scale_height, gc.moist_hydrostatic_height, gc.interp_parameters = scale, height, between


def sounding(env):
    stand_ins(env)
    elev = env.p.get('elev', 300)
    parts, cells, data = [], {}, {}
    for k, (part, n) in enumerate(env.p['parts']):
        alias = env.p.get('as_pressure', ())
        negative = part in env.p.get('negative', ())
        fields = [('PRES' if f == 'HGHT' and part in alias and not negative else f) for f in FIELDS[part]]
        parts.append((part, 1, REAL, [(f, 0, 0, 0) for f in fields]))
        data[part] = part_levels(env, part, n, env.p.get('fixed', {}), env.p.get('miss', ()))
        if n:
            cells[0, 0, k] = [('i', 1200)] + [('f', -lev[f] if negative and f == 'HGHT' else lev[f]) for lev in data[part] for f in FIELDS[part]]
    s = {'id': 'KABC', 'number': 72000, 'lat': 4000, 'lon': -9000, 'state': 'WI', 'country': 'US'}
    p = env.path('s.snd')
    env.write_file(p, build(env, 'sounding', SROWS, [[200101, 1200]], KEYS, [station_values(s, KEYS, elev)], parts, cells))
    g = env.mod(DEC).GempakSounding(p)
    env.check(len(g.sninfo()) == 1, 'one sounding listed')
    return data, g


def merged(env):
    data, g = sounding(env)
    out = g.snxarray()
    env.check(len(out) == 1, 'one sounding')
    return data, out[0]


def runs(env):
    """Merging ends without error."""
    data, x = merged(env)
    n = len(env.masked(x['temp']))
    env.check(n >= 1, 'levels')
    env.check(all(len(env.masked(x[v])) == n for v in ('hght', 'dwpt', 'drct', 'sped')), 'lengths')


def known(v):
    return v != MISS


def faithful(env):
    """Every level holds what the parts report for it, and nothing valid is lost (pressures fall within every part, below the surface pressure)."""
    data, g = sounding(env)
    rep = {k: v for k, v in data.items() if v}
    surface = None
    for levels in rep.values():  # a wind is reported or missing as a whole
        for lev in levels:
            if 'DRCT' in lev:
                env.assume(env.iff(known(lev['DRCT']), known(lev['SPED'])))
    for part, levels in rep.items():
        f = 'PRES' if 'PRES' in levels[0] else 'HGHT'
        pres = part.startswith('PP') and part in env.p.get('as_pressure', ())
        if f == 'HGHT' and not pres:
            for lev in levels:  # negative ones stand for pressures
                env.assume(env.Or(lev[f] >= 0, env.Not(known(lev[f]))))
        for a, b in zip(levels, levels[1:]):
            env.assume(a[f] > b[f] if f == 'PRES' or pres else a[f] < b[f])
        if f == 'PRES' or pres:  # mandatory levels above 100 hPa are those of TTCC; levels below are in the lower parts
            for lev in levels:
                env.assume(lev[f] < 100 if part in HIGH else env.Or(lev[f] >= 100, env.Not(known(lev[f]))))
    if 'TTAA' in rep and env.p.get('surface', True):
        surface = rep['TTAA'][0]
        env.assume(surface['PRES'] > 0)
        for part, levels in rep.items():
            for k, lev in enumerate(levels):
                at = lev['PRES'] if 'PRES' in lev else lev['HGHT'] if part in env.p.get('as_pressure', ()) else None
                if at is not None and not (part == 'TTAA' and k == 0):
                    env.assume(at < surface['PRES'] - 1)
    out = g.snxarray()
    env.check(len(out) == 1, 'one sounding')
    x = out[0]
    cols = [env.masked(x[v]) for v in ('temp', 'dwpt', 'drct', 'sped', 'hght')]
    n = len(cols[0])
    pres = env.flat(x.coords['pres'])
    env.check(all(len(c) == n for c in cols) and len(pres) == n, 'lengths')
    L = [dict(p=pres[i], t=cols[0][i], td=cols[1][i], d=cols[2][i], s=cols[3][i], z=cols[4][i]) for i in range(n)]
    for i in range(n - 1):
        env.check(env.Or(L[i]['p'] > L[i + 1]['p'], env.Not(known(L[i + 1]['p']))), f'pressure falls from level {i} of {n}')
    # reports of temperature and of wind at a pressure
    temps, winds, heights = [], [], []
    for part, levels in rep.items():
        for k, lev in enumerate(levels):
            ok = known(lev['PRES']) if 'PRES' in lev else True
            if part[:2] in ('TT', 'TR'):
                t = env.And(ok, known(lev['TEMP']))
                if 'HGHT' in lev and not (part == 'TTAA' and k == 0):
                    t = env.And(t, known(lev['HGHT']))
                temps.append((t, lev['PRES'], lev['TEMP'], lev['DWPT'], f'{part} {k}'))
            if 'DRCT' in lev:
                w = env.And(ok, known(lev['DRCT']), known(lev['SPED']))
                if 'TEMP' in lev:
                    w = env.And(w, known(lev['TEMP']))
                if 'HGHT' in lev and part[:2] == 'TT' and not (part == 'TTAA' and k == 0):
                    w = env.And(w, known(lev['HGHT']))
                if part[:2] == 'PP' and 'HGHT' in lev:
                    if part in env.p.get('as_pressure', ()):
                        winds.append((w, lev['HGHT'], lev['DRCT'], lev['SPED'], f'{part} {k}', True))
                    else:
                        heights.append((env.And(w, known(lev['HGHT'])), lev['HGHT'], lev['DRCT'], lev['SPED'], f'{part} {k}'))
                else:
                    winds.append((w, lev['PRES'], lev['DRCT'], lev['SPED'], f'{part} {k}', part[:2] != 'PP'))
    # winds on mandatory levels belong to the levels of the mandatory temperatures
    mandatory = [(c, p) for c, p, _, _, what in temps if what[:2] == 'TT' and what[2] in 'AC' and what != 'TTAA 0']
    winds = [(w, p, D, S, what, alone, True if alone else env.Or(*[env.And(c, q == p) for c, q in mandatory])) for w, p, D, S, what, alone in winds]
    near = lambda a, b: env.near(a, b, 1e-3)
    for i, l in enumerate(L):
        t, tm = l['t']
        td, tdm = l['td']
        none = env.And(*[env.Or(env.Not(c), env.Not(p == l['p'])) for c, p, _, _, _ in temps])
        some = env.Or(*[env.And(c, p == l['p'], near(T, t), env.Or(env.Not(known(D)), env.And(env.Not(tdm), near(D, td)))) for c, p, T, D, _ in temps])
        env.check(env.Or(none, env.And(env.Not(tm), some)), f'temperature of level {i} of {n}')
        d, dm = l['d']
        s, sm = l['s']
        z, zm = l['z']
        none = env.And(*[env.Or(env.Not(c), env.Not(must), env.Not(p == l['p'])) for c, p, _, _, _, _, must in winds])
        some = env.Or(*[env.And(c, p == l['p'], near(D, d), near(S, s)) for c, p, D, S, _, _, _ in winds],
                      *[env.And(c, env.Or(env.And(env.Not(zm), env.near(Z, z, 1.001)), env.And(Z == 0, i == 0)), near(D, d), near(S, s))
                        for c, Z, D, S, _ in heights])
        env.check(env.Or(none, env.And(env.Not(dm), env.Not(sm), some)), f'wind of level {i} of {n}')
    if surface is not None:
        for c, p, _, _, what in temps:
            env.check(env.Or(env.Not(c), *[l['p'] == p for l in L]), f'temperature reported by {what} is kept')
        for c, p, _, _, what, alone, _ in winds:
            if alone:
                env.check(env.Or(env.Not(c), *[l['p'] == p for l in L]), f'wind reported by {what} is kept')


def heights_kept(env):
    """Winds at heights between the ground and the highest mandatory level are kept, whatever is missing next to them."""
    data, g = sounding(env)
    man, elev = data['TTAA'], env.p.get('elev', 300)
    grounds = [elev] + [lev['HGHT'] for lev in man[1:]]
    for a, b in zip(grounds, grounds[1:]):
        env.assume(b > a + 2)
    for a, b in zip(man, man[1:]):
        env.assume(b['PRES'] < a['PRES'] - 1)
    reports = [lev for part in ('PPBB', 'PPDD') for lev in data.get(part, [])]
    for k, lev in enumerate(reports):
        env.assume(env.iff(known(lev['DRCT']), known(lev['SPED'])))
        env.assume(env.Or(lev['HGHT'] >= 0, env.Not(known(lev['HGHT']))))
        for other in reports[:k]:
            env.assume(env.Or(env.Not(known(lev['HGHT'])), env.Not(known(other['HGHT'])), lev['HGHT'] > other['HGHT'] + 2))
    x = g.snxarray()[0]
    z, d, s = (env.masked(x[v]) for v in ('hght', 'drct', 'sped'))
    for k, lev in enumerate(reports):
        Z = lev['HGHT']
        inside = env.And(known(Z), known(lev['DRCT']), Z > elev + 2, Z < grounds[-1] - 2, *[env.Or(Z > h + 2, Z < h - 2) for h in grounds])
        there = env.Or(*[env.And(env.Not(zm), env.Not(dm), env.Not(sm), env.near(zz, Z, 1e-2), env.near(dd, lev['DRCT'], 1e-3), env.near(ss, lev['SPED'], 1e-3))
                         for (zz, zm), (dd, dm), (ss, sm) in zip(z, d, s)])
        env.check(env.Or(env.Not(inside), there), f'wind {k} reported at a height is kept')


def below_ground(env):
    """Mandatory levels with pressures above that of the surface are kept as reported, first in the list."""
    data, g = sounding(env)
    lev = data['TTAA']
    n = env.p['below']
    for k in range(1, n + 1):
        env.assume(lev[k]['PRES'] > lev[0]['PRES'])
    for a, b in zip(lev[1:], lev[2:]):
        env.assume(a['PRES'] > b['PRES'])
    for a in lev[n + 1:]:
        env.assume(a['PRES'] < lev[0]['PRES'] - 1)
    x = g.snxarray()[0]
    cols = {v: env.masked(x[v]) for v in ('temp', 'dwpt', 'drct', 'sped', 'hght')}
    pres = env.flat(x.coords['pres'])
    extra = sum(len(v) for k, v in data.items() if k != 'TTAA')
    env.check(len(lev) <= len(pres) <= len(lev) + extra, 'number of levels')
    for i, (a, b) in enumerate(zip(pres, pres[1:])):
        env.check(env.Or(a > b, env.Not(known(b))), f'pressure falls from level {i}')
    for k in range(1, n + 1):
        env.check(pres[k - 1] == lev[k]['PRES'], f'pressure of mandatory level {k} below the ground')
        for v in cols:
            c, m = cols[v][k - 1]
            w = lev[k][v.upper()]
            env.check(env.And(env.iff(m, env.Not(known(w))), env.Or(m, c == w)), f'{v} of mandatory level {k} below the ground')
    env.check(pres[n] == lev[0]['PRES'], 'surface above the levels below the ground')
    c, m = cols['temp'][n]
    env.check(env.And(env.Not(m), env.Or(*[c == a['TEMP'] for a in [lev[0]] + data.get('TTBB', [])[:1]])), 'temperature of the surface')
    c, m = cols['hght'][n]
    env.check(env.And(env.Not(m), c == env.p.get('elev', 300)), 'height of the surface')


def texts(env):
    """The reports stored with the parts are kept with the sounding."""
    stand_ins(env)
    cells, parts, want = {}, [], {}
    fields = FIELDS['TTAA']
    parts.append(('TTAA', 1, REAL, [(f, 0, 0, 0) for f in fields]))
    cells[0, 0, 0] = [('i', 1200)] + [('f', v) for v in (1000.0, 20.0, 10.0, 180.0, 10.0, 300.0, 850.0, env.float('t', -90, 50, f32=True), -5.0, 200.0, 20.0, 1500.0)]
    for k, part in enumerate(env.p['texts']):
        parts.append((part, 1, CHAR, [('TEXT', 0, 0, 0)]))
        t = env.str(f'text{k}', 2 if len(env.p['texts']) > 1 else 4, alphabet='A/ ').ljust(4) + f' {part} 72'
        want[part.lower()] = t
        cells[0, 0, k + 1] = [('i', 1200), ('12s', t)]
    s = {'id': 'KABC', 'number': 72000, 'lat': 4000, 'lon': -9000, 'state': 'WI', 'country': 'US'}
    p = env.path('s.snd')
    env.write_file(p, build(env, 'sounding', SROWS, [[200101, 1200]], KEYS, [station_values(s, KEYS, 300)], parts, cells))
    x = env.mod(DEC).GempakSounding(p).snxarray()[0]
    env.check(sorted(x.attrs['wmo_codes']) == sorted(want), 'texts of the sounding')
    for k in want:
        env.check(x.attrs['wmo_codes'][k].strip() == want[k].strip(), f'text {k}')
    c, m = env.masked(x['temp'])[1]
    env.check(env.And(env.Not(m), c == cells[0, 0, 0][8][1]), 'temperature')


def case(fn, name, parts, **kw):
    scenario('C26', name=name, parts=tuple(parts.items()) if isinstance(parts, dict) else parts, budget=kw.pop('budget', 40), tbudget=200,
             bounds=f'sounding of the parts {parts} (levels) with any values {kw}', **kw)(fn)


ALLP = tuple(FIELDS)
S1 = {'TTAA0PRES': 1000.0, 'TTAA0TEMP': 20.0, 'TTAA0DWPT': 10.0, 'TTAA0HGHT': 300.0}
LOW = ('PPAA', 'TRPA', 'MXWA', 'TTBB', 'PPBB')
HIGH = ('TTCC', 'PPCC', 'TRPC', 'MXWC', 'TTDD', 'PPDD')
for _a in LOW + HIGH:
    case(faithful, f'keeps_{_a}', {'TTAA': 2, _a: 1}, fixed=S1, miss=True)
    case(faithful, f'keeps_{_a}_2', {'TTAA': 2, _a: 2}, fixed=S1)
    if _a[:2] == 'PP' and _a[2:] in ('BB', 'DD'):
        case(faithful, f'keeps_{_a}_pressure', {'TTAA': 2, _a: 2}, fixed=S1, as_pressure=(_a,), miss=('DRCT', 'SPED'))
        case(faithful, f'keeps_{_a}_negative', {'TTAA': 2, _a: 2}, fixed=S1, as_pressure=(_a,), negative=(_a,), miss=('DRCT', 'SPED'))
for _i, _a in enumerate(LOW + HIGH):
    for _b in (LOW + HIGH)[_i + 1:]:
        case(faithful, f'keeps_{_a}_{_b}', {'TTAA': 2, _a: 1, _b: 1}, fixed=S1)
case(faithful, 'keeps_heights', {'TTAA': 3, 'PPBB': 2}, fixed=S1)
for _i, _a in enumerate(ALLP):
    case(runs, f'runs_{_a}', {_a: 2}, miss=True)
    for _b in ALLP[_i + 1:]:
        case(runs, f'runs_{_a}_{_b}', {_a: 2, _b: 1}, miss=True, budget=60 if _a == 'TTAA' else 40)
        for _c in ALLP[ALLP.index(_b) + 1:]:
            if _a == 'TTAA':
                case(faithful, f'keeps_{_b}_{_c}_any', {'TTAA': 2, _b: 1, _c: 1}, fixed=S1, miss=True, tiers=('thorough',))
            else:
                case(runs, f'runs_{_a}_{_b}_{_c}', {_a: 1, _b: 1, _c: 1}, miss=True, tiers=('thorough',))
for _a in ('PPBB', 'PPDD'):
    case(runs, f'runs_TTAA_{_a}_pressure', {'TTAA': 2, _a: 2}, miss=True, as_pressure=(_a,))
case(runs, 'runs_heights', {'TTAA': 2, 'TTBB': 1, 'PPBB': 2}, miss=True)
for _n, _parts in ((2, {'TTAA': 2, 'PPBB': 2}), (3, {'TTAA': 3, 'PPBB': 2}), (4, {'TTAA': 2, 'PPBB': 3}), (5, {'TTAA': 2, 'PPBB': 1, 'PPDD': 1}), (6, {'TTAA': 2, 'PPDD': 2})):
    case(heights_kept, f'heights_kept_{_n}', _parts, fixed=S1, miss=tuple(f'{p}{f}' for p in ('PPBB', 'PPDD') for f in FIELDS['PPBB']) + (('TTAADRCT', 'TTAASPED') if _n in (2, 5, 6) else ()), budget=60)
case(below_ground, 'below_ground_1', {'TTAA': 3}, fixed={**S1, 'TTAA0PRES': None}, below=1, miss=('TTAA1TEMP', 'TTAA1DWPT', 'TTAA1DRCT', 'TTAA1SPED', 'TTAA1HGHT'))
case(below_ground, 'below_ground_2', {'TTAA': 4}, fixed=S1, below=2)
case(below_ground, 'below_ground_sigt', {'TTAA': 3, 'TTBB': 2}, fixed={**S1, 'TTBB0PRES': 1000.0, 'TTBB1PRES': 800.0}, below=1)
case(below_ground, 'below_ground_wind', {'TTAA': 3, 'PPBB': 1}, fixed={**S1, 'PPBB0HGHT': 0.0}, below=1)
scenario('C26', name='texts', texts=('TXTA', 'TXTB', 'TXTC', 'TXPB'), budget=30, bounds='sounding with four text parts, any first two characters')(texts)
scenario('C26', name='text_one', texts=('TXTB',), budget=30, bounds='sounding with one text part, any first four characters')(texts)


def ascent(free):
    """Values of an ordinary ascent but those of the given keys."""
    man = [(1000.0, 12.0, 8.0, 180.0, 5.0, 300.0), (925.0, 9.5, 4.0, 190.0, 12.0, 760.0), (850.0, 5.0, 1.0, 205.0, 20.0, 1460.0), (700.0, -3.5, -9.0, 230.0, 25.0, 3010.0),
           (500.0, -19.0, -30.0, 250.0, 40.0, 5570.0), (400.0, -31.0, -41.0, 255.0, 50.0, 7180.0), (300.0, -46.0, -55.0, 260.0, 70.0, 9140.0),
           (250.0, -53.0, -62.0, 265.0, 80.0, 10330.0), (200.0, -56.0, -66.0, 270.0, 75.0, 11750.0), (150.0, -58.0, -70.0, 268.0, 60.0, 13570.0), (100.0, -60.0, -75.0, 272.0, 40.0, 16120.0)]
    high = [(70.0, -61.0, -80.0, 275.0, 30.0, 18350.0), (50.0, -58.0, -80.0, 280.0, 25.0, 20460.0), (30.0, -55.0, -80.0, 285.0, 22.0, 23700.0)]
    sig = [(975.0, 11.0, 7.0), (880.0, 6.0, 3.0), (812.0, 3.5, -6.0), (640.0, -7.0, -20.0), (577.0, -13.0, -15.0), (433.0, -27.0, -44.0), (212.0, -57.5, -67.0), (131.0, -57.0, -72.0)]
    wind = [(600.0, 184.0, 9.0), (1200.0, 200.0, 17.0), (2100.0, 215.0, 21.0), (4200.0, 240.0, 33.0), (8100.0, 257.0, 58.0), (10000.0, 263.0, 77.0), (12300.0, 271.0, 71.0)]
    tables = {'TTAA': man, 'TTCC': high, 'TTBB': sig, 'PPBB': wind, 'TRPA': [(222.0, -57.0, -66.5, 269.0, 79.0)], 'MXWA': [(236.0, 267.0, 84.0)],
              'TTDD': [(61.0, -60.0, -80.0), (38.0, -56.0, -80.0)], 'PPDD': [(19500.0, 277.0, 28.0), (22000.0, 283.0, 24.0)]}
    return {p: len(t) for p, t in tables.items()}, {f'{p}{k}{f}': v for p, t in tables.items() for k, lev in enumerate(t) for f, v in zip(FIELDS[p], lev) if f'{p}{k}{f}' not in free}


for _n, _free, _less in (('temps', ('TTBB3PRES',), ('PPBB', 'PPDD')), ('temps_missing', ('TTBB5TEMP', 'TTBB2DWPT', 'TTDD0TEMP'), ('PPBB', 'PPDD')), ('tropopause', ('TRPA0PRES',), ('PPBB', 'PPDD')),
                         ('most', ('MXWA0PRES',), ('PPBB', 'PPDD')), ('winds', ('PPBB3DRCT', 'PPBB3SPED', 'PPDD0DRCT', 'PPDD0SPED'), ()), ('most_winds', ('MXWA0DRCT', 'MXWA0SPED', 'TRPA0DRCT', 'TRPA0SPED'), ()),
                         ('mandatory', ('TTAA5TEMP', 'TTAA3DRCT', 'TTAA3SPED', 'TTAA8DWPT'), ('PPBB', 'PPDD')), ('high', ('TTCC1TEMP', 'TTCC2HGHT', 'TTDD1TEMP'), ('PPBB', 'PPDD'))):
    _parts, _fixed = ascent(_free)
    case(faithful, f'ascent_{_n}', {k: v for k, v in _parts.items() if k not in _less}, fixed=_fixed, miss=True, exact=True)
for _p, _n, _fs in (('TTAA', 11, ('TEMP', 'HGHT', 'DWPT')), ('TTBB', 8, ('TEMP', 'DWPT')), ('TTCC', 3, ('TEMP', 'HGHT', 'DWPT')), ('TTDD', 2, ('TEMP', 'DWPT'))):
    for _k in range(_p == 'TTAA', _n):
        _parts, _fixed = ascent(tuple(f'{_p}{_k}{f}' for f in _fs))
        case(faithful, f'ascent_{_p}_{_k}', {k: v for k, v in _parts.items() if k not in ('PPBB', 'PPDD')}, fixed=_fixed, miss=True, exact=True)
for _p, _n in (('PPBB', 7), ('PPDD', 2)):
    for _k in range(_n):
        _parts, _fixed = ascent((f'{_p}{_k}DRCT', f'{_p}{_k}SPED'))
        case(faithful, f'ascent_{_p}_{_k}', _parts, fixed=_fixed, miss=True, exact=True)


def ascent_apart(free):
    """An ordinary ascent whose mandatory winds are in parts of their own, with tropopauses and maxima below and above 100 hPa."""
    parts, fixed = ascent(())
    winds = {'PPAA': [(925.0, 190.0, 12.0), (850.0, 205.0, 20.0), (500.0, 250.0, 40.0), (300.0, 260.0, 70.0), (200.0, 270.0, 75.0), (100.0, 272.0, 40.0)],
             'PPCC': [(50.0, 280.0, 25.0), (30.0, 285.0, 22.0)], 'TRPC': [(88.0, -63.0, -82.0, 274.0, 34.0)], 'MXWC': [(44.0, 282.0, 26.5), (20.0, 290.0, 31.0)]}
    for k in fixed:
        if k[:4] in ('TTAA', 'TTCC') and k[-4:] in ('DRCT', 'SPED') and k[4:-4] != '0':
            fixed[k] = MISS
    for p, t in winds.items():
        parts[p] = len(t)
        fixed.update({f'{p}{k}{f}': v for k, lev in enumerate(t) for f, v in zip(FIELDS[p], lev)})
    parts = {p: n for p, n in parts.items() if p not in ('PPBB', 'PPDD')}
    return parts, {k: v for k, v in fixed.items() if k not in free}


for _p, _n, _fs in (('PPAA', 6, ('DRCT', 'SPED')), ('PPCC', 2, ('DRCT', 'SPED')), ('MXWC', 2, ('DRCT', 'SPED')), ('TRPC', 1, ('TEMP', 'DWPT')), ('TRPC', 1, ('DRCT', 'SPED'))):
    for _k in range(_n):
        _parts, _fixed = ascent_apart(tuple(f'{_p}{_k}{f}' for f in _fs))
        case(faithful, f'ascent_apart_{_p}_{_k}_{_fs[0].lower()}', _parts, fixed=_fixed, miss=True, exact=True)
for _key in ('PPAA2PRES', 'PPCC0PRES', 'TRPC0PRES', 'MXWC0PRES', 'TTDD1PRES'):
    _parts, _fixed = ascent_apart((_key,))
    case(faithful, f'ascent_apart_{_key}', _parts, fixed=_fixed, miss=True, exact=True)
for _p, _q in (('TTAA', 'PPAA'), ('TTCC', 'PPCC')):
    _n = {'TTAA': 2 + (_p == 'TTAA')}
    case(faithful, f'winds_apart_{_q}', {**_n, **({_p: 2} if _p != 'TTAA' else {}), _q: 1}, fixed={**S1, **{f'{_p}{k}{f}': MISS for k in (1, 2) for f in ('DRCT', 'SPED')}, **({'TTCC0DRCT': MISS, 'TTCC0SPED': MISS} if _p == 'TTCC' else {})})
