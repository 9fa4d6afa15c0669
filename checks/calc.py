"""Calculations with soundings: interpolation (C25) and moisture and heights (C27)."""
from sx.harness import scenario

GC = 'gempakio.gemcalc'
FLAGS = (-9999.0, -999.0, 99999.0)
NEAR_FLAGS = (-99.0, 999.0)  # among the values that data might have


def missing_or(env, name, lo, hi, flag, may=True):
    """A value within a range or, perhaps, the missing flag."""
    v = env.float(name, lo, hi)
    if not may:
        return v
    return env.ite(env.bool(f'{name}_missing'), flag, v)


def le(env, a, b, tol=1e-6):
    return a <= b + tol


def known(env, *vs):
    return env.And(*[env.Not(m) for m in vs])


# ---------------------------------------------------------------------------
# C27
# ---------------------------------------------------------------------------
def mostly(env, a, b):
    return env.near(a, b, 1e-6)


def vapor(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    a, b = env.float('a', -120, 60), env.float('b', -120, 60)
    env.assume(env.And(b >= a + 0.01, a != flag, b != flag))
    va, vb = gc.vapor_pressure(a, flag), gc.vapor_pressure(b, flag)
    env.check(va > 0, 'vapor pressure is positive')
    env.check(vb > va, 'vapor pressure grows with dewpoint')
    env.check(mostly(env, va, 6.112 * env.np.exp(17.67 * a / (a + 243.5))), 'vapor pressure')
    env.check(gc.vapor_pressure(flag, flag) == flag, 'missing')
    env.check(mostly(env, gc.vapor_pressure(0.0, flag), 6.112), 'vapor pressure at the freezing point')


def oracle_vapor(env, td):
    return 6.112 * env.np.exp(17.67 * td / (td + 243.5))


def oracle_mixing(env, td, p):
    """(missing, g/kg)"""
    e = (1.001 + (p - 100.0) / 900.0 * 0.0034) * oracle_vapor(env, td)
    return e > 0.5 * p, e, 621.97 * e / env.ite(p > e, p - e, 1.0)


def mixing(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    td, p = env.float('td', -120, 60), env.float('p', -100, 1100)
    env.assume(env.And(td != flag, p != flag))
    out = gc.mixing_ratio(td, p, flag)
    much, e, r = oracle_mixing(env, td, p)
    near = env.near(e, 0.5 * p, 1e-9)
    env.check(env.Or(near, env.iff(out == flag, much)), 'missing exactly when vapor would be more than half of the air')
    env.check(env.Or(out == flag, out > 0), 'mixing ratio is positive')
    env.check(env.Or(out == flag, near, mostly(env, out, r)), 'mixing ratio')
    for d, q in ((flag, p), (td, flag), (flag, flag)):
        env.check(gc.mixing_ratio(d, q, flag) == flag, 'missing')


def mixing_grows(env):
    gc = env.mod(GC)
    a, b, p = env.float('a', -120, 60), env.float('b', -120, 60), env.float('p', 0.1, 1100)
    env.assume(b >= a + 0.01)
    ra, rb = gc.mixing_ratio(a, p), gc.mixing_ratio(b, p)
    env.check(env.Or(rb == -9999, env.And(ra != -9999, rb > ra)), 'mixing ratio grows with dewpoint')


def virtual(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    t, p = env.float('t', -120, 60), env.float('p', 0.1, 1100)
    td = missing_or(env, 'td', -120, 60, flag)
    env.assume(env.And(t != flag, p != flag))
    out = gc.virtual_temperature(t, td, p, flag)
    env.check(out != flag, 'a number')
    env.check(out >= t + 273.15 - 1e-6, 'virtual temperature is at least the temperature')
    r = gc.mixing_ratio(td, p, flag)
    dry = env.Or(td == flag, r == flag)
    w = r * 0.001
    env.check(env.ite(dry, mostly(env, out, t + 273.15), env.near(out, (t + 273.15) * (1 + w / 0.62197) / (1 + w), 1e-4)), 'virtual temperature')
    env.check(env.Or(dry, r <= 0.001, out > t + 273.15), 'moist air has a higher virtual temperature')
    for a, b in ((flag, p), (t, flag), (flag, flag)):
        env.check(gc.virtual_temperature(a, td, b, flag) == flag, 'missing')


def scale(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    miss = [env.bool(f'm{k}') for k in range(6)]
    v = [env.float(n, lo, hi) for n, lo, hi in (('tb', -120, 60), ('tt', -120, 60), ('db', -120, 60), ('dt', -120, 60), ('pb', 0.1, 1100), ('pt', 0.1, 1100))]
    env.assume(env.And(*[x != flag for x in v]))
    a = [env.ite(m, flag, x) for m, x in zip(miss, v)]
    out = gc.scale_height(*a, flag)
    gone = env.Or(miss[0], miss[1], miss[4], miss[5])
    env.check(env.iff(out == flag, gone), 'missing exactly when a temperature or pressure is missing')
    env.check(env.Or(gone, out > 0), 'scale height is positive')
    tb = gc.virtual_temperature(a[0], a[2], a[4], flag)
    tt = gc.virtual_temperature(a[1], a[3], a[5], flag)
    env.check(env.Or(gone, mostly(env, out, 287.04 / 9.80616 * (tb + tt) / 2)), 'scale height of the mean virtual temperature')


def height(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    miss = [env.bool(f'm{k}') for k in range(4)]
    v = [env.float(n, lo, hi) for n, lo, hi in (('z', -500, 50000), ('pb', -10, 1100), ('pt', -10, 1100), ('h', 1000, 20000))]
    env.assume(env.And(*[x != flag for x in v]))
    a = [env.ite(m, flag, x) for m, x in zip(miss, v)]
    out = gc.moist_hydrostatic_height(*a, flag)
    gone = env.Or(*miss, v[1] <= 0, v[2] <= 0)
    env.check(env.Or(env.Not(gone), out == flag), 'missing when an input is missing or not positive')
    env.check(env.Or(gone, v[1] <= v[2] + 1e-3, out > v[0]), 'heights grow when pressure falls')
    env.check(env.Or(gone, v[1] >= v[2] - 1e-3, out < v[0]), 'heights fall when pressure grows')
    pb, pt = env.ite(gone, 1.0, v[1]), env.ite(gone, 1.0, v[2])
    env.check(env.Or(gone, mostly(env, out, v[0] + v[3] * env.np.log(pb / pt))), 'hydrostatic height')


for _f in FLAGS + NEAR_FLAGS:
    _n = f'{_f:.0f}'.replace('-', 'm')
    for _fn in (vapor, mixing, virtual, scale, height):
        scenario('C27', name=f'{_fn.__name__}_{_n}', flag=_f, budget=60,
                 bounds=f'temperatures and dewpoints from -120 to 60 degC, pressures to 1100 hPa, missing data flag {_f}')(_fn)
scenario('C27', name='mixing_grows', budget=60, bounds='two dewpoints from -120 to 60 degC, pressure to 1100 hPa')(mixing_grows)


# ---------------------------------------------------------------------------
# C25
# ---------------------------------------------------------------------------
def stand_ins(env, between=False):
    """Scale heights are any positive number, missing as documented (C27 decides that); only while reasoning."""
    if not env.symbolic or env.p.get('long'):
        return
    gc = env.mod(GC)

    def scale(tb, tt, db, dt, pb, pt, missing=-9999):
        if missing in [tb, tt, pb, pt]:
            return missing
        return env.havoc('scale', 3000, 12000)
    gc.scale_height = scale

    def parameters(vlev, adata, bdata, missing=-9999):
        a, b = adata['PRES'], bdata['PRES']
        if not ((a < vlev < b) or (b < vlev < a)) or a <= 0 or b <= 0:
            raise ValueError('Current pressure does not fall between levels.')
        out = {'PRES': vlev}
        for k in adata:
            if k == 'PRES':
                continue
            if missing in [adata[k], bdata[k]]:
                out[k] = missing
            else:
                v = env.havoc(k, -200, 50000)
                lo, hi = env.ite(adata[k] < bdata[k], adata[k], bdata[k]), env.ite(adata[k] < bdata[k], bdata[k], adata[k])
                env.assume(env.And(v >= (0 if k == 'DRCT' else lo), v <= (360 if k == 'DRCT' else hi)))
                out[k] = v
        return out
    if between:
        gc.interp_parameters = parameters


def parameters(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    p1, p2, v = env.float('p1', -10, 1100), env.float('p2', -10, 1100), env.float('v', -10, 1100)
    inside = env.Or(env.And(p1 < v, v < p2), env.And(p2 < v, v < p1))
    names = env.p['names']
    a = {'PRES': p1, **{n: missing_or(env, f'a{n}', -100, 50000, flag) for n in names}}
    b = {'PRES': p2, **{n: missing_or(env, f'b{n}', -100, 50000, flag) for n in names}}
    try:
        out = gc.interp_parameters(v, a, b, flag)
    except ValueError:
        env.check(env.Or(env.Not(inside), p1 <= 0, p2 <= 0), 'levels not accepted')
        return
    env.check(env.And(inside, p1 > 0, p2 > 0), 'levels accepted')
    env.check(sorted(out) == sorted(a), 'parameters')
    env.check(out['PRES'] == v, 'pressure')
    inner = env.And(inside, p1 > 0, p2 > 0)
    r = env.np.log(v / p1) / env.np.log(p2 / p1)
    env.check(env.And(r >= -1e-9, r <= 1 + 1e-9), 'weight')
    for n in names:
        x, y, o = a[n], b[n], out[n]
        gone = env.Or(x == flag, y == flag)
        env.check(env.Or(env.Not(gone), o == flag), f'{n} missing next to missing data')
        env.check(env.Or(gone, le(env, x, o), le(env, y, o)), f'{n} not below both levels')
        env.check(env.Or(gone, le(env, o, x), le(env, o, y)), f'{n} not above both levels')
        env.check(env.Or(gone, env.near(o, x + (y - x) * r, 1e-4)), f'{n} is linear in log p')


def wind(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    p1, p2, v = env.float('p1', 1, 1100), env.float('p2', 1, 1100), env.float('v', 1, 1100)
    env.assume(env.Or(env.And(p1 < v, v < p2), env.And(p2 < v, v < p1)))
    lo, hi = env.p['range']
    x, y = missing_or(env, 'a', lo, hi, flag, env.p['miss']), missing_or(env, 'b', lo, hi, flag, env.p['miss'])
    o = gc.interp_parameters(v, {'PRES': p1, 'DRCT': x, 'SPED': 5.0}, {'PRES': p2, 'DRCT': y, 'SPED': 5.0}, flag)['DRCT']
    gone = env.Or(x == flag, y == flag)
    env.check(env.Or(env.Not(gone), o == flag), 'direction missing next to missing data')
    env.check(env.Or(gone, env.And(o >= 0, o < 360)), 'direction in [0, 360)')
    if env.p['miss']:
        return
    cw = (y - x) % 360
    passed, left = (o - x) % 360, (x - o) % 360
    tol = 1e-6
    right = env.Or(passed <= cw + tol, passed >= 360 - tol)
    wrong = env.Or(left <= 360 - cw + tol, left >= 360 - tol)
    env.check(env.ite(cw < 180 - tol, right, env.ite(cw > 180 + tol, wrong, True)), 'direction on the shorter arc')
    r = env.np.log(v / p1) / env.np.log(p2 / p1)
    d = env.ite(cw <= 180, cw * r, (cw - 360) * r)
    off = (o - x - d) % 360
    env.check(env.Or(env.near(cw, 180, tol), off <= 1e-4, off >= 360 - 1e-4), 'direction turns evenly with log p')


NAMES = ('PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED')


def long_levels(env, n, flag):
    """Many levels of which some lack data, and a few may or have any value."""
    gone, may, free = env.p['long'], env.p.get('may', ()), env.p.get('free', ())
    s = {'PRES': [1000 * 0.88 ** k for k in range(n)], 'HGHT': [250.0 + 900 * k + 4 * k * k for k in range(n)], 'TEMP': [15.0 - 3 * k + k * k / 16 for k in range(n)],
         'DWPT': [9.0 - 4 * k + k * k / 16 for k in range(n)], 'DRCT': [(200.0 + 9 * k) % 360 for k in range(n)], 'SPED': [5.0 + 2 * k for k in range(n)]}
    width = {'PRES': 0.125, 'HGHT': 200, 'TEMP': 5, 'DWPT': 2, 'SPED': 4, 'DRCT': 4}
    for name, k in free:
        s[name][k] = env.float(f'{name}{k}', s[name][k] - width[name], s[name][k] + width[name])
    for name, ks in gone.items():
        for k in ks:
            s[name][k] = flag
    for name, k in may:
        if env.bool(f'{name}{k}_missing'):
            s[name][k] = flag
    return s


def levels(env, n, pres_may=(), flag=-9999.0, **may):
    """A sounding with falling pressures and growing heights; names map to the levels where data may be missing."""
    if env.p.get('long'):
        return long_levels(env, n, flag)
    s = {}
    rng = {'HGHT': (-400, 40000), 'TEMP': (-100, 50), 'DWPT': (-110, 40), 'DRCT': (0, 360), 'SPED': (0, 200)}
    p = [env.float(f'PRES{k}', 1, 1100) for k in range(n)]
    z = [env.float(f'HGHT{k}', -400, 40000) for k in range(n)]
    for k in range(n - 1):
        env.assume(env.And(p[k] > p[k + 1] + 0.01, z[k] < z[k + 1] - 0.1))
    full = {'PRES': p, 'HGHT': z}
    for name in NAMES:
        col = []
        for k in range(n):
            at = pres_may if name == 'PRES' else may.get(name, ())
            v = full[name][k] if name in full else (env.float(f'{name}{k}', *rng[name]) if name in may else float(k))
            if at is all or k in at:
                v = env.ite(env.bool(f'{name}{k}_missing'), flag, v)
            col.append(v)
        s[name] = col
    return s


def copy(s):
    return {k: list(v) for k, v in s.items()}


def unchanged(env, s, before, names, flag):
    for name in NAMES:
        env.check(len(s[name]) == len(before[name]), f'number of levels of {name}')
        for k, (v, w) in enumerate(zip(s[name], before[name])):
            env.check(v == w if name not in names else env.Or(w == flag, v == w), f'{name} of level {k} is not changed')


def bounds_of(env, before, k, flag):
    """Conditions and values of the nearest known values below and above a level."""
    n = len(before)
    lo, hi = [], []
    for j in range(k - 1, -1, -1):
        lo.append((env.And(before[j] != flag, *[before[i] == flag for i in range(j + 1, k)]), j))
    for j in range(k + 1, n):
        hi.append((env.And(before[j] != flag, *[before[i] == flag for i in range(k + 1, j)]), j))
    return lo, hi


def log_height(env):
    gc = env.mod(GC)
    stand_ins(env)
    flag = env.p['flag']
    n = env.p['n']
    s = levels(env, n, flag=flag, HGHT=all, TEMP=env.p.get('temp', ()), pres_may=env.p.get('pres', ()))
    for k in range(n):
        env.assume(env.Or(s['PRES'][k] != flag, s['HGHT'][k] == flag))
    before = copy(s)
    gc.interp_logp_height(s, flag)
    unchanged(env, s, before, ('HGHT',), flag)
    z = before['HGHT']
    for k in range(n):
        gone = z[k] == flag
        lo, hi = bounds_of(env, z, k, flag)
        env.check(env.Or(env.Not(gone), *[c for c, _ in lo], s['HGHT'][k] == flag), f'height of level {k} below the known heights stays missing')
        for c, j in lo:
            for d, m in hi:
                nop = s['PRES'][k] == flag
                env.check(env.Or(env.Not(env.And(gone, c, d)), env.And(nop, s['HGHT'][k] == flag), env.And(env.Not(nop), s['HGHT'][k] > z[j] - 1e-6, s['HGHT'][k] < z[m] + 1e-6)),
                          f'height of level {k} lies between those of levels {j} and {m}')
                here = env.And(gone, c, d, env.Not(nop))
                a, b, e = (env.ite(here, s['PRES'][i], 1000 * 0.9 ** i) for i in (j, k, m))
                r = env.np.log(b / a) / env.np.log(e / a)
                env.check(env.Or(env.Not(here), env.near(s['HGHT'][k], z[j] + (z[m] - z[j]) * r, 1e-3)), f'height of level {k} is linear in log p')
            top = env.And(gone, c, *[z[i] == flag for i in range(k + 1, n)])
            warm = env.And(s['TEMP'][k] != flag, s['TEMP'][j] != flag, s['PRES'][k] != flag)
            env.check(env.Or(env.Not(top), env.iff(s['HGHT'][k] != flag, warm)), f'height of level {k} above the known heights is calculated when temperatures are known')
            env.check(env.Or(env.Not(top), env.Not(warm), *[s['HGHT'][k] > s['HGHT'][i] - 1e-6 for i in range(k - 1, j - 1, -1)][:1] if j == k - 1 else [s['HGHT'][k] > z[j]]),
                      f'height of level {k} is above that of level {j}')


def log_pressure(env):
    gc = env.mod(GC)
    flag = env.p['flag']
    n = env.p['n']
    s = levels(env, n, pres_may=all, flag=flag, HGHT=env.p.get('hght', ()))
    before = copy(s)
    gc.interp_logp_pressure(s, flag)
    unchanged(env, s, before, ('PRES',), flag)
    both = [env.And(before['PRES'][k] != flag, before['HGHT'][k] != flag) for k in range(n)]
    for k in range(n):
        gone = before['PRES'][k] == flag
        p = s['PRES'][k]
        lo = [(env.And(both[j], *[env.Not(both[i]) for i in range(j + 1, k)]), j) for j in range(k)]
        hi = [(env.And(both[j], *[env.Not(both[i]) for i in range(k + 1, j)]), j) for j in range(k + 1, n)]
        inside = env.And(env.Or(*[c for c, _ in lo]), env.Or(*[c for c, _ in hi])) if lo and hi else False
        env.check(env.Or(env.Not(gone), inside, p == flag), f'pressure of level {k} outside of the known levels stays missing')
        for c, j in lo:
            for d, m in hi:
                here = env.And(gone, c, d)
                env.check(env.Or(env.Not(here), env.iff(p == flag, s['HGHT'][k] == flag)), f'pressure of level {k} between levels {j} and {m} is found when its height is known')
                env.check(env.Or(env.Not(here), p == flag, env.And(p < before['PRES'][j] + 1e-6, p > before['PRES'][m] - 1e-6)),
                          f'pressure of level {k} lies between those of levels {j} and {m}')


def moist_height(env):
    gc = env.mod(GC)
    stand_ins(env)
    flag = env.p['flag']
    n = env.p['n']
    s = levels(env, n, flag=flag, HGHT=all, TEMP=env.p.get('temp', ()), pres_may=env.p.get('pres', ()))
    before = copy(s)
    gc.interp_moist_height(s, flag)
    full = [env.And(before['PRES'][k] != flag, before['TEMP'][k] != flag, before['HGHT'][k] != flag) for k in range(n)]
    unchanged(env, {**s, 'HGHT': before['HGHT']}, before, (), flag)
    for k in range(n):
        h = s['HGHT'][k]
        env.check(env.Or(env.Not(full[k]), h == before['HGHT'][k]), f'height of level {k} with temperature is not changed')
        env.check(env.Or(*full[:k], h == before['HGHT'][k]), f'height of level {k} below the first complete one is not changed')
        calc = env.And(env.Not(full[k]), env.Or(*full[:k])) if k else False
        env.check(env.Or(env.Not(calc), h == before['HGHT'][k], env.iff(h == flag, env.Or(s['TEMP'][k] == flag, s['PRES'][k] == flag))),
                  f'height of level {k} is calculated when temperature and pressure are known')
        for j in range(k):
            lower = env.And(full[j], *[env.Not(full[i]) for i in range(j + 1, k)])
            env.check(env.Or(env.Not(env.And(calc, lower)), h == flag, h > before['HGHT'][j]), f'height of level {k} is above that of level {j}')
            for m in range(k + 1, n):
                upper = env.And(full[m], *[env.Not(full[i]) for i in range(k + 1, m)])
                env.check(env.Or(env.Not(env.And(calc, lower, upper)), h == flag, h < before['HGHT'][m] + 1e-3), f'height of level {k} is below that of level {m}')


def fill(env):
    gc = env.mod(GC)
    stand_ins(env, between=True)
    flag = env.p['flag']
    n = env.p['n']
    s = levels(env, n, flag=flag, pres_may=env.p.get('pres', ()), **{v: all for v in env.p['names']})
    before = copy(s)
    gc.interp_missing_data(s, flag)
    first = {'DWPT': 'TEMP', 'SPED': 'DRCT'}
    unchanged(env, s, before, ('TEMP', 'DWPT', 'DRCT', 'SPED'), flag) if False else None
    for name in NAMES:
        for k in range(n):
            v, w = s[name][k], before[name][k]
            if name in ('PRES', 'HGHT'):
                env.check(v == w, f'{name} of level {k} is not changed')
                continue
            whole = env.Or(w == flag, before[first[name]][k] == flag) if name in first else w == flag
            env.check(env.Or(whole, v == w), f'{name} of level {k} is not changed')
            if k in (0, n - 1):
                env.check(v == w, f'{name} of level {k} at the end is not changed')
                continue
            if name in first:
                continue
            lo, hi = bounds_of(env, before[name], k, flag)
            env.check(env.Or(w != flag, v == flag, env.And(env.Or(*[c for c, _ in lo]), env.Or(*[c for c, _ in hi]))), f'{name} of level {k} is not invented')
            for c, j in lo:
                for d, m in hi:
                    here = env.And(w == flag, c, d)
                    a, b = before[name][j], before[name][m]
                    ok = env.And(*[s['PRES'][i] != flag for i in range(j, m + 1)])
                    env.check(env.Or(env.Not(here), env.Not(ok), v != flag), f'{name} of level {k} between levels {j} and {m} is filled in')
                    if name == 'TEMP':
                        env.check(env.Or(env.Not(here), v == flag, env.And(env.Or(le(env, a, v), le(env, b, v)), env.Or(le(env, v, a), le(env, v, b)))),
                                  f'{name} of level {k} lies between those of levels {j} and {m}')


def wind_half(env):
    """Halfway between two levels, where directions are exact."""
    gc = env.mod(GC)
    p1, v, p2 = env.choice('pressures', ((1000.0, 100.0, 10.0), (10.0, 100.0, 1000.0), (800.0, 200.0, 50.0), (1024.0, 512.0, 256.0), (100.0, 10.0, 1.0)))
    x, y = (env.int(n, -180, 360) * 2 for n in 'ab')
    o = gc.interp_parameters(v, {'PRES': p1, 'DRCT': x, 'SPED': 5.0}, {'PRES': p2, 'DRCT': y, 'SPED': 5.0})['DRCT']
    env.check(env.And(o >= 0, o < 360), 'direction in [0, 360)')
    cw = (y - x) % 360
    off = (o - (x + env.ite(cw <= 180, cw, cw - 360) / 2)) % 360
    env.check(env.Or(cw == 180, off <= 1e-6, off >= 360 - 1e-6), 'halfway on the shorter arc')


scenario('C25', name='wind_half', budget=60, bounds='directions of any even number of degrees from -360 to 720, at the middle of two pressures')(wind_half)
for _f in FLAGS:
    _n = f'{_f:.0f}'.replace('-', 'm')
    scenario('C25', name=f'parameters_{_n}', flag=_f, names=('TEMP', 'HGHT', 'SPED'), budget=60, bounds='pressures up to 1100 hPa, any values')(parameters)
    scenario('C25', name=f'wind_missing_{_n}', flag=_f, range=(0, 360), miss=True, budget=60, bounds='directions up to 360 degrees or missing, any pressures')(wind)
scenario('C25', name='wind', flag=-9999.0, range=(0, 360), miss=False, budget=60, bounds='directions up to 360 degrees, any pressures')(wind)
scenario('C25', name='wind_wide', flag=-9999.0, range=(-360, 720), miss=False, budget=60, bounds='directions from -360 to 720 degrees, any pressures')(wind)
for _n, _f in ((3, -9999.0), (4, -9999.0), (4, -999.0)):
    _s = f'{_n}_{_f:.0f}'.replace('-', 'm')
    scenario('C25', name=f'log_height_{_s}', n=_n, flag=_f, temp=all if _n < 4 else (_n - 1,), budget=60, bounds=f'{_n} levels of falling pressure, any heights missing')(log_height)
    scenario('C25', name=f'log_pressure_{_s}', n=_n, flag=_f, hght=all, budget=60, bounds=f'{_n} levels of growing height, any pressures and heights missing')(log_pressure)
    scenario('C25', name=f'moist_height_{_s}', n=_n, flag=_f, temp=all, budget=60, bounds=f'{_n} levels of falling pressure, any heights and temperatures missing')(moist_height)
    scenario('C25', name=f'fill_temp_{_s}', n=_n, flag=_f, names=('TEMP', 'DWPT'), budget=60, bounds=f'{_n} levels of falling pressure, any temperatures and dewpoints missing')(fill)
    scenario('C25', name=f'fill_wind_{_s}', n=_n, flag=_f, names=('DRCT', 'SPED'), budget=60, bounds=f'{_n} levels of falling pressure, any winds missing')(fill)
scenario('C25', name='log_height_pres', n=4, flag=-9999.0, pres=(0, 1, 2), budget=60, bounds='4 levels, any heights and up to three pressures missing')(log_height)
scenario('C25', name='moist_height_pres', n=4, flag=-9999.0, pres=(0, 1, 2, 3), temp=(1, 2), budget=60, bounds='4 levels, any heights and pressures and two temperatures missing')(moist_height)
scenario('C25', name='fill_pres', n=4, flag=-9999.0, pres=(0, 1, 2), names=('TEMP', 'DWPT'), budget=60, bounds='4 levels, any temperatures, dewpoints and three pressures missing')(fill)
_gap = tuple(range(3, 15))
for _name, _fn, _kw in (('log_height', log_height, dict(long={'HGHT': _gap}, may=(('HGHT', 2), ('HGHT', 15), ('PRES', 7), ('HGHT', 17)), free=())),
                        ('log_pressure', log_pressure, dict(long={'PRES': _gap}, may=(('PRES', 2), ('PRES', 15), ('HGHT', 7), ('PRES', 17)), free=())),
                        ('moist_height', moist_height, dict(long={'HGHT': _gap}, may=(('HGHT', 2), ('HGHT', 15), ('TEMP', 7), ('HGHT', 17)), free=())),
                        ('fill_temp', fill, dict(long={'TEMP': _gap, 'DWPT': (1, 2) + _gap}, names=('TEMP', 'DWPT'), may=(('TEMP', 2), ('TEMP', 15), ('DWPT', 16)), free=(('TEMP', 16),))),
                        ('fill_wind', fill, dict(long={'DRCT': _gap, 'SPED': (1, 2) + _gap}, names=('DRCT', 'SPED'), may=(('DRCT', 2), ('DRCT', 15), ('SPED', 16)), free=(('SPED', 16),))),
                        ('log_height_two', log_height, dict(long={'HGHT': tuple(range(1, 8)) + tuple(range(10, 18))}, may=(('HGHT', 9), ('PRES', 3)), free=())),
                        ('fill_temp_two', fill, dict(long={'TEMP': tuple(range(1, 8)) + tuple(range(10, 18)), 'DWPT': _gap}, names=('TEMP', 'DWPT'), may=(('TEMP', 9), ('TEMP', 8)), free=(('TEMP', 0), ('TEMP', 18))))):
    scenario('C25', name=f'long_{_name}', n=20, flag=-9999.0, budget=40, bounds=f'20 levels, twelve or more missing one after another, {len(_kw["may"])} more perhaps missing and {len(_kw["free"])} of any value', **_kw)(_fn)
for _fn in (log_height, log_pressure, moist_height):
    scenario('C25', name=f'{_fn.__name__}_5', n=5, flag=-9999.0, temp=(3, 4), hght=(1, 2, 3), tiers=('thorough',), tbudget=300, bounds='5 levels')(_fn)
for _v in (('TEMP', 'DWPT'), ('DRCT', 'SPED')):
    scenario('C25', name=f'fill_{_v[0].lower()}_5', n=5, flag=-9999.0, names=_v, tiers=('thorough',), tbudget=300, bounds='5 levels')(fill)
