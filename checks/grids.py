"""Grid files: write with the real writer, read with the real reader."""
from sx.harness import scenario

ENC = 'gempakio.encode.gempak'
DEC = 'gempakio.decode.gempak'
ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def gridfile(env, ny=3, nx=3, **k):
    e = env.mod(ENC)
    np = env.ref('numpy')
    proj = env.ref('pyproj').Proj('+proj=eqc +lat_0=0 +lon_0=0 +R=6371200')
    lon, lat = np.meshgrid(np.linspace(-100, -90, nx), np.linspace(30, 40, ny))
    return e.GridFile(lon, lat, proj, **k)


def readback(env, f, name='a.gem'):
    p = env.path(name)
    f.to_gempak(p)
    return env.mod(DEC).GempakGrid(p)


def const(env, v, ny=3, nx=3):
    return env.np.full((ny, nx), v)


TYPES = {'': 'analysis', 'A': 'analysis', 'F': 'forecast', 'G': 'guess', 'I': 'initial'}


def time_arg(env, k, kind, years):
    """(argument for add_grid, valid time, type) of one symbolic time."""
    when = env.datetime(f'when{k}', *years)
    if kind == 'datetime':
        return when, when, 'analysis'
    s = when.strftime('%Y%m%d%H%M')
    if kind == 'string':
        return s, when, 'analysis'
    typ, fmt = kind[0], kind[1:]
    h = m = 0
    if fmt:
        h = env.int(f'fh{k}', 0, env.p.get('fmax', 999))
        s = s + env.choice(f'case{k}', [typ, typ.lower()]) + digits(env, h, 3)
        if fmt == 'hm':
            m = env.int(f'fm{k}', 0, 59)
            s = s + digits(env, m, 2)
    else:
        s = s + typ
    valid = when + env.dt.timedelta(hours=h, minutes=m)
    env.assume(valid < env.dt.datetime(2069, 1, 1))
    return s, valid, TYPES[typ]


def digits(env, v, n):
    return env.tostr(v + 10 ** n)[1:]


def grid_time(env):
    f = gridfile(env)
    kind, kind2 = env.p['kinds']
    years = (1969, 2068)
    arg, valid, typ = time_arg(env, 1, kind, years)
    arg2 = valid2 = None
    if kind2 is not None:
        arg2, valid2, typ2 = time_arg(env, 2, kind2, years)
    f.add_grid(const(env, 1.0), 'TMPK', 'PRES', 500, arg, date_time2=arg2)
    gem = readback(env, f)
    info = gem.gdinfo()
    env.check(len(info) == 1, 'one grid')
    g = info[0]
    env.check(g.DATTIM1 == valid, 'valid time')
    env.check(g.TYPE == typ, 'grid type')
    if valid2 is None:
        env.check(g.DATTIM2 is None, 'no second time')
    else:
        env.check(g.DATTIM2 is not None, 'second time is there')
        env.check(g.DATTIM2 == valid2, 'second valid time')
    env.observe('valid', g.DATTIM1)
    x = gem.gdxarray()
    env.check(len(x) == 1, 'one array')
    env.check(env.coord_time(x[0]) == valid, 'time of the array')
    env.check(x[0].attrs['grid_type'] == typ, 'type of the array')


for _k in ('datetime', 'string', 'A', 'F', 'G', 'I', 'Fh', 'Gh', 'Ih', 'Ah', 'Fhm', 'Ghm', 'Ihm', 'Ahm'):
    scenario('C03', name=f'time_{_k}', budget=12, tbudget=90, kinds=(_k, None),
             bounds=f'one grid, time given as {_k}, any minute of 1969-2068, forecast of 0-999 h and 0-59 min')(grid_time)
for _k, _k2 in (('datetime', 'datetime'), ('string', 'string'), ('Fh', 'Fh'), ('datetime', 'string'), ('Fhm', 'string'), ('F', 'datetime'),
                ('Ghm', 'Ghm'), ('string', 'Ah')):
    scenario('C03', name=f'range_{_k}_{_k2}', budget=12, tbudget=90, kinds=(_k, _k2),
             bounds=f'one grid, times given as {_k} and {_k2}, any minutes of 1969-2068, forecasts of 0-999 h')(grid_time)


# ---------------------------------------------------------------------------
# names, levels, vertical coordinates
# ---------------------------------------------------------------------------
VCOORDS = ('NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL')
PRINT = ''.join(chr(c) for c in range(33, 127))
I32 = 2 ** 31 - 1


def grid_name(env):
    f = gridfile(env)
    name = env.str('name', env.p['length'], alphabet=PRINT)
    vc = env.choice('vcoord', env.p['vcoords'])
    level = env.int('level', 0, I32)
    level2 = env.int('level2', 0, I32) if env.p['two'] else None
    f.add_grid(const(env, 1.0), name, vc, level, env.dt.datetime(2020, 1, 2, 3, 4), level2=level2)
    gem = readback(env, f)
    info = gem.gdinfo()
    env.check(len(info) == 1, 'one grid')
    g = info[0]
    env.check(g.PARM == name.upper(), 'parameter name')
    env.check(g.LEVEL1 == level, 'level')
    env.check(g.LEVEL2 is None if level2 is None else g.LEVEL2 == level2, 'second level')
    env.check(g.COORD == ('NONE' if vc is None else vc.upper()), 'vertical coordinate')
    env.observe('name', g.PARM)
    env.observe('level', g.LEVEL1)


for _n in (1, 3, 4, 5, 8, 9, 12):
    scenario('C04', name=f'name_{_n}', length=_n, vcoords=('PRES',), two=False, budget=8,
             bounds=f'one grid, any name of {_n} printable characters, any level')(grid_name)
scenario('C04', name='vcoords', length=4, vcoords=(None, 'none', *VCOORDS[1:], 'pres', 'hYbD'), two=True, budget=20,
         bounds='every vertical coordinate, any name of 4 printable characters, any two levels')(grid_name)


def reject_name(env):
    f = gridfile(env)
    name = env.str('name', env.p['n'], alphabet=PRINT)
    vc = env.str('vcoord', env.p['m'], alphabet=PRINT) if env.p['m'] else 'PRES'
    if 0 < env.p['m'] <= 4:
        for v in VCOORDS:
            if len(v) == env.p['m']:
                env.assume(vc.upper() != v)
    refused = False
    try:
        f.add_grid(const(env, 1.0), name, vc, 500, env.dt.datetime(2020, 1, 2, 3, 4))
    except (ValueError, KeyError):
        refused = True
    env.check(refused, 'refused')
    env.check(len(f.data) == 0, 'nothing added')


for _n, _m in ((13, 0), (14, 0), (4, 3), (4, 4), (4, 5), (4, 6)):
    scenario('C04', name=f'reject_{_n}_{_m}', n=_n, m=_m, budget=10,
             bounds=f'any name of {_n} characters' + (f', any vertical coordinate of {_m} characters that is not a known one' if _m else ''))(reject_name)


# ---------------------------------------------------------------------------
# several grids
# ---------------------------------------------------------------------------
def grid_identity(env, k):
    p = env.p['vary']
    d = dict(name='T', level=500, when=env.dt.datetime(2020, 1, 2, 3, 4), vc='PRES', level2=None, when2=None)
    if 'name' in p:
        d['name'] = env.str(f'name{k}', 1, alphabet=ALNUM)
    if 'level' in p:
        d['level'] = env.int(f'level{k}', 0, 9999)
    if 'when' in p:
        d['when'] = env.datetime(f'when{k}', *env.p.get('years', (1969, 2068)))
    if 'forecast' in p:
        h = env.int(f'fh{k}', 0, 99)
        d['type'] = env.choice(f'type{k}', 'AFGI')
        d['arg'] = '202001020000' + d['type'] + digits(env, h, 3)
        d['when'] = env.dt.datetime(2020, 1, 2) + env.dt.timedelta(hours=h)
    if 'vc' in p:
        d['vc'] = env.choice(f'vc{k}', ['PRES', None])
    if 'level2s' in p:
        d['level2'] = env.int(f'level2{k}', 0, 9999) if env.choice(f'has2{k}', [True, False]) else None
    if 'when2' in p:
        d['when2'] = env.datetime(f'when2{k}', *env.p.get('years', (1969, 2068))) if env.choice(f'hast{k}', [True, False]) else None
    return d


def opt_eq(env, a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


def same_grid(env, a, b):
    return env.And(a['name'].upper() == b['name'].upper(), a['level'] == b['level'], a['when'] == b['when'], opt_eq(env, a['vc'], b['vc']),
                   opt_eq(env, a['level2'], b['level2']), opt_eq(env, a['when2'], b['when2']), a.get('type') == b.get('type'))


def is_grid(env, g, a):
    return env.And(g.PARM == a['name'].upper(), g.LEVEL1 == a['level'], g.DATTIM1 == a['when'], g.COORD == (a['vc'] or 'NONE'),
                   opt_eq(env, g.LEVEL2, a['level2']), opt_eq(env, g.DATTIM2, a['when2']), g.TYPE == TYPES[a.get('type', '')])


def grids_many(env):
    n = env.p['n']
    f = gridfile(env, 2, 2)
    ids = [grid_identity(env, k) for k in range(n)]
    vals = [env.float(f'v{k}', -9000, 1e6) for k in range(n)]
    gone = ['data' in env.p['vary'] and env.bool(f'gone{k}') for k in range(n)]
    for k, a in enumerate(ids):
        f.add_grid(const(env, float('nan') if gone[k] else vals[k], 2, 2), a['name'], a['vc'], a['level'], a.get('arg', a['when']), level2=a['level2'], date_time2=a['when2'])
    gem = readback(env, f)
    info = gem.gdinfo()
    xs = gem.gdxarray()
    final = [k for k in range(n) if not any(bool(same_grid(env, ids[k], ids[j])) for j in range(k + 1, n))]
    env.check(len(info) == len(final), 'every grid exactly once')
    env.check(len(xs) == len(final), 'every grid is returned')
    for k in final:
        hit = [i for i, g in enumerate(info) if bool(is_grid(env, g, ids[k]))]
        env.check(len(hit) == 1, 'grid found once under its own name, level and time')
        pairs = env.masked(xs[hit[0]])
        env.check(len(pairs) == 4, 'number of points')
        for v, m in pairs:
            env.check(m if gone[k] else env.And(env.Not(m), v == env.f32(vals[k])), 'grid carries its own data')


for _v in (('name', 'level'), ('when', 'vc'), ('level2s', 'level'), ('when2', 'when')):
    scenario('C05', name='two_' + '_'.join(_v), n=2, vary=_v, budget=20, tbudget=120,
             bounds=f'two grids of 2x2 constant values, any {" and ".join(_v)}, all relations between them')(grids_many)
for _v in (('name',), ('level',), ('when',), ('when2',), ('level2s',)):
    scenario('C05', name='three_' + '_'.join(_v), n=3, vary=_v, budget=20, tbudget=200, years=(2020, 2020),
             bounds=f'three grids of 2x2 constant values, any {" and ".join(_v)} (times of 2020), all relations between them')(grids_many)
scenario('C05', name='two_data', n=2, vary=('level', 'data'), budget=20, bounds='two grids of any level and of any constant value or all missing, all relations between them')(grids_many)
scenario('C05', name='two_forecast', n=2, vary=('forecast',), budget=20, bounds='two grids of any type and forecast hour of 0-99, all relations between them')(grids_many)


def grids_again(env):
    """Another file written at the path of one that has been read."""
    v = [env.float(f'v{k}', -9000, 1e6) for k in range(2)]
    lev = [env.int(f'level{k}', 0, 9999) for k in range(2)]
    when = env.dt.datetime(2020, 1, 2, 3, 4)
    readers = []
    for k in range(2):
        f = gridfile(env, 2, 2)
        f.add_grid(const(env, v[k], 2, 2), 'T', 'PRES', lev[k], when)
        readers.append(readback(env, f))
        if k == 0 and env.bool('read'):
            readers[0].gdxarray()
    for k in (1, 0, 1):
        info, xs = readers[k].gdinfo(), readers[k].gdxarray()
        env.check(len(info) == 1 and len(xs) == 1, 'one grid')
        env.check(info[0].LEVEL1 == lev[k], 'level of the file read')
        for g, m in env.masked(xs[0]):
            env.check(env.And(env.Not(m), g == env.f32(v[k])), 'data of the file read')


scenario('C05', name='again', budget=10, bounds='two files of one grid of any level and value, written at the same path and read one after another')(grids_again)
@scenario('C05', budget=20, bounds='a grid of any name, level, time and value added to a written file, which is written again at the same path or another')
def grids_written_twice(env):
    f = gridfile(env, 2, 2)
    ids = [{'name': env.str(f'name{k}', 1, alphabet='AB'), 'level': env.int(f'level{k}', 0, 9999), 'when': env.datetime(f'when{k}', 2020, 2020)} for k in range(2)]
    vals = [env.float(f'v{k}', -9000, 1e6) for k in range(2)]
    for k, a in enumerate(ids):
        f.add_grid(const(env, vals[k], 2, 2), a['name'], 'PRES', a['level'], a['when'])
        gem = readback(env, f, env.choice(f'file{k}', ['a.gem', 'b.gem']) if k else 'a.gem')
    info, xs = gem.gdinfo(), gem.gdxarray()
    same = bool(env.And(*[ids[0][k] == ids[1][k] for k in ids[0]]))
    env.check(len(info) == len(xs) == 2 - same, 'every grid exactly once')
    for k in range(same, 2):
        hit = [i for i, g in enumerate(info) if bool(env.And(g.PARM == ids[k]['name'], g.LEVEL1 == ids[k]['level'], g.DATTIM1 == ids[k]['when']))]
        env.check(len(hit) == 1, 'grid found once')
        env.check(all(bool(v == env.f32(vals[k])) for v, m in env.masked(xs[hit[0]])), 'its own data')


def grids_large(env):
    """Many grids, of which a few have any level, time and value."""
    n, f = env.p['n'], gridfile(env, 2, 2)
    start = env.dt.datetime(2019, 12, 30, 22, 5)
    free = (0, n // 2, n - 1)
    names = ['TMPK', 'UREL', 'LONGPARAM', 'A']
    want = []
    for k in range(n):
        a = {'name': names[k % 4], 'vc': ('PRES', 'HGHT', 'NONE')[k // 4 % 3], 'level': k // 12 + 1, 'when': start + env.dt.timedelta(hours=5 * (k % 11)),
             'level2': k if k % 5 == 0 else None, 'when2': None, 'v': float(k)}
        if k in free:
            a['level'] = env.int(f'level{k}', *((5000, 7999), (8000, 20000), (20001, 999999))[free.index(k)])
            a['when'] = env.datetime(f'when{k}', 2030 + free.index(k), 2030 + free.index(k))
            a['v'] = env.float(f'v{k}', -9000, 1e6)
            a['name'] = 'FREE' + str(k)
        want.append(a)
        f.add_grid(const(env, a['v'], 2, 2), a['name'], a['vc'], a['level'], a['when'], level2=a['level2'])
    gem = readback(env, f)
    info, xs = gem.gdinfo(), gem.gdxarray()
    env.check(len(info) == n and len(xs) == n, 'every grid exactly once')
    at = {}
    for k, g in enumerate(info):
        at[g.PARM if g.PARM.startswith('FREE') else (g.PARM, g.COORD, g.LEVEL1, g.DATTIM1, g.LEVEL2)] = k
    for k, a in enumerate(want):
        i = at.get(a['name'] if k in free else (a['name'], a['vc'], a['level'], a['when'], -1 if a['level2'] is None and info[0].LEVEL2 == -1 else a['level2']))
        env.check(i is not None, 'grid of its own name, level and time')
        env.check(is_grid(env, info[i], a), 'attributes')
        env.check(env.And(*[env.And(env.Not(m), v == env.f32(a['v'])) for v, m in env.masked(xs[i])]), 'its own data')
    k = n // 2
    one = gem.gdxarray(parameter='FREE' + str(k))
    env.check(len(one) == 1 and bool(env.masked(one[0])[3][0] == env.f32(want[k]['v'])), 'one of the grids asked for')


for _n in (270,):
    scenario('C05', name=f'large_{_n}', n=_n, budget=30, bounds=f'{_n} grids, three of any level, time and value')(grids_large)
scenario('C05', name='two_all', tiers=('thorough',), n=2, vary=('name', 'level', 'when', 'vc', 'level2s', 'when2'), tbudget=300,
         bounds='two grids, everything free')(grids_many)
scenario('C05', name='four_level', tiers=('thorough',), n=4, vary=('level',), tbudget=300, bounds='four grids, any levels')(grids_many)


# ---------------------------------------------------------------------------
# values: packing accuracy and missing points
# ---------------------------------------------------------------------------
MISS = -9999.0


def pack_inputs(env, ny, nx, how):
    """Symbolic grid: (array, [(value, is missing)])."""
    lo, hi = env.p['vals']
    n = ny * nx
    pts = []
    for k in range(n):
        kind = how[k % len(how)]
        if kind == 'c':
            kind = env.choice(f'kind{k}', ['v', 'n', 'm'])
        if kind == 'x':
            kind = env.choice(f'kind{k}', ['v', 'k'])
        if kind in 'vi':
            v = (env.float if kind == 'v' else env.int)(f'v{k}', lo, hi)
            # values that may decode to exactly the missing value are outside the property
            gap = 2.0 ** (env.p['window'][1] - env.p['nbits'] + 1) + 2.0 ** -21 * (hi + 10000)
            env.assume(env.Or(v > MISS + gap, v < MISS - gap))
            pts.append((v, False))
        elif kind == 'k':
            pts.append((env.float(f'v{k}', lo, hi), True))
        else:
            pts.append((float('nan') if kind == 'n' else MISS, True))
    a = env.np.array([v for v, _ in pts], dtype=env.p.get('dtype')).reshape((ny, nx))
    if 'k' in how or 'x' in how:
        a = env.np.ma.array(a, mask=[m and v == v and not (type(v) is float and v == MISS) for v, m in pts])
    return a, pts


def grid_values(env):
    ny, nx = env.p['shape']
    nbits = env.p['nbits']
    f = gridfile(env, ny, nx)
    f.precision = nbits
    a, pts = pack_inputs(env, ny, nx, env.p['how'])
    vals = [v for v, m in pts if not m]
    imax = 2 ** nbits - 1
    step = 0.0
    if vals:
        mn = mx = vals[0]
        for v in vals[1:]:
            mn = env.ite(v < mn, v, mn)
            mx = env.ite(v > mx, v, mx)
        r = mx - mn
        wlo, whi = env.p['window']      # powers of two bounding the range
        if len(vals) > 1:
            env.assume(env.And(r > 2.0 ** wlo, r <= 2.0 ** whi))
            # the smallest power of two with which the range fits
            w = wlo - nbits - 1
            while r > (imax - 0.5) * 2.0 ** w:
                w += 1
            step = 2.0 ** w
    f.add_grid(a, 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    gem = readback(env, f)
    xs = gem.gdxarray()
    env.check(len(xs) == 1, 'one grid')
    got = env.masked(xs[0])
    env.check(len(got) == len(pts), 'number of points')
    for k, ((v, m), (g, gm)) in enumerate(zip(pts, got)):
        if m:
            env.check(gm, 'missing point is missing')
            continue
        mag = env.ite(v < 0, -v, v) + env.ite(mn < 0, -mn, mn)
        d = g - v
        tol = step / 2 + (mag + step) * 2.0 ** -23 + 2.0 ** -130
        env.check(env.Not(gm), 'valid point is not missing')
        env.check(env.And(d <= tol, -d <= tol), 'value within half a packing step')
    env.observe('v0', got[0][0] if not got[0][1] is True else 0.0)


for _nb, _sh, _w in ((16, (2, 2), (3, 6)), (8, (2, 3), (-1, 2)), (12, (1, 4), (18, 20)), (1, (2, 2), (0, 2)), (2, (3, 1), (-8, -6)),
                     (31, (1, 3), (1, 4)), (20, (2, 2), (-14, -12)), (24, (1, 3), (6, 8)), (5, (2, 4), (3, 5)), (16, (3, 3), (-4, -3)),
                     (7, (3, 2), (9, 10)), (30, (1, 2), (20, 22)), (3, (1, 12), (2, 3)), (16, (1, 2), (-70, -68)), (11, (1, 3), (-100, -99))):
    scenario('C01', name=f'values_{_nb}b_{_sh[0]}x{_sh[1]}_{_w[1]}', nbits=_nb, shape=_sh, how='v', window=_w, budget=15,
             vals=(-2.0 ** 21, 2.0 ** 21) if _w[0] > -20 else (-2.0 ** (_w[1] + 4), 2.0 ** (_w[1] + 4)),
             bounds=f'{_sh[0]}x{_sh[1]} grid of any values in +-2^21 with a range in (2^{_w[0]}, 2^{_w[1]}], {_nb} bits')(grid_values)
for _nb, _sh, _how, _w in ((16, (2, 2), 'c', (3, 4)), (8, (1, 3), 'c', (0, 1)), (1, (1, 3), 'c', (1, 2)), (31, (1, 3), 'c', (2, 3)),
                           (12, (2, 3), 'vnvmvv', (4, 5)), (4, (3, 3), 'vvnvmvnvv', (-3, -2)), (16, (1, 12), 'nnmmnmnm', (0, 1)),
                           (16, (3, 3), 'nvnnnnnnn', (0, 1)), (6, (2, 4), 'vmvnc', (2, 3))):
    scenario(('C01', 'C02'), name=f'missing_{_nb}b_{_sh[0]}x{_sh[1]}_{_how}', nbits=_nb, shape=_sh, how=_how, window=_w, budget=15,
             vals=(-2.0 ** 21, 2.0 ** 21),
             bounds=f'{_sh[0]}x{_sh[1]} grid with the points {_how} (v any value in +-2^21, n NaN, m -9999, c any of these), range in '
                    f'(2^{_w[0]}, 2^{_w[1]}], {_nb} bits')(grid_values)
for _dt, _lo, _hi, _nb, _w in (('int8', -128, 127, 16, (5, 8)), ('uint8', 0, 255, 12, (0, 8)), ('int16', -9000, 32767, 16, (10, 16)), ('int16', -50, 50, 24, (0, 4)),
                               ('uint16', 0, 65535, 10, (12, 16)), ('int32', -2 ** 20, 2 ** 20, 31, (6, 9))):
    scenario('C01', name=f'values_{_dt}_{_nb}b', nbits=_nb, shape=(2, 2), how='i', window=_w, budget=15, vals=(_lo, _hi), dtype=_dt,
             bounds=f'2x2 grid of {_dt} numbers in {_lo} to {_hi} with a range in (2^{_w[0]}, 2^{_w[1]}], {_nb} bits')(grid_values)
for _nb, _sh, _how, _w in ((16, (2, 2), 'x', (3, 4)), (7, (1, 3), 'kvk', (0, 1)), (12, (2, 3), 'vkvnmx', (4, 5)), (5, (1, 2), 'k', (0, 1))):
    scenario(('C01', 'C02'), name=f'mask_{_nb}b_{_sh[0]}x{_sh[1]}_{_how}', nbits=_nb, shape=_sh, how=_how, window=_w, budget=15, vals=(-2.0 ** 21, 2.0 ** 21),
             bounds=f'{_sh[0]}x{_sh[1]} masked array with the points {_how} (k masked over any value, x masked or not), range in (2^{_w[0]}, 2^{_w[1]}], {_nb} bits')(grid_values)


def grid_large(env):
    """A large grid of which a few points, before and after any power of two, have any value."""
    ny, nx = env.p['shape']
    nbits = env.p['nbits']
    f = gridfile(env, ny, nx)
    f.precision = nbits
    n = ny * nx
    vals = [float(k * 7 % 61) for k in range(n)]
    vals[0], vals[1] = 0.0, 63.0
    free = [k for k in env.p['free'] if k < n]
    for k in free:
        vals[k] = env.float(f'v{k}', 0, 63, f32=True)
    gone = [k for k in env.p['gone'] if k < n]
    for k in gone:
        vals[k] = MISS
    step = 2.0 ** (6 - nbits)
    while 63.0 > (2 ** nbits - 1.5) * step:
        step *= 2
    f.add_grid(env.np.array(vals).reshape((ny, nx)), 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    xs = readback(env, f).gdxarray()
    env.check(len(xs) == 1, 'one grid')
    got = env.masked(xs[0])
    env.check(len(got) == n, 'number of points')
    env.check([k for k in range(n) if k not in free and bool(got[k][1])] == gone, 'missing points')
    env.check(all(abs(got[k][0] - vals[k]) <= step / 2 + 2.0 ** -17 for k in range(n) if k not in free and k not in gone), 'other points')
    for k in free:
        d = got[k][0] - vals[k]
        env.check(env.And(env.Not(got[k][1]), d <= step / 2 + 2.0 ** -17, -d <= step / 2 + 2.0 ** -17), f'point {k} within half a packing step')


for _nb, _sh, _fr, _go in ((16, (40, 41), (257, 1639), (513,)), (9, (150, 221), (32769,), (256, 32768)), (31, (18, 17), (130, 305), (128,))):
    scenario(('C01', 'C02'), name=f'large_{_nb}b_{_sh[0]}x{_sh[1]}', nbits=_nb, shape=_sh, free=_fr, gone=_go, budget=40,
             bounds=f'{_sh[0]}x{_sh[1]} grid of {len(_fr)} points of any value in 0-63 among ordinary and missing ones, {_nb} bits')(grid_large)


def grid_constant(env):
    ny, nx = env.p['shape']
    f = gridfile(env, ny, nx)
    f.precision = env.choice('nbits', [1, 7, 16, 31] if env.p['holes'] else range(1, 32))
    v = env.float('v', -2.0 ** 30, 2.0 ** 30)
    env.assume(env.Or(v > MISS + 0.01, v < MISS - 0.01))
    gone = [env.choice(f'kind{k}', ['v', 'n', 'm']) if env.p['holes'] else 'v' for k in range(ny * nx)]
    a = env.np.array([v if g == 'v' else float('nan') if g == 'n' else MISS for g in gone]).reshape((ny, nx))
    f.add_grid(a, 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    gem = readback(env, f)
    got = env.masked(gem.gdxarray()[0])
    env.check(len(got) == ny * nx, 'number of points')
    for k, (g, m) in enumerate(got):
        if gone[k] == 'v':
            env.check(env.Not(m), 'valid point is not missing')
            tol = env.ite(v < 0, -v, v) * 2.0 ** -22 + 2.0 ** -130
            env.check(env.near(g, v, tol) if env.p['holes'] else g == env.f32(v), 'constant value')
        else:
            env.check(m, 'missing point is missing')


scenario(('C01', 'C02'), name='constant', shape=(2, 3), holes=False, budget=15, bounds='constant 2x3 grid, any value in +-2^30, any precision')(grid_constant)
scenario(('C01', 'C02'), name='constant_holes', shape=(1, 3), holes=True, budget=20,
         bounds='constant 1x3 grid with any points missing, any value in +-2^30, 1, 7, 16 or 31 bits')(grid_constant)
