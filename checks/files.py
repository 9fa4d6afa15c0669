"""Properties of whole files: caller data untouched, writing deterministic, navigation."""
from sx.harness import scenario

from .grids import gridfile, grid_identity, same_grid
from .stations import ALNUM, DEC, ENC


# ---------------------------------------------------------------------------
# C06: caller data
# ---------------------------------------------------------------------------
def same_value(env, a, b):
    """Both missing (NaN) or equal."""
    na, nb = env.isnan(a), env.isnan(b)
    return env.Or(env.And(na, nb), env.And(env.Not(na), env.Not(nb), a == b))


def values(env, name, n, kinds, lims=((-1e6, 1e6),)):
    out = []
    for k in range(n):
        kind = kinds[k % len(kinds)]
        out.append(float('nan') if kind == 'n' else -9999.0 if kind == 'm' else env.float(f'{name}{k}', *lims[k % len(lims)], nan=kind == '?'))
    return out


def unchanged(env, arr, given, what):
    got = env.flat(arr)
    env.check(len(got) == len(given), f'{what}: length')
    env.check_all([same_value(env, a, b) for a, b in zip(got, given)], f'{what}: values')


def grid_caller(env):
    np = env.np
    f = gridfile(env, 2, 2)
    vals = values(env, 'v', 4, env.p['kinds'], ((250, 260), (290, 300), (290, 300)))
    a = np.array(vals).reshape((2, 2))
    f.add_grid(a, 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    unchanged(env, a, vals, 'array after adding')
    f.to_gempak(env.path('a.gem'))
    unchanged(env, a, vals, 'array after writing')
    first = env.read_file(env.path('a.gem'))
    a[0, 0] = env.float('later', -1e6, 1e6)
    a[1, 1] = 5.0
    f.to_gempak(env.path('b.gem'))
    second = env.read_file(env.path('b.gem'))
    env.check(len(first) == len(second), 'length of the file after changing the array')
    env.check(first == second, 'file after changing the array')


for _k in ('vvvv', 'vnvm', '??vv', 'nnnn'):
    scenario('C06', name=f'grid_{_k}', kinds=_k, budget=12, bounds=f'2x2 grid of points {_k} (v any value of 250-300, n NaN, m -9999, ? such a value or NaN), '
             'changed to any value after adding')(grid_caller)


def sounding_caller(env):
    np, e = env.np, env.mod(ENC)
    n = env.p['n']
    names = ['PRES', 'TMPC']
    par = list(names)
    f = e.SoundingFile(par)
    vals = {k: values(env, k, n, env.p['kinds']) for k in names}
    data = {k.lower(): np.array(vals[k]) for k in names}
    info = {'station_id': env.str('id', 5, alphabet=ALNUM), 'station_number': env.int('num', 0, 99999), 'elevation': 7, 'state': 'wi',
            'country': 'us'}
    before = dict(info)
    f.add_sounding(data, 43.2, -89.5, env.dt.datetime(2020, 1, 2, 3, 4), info)

    def same(what):
        env.check(list(data) == [k.lower() for k in names], f'{what}: keys of the data')
        for k in names:
            unchanged(env, data[k.lower()], vals[k], f'{what}: {k}')
        env.check(list(info) == list(before), f'{what}: keys of the station')
        env.check_all([info[k] == before[k] for k in before], f'{what}: station')
        env.check(par == names, f'{what}: parameter list')
    same('after adding')
    f.to_gempak(env.path('a.gem'))
    same('after writing')
    first = env.read_file(env.path('a.gem'))
    data['tmpc'][0] = env.float('later', -1e6, 1e6)
    data['pres'][n - 1] = 3.0
    info['station_id'] = 'XXXX'
    info['station_number'] = 1
    par.append('DWPC')
    f.to_gempak(env.path('b.gem'))
    second = env.read_file(env.path('b.gem'))
    env.check(len(first) == len(second), 'length of the file after changing the data')
    env.check(first == second, 'file after changing the data')


for _n, _k in ((1, 'v'), (2, '?'), (3, 'vnm')):
    scenario('C06', name=f'sounding_{_n}_{len(_k)}', n=_n, kinds=_k, budget=12,
             bounds=f'one sounding of {_n} levels, points {_k}, any station id and number')(sounding_caller)


def surface_caller(env):
    e = env.mod(ENC)
    names = ['TMPC', 'DWPC']
    par = list(names)
    f = e.SurfaceFile(par)
    vals = {k: env.float(k, -1e6, 1e6, nan=True) for k in names}
    data = {k.lower(): vals[k] for k in names}
    info = {'station_id': env.str('id', 5, alphabet=ALNUM), 'station_number': env.int('num', 0, 99999), 'priority': 2}
    before = dict(info)
    f.add_station(data, 43.2, -89.5, env.dt.datetime(2020, 1, 2, 3, 4), info)

    def same(what):
        env.check(list(data) == [k.lower() for k in names], f'{what}: keys of the data')
        env.check_all([same_value(env, data[k.lower()], vals[k]) for k in names], f'{what}: data')
        env.check(list(info) == list(before), f'{what}: keys of the station')
        env.check_all([info[k] == before[k] for k in before], f'{what}: station')
        env.check(par == names, f'{what}: parameter list')
    same('after adding')
    f.to_gempak(env.path('a.gem'))
    same('after writing')
    first = env.read_file(env.path('a.gem'))
    data['tmpc'] = env.float('later', -1e6, 1e6)
    info['station_id'] = 'XXXX'
    par.append('SKNT')
    f.to_gempak(env.path('b.gem'))
    second = env.read_file(env.path('b.gem'))
    env.check(first == second, 'file after changing the data')


scenario('C06', name='surface', budget=12, bounds='one observation of two parameters, any value or NaN, any station id and number')(surface_caller)


def element_caller(env):
    """Lines of vector graphics files."""
    np, vg, p = env.np, env.mod('gempakio.encode.vgf'), env.p
    lon = [env.float(f'lon{k}', -180, 180, f32=True) for k in range(p['n'])]
    lat = [env.float(f'lat{k}', -90, 90, f32=True) for k in range(p['n'])]

    def given(vs):
        return list(vs) if p['kind'] == 'list' else np.array(vs, dtype=p['kind'])
    x, y = given(lon), given(lat)
    kw = dict(Line=dict(color=3, line_type=1, closed=0), SpecialLine=dict(color=3, line_type=6, closed=0), Front=dict(front_code=427, major_color=2))[p['cls']]
    f = vg.VGFile.from_elements(getattr(vg, p['cls'])(x, y, **kw))

    def same(what):
        for name, a, vs in (('longitudes', x, lon), ('latitudes', y, lat)):
            got = list(a) if p['kind'] == 'list' else env.flat(a)
            env.check(len(got) == len(vs), f'{what}: number of {name}')
            env.check_all([g == v for g, v in zip(got, vs)], f'{what}: {name}')
    same('after it was made')
    f.to_vgf(env.path('a.vgf'))
    same('after writing')
    first = env.read_file(env.path('a.vgf'))
    x[0] = env.float('later', -180, 180, f32=True)
    y[p['n'] - 1] = 5.0
    if p['kind'] == 'list':
        x.append(1.0)
    f.to_vgf(env.path('b.vgf'))
    second = env.read_file(env.path('b.vgf'))
    env.check(len(first) == len(second), 'length of the file after changing the coordinates')
    env.check(first == second, 'file after changing the coordinates')


for _c in ('Line', 'SpecialLine', 'Front'):
    for _k in ('list', 'float32', 'float64'):
        scenario('C06', name=f'{_c.lower()}_{_k}', cls=_c, n=3, kind=_k, budget=12,
                 bounds=f'{_c} of three points given as {"lists" if _k == "list" else "arrays of " + _k}, any coordinates')(element_caller)


def selection_lists(env):
    """Lists of filters are left as they were."""
    e, d = env.mod(ENC), env.mod(DEC)
    kind = env.p['kind']
    when = env.datetime('when', 2019, 2021)
    text = when.strftime('%Y%m%d%H%M')
    p = env.path('a.gem')
    if kind == 'grid':
        f = gridfile(env, 2, 2)
        f.add_grid(env.np.full((2, 2), 1.0), 'TMPK', 'PRES', 500, when, level2=400, date_time2=when)
        f.to_gempak(p)
        r = d.GempakGrid(p)
        args = {'parameter': ['tmpk', 'abc'], 'date_time': [text, when], 'coordinate': ['pres'], 'level': [500, 3], 'date_time2': [text],
                'level2': [400]}
        sel = r.gdxarray
    elif kind == 'sounding':
        f = e.SoundingFile(['PRES', 'TEMP'])
        f.add_sounding({'PRES': env.np.array([1000.0]), 'TEMP': env.np.array([1.0])}, 43.25, -89.5, when,
                       {'station_id': 'KMSN', 'station_number': 7, 'state': 'WI', 'country': 'US'})
        f.to_gempak(p)
        r = d.GempakSounding(p)
        args = {'station_id': ['kmsn', 'x'], 'station_number': ['7'], 'date_time': [text, when], 'state': ['wi'], 'country': ['us'],
                'bbox': [-100, -80, 40, 50]}
        if not env.p.get('case', True):
            args.update(state=['WI'], country=['US'])
        sel = r.snxarray
    else:
        f = e.SurfaceFile(['TMPC'])
        f.add_station({'TMPC': 1.0}, 43.25, -89.5, when, {'station_id': 'KMSN', 'station_number': 7, 'state': 'WI', 'country': 'US'})
        f.to_gempak(p)
        r = d.GempakSurface(p)
        args = {'station_id': ['kmsn', 'x'], 'station_number': ['7'], 'date_time': [text, when], 'state': ['wi'], 'country': ['us'],
                'bbox': [-100, -80, 40, 50]}
        sel = r.sfjson
    if env.p['mode'] == 'near':
        args['station_id'] = ['kmsn']
        for k in ('station_id', 'station_number', 'state', 'country', 'bbox'):
            was = list(args[k])
            env.check(len(r.nearest_time(text, **{k: args[k]})) >= 1, 'something found')
            env.check(len(args[k]) == len(was) and all(type(a) is type(b) and a == b for a, b in zip(args[k], was)), f'{k} as it was')
        return
    copies = {k: list(v) for k, v in args.items()}
    out = sel(**args)
    env.check(len(out) == 1, 'selected')
    for k, was in copies.items():
        now = args[k]
        env.check(len(now) == len(was), f'{k}: length')
        for a, b in zip(now, was):
            env.check(isinstance(a, str) == isinstance(b, str), f'{k}: type of an entry')
            env.check(a == b, f'{k}: an entry')


for _k in ('grid', 'sounding', 'surface'):
    scenario('C06', name=f'select_{_k}', kind=_k, mode='all', budget=12, bounds='lists of every filter, any time of 2019-2021')(selection_lists)
scenario('C06', name='select_nearest', kind='surface', mode='near', budget=12, bounds='lists of every filter, any time of 2019-2021')(selection_lists)


def overwrite(v):
    """What a user may do to the values given to him."""
    v = getattr(v, 'values', v)
    (v.data if getattr(v, 'mask', None) is not None else v)[...] = 7.0


def results(env):
    """Queries give the same again, whatever was done to the values given before."""
    e, d, np = env.mod(ENC), env.mod(DEC), env.np
    kind, p = env.p['kind'], env.path('a.gem')
    when = env.dt.datetime(2020, 1, 2, 3, 4)
    info = {'station_id': 'KMSN', 'station_number': 7, 'state': 'WI', 'country': 'US'}
    vals = [env.float(f'v{k}', *((-100, 100) if kind != 'grid' else (290, 300) if k else (250, 260)), f32=kind != 'grid') for k in range(4)]
    if kind == 'grid':
        f = gridfile(env, 2, 2)
        f.add_grid(np.array(vals).reshape((2, 2)), 'TMPK', 'PRES', 500, when)
        f.to_gempak(p)
        r = d.GempakGrid(p)

        def query():
            x = r.gdxarray(**env.p['query'])[0]
            return [a for a, _ in env.masked(x)], [x]
    elif kind == 'sounding':
        f = e.SoundingFile(['PRES', 'TEMP', 'HGHT'])
        f.add_sounding({'PRES': np.array([1000.0, 900.0]), 'TEMP': np.array(vals[:2]), 'HGHT': np.array(vals[2:])}, 43.25, -89.5, when, info)
        f.to_gempak(p)
        r = d.GempakSounding(p)

        def query():
            x = r.snxarray(**env.p['query'])[0]
            return [a for n in ('temp', 'hght') for a, _ in env.masked(x, n)], [x['temp'], x['hght'], x]
    else:
        f = e.SurfaceFile(['TMPC', 'DWPC'])
        f.add_station({'TMPC': vals[0], 'DWPC': vals[1]}, 43.25, -89.5, when, info)
        f.to_gempak(p)
        r = d.GempakSurface(p)

        def query():
            ob = r.nearest_time(when, station_id='KMSN')[0] if env.p['query'] == 'nearest' else r.sfjson(**env.p['query'])[0]
            return [ob['values']['tmpc'], ob['values']['dwpc'], ob['properties']['station_id'], ob['properties']['date_time']], [ob]
    first, given = query()
    for x in given:
        if kind == 'surface':
            x['values']['tmpc'] = 7.0
            del x['values']['dwpc']
            x['properties']['station_id'] = 'XXXX'
            x['properties']['date_time'] = None
        elif x is not given[-1] or kind == 'grid':
            overwrite(x)
        if kind != 'surface':
            x.attrs.clear()
    second, again = query()
    env.check(len(first) == len(second), 'number of values')
    env.check_all([a == b for a, b in zip(first, second)], 'values of the second query')
    if kind == 'sounding':
        env.check(again[-1].attrs['station_id'] == 'KMSN', 'station of the second query')


for _k, _n, _q in (('grid', 'all', {}), ('grid', 'parameter', {'parameter': 'TMPK'}), ('sounding', 'all', {}), ('sounding', 'station', {'station_id': 'KMSN'}), ('surface', 'all', {}),
                   ('surface', 'station', {'station_id': 'KMSN'}), ('surface', 'nearest', 'nearest')):
    scenario('C06', name=f'results_{_k}_{_n}', kind=_k, query=_q, budget=15, bounds='one entry of any values, read twice, with the values of the first result changed between')(results)


# ---------------------------------------------------------------------------
# C29: writing is a function of what was added
# ---------------------------------------------------------------------------
def orders(n):
    import itertools
    return list(itertools.permutations(range(n)))


def same_files(env, a, b, what):
    x, y = env.read_file(env.path(a)), env.read_file(env.path(b))
    env.check(len(x) == len(y), f'{what}: length')
    env.check(x == y, f'{what}: content')


def grid_orders(env):
    n = env.p['n']
    ids = [grid_identity(env, k) for k in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.Not(same_grid(env, ids[i], ids[j])))
    vals = [[env.float(f'v{k}', -9000, 1e6)] * 4 for k in range(n)]

    def build(order):
        f = gridfile(env, 2, 2)
        for k in order:
            a = ids[k]
            f.add_grid(env.np.array(vals[k]).reshape((2, 2)), a['name'], a['vc'], a['level'], a['when'], level2=a['level2'], date_time2=a['when2'])
        return f
    f = build(range(n))
    f.to_gempak(env.path('a.gem'))
    f.to_gempak(env.path('b.gem'))
    same_files(env, 'a.gem', 'b.gem', 'second write')
    order = env.choice('order', orders(n)[1:])
    build(order).to_gempak(env.path('c.gem'))
    same_files(env, 'a.gem', 'c.gem', 'other order')


for _n, _v in ((2, ('name', 'level')), (2, ('when', 'vc')), (2, ('level2s',)), (2, ('when2',)), (3, ('level',)), (3, ('name',))):
    scenario('C29', name=f'grid_{_n}_' + '_'.join(_v), n=_n, vary=_v, years=(2019, 2021), budget=15,
             bounds=f'{_n} different grids, any {" and ".join(_v)}, every order')(grid_orders)


def grid_writes(env):
    """Write, add, write again, against adding everything first."""
    v = [env.float(f'v{k}', -9000, 1e6) for k in range(3)]
    lev = [env.int(f'level{k}', 0, 9999) for k in range(3)]
    when = env.dt.datetime(2020, 1, 2, 3, 4)
    f, g = gridfile(env, 2, 2), gridfile(env, 2, 2)
    for k in range(3):
        f.add_grid(env.np.full((2, 2), v[k]), 'T', 'PRES', lev[k], when)
        f.to_gempak(env.path(f'f{k}.gem'))
        g.add_grid(env.np.full((2, 2), v[k]), 'T', 'PRES', lev[k], when)
    f.to_gempak(env.path('a.gem'))
    g.to_gempak(env.path('b.gem'))
    same_files(env, 'f2.gem', 'b.gem', 'after earlier writes')
    same_files(env, 'a.gem', 'b.gem', 'after one more write')


scenario('C29', name='grid_interleaved', budget=15, bounds='three grids of any level (replacing one another or not) written after each addition')(grid_writes)


def grid_pair(env):
    """Two files built at the same time against the same files built one after another."""
    v = [env.float(f'v{k}', -9000, 1e6) for k in range(3)]
    lev = [env.int(f'level{k}', 0, 9999) for k in range(3)]
    when = env.dt.datetime(2020, 1, 2, 3, 4)

    def add(f, k):
        f.add_grid(env.np.full((2, 2), v[k]), 'T', 'PRES', lev[k], when)
    f, g = gridfile(env, 2, 2), gridfile(env, 2, 2)
    add(f, 0)
    add(g, 1)
    add(f, 2)
    f.to_gempak(env.path('f.gem'))
    g.to_gempak(env.path('g.gem'))
    one = gridfile(env, 2, 2)
    add(one, 0)
    add(one, 2)
    one.to_gempak(env.path('one.gem'))
    two = gridfile(env, 2, 2)
    add(two, 1)
    two.to_gempak(env.path('two.gem'))
    same_files(env, 'f.gem', 'one.gem', 'first of two')
    same_files(env, 'g.gem', 'two.gem', 'second of two')


def over_existing(env):
    """A file written where a longer or shorter one was."""
    kind, n = env.p['kind'], env.p['n']
    num = [env.int(f'num{k}', 0, 99) for k in range(3)]
    x = [env.float(f'x{k}', 250, 260) for k in range(3)]
    when = env.dt.datetime(2020, 1, 2, 3)

    def build(ks):
        e = env.mod(ENC)
        f = gridfile(env, 2, 2) if kind == 'grid' else e.SurfaceFile(['TMPC']) if kind == 'surface' else e.SoundingFile(['PRES', 'TEMP'])
        for k in ks:
            if kind == 'grid':
                f.add_grid(env.np.full((2, 2), x[k]), 'T', 'PRES', num[k], when)
            elif kind == 'surface':
                f.add_station({'TMPC': x[k]}, 43.25, -89.5, when, {'station_id': 'KABC', 'station_number': num[k]})
            else:
                levels = 3 if k else 200
                f.add_sounding({'PRES': env.np.array([1000.0] * levels), 'TEMP': env.np.array([x[k]] * levels)}, 43.25, -89.5, when,
                               {'station_id': 'KABC', 'station_number': num[k]})
        return f
    # In the other file an entry more, or one less
    first, then = ((0, 1, 2), (0, 1)) if n else ((1,), (1, 0, 2))
    build(first).to_gempak(env.path('a.gem'))
    f = build(then)
    f.to_gempak(env.path('a.gem'))
    f.to_gempak(env.path('b.gem'))
    same_files(env, 'a.gem', 'b.gem', 'over another file')
    f.to_gempak(env.path('a.gem'))
    same_files(env, 'a.gem', 'b.gem', 'over itself')


for _k in ('grid', 'surface', 'sounding'):
    for _n in (0, 1):
        scenario('C29', name=f'{_k}_over_{"longer" if _n else "shorter"}', kind=_k, n=_n, budget=15,
                 bounds='up to three entries of any number or level and value, written over a file with one more or two fewer')(over_existing)

scenario('C29', name='grid_pair', budget=15, bounds='two files of three grids of any level and value, built at the same time')(grid_pair)


def station_writes(env):
    """Write, add, write again, with another file being built meanwhile."""
    e, kind = env.mod(ENC), env.p['kind']
    num = [env.int(f'num{k}', 0, 99) for k in range(3)]
    hour = [env.choice(f'hour{k}', (0, 12)) for k in range(3)]
    x = [env.float(f'x{k}', -1e5, 1e5) for k in range(3)]
    new = lambda: e.SurfaceFile(['TMPC']) if kind == 'surface' else e.SoundingFile(['PRES', 'TEMP'])

    def add(f, k):
        info, when = {'station_id': 'KABC', 'station_number': num[k]}, env.dt.datetime(2020, 1, 1, hour[k])
        if kind == 'surface':
            f.add_station({'TMPC': x[k]}, 43.25, -89.5, when, info)
        else:
            f.add_sounding({'PRES': env.np.array([1000.0, 500.0]), 'TEMP': env.np.array([x[k], 1.0])}, 43.25, -89.5, when, info)
    f, g, other = new(), new(), new()
    for k in range(3):
        add(f, k)
        f.to_gempak(env.path(f'f{k}.gem'))
        if k == 1:
            add(other, 2)
            other.to_gempak(env.path('o.gem'))
    for k in range(3):
        add(g, k)
    g.to_gempak(env.path('g.gem'))
    same_files(env, 'f2.gem', 'g.gem', 'after earlier writes')
    alone = new()
    add(alone, 2)
    alone.to_gempak(env.path('alone.gem'))
    same_files(env, 'o.gem', 'alone.gem', 'the other file')


for _k in ('surface', 'sounding'):
    scenario('C29', name=f'{_k}_interleaved', kind=_k, budget=20, bounds='three entries of any station number and value at two times (replacing one another or not) '
             'written after each addition, with another file being built at the same time')(station_writes)


def station_orders(env):
    e = env.mod(ENC)
    kind, n = env.p['kind'], env.p['n']
    obs = []
    for k in range(n):
        obs.append({'id': env.str(f'id{k}', env.p['idlen'], alphabet='ABCDEFGHIJKLMNOPQRSTUVWXYZ'), 'num': env.int(f'num{k}', 0, 99),
                    'when': env.datetime(f'when{k}', 2020, 2020)})
    for i in range(n):
        for j in range(i):
            a, b = obs[i], obs[j]
            env.assume(env.Not(env.And(a['id'] == b['id'], a['num'] == b['num'], a['when'] == b['when'])))
    x = [env.float(f'x{k}', -1e5, 1e5) for k in range(n)]
    y = [env.float(f'y{k}', -1e5, 1e5, nan=True) for k in range(n)]

    def build(order, flip):
        f = e.SurfaceFile(['TMPC', 'DWPC']) if kind == 'surface' else e.SoundingFile(['PRES', 'TEMP'])
        for k in order:
            o = obs[k]
            info = {'station_id': o['id'], 'station_number': o['num'], 'state': 'WI'}
            if flip:
                info = dict(reversed(list(info.items())))
            if kind == 'surface':
                d = {'TMPC': x[k], 'DWPC': y[k]}
                d = dict(reversed(list(d.items()))) if flip else d
                f.add_station(d, 43.25, -89.5, o['when'], info)
            else:
                m = k % 2 + 1
                d = {'PRES': env.np.array([x[k]] * m), 'TEMP': env.np.array([y[k]] * m)}
                d = dict(reversed(list(d.items()))) if flip else d
                f.add_sounding(d, 43.25, -89.5, o['when'], info)
        return f
    f = build(range(n), False)
    f.to_gempak(env.path('a.gem'))
    f.to_gempak(env.path('b.gem'))
    same_files(env, 'a.gem', 'b.gem', 'second write')
    order = env.choice('order', orders(n)[1:])
    build(order, True).to_gempak(env.path('c.gem'))
    same_files(env, 'a.gem', 'c.gem', 'other order')


for _k in ('surface', 'sounding'):
    for _n, _l in ((2, 1), (2, 5), (3, 1)):
        scenario('C29', name=f'{_k}_{_n}_{_l}', kind=_k, n=_n, idlen=_l, budget=20,
                 bounds=f'{_n} different entries, any ids of {_l} letters, numbers 0-99, times of 2020, any values; every order of adding')(station_orders)


# ---------------------------------------------------------------------------
# C31: navigation
# ---------------------------------------------------------------------------
def fake_overrides():
    from sx import fakeproj
    return fakeproj.overrides()


# kind -> (PROJ name, CF name or None, method, GEMPAK name, reader's PROJ name)
KINDS = {
    'lcc2': ('lcc', 'lambert_conformal_conic', '', 'LCC', 'lcc'), 'lcc1': ('lcc', 'lambert_conformal_conic', '', 'LCC', 'lcc'),
    'merc': ('merc', 'mercator', '', 'MER', 'merc'), 'npole': ('stere', 'polar_stereographic', '', 'STR', 'stere'),
    'spole': ('stere', 'polar_stereographic', '', 'STR', 'stere'), 'npole_ts': ('stere', 'polar_stereographic', '', 'STR', 'stere'),
    'spole_ts': ('stere', 'polar_stereographic', '', 'STR', 'stere'), 'stere': ('stere', 'stereographic', '', 'STR', 'stere'),
    'eqc': ('eqc', None, 'Equidistant Cylindrical (Spherical)', 'CED', 'eqc'), 'ortho': ('ortho', 'orthographic', '', 'ORT', 'ortho'),
    'aeqd': ('aeqd', 'azimuthal_equidistant', '', 'AED', 'aeqd'), 'laea': ('laea', None, 'Lambert Azimuthal Equal Area (Spherical)', 'LEA', 'laea'),
    'gnom': ('gnom', None, 'Gnomonic', 'GNO', 'gnom'),
}


def projection(env, kind):
    """(projection, expected angles) with symbolic parameters."""
    name, cfname, method, gem, _ = KINDS[kind]
    south = kind.startswith('spole')
    lon0 = env.float('lon0', -105, -90)
    lat0 = env.float('lat0', 35, 45)
    lat1 = env.float('lat1', 50, 70)
    rot = 0.0
    real = {'proj': name, 'lon_0': lon0, 'R': 6371200}
    cf = {'grid_mapping_name': cfname} if cfname else {}
    params, wkt = [], None
    a1, a2, a3 = lat0, lon0, rot
    if kind == 'lcc2':
        real.update(lat_1=lat0, lat_2=lat1)
        cf.update(standard_parallel=(lat0, lat1), longitude_of_central_meridian=lon0, latitude_of_projection_origin=0.0)
        a3 = lat1
    elif kind == 'lcc1':
        real.update(lat_1=lat0, lat_0=lat0)
        cf.update(standard_parallel=lat0, longitude_of_central_meridian=lon0, latitude_of_projection_origin=lat0)
        a3 = lat0
    elif kind == 'merc':
        real.update(lat_ts=lat0)
        cf.update(standard_parallel=lat0, longitude_of_projection_origin=lon0)
    elif 'pole' in kind:
        pole = -90.0 if south else 90.0
        real.update(lat_0=pole)
        cf.update(straight_vertical_longitude_from_pole=lon0)
        if kind.endswith('_ts'):
            ts = -lat1 if south else lat1
            real.update(lat_ts=ts)
            cf.update(standard_parallel=ts)
        else:
            cf.update(latitude_of_projection_origin=pole)
        a1 = pole
    elif kind == 'eqc':
        real.update(lat_0=lat0)
        params = [('Latitude of 1st standard parallel', 0.0), ('Latitude of natural origin', lat0), ('Longitude of natural origin', lon0),
                  ('False easting', 0.0), ('False northing', 0.0)]
    else:
        real.update(lat_0=lat0)
        cf.update(latitude_of_projection_origin=lat0, longitude_of_projection_origin=lon0)
    if kind in ('laea', 'gnom'):
        # these are taken from the text of the definition: two and three digit degrees and tenths
        la = env.str('lat0d', 3, alphabet='123456789')
        lo = env.str('lon0d', 2, alphabet='123456789')
        slat, slon = '-' if env.p['south'] else '', '-1' if env.p['south'] else ''
        neg = -1 if env.p['south'] else 1
        # degrees as text and as numbers: dd.d
        env.assume(env.And(la[0] == '4', lo[0] == '9' if not slon else lo[0] == '0') if not slon else la[0] == '4')
        latv = neg * (int(la[0]) * 100 + int(la[1]) * 10 + int(la[2])) / 10 if not env.symbolic else \
            neg * (env.digit(la[0]) * 100 + env.digit(la[1]) * 10 + env.digit(la[2])) / 10
        lonv = int(lo) if not env.symbolic else env.digit(lo[0]) * 10 + env.digit(lo[1])
        lonv = -(100 + lonv) if slon else lonv
        lonv = lonv + 0.0
        real.update(lat_0=latv, lon_0=lonv)
        text = ('PROJCRS["unknown",CONVERSION["unknown",METHOD["x"],PARAMETER["Latitude of natural origin",' + slat + la[0] + la[1] + '.' + la[2]
                + ',ANGLEUNIT["degree",0.0174532925199433]],PARAMETER["Longitude of natural origin",' + slon + lo + '.0,ANGLEUNIT["degree",0.0174]]]]')
        cf = {'crs_wkt': text}
        a1, a2 = latv, lonv
    if env.symbolic:
        from sx import fakeproj
        return fakeproj.Proj(fakeproj.CRS({}, cf, fakeproj.Operation(method, params))), (a1, a2, a3)
    return env.ref('pyproj').Proj(real), (a1, a2, a3)


def navigation(env):
    e, d = env.mod(ENC), env.mod(DEC)
    np = env.np
    kind, xy = env.p['kind'], env.p['xy']
    gem, rproj = KINDS[kind][3:]
    proj, (a1, a2, a3) = projection(env, kind)
    ny, nx = env.p.get('shape', (2, 3))
    south = kind.startswith('spole') or env.p.get('south')
    turn = {}
    if env.p.get('rotated'):
        turn['rotation'] = a3 = env.float('rotation', -180, 180)
    if xy:
        x0, dx = env.float('x0', -900000, 900000), env.float('dx', 1000, 100000)
        y0, dy = env.float('y0', -900000, 900000), env.float('dy', 1000, 100000)
        x, y = [x0 + i * dx for i in range(nx)], [y0 + j * dy for j in range(ny)]
        if env.p.get('turned'):
            x, y = (x[::-1], y) if env.p['turned'] == 'west' else (x, y[::-1])
        f = e.GridFile(np.array(x), np.array(y), proj, use_xy=True, **turn)
        lllon, lllat = proj(x[0], y[0], inverse=True)
        urlon, urlat = proj(x[-1], y[-1], inverse=True)
    else:
        lllat, urlat = env.float('lllat', 30, 38), env.float('urlat', 42, 50)
        if south:
            lllat, urlat = -urlat, -lllat
        lllon, urlon = env.float('lllon', -108, -98), env.float('urlon', -95, -85)
        if kind in ('laea', 'gnom') and not south:
            lllon, urlon = lllon + 195, urlon + 195
        lon = [[lllon + (urlon - lllon) * i / (nx - 1) for i in range(nx)] for _ in range(ny)]
        lat = [[lllat + (urlat - lllat) * j / (ny - 1) for _ in range(nx)] for j in range(ny)]
        # the other two corners have their own place, as on any map that is not cylindrical
        lon[0][-1] = urlon + env.float('skew1', -3, 3)
        lon[-1][0] = lllon + env.float('skew2', -3, 3)
        lat[0][-1] = lllat + env.float('skew3', -3, 3)
        lat[-1][0] = urlat + env.float('skew4', -3, 3)
        if env.p.get('turned') == 'west':
            lon, lat = ([r[::-1] for r in c] for c in (lon, lat))
        elif env.p.get('turned'):
            lon, lat = lon[::-1], lat[::-1]
        if env.p.get('turned'):
            lllat, lllon, urlat, urlon = lat[0][0], lon[0][0], lat[-1][-1], lon[-1][-1]
        f = e.GridFile(np.array([v for r in lon for v in r]).reshape((ny, nx)), np.array([v for r in lat for v in r]).reshape((ny, nx)), proj, **turn)
    f.add_grid(np.full((ny, nx), 1.0), 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    p = env.path('a.gem')
    f.to_gempak(p)
    g = d.GempakGrid(p)
    nav = g.navigation_block
    tol = 5e-5
    env.check(nav.projection == gem, 'projection')
    for n, v in (('proj_angle1', a1), ('proj_angle2', a2), ('proj_angle3', a3)):
        env.check(env.near(getattr(nav, n), v, tol), n)
    for n, v in (('lower_left_lat', lllat), ('lower_left_lon', lllon), ('upper_right_lat', urlat), ('upper_right_lon', urlon)):
        env.check(env.near(getattr(nav, n), v, tol), n)
        if not xy:
            env.observe(n, getattr(nav, n))     # the stand-in has other corners
    env.check(g.kx == nx and g.ky == ny, 'size of the grid')
    env.check(int(nav.left_grid_number) == 1 and int(nav.bottom_grid_number) == 1, 'first grid number')
    env.check(int(nav.right_grid_number) == nx and int(nav.top_grid_number) == ny, 'last grid number')
    c = g.crs.to_dict()
    env.check(c['proj'] == rproj, 'projection of the reader')
    want = {'lon_0': a2}
    if rproj == 'lcc':
        want['lat_1'], want['lat_2'] = a1, a3
    elif rproj != 'merc' or env.symbolic:
        want['lat_0'] = a1
    if not env.symbolic and rproj == 'lcc' and 'lat_2' not in c:
        want.pop('lat_2')           # pyproj leaves out an equal second parallel
    for k, v in want.items():
        env.check(env.near(c[k] if k in c else 0.0, v, tol), f'{k} of the reader')
    gx, gy = env.flat(g.x), env.flat(g.y)
    env.check(len(gx) == nx and len(gy) == ny, 'number of coordinates')
    for name, v, n in (('x', gx, nx), ('y', gy, ny)):
        step = (v[-1] - v[0]) / (n - 1)
        env.check(env.And(*[env.near(v[i], v[0] + step * i, 2.0) for i in range(n)]), f'{name} evenly spaced')
    for what, clat, clon, cx, cy in (('first', nav.lower_left_lat, nav.lower_left_lon, gx[0], gy[0]), ('last', nav.upper_right_lat, nav.upper_right_lon, gx[-1], gy[-1])):
        px, py = g.project_point(clon, clat)
        env.check(env.And(env.near(px, cx, 2.0), env.near(py, cy, 2.0)), f'projecting the {what} corner')
    env.check(env.near(c['R'], 6371200, 0.01), 'radius of the earth')
    glat, glon = env.flat(g.lat), env.flat(g.lon)
    env.check(len(glat) == nx * ny and len(glon) == nx * ny, 'number of points')
    if xy:
        for j in range(ny):
            for i in range(nx):
                # compared on the map: longitudes say little next to a pole
                px, py = proj(glon[j * nx + i], glat[j * nx + i])
                env.check(env.And(env.near(px, x[i], 250.0), env.near(py, y[j], 250.0)), 'place of a point')
    else:
        env.check(env.And(env.near(glat[0], lllat, 2e-3), env.near(glon[0], lllon, 2e-3)), 'place of the first point')
        env.check(env.And(env.near(glat[-1], urlat, 2e-3), env.near(glon[-1], urlon, 2e-3)), 'place of the last point')
    s = g.gdxarray()[0]
    env.check(env.flat(env.coord(s, 'x'))[0] == gx[0], 'x of the array')
    env.check(env.flat(env.coord(s, 'y'))[0] == gy[0], 'y of the array')
    for name, v in (('x', gx), ('y', gy), ('lat', glat), ('lon', glon)):
        got = env.flat(env.coord(s, name))
        env.check(len(got) == len(v), f'number of {name} of the array')
        env.check(env.And(*[a == b for a, b in zip(got, v)]), f'{name} of the array')


for _k in KINDS:
    for _xy in (False, True):
        for _s in ((False, True) if _k in ('laea', 'gnom') else (False,)):
            scenario('C31', name=f'nav_{_k}_{"xy" if _xy else "ll"}' + ('_south' if _s else ''), kind=_k, xy=_xy, south=_s, overrides=fake_overrides, budget=15,
                     bounds=f'{_k} projection with any origin/parallels in the mid latitudes, 2x3 grid given by '
                            + ('any regular projected coordinates' if _xy else 'latitude and longitude with any corners'))(navigation)


for _k in ('lcc2', 'merc', 'npole', 'eqc'):
    for _xy in (False, True) if _k in ('eqc', 'npole') else (False,):
        for _t in ('north', 'west'):
            scenario('C31', name=f'turned_{_t}_{_k}_{"xy" if _xy else "ll"}', kind=_k, xy=_xy, south=False, turned=_t, overrides=fake_overrides, budget=15,
                     bounds=f'as nav_{_k}, with the first ' + ('row in the north' if _t == 'north' else 'column in the east'))(navigation)
for _k in KINDS:
    if not _k.startswith('lcc'):
        scenario('C31', name=f'rotated_{_k}', kind=_k, xy=False, south=False, rotated=True, overrides=fake_overrides, budget=15,
                 bounds=f'as nav_{_k}_ll, any rotation')(navigation)


def reader_projection(env):
    """Projections only the reader knows: the writer's file with another name in the navigation block."""
    e, d = env.mod(ENC), env.mod(DEC)
    gem, rproj = env.p['gem']
    if env.symbolic:
        from sx import fakeproj
        proj = fakeproj.Proj(fakeproj.CRS({}, {'grid_mapping_name': 'orthographic', 'latitude_of_projection_origin': 40.0,
                                               'longitude_of_projection_origin': -95.0}))
    else:
        proj = env.ref('pyproj').Proj(proj='ortho', lat_0=40, lon_0=-95, R=6371200)
    np = env.np
    lon, lat = env.ref('numpy').meshgrid([-100.0, -95.0, -90.0], [35.0, 45.0])
    f = e.GridFile(np.array(lon.tolist()), np.array(lat.tolist()), proj)
    f.gemproj = gem
    a = [env.float('a1', 35, 45), env.float('a2', -100, -90), env.float('a3', 50, 60)]
    f.angle1, f.angle2, f.angle3 = a
    f.add_grid(np.full((2, 3), 1.0), 'TMPK', 'PRES', 500, env.dt.datetime(2020, 1, 2, 3, 4))
    p = env.path('a.gem')
    f.to_gempak(p)
    g = d.GempakGrid(p)
    c = g.crs.to_dict()
    env.check(c['proj'] == rproj, 'projection')
    env.check(env.near(c['R'], 6371200, 0.01), 'radius of the earth')
    env.check(env.near(c['lon_0'], a[1], 5e-5), 'lon_0')
    if rproj == 'lcc':
        env.check(env.near(c['lat_1'], a[0], 5e-5), 'lat_1')
        env.check(env.near(c['lat_2'], a[2], 5e-5), 'lat_2')
    elif gem != 'MCD' and (rproj != 'merc' or env.symbolic):
        env.check(env.near(c['lat_0'], a[0], 5e-5), 'lat_0')


for _g in (('MER', 'merc'), ('NPS', 'stere'), ('SPS', 'stere'), ('LCC', 'lcc'), ('SCC', 'lcc'), ('CED', 'eqc'), ('NOR', 'ortho'),
           ('SOR', 'ortho'), ('STR', 'stere'), ('AED', 'aeqd'), ('ORT', 'ortho'), ('LEA', 'laea'), ('GNO', 'gnom'), ('MCD', 'eqc')):
    scenario('C31', name=f'read_{_g[0]}', gem=_g, overrides=fake_overrides, budget=10,
             bounds=f'file with navigation {_g[0]}, any angles in the mid latitudes')(reader_projection)
