"""Sounding and surface files: write with the real writer, read with the real reader."""
from sx.harness import scenario

ENC = 'gempakio.encode.gempak'
DEC = 'gempakio.decode.gempak'
ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
I32 = 2 ** 31 - 1


def coords(env, kind):
    e, d = env.mod(ENC), env.mod(DEC)
    lat, lon = env.float('lat', -90, 90), env.float('lon', -180, 180)
    p = env.path('a.gem')
    when = env.dt.datetime(2020, 1, 2, 3, 4)
    info = {'station_id': 'KMSN', 'station_number': 7}
    if kind == 'surface':
        f = e.SurfaceFile(['TMPC'])
        f.add_station({'TMPC': 1.0}, lat, lon, when, info)
        f.to_gempak(p)
        out = d.GempakSurface(p).sfjson()
        env.check(len(out) == 1, 'one observation')
        la, lo = out[0]['properties']['latitude'], out[0]['properties']['longitude']
    else:
        f = e.SoundingFile(['PRES', 'TEMP'])
        f.add_sounding({'PRES': env.np.array([1000.0]), 'TEMP': env.np.array([1.0])}, lat, lon, when, info)
        f.to_gempak(p)
        out = d.GempakSounding(p).snxarray()
        env.check(len(out) == 1, 'one sounding')
        la, lo = out[0].attrs['lat'], out[0].attrs['lon']
    env.observe('lat', la)
    env.observe('lon', lo)
    env.check(env.near(la, lat, 0.00500000001), 'latitude within half a hundredth')
    env.check(env.near(lo, lon, 0.00500000001), 'longitude within half a hundredth')


@scenario('C09', bounds='one surface station; latitude and longitude any real number in range')
def coords_surface(env):
    coords(env, 'surface')


@scenario('C09', bounds='one sounding; latitude and longitude any real number in range')
def coords_sounding(env):
    coords(env, 'sounding')


def same_obs(env, a, b):
    return env.And(a['id'].upper() == b['id'].upper(), a['num'] == b['num'], a['elev'] == b['elev'],
                   a['when'] == b['when'], a['pri'] == b['pri'], a['lat'] == b['lat'], a['lon'] == b['lon'],
                   a['state'].upper() == b['state'].upper(), a['country'].upper() == b['country'].upper())


def obs_input(env, k, idlen, narrow):
    """Symbolic station metadata; `narrow` keeps only what the identity needs."""
    o = {'id': env.str(f'id{k}', idlen, alphabet=ALNUM), 'state': 'WI', 'country': 'US', 'elev': 300, 'pri': 0,
         'lat': 43.25, 'lon': -89.5}
    o['num'] = env.int(f'num{k}', 0, 99999)
    for v in env.p.get('vary', ()):
        if v in ('elev', 'pri'):
            o[v] = env.int(f'{v}{k}', 0, 100)
        elif v in ('state', 'country'):
            o[v] = env.str(f'{v}{k}', 1, alphabet=ALNUM)
        else:
            o[v] = env.int(f'{v}{k}', -80, 80) / 2
    o['when'] = env.datetime(f'when{k}', *env.p.get('years', (1969, 2068)))
    if not narrow:
        o['num'] = env.int(f'num{k}b', -9999, I32)
        o['elev'] = env.int(f'elev{k}', -9999, 100000)
        o['pri'] = env.int(f'pri{k}', 0, 100)
        o['state'] = env.str(f'state{k}', env.choice(f'statelen{k}', env.p.get('slens', (2, 0, 4))), alphabet=ALNUM)
        o['country'] = env.str(f'country{k}', env.choice(f'countrylen{k}', env.p.get('slens', (2, 0, 4))), alphabet=ALNUM)
    return o


def info_of(o):
    return {'station_id': o['id'], 'station_number': o['num'], 'elevation': o['elev'], 'state': o['state'],
            'country': o['country'], 'priority': o['pri']}


def expect_sfc(env, r, o, values):
    p, v = r['properties'], r['values']
    conds = [p['station_id'] == o['id'].upper(), p['station_number'] == o['num'], p['elevation'] == o['elev'],
             p['state'] == o['state'].upper(), p['country'] == o['country'].upper(), p['priority'] == o['pri'],
             p['date_time'] == o['when']]
    return conds, [(v[name], x) for name, x in values.items()]


def stored(env, got, given, missing=-9999.0):
    return env.ite(env.isnan(given), got == missing, got == env.f32(given))


def surface_one(env):
    e, d = env.mod(ENC), env.mod(DEC)
    idlen = env.choice('idlen', env.p['idlens'])
    o = obs_input(env, 0, idlen, False)
    vals = {'tmpc': env.float('tmpc', -3e38, 3e38, nan=True), 'dwpc': env.float('dwpc', -1e6, 1e6, nan=True)}
    f = e.SurfaceFile(['TMPC', 'dwpc'])
    when = o['when'] if env.p['when'] == 'datetime' else o['when'].strftime('%Y%m%d%H%M')
    f.add_station({'DWPC': vals['dwpc'], 'tmpc': vals['tmpc']}, 43.25, -89.5, when, info_of(o))
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSurface(p).sfjson()
    env.check(len(out) == 1, 'exactly one observation')
    r = out[0]
    pr = r['properties']
    env.check(pr['station_id'] == o['id'].upper(), 'station identifier')
    env.check(pr['station_number'] == o['num'], 'station number')
    env.check(pr['elevation'] == o['elev'], 'elevation')
    env.check(pr['state'] == o['state'].upper(), 'state')
    env.check(pr['country'] == o['country'].upper(), 'country')
    env.check(pr['priority'] == o['pri'], 'priority')
    env.check(pr['date_time'] == o['when'], 'time')
    env.check(pr['latitude'] == 43.25 and pr['longitude'] == -89.5, 'exact coordinates')
    env.check(len(r['values']) == 2, 'exactly the parameters')
    for n, x in vals.items():
        env.check(stored(env, r['values'][n], x), f'value of {n}')
        env.observe(n, r['values'][n])
    env.observe('id', pr['station_id'])
    env.observe('when', pr['date_time'])


for _w in ('datetime', 'string'):
    scenario('C08', name=f'surface_one_{_w}', budget=25, when=_w, idlens=(0, 1, 3, 4, 5, 7, 8) if _w == 'datetime' else (4, 6),
             slens=(2, 0, 4) if _w == 'datetime' else (2,),
             bounds='one observation: station id of 0-8 letters/digits, number, elevation, priority any integers, state/country 0, 2 or 4 '
                    'characters, any minute of 1969-2068, two parameters any real or NaN')(surface_one)


PARTS = ('station_id', 'station_number', 'elevation', 'state', 'country', 'priority')
ABSENT = {'station_id': '', 'station_number': -9999, 'elevation': -9999, 'state': '', 'country': '', 'priority': 0}


def partial_info(env, keys):
    """Station information with any of its parts left out: (argument, what is to be read back)."""
    info = {'station_id': 'kab', 'station_number': env.int('num', -9998, 99999), 'elevation': env.int('elev', -500, 9000), 'state': 'x',
            'country': 'y', 'priority': env.int('pri', 1, 9)}
    given = {k: v for k, v in info.items() if k in keys and env.bool('has_' + k)}
    want = {k: given.get(k, ABSENT[k]) for k in keys}
    want = {k: v.upper() if isinstance(v, str) else v for k, v in want.items()}
    if not given and env.bool('none'):
        return None, want
    return given, want


@scenario('C08', budget=20, bounds='one observation with any parts of the station information left out, or without any')
def surface_partial(env):
    e, d = env.mod(ENC), env.mod(DEC)
    info, want = partial_info(env, PARTS)
    f = e.SurfaceFile(['TMPC'])
    v = env.float('tmpc', -1e6, 1e6)
    f.add_station({'TMPC': v}, 43.25, -89.5, env.dt.datetime(2020, 2, 29, 23, 59), info)
    p = env.path('a.gem')
    f.to_gempak(p)
    g = d.GempakSurface(p)
    out, sf = g.sfjson(), g.sfinfo()
    env.check(len(out) == 1 and len(sf) == 1, 'exactly one observation')
    for k, w in want.items():
        env.check(out[0]['properties'][k] == w, k)
    s = sf[0]
    env.check(env.And(s.ID == want['station_id'], s.NUMBER == want['station_number'], s.ELEV == want['elevation'],
                      s.STATE == want['state'], s.COUNTRY == want['country'], s.LAT == 43.25, s.LON == -89.5,
                      s.DATTIM == env.dt.datetime(2020, 2, 29, 23, 59)), 'station list')
    env.check(out[0]['values']['tmpc'] == env.f32(v), 'value')


@scenario('C07', budget=20, bounds='one sounding with any parts of the station information left out, or without any')
def sounding_partial(env):
    e, d = env.mod(ENC), env.mod(DEC)
    info, want = partial_info(env, PARTS[:-1])
    f = e.SoundingFile(['PRES', 'TEMP'])
    v = env.float('temp', -1e6, 1e6)
    env.assume(v != -9999)
    f.add_sounding({'PRES': env.np.array([1000.0]), 'TEMP': env.np.array([v])}, 43.25, -89.5, env.dt.datetime(2020, 2, 29, 23, 59), info)
    p = env.path('a.gem')
    f.to_gempak(p)
    g = d.GempakSounding(p)
    out, sn = g.snxarray(), g.sninfo()
    env.check(len(out) == 1 and len(sn) == 1, 'exactly one sounding')
    for k, w in want.items():
        env.check(out[0].attrs[k] == w, k)
    s = sn[0]
    env.check(env.And(s.ID == want['station_id'], s.NUMBER == want['station_number'], s.ELEV == want['elevation'],
                      s.STATE == want['state'], s.COUNTRY == want['country'], s.LAT == 43.25, s.LON == -89.5,
                      s.DATTIM == env.dt.datetime(2020, 2, 29, 23, 59)), 'station list')


def surface_many(env):
    e, d = env.mod(ENC), env.mod(DEC)
    n, idlen = env.p['n'], env.p['idlen']
    obs = [obs_input(env, k, idlen, True) for k in range(n)]
    vals = [env.float(f'tmpc{k}', -1e6, 1e6) for k in range(n)]
    f = e.SurfaceFile(['TMPC'])
    for k, o in enumerate(obs):
        f.add_station({'TMPC': vals[k]}, o['lat'], o['lon'], o['when'], info_of(o))
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSurface(p).sfjson()
    final = {}
    for k, o in enumerate(obs):
        if not any(bool(same_obs(env, o, obs[j])) for j in range(k + 1, n)):
            final[k] = o
    env.check(len(out) == len(final), 'every observation exactly once')
    for k, o in final.items():
        hit = [r for r in out if bool(env.And(r['properties']['station_id'] == o['id'].upper(),
                                              r['properties']['station_number'] == o['num'],
                                              r['properties']['latitude'] == o['lat'], r['properties']['longitude'] == o['lon'],
                                              r['properties']['elevation'] == o['elev'], r['properties']['priority'] == o['pri'],
                                              r['properties']['state'] == o['state'].upper(), r['properties']['country'] == o['country'].upper(),
                                              r['properties']['date_time'] == o['when']))]
        env.check(len(hit) == 1, 'observation found once under its own station and time')
        env.check(hit[0]['values']['tmpc'] == env.f32(vals[k]), 'observation carries its own value')


scenario('C08', name='surface_two', budget=25, n=2, idlen=1,
         bounds='two observations: one-character ids, any numbers and times, any values; all relations between them')(surface_many)
scenario('C08', name='surface_three', budget=25, tbudget=500, n=3, idlen=1,
         bounds='three observations: one-character ids, any numbers and times, any values; all relations between them')(surface_many)
for _v in (('elev', 'pri'), ('state', 'country'), ('lat', 'lon')):
    scenario('C08', name='surface_two_' + _v[0], budget=20, n=2, idlen=0, vary=_v, years=(2020, 2020),
             bounds='two observations: any numbers and times in 2020, any ' + ' and '.join(_v) + '; all relations between them')(surface_many)


# ---------------------------------------------------------------------------
# soundings
# ---------------------------------------------------------------------------
def expect_snd(env, x, o, label=''):
    a = x.attrs
    env.check(a['station_id'] == o['id'].upper(), label + 'station identifier')
    env.check(a['station_number'] == o['num'], label + 'station number')
    env.check(a['elevation'] == o['elev'], label + 'elevation')
    env.check(a['state'] == o['state'].upper(), label + 'state')
    env.check(a['country'] == o['country'].upper(), label + 'country')


def sounding_one(env):
    e, d = env.mod(ENC), env.mod(DEC)
    n = env.p['levels']
    o = obs_input(env, 0, env.choice('idlen', env.p['idlens']), False)
    pres = [env.float(f'pres{i}', 0.01, 1100, f32=True) for i in range(n)]
    for i in range(n - 1):
        env.assume(pres[i] > pres[i + 1])
    temp = [env.float(f'temp{i}', -9e3, 1e6, nan=True) for i in range(n)]
    hght = [env.float(f'hght{i}', -9e3, 1e6, nan=i == 0) for i in range(n)]
    f = e.SoundingFile(['PRES', 'TEMP', 'HGHT'])
    when, kind = o['when'], env.p['when']
    arg = when
    if kind == 'string':
        arg = when.strftime('%Y%m%d%H%M')
    elif kind == 'forecast':
        fh = env.int('fhr', *env.p['fhr'])
        arg = when.strftime('%Y%m%d%H%M') + env.choice('F', ['F', 'f']) + env.tostr(fh)
        when = when + env.dt.timedelta(hours=fh)
        env.assume(when < env.dt.datetime(2069, 1, 1))
    A = env.np.array
    f.add_sounding({'hght': A(hght), 'TEMP': A(temp), 'PRES': A(pres)}, 43.25, -89.5, arg, info_of(o))
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSounding(p).snxarray()
    env.check(len(out) == 1, 'exactly one sounding')
    x = out[0]
    expect_snd(env, x, o)
    env.check(x.attrs['lat'] == 43.25 and x.attrs['lon'] == -89.5, 'exact coordinates')
    env.check(env.coord_time(x) == when, 'time')
    got = env.flat(env.coord(x, 'pres'))
    env.check(len(got) == n, 'number of levels')
    for i in range(n):
        env.check(got[i] == pres[i], f'pressure of level {i}')
    for name, vals in (('temp', temp), ('hght', hght)):
        pairs = env.masked(x, name)
        env.check(len(pairs) == n, f'{name}: number of values')
        for i in range(n):
            v, m = pairs[i]
            miss = env.isnan(vals[i])
            env.check(env.iff(m, miss), f'{name} {i}: missing exactly when given as NaN')
            env.check(env.Or(miss, v == env.f32(vals[i])), f'{name} {i}: value')


scenario('C07', name='sounding_one_meta', budget=20, levels=1, when='datetime', idlens=(0, 3, 4, 5, 8), slens=(2, 0, 4),
         bounds='one sounding of one level; station id of 0-8 letters/digits, any numbers, elevation, state/country of 0, 2 or 4 characters, any minute of 1969-2068')(sounding_one)
scenario('C07', name='sounding_one_string', budget=20, levels=1, when='string', idlens=(6,), slens=(2,),
         bounds='as above with the time given as a string')(sounding_one)
for _a, _b in ((0, 9), (10, 99), (100, 240)):
    scenario('C07', name=f'sounding_one_forecast{_a}', budget=15, tbudget=120, levels=1, when='forecast', idlens=(4,), slens=(2,), years=(2019, 2020),
             fhr=(_a, _b), bounds='as above with any initial minute of 2019-2020 given as a string with a forecast hour of %d-%d' % (_a, _b))(sounding_one)
scenario('C07', name='sounding_one_forecast_all', budget=60, tbudget=400, tiers=('thorough',), levels=1, when='forecast', idlens=(4,), slens=(2,),
         fhr=(0, 999), bounds='as above, 1969-2068, forecast hour of 0-999')(sounding_one)
scenario('C07', name='sounding_one_levels', budget=20, tbudget=200, levels=3, when='datetime', idlens=(4,), slens=(2,),
         bounds='one sounding of three levels with any values, NaN or not, in three parameters given in another order')(sounding_one)


def sounding_arrays(env):
    """The kinds of array a sounding may be given as."""
    e, d = env.mod(ENC), env.mod(DEC)
    kind = env.choice('kind', ['list', 'int16', 'int32', 'uint8', 'masked'])
    lo, hi = {'uint8': (0, 255), 'int16': (-9000, 32767)}.get(kind, (-9000, 10 ** 6))
    vals = [(env.float if kind in ('list', 'masked') else env.int)(f'temp{i}', lo, hi) for i in range(3)]
    gone = [kind == 'masked' and env.bool(f'gone{i}') for i in range(3)]
    if kind == 'list':
        a = list(vals)
    elif kind == 'masked':
        a = env.np.ma.array(env.np.array(vals), mask=gone)
    else:
        a = env.np.array(vals, dtype=kind)
    f = e.SoundingFile(['PRES', 'TEMP'])
    f.add_sounding({'PRES': env.np.array([1000, 500, 250], dtype='int16'), 'TEMP': a}, 43.25, -89.5, env.dt.datetime(2020, 2, 29, 23, 59),
                   {'station_id': 'KABC'})
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSounding(p).snxarray()
    env.check(len(out) == 1, 'exactly one sounding')
    env.check(list(env.flat(env.coord(out[0], 'pres'))) == [1000, 500, 250], 'levels')
    pairs = env.masked(out[0], 'temp')
    env.check(len(pairs) == 3, 'number of values')
    for i, (v, m) in enumerate(pairs):
        env.check(env.iff(m, gone[i]), f'{i}: missing exactly when masked')
        env.check(env.Or(m, v == env.f32(vals[i])), f'{i}: value')


scenario('C07', budget=20, bounds='one sounding of three levels given as a list, an array of 8, 16 or 32 bit integers or a masked array, any values and masks')(sounding_arrays)


@scenario('C08', budget=15, bounds='one observation of three parameters given as integers, numbers or masked')
def surface_numbers(env):
    e, d = env.mod(ENC), env.mod(DEC)
    names = ['TMPC', 'DWPC', 'SKNT']
    vals, want = {}, {}
    for n in names:
        kind = env.choice('kind' + n, ['int', 'float', 'masked', 'nan'])
        vals[n] = (env.int if kind == 'int' else env.float)('v' + n, -10 ** 6, 10 ** 6) if kind in ('int', 'float') else \
            env.ref('numpy').ma.masked if kind == 'masked' else float('nan')
        want[n.lower()] = env.f32(vals[n]) if kind in ('int', 'float') else -9999.0
    f = e.SurfaceFile(names)
    f.add_station(vals, 43.25, -89.5, env.dt.datetime(2020, 2, 29, 23, 59), {'station_id': 'KABC'})
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSurface(p).sfjson()
    env.check(len(out) == 1, 'exactly one observation')
    for n, w in want.items():
        env.check(out[0]['values'][n] == w, n)


def station_again(env):
    """Another file written at the path of one that has been read."""
    e, d, kind = env.mod(ENC), env.mod(DEC), env.p['kind']
    v = [env.float(f'v{k}', -9000, 1e6) for k in range(2)]
    num = [env.int(f'num{k}', 0, 99999) for k in range(2)]
    when = env.dt.datetime(2020, 1, 2, 3, 4)
    readers, p = [], env.path('a.gem')
    for k in range(2):
        info = {'station_id': 'KABC', 'station_number': num[k]}
        if kind == 'surface':
            f = e.SurfaceFile(['TMPC'])
            f.add_station({'TMPC': v[k]}, 40, -90, when, info)
        else:
            f = e.SoundingFile(['PRES', 'TEMP'])
            f.add_sounding({'PRES': env.np.array([1000.0]), 'TEMP': env.np.array([v[k]])}, 40, -90, when, info)
        f.to_gempak(p)
        readers.append((d.GempakSurface if kind == 'surface' else d.GempakSounding)(p))
        if k == 0 and env.bool('read'):
            readers[0].sfjson() if kind == 'surface' else readers[0].snxarray()
    for k in (1, 0, 1):
        r = readers[k]
        out = r.sfjson() if kind == 'surface' else r.snxarray()
        env.check(len(out) == 1, 'one entry')
        env.check((out[0]['properties'] if kind == 'surface' else out[0].attrs)['station_number'] == num[k], 'station of the file read')
        got = out[0]['values']['tmpc'] if kind == 'surface' else env.masked(out[0], 'temp')[0][0]
        env.check(got == env.f32(v[k]), 'data of the file read')


for _p, _k in (('C07', 'sounding'), ('C08', 'surface')):
    scenario(_p, name=f'{_k}_again', kind=_k, budget=10, bounds='two files of one entry of any number and value, written at the same path and read one after another')(station_again)


def sounding_many(env):
    e, d = env.mod(ENC), env.mod(DEC)
    n = env.p['n']
    obs = [obs_input(env, k, env.p['idlen'], True) for k in range(n)]
    lev = [env.choice(f'levels{k}', env.p['levels']) for k in range(n)]
    vals = [[env.float(f'temp{k}_{i}', -9e3, 1e6) for i in range(lev[k])] for k in range(n)]
    f = e.SoundingFile(['PRES', 'TEMP'])
    for k, o in enumerate(obs):
        f.add_sounding({'PRES': env.np.array([1000.0 - 100 * i for i in range(lev[k])]), 'TEMP': env.np.array(vals[k])},
                       o['lat'], o['lon'], o['when'], info_of(o))
    p = env.path('a.gem')
    f.to_gempak(p)
    out = d.GempakSounding(p).snxarray()
    final = {}
    for k, o in enumerate(obs):
        if not any(bool(same_obs(env, o, obs[j])) for j in range(k + 1, n)):
            final[k] = o
    env.check(len(out) == len(final), 'every sounding exactly once')
    for k, o in final.items():
        hit = [r for r in out if bool(env.And(r.attrs['station_id'] == o['id'].upper(), r.attrs['station_number'] == o['num'],
                                              r.attrs['lat'] == o['lat'], r.attrs['lon'] == o['lon'], r.attrs['elevation'] == o['elev'],
                                              r.attrs['state'] == o['state'].upper(), r.attrs['country'] == o['country'].upper(),
                                              env.coord_time(r) == o['when']))]
        env.check(len(hit) == 1, 'sounding found once under its own station and time')
        pairs = env.masked(hit[0], 'temp')
        env.check(len(pairs) == lev[k], 'sounding has its own levels')
        for i in range(lev[k]):
            env.check(env.And(env.Not(pairs[i][1]), pairs[i][0] == env.f32(vals[k][i])), 'sounding carries its own values')


scenario('C07', name='sounding_two', budget=25, n=2, idlen=1, levels=(1, 2),
         bounds='two soundings of one or two levels: one-character ids, any numbers and times; all relations between them')(sounding_many)
scenario('C07', name='sounding_three', budget=25, tbudget=500, n=3, idlen=1, levels=(1,),
         bounds='three soundings of one level: one-character ids, any numbers and times; all relations between them')(sounding_many)
for _v in (('elev',), ('state', 'country'), ('lat', 'lon')):
    scenario('C07', name='sounding_two_' + _v[0], budget=20, n=2, idlen=0, vary=_v, years=(2020, 2020), levels=(1,),
             bounds='two soundings: any numbers and times in 2020, any ' + ' and '.join(_v) + '; all relations between them')(sounding_many)


def station_large(env):
    """Many stations, times, levels or parameters, of which a few have any number and value."""
    e, d, kind = env.mod(ENC), env.mod(DEC), env.p['kind']
    ns, nt, nl, npar = env.p['size']
    snd = kind == 'sounding'
    par = (['PRES', 'TEMP'] if snd else ['TMPC', 'DWPC'])[:npar] + [f'P{k:03d}' for k in range(npar - 2)]
    f = (e.SoundingFile if snd else e.SurfaceFile)(par)
    start = env.dt.datetime(2019, 12, 30, 1, 7)
    cells = [(i, j) for i in range(nt) for j in range(ns) if (i + j) % 7 or i == j == 0]
    free = {cells[q * (len(cells) - 1) // 2] for q in range(3)}
    odd = {j: env.int(f'num{j}', 10000, 99999) for j in sorted({j for _, j in free})}
    given = {}
    for i, j in cells:
        n = 1 + (i * 3 + j) % 4 if nl is None else nl
        rows = [[1000.0 - q if (k, snd) == (0, True) else float(i * 100 + j * 10 + k) + q / 4 for q in range(n if snd else 1)] for k in range(npar)]
        if (i, j) in free:
            rows[-1][-1] = env.float(f'first{i}_{j}', -9000, 1e6)
            if npar > 3:
                rows[npar // 2][0] = env.float(f'mid{i}_{j}', -9000, 1e6)
        given[i, j] = rows
        info = {'station_id': f'S{j}', 'station_number': odd.get(j, j), 'elevation': j % 50, 'state': 'WI', 'country': 'US'}
        when = start + env.dt.timedelta(hours=7 * i)
        if snd:
            f.add_sounding({p: env.np.array(v) for p, v in zip(par, rows)}, 40 + j % 9, -90 + j / 4, when, info)
        else:
            f.add_station({p: v[0] for p, v in zip(par, rows)}, 40 + j % 9, -90 + j / 4, when, info)
    p = env.path('a.gem')
    f.to_gempak(p)
    r = (d.GempakSounding if snd else d.GempakSurface)(p)
    out = r.snxarray() if snd else r.sfjson()
    listed = r.sninfo() if snd else r.sfinfo()
    env.check(len(out) == len(cells) and len(listed) == len(cells), 'every entry exactly once')
    at = {}
    for x in out:
        a = x.attrs if snd else x['properties']
        t = env.coord_time(x) if snd else a['date_time']
        at[t, a['station_id']] = x
    for i, j in cells:
        x = at.get((start + env.dt.timedelta(hours=7 * i), f'S{j}'))
        env.check(x is not None, 'entry of its own time and station')
        a = x.attrs if snd else x['properties']
        la, lo = (a['lat'], a['lon']) if snd else (a['latitude'], a['longitude'])
        env.check(env.And(a['station_number'] == odd.get(j, j), a['elevation'] == j % 50, la == 40 + j % 9, lo == -90 + j / 4), 'station')
        rows, good = given[i, j], []
        for k, name in enumerate(par):
            if not snd:
                good.append(x['values'][name.lower()] == env.f32(rows[k][0]))
                continue
            if k == 0:
                got = list(env.flat(env.coord(x, 'pres')))
                good.append(len(got) == len(rows[0]) and all(g == w for g, w in zip(got, rows[0])))
                continue
            pairs = env.masked(x, name.lower())
            good.append(len(pairs) == len(rows[k]))
            good += [env.And(env.Not(m), v == env.f32(w)) for (v, m), w in zip(pairs, rows[k])]
        env.check(env.And(*good), 'values')


for _k, _n, _s in (('surface', 'stations', (300, 1, 1, 1)), ('surface', 'times', (2, 132, 1, 2)), ('surface', 'parameters', (3, 2, 1, 40)), ('surface', 'both', (24, 20, 1, 3)),
                   ('sounding', 'stations', (260, 1, None, 2)), ('sounding', 'times', (2, 140, None, 2)), ('sounding', 'levels', (2, 2, 300, 4)),
                   ('sounding', 'parameters', (2, 2, 3, 40))):
    scenario('C07' if _k == 'sounding' else 'C08', name=f'{_k}_large_{_n}', kind=_k, size=_s, budget=30,
             bounds=f'{_s[0]} stations, {_s[1]} times, {_s[2] or "1-4"} levels, {_s[3]} parameters, three entries of any number and one or two values')(station_large)


def written_twice(env):
    """More entries added to a file that has been written, and written again."""
    e, d, kind = env.mod(ENC), env.mod(DEC), env.p['kind']
    when = [env.datetime(f'when{k}', 2020, 2020) for k in range(2)]
    num = [env.int(f'num{k}', 0, 99999) for k in range(2)]
    v = [env.float(f'v{k}', -9000, 1e6) for k in range(2)]
    snd = kind == 'sounding'
    f = e.SoundingFile(['PRES', 'TEMP']) if snd else e.SurfaceFile(['TMPC'])
    same = env.And(when[0] == when[1], num[0] == num[1])
    for k in range(2):
        info = {'station_id': 'KABC', 'station_number': num[k]}
        if snd:
            f.add_sounding({'PRES': env.np.array([1000.0]), 'TEMP': env.np.array([v[k]])}, 40, -90, when[k], info)
        else:
            f.add_station({'TMPC': v[k]}, 40, -90, when[k], info)
        p = env.path(env.choice(f'file{k}', ['a.gem', 'b.gem']) if k else 'a.gem')
        f.to_gempak(p)
    r = (d.GempakSounding if snd else d.GempakSurface)(p)
    out = r.snxarray() if snd else r.sfjson()
    env.check(len(out) == (1 if bool(same) else 2), 'every entry exactly once')
    for k in range(2):
        if k == 0 and bool(same):
            continue
        hit = []
        for x in out:
            a = x.attrs if snd else x['properties']
            if bool(env.And(a['station_number'] == num[k], (env.coord_time(x) if snd else a['date_time']) == when[k])):
                hit.append(env.masked(x, 'temp')[0][0] if snd else x['values']['tmpc'])
        env.check(len(hit) == 1, 'entry found once')
        env.check(hit[0] == env.f32(v[k]), 'its own value')


for _p, _k in (('C07', 'sounding'), ('C08', 'surface')):
    scenario(_p, name=f'{_k}_written_twice', kind=_k, budget=20, bounds='an entry of any number, time and value added to a written file, which is written again at the same path or another')(written_twice)


NAMES = ('A', 'AB', 'B', 'ABC', 'BC', 'PR')


def station_names(env):
    """Parameters of any names, which may be parts of one another."""
    e, d, snd = env.mod(ENC), env.mod(DEC), env.p['kind'] == 'sounding'
    names = []
    for k in range(3):
        left = [x for x in NAMES if x not in names]
        names.append(env.choice(f'name{k}', left))
    form = env.choice('form', ('list', 'lower', 'tuple', 'array'))
    low = form == 'lower'
    formed = {'tuple': tuple, 'array': env.np.array}.get(form, list)
    vals = [env.float(f'v{k}', -9000, 1e6) for k in range(3)]
    given = {(n.lower() if low else n): v for n, v in zip(names, vals)}
    p, when, info = env.path('a.gem'), env.dt.datetime(2020, 2, 29, 23, 59), {'station_id': 'KABC'}
    if snd:
        f = e.SoundingFile(formed(['PRES', *given]))
        f.add_sounding({'PRES': env.np.array([1000.0]), **{n: env.np.array([v]) for n, v in given.items()}}, 43.25, -89.5, when, info)
        f.to_gempak(p)
        out = d.GempakSounding(p).snxarray()
        env.check(len(out) == 1, 'exactly one sounding')
        got = [[v for v, m in env.masked(out[0], n.lower()) if not m] for n in names]
    else:
        f = e.SurfaceFile(formed(list(given)))
        f.add_station(given, 43.25, -89.5, when, info)
        f.to_gempak(p)
        out = d.GempakSurface(p).sfjson()
        env.check(len(out) == 1, 'exactly one observation')
        env.check(len(out[0]['values']) == 3, 'exactly the parameters')
        got = [[out[0]['values'][n.lower()]] for n in names]
    for g, v in zip(got, vals):
        env.check(len(g) == 1 and g[0] == env.f32(v), 'value')


for _p, _k in (('C07', 'sounding'), ('C08', 'surface')):
    scenario(_p, name=f'{_k}_names', kind=_k, budget=40, bounds='three parameters of all names of a set of six, parts of one another, given as a list, tuple or array, any values')(station_names)
