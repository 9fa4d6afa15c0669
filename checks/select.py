"""Selections of grids, soundings and surface observations, and the nearest-time query."""
from sx.harness import scenario
from checks.dmfile import REAL, build, navigation, analysis
from checks.reader import DEC, GCOLS, GPART, LL, SCOLS, SROWS, UR, gcol

UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
BOTH = UPPER + UPPER.lower()
CODES = {0: 'NONE', 1: 'PRES', 2: 'THTA', 3: 'HGHT', 4: 'SGMA', 5: 'DPTH', 6: 'HYBD', 7: 'PVAB', 8: 'PVBL'}


# ---------------------------------------------------------------------------
# forms of a filter
# ---------------------------------------------------------------------------
def formed(env, form, make):
    """(argument, list of values) for a filter made of make(0), make(1)."""
    if form == 'single':
        v = make(0)
        return v, [v]
    n = 2 if form.endswith('2') else 1
    vs = [make(k) for k in range(n)]
    if form.startswith('array'):
        return env.np.array(vs), vs
    return (tuple(vs) if form.startswith('tuple') else list(vs)), vs


def time_filter(env, name, form, times):
    """Argument and times wanted; times: those of the entries of the file."""
    if form in ('first', 'FIRST', 'last', 'LAST'):
        ts = [t for t in times if t is not None]
        best = []
        for k, t in enumerate(ts):
            best.append(env.And(*[(t <= u if form.lower() == 'first' else t >= u) for u in ts]))
        return form, ('extreme', best)
    base = form.replace('text', '') or 'single'
    ts = [a_time(env, f'{name}{k}') for k in range(2 if base.endswith('2') else 1)]
    args = [t.strftime('%Y%m%d%H%M') if 'text' in form and (k == 0 or 'array' in form) else t for k, t in enumerate(ts)]
    if base == 'single':
        return args[0], ts
    if base.startswith('array'):
        return env.np.array(args), ts
    return (tuple(args) if base.startswith('tuple') else args), ts


def a_time(env, name, days=28):
    day = env.int(f'{name}_day', 1, days)
    hour = env.choice(f'{name}_hour', (0, 12))
    return env.dt.datetime(2020, 1, day, hour, 30 if hour else 0)


def words_of(t):
    return 200100 + t.day, t.hour * 100 + t.minute


def among(env, value, wanted, upper=False):
    if value is None:
        return False
    return env.Or(*[value == (w.upper() if upper else w) for w in wanted]) if wanted else False


def decide(env, n, matches, call, mark):
    """The call returns exactly the entries that match, or raises a KeyError if there are none."""
    try:
        out = call()
    except KeyError:
        env.check_all([env.Not(m) for m in matches], 'no match, yet an entry satisfies the filters')
        return
    got = [mark(x) for x in out]
    env.check(len(got) > 0, 'a KeyError when nothing matches')
    env.check(len(set(got)) == len(got), 'no entry twice')
    for k in range(n):
        env.check(matches[k] if k in got else env.Not(matches[k]), f'entry {k} ' + ('returned' if k in got else 'not returned'))
    return got


# ---------------------------------------------------------------------------
# C15: grids
# ---------------------------------------------------------------------------
def grids(env):
    n, vary, filters = env.p['n'], env.p['vary'], env.p['filters']
    ent = []
    for k in range(n):
        e = {'when': env.dt.datetime(2020, 1, 2), 'fhr': 0, 'when2': None, 'name': 'TMPK', 'level': 500, 'level2': None, 'vc': 1}
        if 'when' in vary:
            e['when'] = a_time(env, f'when{k}')
        if 'fhr' in vary:
            e['fhr'] = env.int(f'fhr{k}', 0, 240)
        if 'when2' in vary:
            e['when2'] = a_time(env, f'second{k}') if env.choice(f'has_second{k}', (True, False)) else None
        if 'name' in vary:
            e['name'] = env.str(f'name{k}', env.p.get('namelen', 4), alphabet=env.p.get('letters', UPPER) + '0123456789')
        if 'level' in vary:
            e['level'] = env.int(f'level{k}', -5, 2000)
        if 'level2' in vary:
            e['level2'] = env.int(f'level2{k}', -5, 2000)
        if 'vc' in vary:
            e['vc'] = env.choice(f'vc{k}', tuple(range(9)) if k == 0 else (0, 1, 3, 8))
        ent.append(e)
    cols = []
    for e in ent:
        ymd, hm = words_of(e['when'])
        ymd2, hm2 = words_of(e['when2']) if e['when2'] is not None else (0, 0)
        name = e['name'] + ' ' * (12 - len(e['name']))
        cols.append([ymd, 100000 + hm + e['fhr'] * 100 if 'fhr' in vary else hm, ymd2, hm2, e['level'], -1 if e['level2'] is None else e['level2'],
                     e['vc'], name[:4], name[4:8], name[8:12]])
    cells = {(0, k, 0): [('i', 1), ('i', 1), ('i', 0), ('f', float(k))] for k in range(n)}
    p = env.path('g.gem')
    env.write_file(p, build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], cells, nav=navigation('CED', 1, 1, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR)))
    g = env.mod(DEC).GempakGrid(p)
    for e in ent:
        e['valid'] = e['when'] + env.dt.timedelta(hours=e['fhr']) if 'fhr' in vary else e['when']
    args, conds = {}, [[] for _ in ent]
    for f, form in filters:
        if f == 'parameter':
            args[f], want = formed(env, form, lambda k: env.str(f'want_name{k}', env.p.get('namelen', 4), alphabet=BOTH + '0123456789'))
            test = lambda e: among(env, e['name'].upper(), want, True)
        elif f == 'coordinate':
            args[f], want = formed(env, form, lambda k: env.choice(f'want_vc{k}', ('pres', 'None', 'PVBL', 'HgHt', 'hybd', 'PV')))
            test = lambda e: any(CODES[e['vc']] == w.upper() for w in want)
        elif f in ('level', 'level2'):
            args[f], want = formed(env, form, lambda k: env.int(f'want_{f}{k}', -5, 2000))
            test = lambda e: env.And(among(env, e[f], want), e[f] >= 0) if e[f] is not None else False
        else:
            key = 'valid' if f == 'date_time' else 'when2'
            args[f], want = time_filter(env, f'want_{f}', form, [e[key] for e in ent])
            if isinstance(want, tuple):
                best = dict(zip([id(e) for e in ent if e[key] is not None], want[1]))
                test = lambda e: best.get(id(e), False)
            else:
                test = lambda e: among(env, e[key], want)
        for e, c in zip(ent, conds):
            c.append(test(e))
    match = [env.And(*c) if c else True for c in conds]

    def ask():
        got = decide(env, n, match, lambda: g.gdxarray(**args), lambda x: int(env.masked(x)[0][0]))
        if got:
            env.check(got == sorted(got), 'order of the file')
    earlier(env, g.gdxarray)
    ask()
    if 'prior' in env.p:
        decide(env, n, [True] * n, g.gdxarray, lambda x: int(env.masked(x)[0][0]))
        ask()


def earlier(env, query):
    """Other queries made of the same reader before."""
    for q in env.p.get('prior', ()):
        try:
            query(**q)
        except KeyError:
            pass


def add(prop, fn, name, **kw):
    scenario(prop, name=name, **kw)(fn)


def grid_case(name, vary, *filters, n=3, **kw):
    add('C15', grids, name, n=n, vary=vary, filters=filters, budget=kw.pop('budget', 25), tbudget=90,
        bounds=f'{n} grids with any {", ".join(vary) or "value"}; filters {", ".join(" as ".join(f) for f in filters) or "none"} of any value', **kw)


FORMS = ('single', 'list', 'tuple', 'list2', 'tuple2', 'array', 'array2')
grid_case('none', ('level',))
for _f in FORMS:
    grid_case(f'parameter_{_f}', ('name',), ('parameter', _f), n=2 if '2' in _f else 3)
    grid_case(f'level_{_f}', ('level',), ('level', _f))
    grid_case(f'level2_{_f}', ('level2',), ('level2', _f))
    grid_case(f'coordinate_{_f}', ('vc',), ('coordinate', _f), n=2)
for _f in ('single', 'text', 'list', 'textlist2', 'tuple2', 'texttuple', 'array', 'array2', 'textarray2', 'first', 'FIRST', 'last', 'LAST'):
    grid_case(f'time_{_f}', ('when',), ('date_time', _f), n=2 if _f in ('single', 'text', 'list', 'texttuple') else 2)
    grid_case(f'time2_{_f}', ('when2',), ('date_time2', _f), n=2)
grid_case('time_first_3', ('when',), ('date_time', 'first'))
grid_case('time_last_3', ('when',), ('date_time', 'last'))
grid_case('forecast', ('fhr',), ('date_time', 'single'))
grid_case('forecast_last', ('fhr',), ('date_time', 'last'))
grid_case('name_case', ('name',), ('parameter', 'list2'), n=2, letters=BOTH)
grid_case('name_long', ('name',), ('parameter', 'single'), n=2, namelen=9)
grid_case('last_and_level', ('fhr', 'level'), ('date_time', 'last'), ('level', 'single'), n=2)
grid_case('first_and_name', ('fhr', 'name'), ('date_time', 'first'), ('parameter', 'list'), n=2)
for _t in ('first', 'LAST'):
    for _f, _v in (('parameter', 'name'), ('level', 'level'), ('level2', 'level2'), ('coordinate', 'vc')):
        grid_case(f'{_t}_with_{_f}', ('fhr', _v), ('date_time', _t), (_f, 'single'), n=2)
        grid_case(f'second_{_t}_with_{_f}', ('when2', _v), ('date_time2', _t), (_f, 'single'), n=2)
    grid_case(f'{_t}_with_second_time', ('fhr', 'when2'), ('date_time', _t), ('date_time2', 'single'), n=2)
    grid_case(f'second_{_t}_with_time', ('fhr', 'when2'), ('date_time', 'single'), ('date_time2', _t), n=2)
for _n, _v, _fs, _q in (('name', ('name', 'level'), (('parameter', 'single'),), ({'parameter': 'TMPK'}, {'level': 500})),
                        ('level', ('level',), (('level', 'list2'),), ({'level': 500}, {'level': [850, 0]}, {'coordinate': 'PRES', 'date_time': 'last'})),
                        ('time', ('fhr', 'level2'), (('date_time', 'last'), ('level2', 'single')), ({'date_time': 'last'}, {'date_time': 'first', 'level2': 700}, {'date_time2': 'last'}))):
    grid_case(f'history_{_n}', _v, *_fs, n=2, prior=_q)
grid_case('levels', ('level', 'level2'), ('level', 'list2'), ('level2', 'single'), n=2)
grid_case('name_level', ('name', 'level'), ('parameter', 'single'), ('level', 'list2'), n=2)
grid_case('coordinate_level', ('vc', 'level'), ('coordinate', 'single'), ('level', 'single'), n=2)
grid_case('times', ('fhr', 'when2'), ('date_time', 'single'), ('date_time2', 'single'), n=2)
grid_case('all', ('fhr', 'name', 'level', 'level2'), ('parameter', 'list'), ('level', 'tuple'), ('level2', 'single'), ('date_time', 'single'), ('coordinate', 'single'), n=2, budget=40)


def without_data(env):
    """Grids without data give nothing, and the others their own data."""
    n, order = env.p['n'], env.p['order']
    has = [env.choice(f'has{k}', (True, False)) for k in range(n)]
    values = [env.float(f'v{k}', -100000, 100000, f32=True) for k in range(n)]
    env.assume(env.And(*[v != -9999.0 for v in values]))
    levels = [env.int(f'level{k}', 1, 1000) for k in range(n)]
    names = [env.choice(f'name{k}', ('DWPK', 'TMPK')) for k in range(n)]
    cols = [[200101, 0, 0, 0, levels[k], -1, 1, names[k], '    ', '    '] for k in range(n)]
    cells = {(0, k, 0): [('i', 1), ('i', 1), ('i', 0), ('f', values[k])] for k in range(n) if has[k]}
    p = env.path('g.gem')
    env.write_file(p, build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], cells, order=order, gap=env.p['gap'],
                            nav=navigation('CED', 1, 1, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR)))
    g = env.mod(DEC).GempakGrid(p)
    wanted = env.p['wanted']
    try:
        got = g.gdxarray(**({'parameter': wanted} if wanted else {}))
    except KeyError:
        got = []
    want = [k for k in range(n) if has[k] and wanted in (None, names[k])]
    env.check(len(got) == len(want), 'one array for each grid with data')
    env.check(all(x.name == names[k].lower() for x, k in zip(got, want)), 'names')
    for x, k in zip(got, want):
        v, m = env.masked(x)[0]
        env.check(env.And(env.Not(m), v == values[k]), f'data of grid {k}')
        env.check(env.flat(env.coord(x, 'pres'))[0] == levels[k], f'level of grid {k}')


for _o in ('<', '>'):
    for _g in (0, 3):
        for _w in (None, 'TMPK'):
            add('C05', without_data, f'without_data_{"little" if _o == "<" else "big"}_{_g}_{_w or "all"}', n=3, order=_o, gap=_g, wanted=_w, budget=20,
                bounds='three grids, any of which lack data, any values and levels')


# ---------------------------------------------------------------------------
# C16, C17: soundings and surface observations
# ---------------------------------------------------------------------------
def length(env, what, k, usual=2):
    """Characters of a name: those of stations may differ, and those asked for."""
    return env.p['lengths'][k] if 'lengths' in env.p else usual


def wanted_length(env, what, k, usual=2):
    return env.p['wanted'][k] if 'wanted' in env.p else usual


def places(env, n, vary):
    out, letters = [], env.p.get('letters', UPPER)
    for k in range(n):
        s = {'id': ('KABC', 'KXYZ', 'CW')[k], 'number': 70000 + k, 'lat': 4000 + 100 * k, 'lon': -9000 - 100 * k, 'state': ('WI', 'IL', 'MN')[k], 'country': 'US'}
        if 'id' in vary:
            s['id'] = env.str(f'id{k}', length(env, 'id', k, env.p.get('idlen', 4)), alphabet=letters + '0123456789')
        if 'number' in vary:
            s['number'] = env.int(f'number{k}', -9999, 999999)
        if 'state' in vary:
            s['state'] = env.str(f'state{k}', length(env, 'state', k), alphabet=letters)
        if 'country' in vary:
            s['country'] = env.str(f'country{k}', length(env, 'country', k), alphabet=letters)
        if 'elev' in vary:
            s['elev'] = env.int(f'elev{k}', -9999, 30000)
        if 'place' in vary:
            s['lat'], s['lon'] = env.int(f'lat{k}', -9000, 9000), env.int(f'lon{k}', -18000, 18000)
        out.append(s)
    return out


def station_values(s, keys, mark):
    full = s['id'] + ' ' * (8 - len(s['id']))
    v = {'STID': full[:4], 'STD2': full[4:], 'STNM': s['number'], 'SLAT': s['lat'], 'SLON': s['lon'], 'SELV': s.get('elev', mark), 'STAT': s['state'] + '  ',
         'COUN': s['country'] + '  ', 'SPRI': 0}
    return [v[k] for k in keys]


def observations(env, kind, layout):
    """Entries (station, time, mark) and the file that holds them. Marks are elevations, one for each entry where the layout permits."""
    vary = env.p['vary']
    nst, nt = env.p['stations'], env.p['times']
    st = places(env, nst, vary)
    when = [env.dt.datetime(2020, 1, 1 + k, 12, 30) for k in range(nt)]
    if 'when' in vary:
        when = [a_time(env, f'when{k}') for k in range(nt)]
    drop = env.p.get('drop', ())
    ent = [(k, t) for t in range(nt) for k in range(nst) if (k, t) not in drop]
    skeys = SCOLS
    if kind == 'sounding':
        parts, cell = [('SNDT', 1, REAL, [('PRES', 0, 0, 0), ('TEMP', 0, 0, 0)])], lambda k, t: [('i', 1), ('f', 1000.0), ('f', 10.0 * k + t)]
    else:
        parts, cell = [('SFDT', 1, REAL, [('TMPC', 0, 0, 0)])], lambda k, t: [('i', 1), ('f', 10.0 * k + t)]
    if layout == 'ship':
        rk, rows, ck = ['GROW'], [[1]], SROWS + skeys
        cols = [list(words_of(when[t])) + station_values(st[k], skeys, 0) for k, t in ent]
        cells = {(0, n, 0): cell(*o) for n, o in enumerate(ent)}
    else:
        srt = [station_values(s, skeys, 0) for s in st]
        tm = [list(words_of(t)) for t in when]
        if layout == 'climate':
            rk, rows, ck, cols, cells = skeys, srt, SROWS, tm, {(k, t, 0): cell(k, t) for k, t in ent}
        else:
            rk, rows, ck, cols, cells = SROWS, tm, skeys, srt, {(t, k, 0): cell(k, t) for k, t in ent}
    p = env.path('s.gem')
    env.write_file(p, build(env, kind, rk, rows, ck, cols, parts, cells))
    return p, st, when, ent


def station_filter(env, f, form, st):
    """Argument and test of a station."""
    if f == 'station_id':
        arg, want = formed(env, form, lambda k: env.str(f'want_id{k}', wanted_length(env, 'id', k, env.p.get('idlen', 4)), alphabet=BOTH + '0123456789'))
        return arg, lambda s: among(env, s['id'].upper(), want, True)
    if f == 'station_number':
        if form.startswith('text'):
            numbers = [env.choice(f'want_number{k}', (70001, 70000, 5, 0)) for k in range(2 if form.endswith('2') else 1)]
            arg = [str(numbers[0])] + numbers[1:] if form != 'text' else str(numbers[0])
            return arg, lambda s: among(env, s['number'], numbers)
        arg, want = formed(env, form, lambda k: env.int(f'want_number{k}', -9999, 999999))
        return arg, lambda s: among(env, s['number'], want)
    if f in ('state', 'country'):
        arg, want = formed(env, form, lambda k: env.str(f'want_{f}{k}', wanted_length(env, f, k), alphabet=BOTH))
        return arg, lambda s: among(env, s[f].upper(), want, True)
    if f == 'bbox':
        if form == 'edge':
            box = [st[0]['lon'] / 100, env.float('right', -400, 400), st[0]['lat'] / 100, env.float('top', -400, 400)]
        elif form == 'edge2':
            box = [env.float('left', -400, 400), st[0]['lon'] / 100, env.float('bottom', -400, 400), st[0]['lat'] / 100]
        else:
            box = [env.float(n, -400, 400) for n in ('left', 'right', 'bottom', 'top')]
        arg = tuple(box) if form == 'tuple' else list(box)
        return arg, lambda s: env.And(s['lon'] / 100 >= box[0], s['lon'] / 100 <= box[1], s['lat'] / 100 >= box[2], s['lat'] / 100 <= box[3])
    raise KeyError(f)


def stations(env):
    kind, layout = env.p['kind'], env.p.get('layout', 'standard')
    p, st, when, ent = observations(env, kind, layout)
    d = env.mod(DEC)
    g = d.GempakSounding(p) if kind == 'sounding' else d.GempakSurface(p)
    args, conds = {}, [[] for _ in ent]
    for f, form in env.p['filters']:
        if f == 'date_time':
            used = sorted({t for _, t in ent})
            args[f], want = time_filter(env, 'want', form, [when[t] for t in used])
            for (k, t), c in zip(ent, conds):
                c.append(want[1][used.index(t)] if isinstance(want, tuple) else among(env, when[t], want))
        else:
            args[f], test = station_filter(env, f, form, st)
            for (k, t), c in zip(ent, conds):
                c.append(test(st[k]))
    if kind == 'sounding':
        call, mark = lambda: g.snxarray(**args), lambda x: int(env.masked(x['temp'])[0][0])
    else:
        call, mark = lambda: g.sfjson(**args), lambda x: int(env.flat(x['values']['tmpc'])[0])
    where = {10 * k + t: n for n, (k, t) in enumerate(ent)}
    match = [env.And(*c) if c else True for c in conds]
    earlier(env, g.snxarray if kind == 'sounding' else g.sfjson)
    decide(env, len(ent), match, call, lambda x: where[mark(x)])
    if 'prior' in env.p:
        decide(env, len(ent), [True] * len(ent), g.snxarray if kind == 'sounding' else g.sfjson, lambda x: where[mark(x)])
        decide(env, len(ent), match, call, lambda x: where[mark(x)])




def station_case(prop, name, vary, *filters, stations_=2, times=1, **kw):
    add(prop, stations, name, kind='sounding' if prop == 'C16' else 'surface', vary=vary, filters=filters, stations=stations_, times=times,
        budget=kw.pop('budget', 25), tbudget=90,
        bounds=f'{stations_} stations at {times} times ({kw.get("layout", "standard")}) with any {", ".join(vary) or "value"}; filters '
               f'{", ".join(" as ".join(f) for f in filters) or "none"} of any value', **kw)


for _p in ('C16', 'C17'):
    station_case(_p, 'none', ('number',), stations_=2, times=2)
    for _f in FORMS:
        station_case(_p, f'id_{_f}', ('id',), ('station_id', _f))
        station_case(_p, f'number_{_f}', ('number',), ('station_number', _f))
        station_case(_p, f'state_{_f}', ('state',), ('state', _f))
        station_case(_p, f'country_{_f}', ('country',), ('country', _f))
    station_case(_p, 'id_long', ('id',), ('station_id', 'single'), idlen=7)
    station_case(_p, 'id_case', ('id',), ('station_id', 'list2'), letters=BOTH)
    station_case(_p, 'places_case', ('state', 'country'), ('state', 'single'), ('country', 'list2'), letters=BOTH)
    for _f, _v in (('station_id', 'id'), ('state', 'state'), ('country', 'country')):
        for _w, _lens in (('single', (2, 0)), ('list2', (3, 1)), ('single', (1, 0)), ('tuple2', (1, 2))):
            station_case(_p, f'{_v}_lengths_{_w}_{_lens[0]}', (_v,), (_f, _w), lengths=(2, 3), wanted=_lens)
    station_case(_p, 'blank', ('id', 'number', 'elev', 'state', 'country'), lengths=(0, 2))
    station_case(_p, 'blank_box', ('id', 'number', 'elev', 'place'), ('bbox', 'list'), lengths=(0, 3))
    station_case(_p, 'blank_last', ('id', 'number', 'elev', 'when'), ('date_time', 'last'), lengths=(0, 3), times=2)
    station_case(_p, 'id_short', ('id',), ('station_id', 'list'), idlen=2)
    for _f in ('text', 'textlist', 'textlist2'):
        station_case(_p, f'number_{_f}', ('number',), ('station_number', _f))
    for _f in ('list', 'tuple', 'edge', 'edge2'):
        station_case(_p, f'bbox_{_f}', ('place',), ('bbox', _f), stations_=2 if 'edge' in _f else 3)
    for _f in ('single', 'text', 'list', 'textlist2', 'tuple2', 'texttuple', 'array', 'array2', 'textarray2', 'first', 'FIRST', 'last', 'LAST'):
        station_case(_p, f'time_{_f}', ('when',), ('date_time', _f), times=2, drop=((1, 1),))
    station_case(_p, 'first_and_state', ('when', 'state'), ('date_time', 'first'), ('state', 'single'), times=2, drop=((0, 0),))
    station_case(_p, 'last_and_id', ('when', 'id'), ('date_time', 'last'), ('station_id', 'list'), times=2, drop=((1, 1),))
    station_case(_p, 'last_and_box', ('when', 'place'), ('date_time', 'LAST'), ('bbox', 'list'), times=2, drop=((0, 1),))
    for _f, _v in (('station_number', 'number'), ('country', 'country'), ('state', 'state'), ('station_id', 'id'), ('bbox', 'place')):
        for _t in ('first', 'last'):
            station_case(_p, f'{_t}_with_{_v}', (_v,), ('date_time', _t), (_f, 'list' if _f == 'bbox' else 'single'), times=2, drop=((0, 0),) if _t == 'first' else ((0, 1),))
    station_case(_p, 'id_number', ('id', 'number'), ('station_id', 'single'), ('station_number', 'single'))
    station_case(_p, 'state_country', ('state', 'country'), ('state', 'list2'), ('country', 'single'))
    station_case(_p, 'all', ('id', 'number', 'state', 'country', 'place'), ('station_id', 'single'), ('station_number', 'single'), ('state', 'single'), ('country', 'single'),
                 ('bbox', 'list'), ('date_time', 'last'), times=1, budget=40)
    for _n, _v, _fs, _q in (('id', ('id', 'when'), (('station_id', 'single'),), ({'date_time': 'last'}, {'station_id': 'KABC'})),
                            ('number', ('number',), (('station_number', 'list'), ('date_time', 'first')), ({'station_number': 5}, {'state': 'WI'}, {'date_time': 'LAST'})),
                            ('box', ('place',), (('bbox', 'list'),), ({'bbox': (-100, -80, 30, 50)}, {'country': 'us'})),
                            ('state', ('state', 'when'), (('state', 'tuple'), ('date_time', 'last')), ({'state': 'WI', 'date_time': 'last'}, {'bbox': (0, 1, 0, 1)}))):
        station_case(_p, f'history_{_n}', _v, *_fs, times=2, drop=((1, 1),), prior=_q)
for _l in ('ship', 'climate'):
    station_case('C17', f'{_l}_id', ('id',), ('station_id', 'list2'), layout=_l, times=2)
    station_case('C17', f'{_l}_number', ('number',), ('station_number', 'single'), layout=_l, times=2)
    station_case('C17', f'{_l}_box', ('place',), ('bbox', 'list'), layout=_l, times=1)
    for _f in ('single', 'textlist2', 'first', 'last'):
        station_case('C17', f'{_l}_time_{_f}', ('when',), ('date_time', _f), layout=_l, times=2, drop=((1, 1),))
    station_case('C17', f'{_l}_last_state', ('when', 'state'), ('date_time', 'last'), ('state', 'single'), layout=_l, times=2, drop=((0, 1),))


# ---------------------------------------------------------------------------
# C18: nearest observation
# ---------------------------------------------------------------------------
def minutes(env, name):
    """A time of 2020 to the minute."""
    day, hour, minute = env.int(f'{name}_day', 1, 3), env.int(f'{name}_hour', 0, 23), env.int(f'{name}_minute', 0, 59)
    return env.dt.datetime(2020, 1, day, hour, minute), (day * 24 + hour) * 60 + minute


def nearest(env):
    layout, form = env.p['layout'], env.p['form']
    nst, nt = env.p['stations'], env.p['times']
    st = places(env, nst, env.p['vary'])
    if env.p.get('blank'):
        for s in st:
            s['id'] = ''
    if env.p.get('alike'):
        for s in st:
            s['id'] = 'KABC'
    if env.p.get('zero'):
        for s in st:
            s['number'] = 0
    for i in range(nst):
        for j in range(i):
            env.assume(env.Not(env.And(st[i]['id'] == st[j]['id'], st[i]['number'] == st[j]['number'])))
    drop = env.p.get('drop', ())
    ent = [(k, t) for t in range(nt) for k in range(nst) if (k, t) not in drop]
    when = [minutes(env, f'when{t}') for t in range(nt)]
    at = {}
    parts, cells = [('SFDT', 1, REAL, [('TMPC', 0, 0, 0)])], {}
    if layout == 'ship':
        rk, rows, ck, cols = ['GROW'], [[1]], SROWS + SCOLS, []
        for n, (k, t) in enumerate(ent):
            at[k, t] = minutes(env, f'when{k}_{t}')
            w = at[k, t][0]
            cols.append([200100 + w.day, w.hour * 100 + w.minute] + station_values(st[k], SCOLS, 0))
            cells[0, n, 0] = [('i', 1), ('f', 10.0 * k + t)]
    else:
        heads = [station_values(s, SCOLS, 0) for s in st]
        tm = [[200100 + w.day, w.hour * 100 + w.minute] for w, _ in when]
        for k, t in ent:
            at[k, t] = when[t]
            cells[(t, k, 0) if layout == 'standard' else (k, t, 0)] = [('i', 1), ('f', 10.0 * k + t)]
        rk, rows, ck, cols = (SROWS, tm, SCOLS, heads) if layout == 'standard' else (SCOLS, heads, SROWS, tm)
    p = env.path('s.gem')
    env.write_file(p, build(env, 'surface', rk, rows, ck, cols, parts, cells))
    g = env.mod(DEC).GempakSurface(p)
    req, req_min = minutes(env, 'request')
    f = env.p['filter']
    if f == 'station_number' and env.p.get('zero'):
        arg, test = ([0] if form == 'list' else 0), lambda s: True
    else:
        arg, test = station_filter(env, f, form, st)
    sel = [test(s) if any(k == e[0] for e in ent) else False for k, s in enumerate(st)]
    if f in ('station_id', 'station_number'):
        # every identifier asked for is there
        if form.endswith('2'):
            a, b = arg
            for x in (a, b):
                env.assume(env.Or(*[(s['id'].upper() == x.upper()) if f == 'station_id' else s['number'] == x for s in st]))
            env.assume(env.Not(a.upper() == b.upper() if f == 'station_id' else a == b))
        else:
            env.assume(env.Or(*sel))
    out = g.nearest_time(req.strftime('%Y%m%d%H%M') if env.p.get('text') else req, **{f: arg})
    count = [0] * nst
    for r in out:
        mark = int(env.flat(r['values']['tmpc'])[0])
        k, t = divmod(mark, 10)
        count[k] += 1
        env.check(r['properties']['date_time'] == at[k, t][0], 'time of the observation returned')
        mine = at[k, t][1] - req_min
        mine = env.ite(mine >= 0, mine, -mine)
        for kk, tt in ent:
            if kk == k and tt != t:
                other = at[kk, tt][1] - req_min
                env.check(mine <= env.ite(other >= 0, other, -other), f'no observation of station {k} is nearer')
    for k in range(nst):
        env.check(count[k] <= 1, f'one observation of station {k}')
        env.check(sel[k] if count[k] else env.Not(sel[k]), f'station {k} is ' + ('selected' if count[k] else 'not selected'))


def nearest_case(name, filt, form, layout='standard', stations_=1, times=2, vary=(), **kw):
    add('C18', nearest, name, filter=filt, form=form, layout=layout, stations=stations_, times=times, vary=vary, budget=kw.pop('budget', 30), tbudget=120,
        bounds=f'{layout} file of {stations_} stations with any {", ".join(vary) or "fixed identity"} at any {times} times (minutes of three days), any requested time; {filt} as {form}; {kw}', **kw)


nearest_case('id', 'station_id', 'single', vary=('id',))
nearest_case('id_text', 'station_id', 'single', vary=('id',), text=True)
nearest_case('id_3', 'station_id', 'single', times=3, vary=('id',))
nearest_case('id_4', 'station_id', 'single', times=4, vary=('id',), tiers=('thorough',), budget=200)
nearest_case('id_list', 'station_id', 'list', stations_=2, vary=('id',))
nearest_case('id_list2', 'station_id', 'list2', stations_=2, vary=('id',))
for _f, _v in (('station_id', 'id'), ('state', 'state'), ('country', 'country')):
    for _w, _lens in (('single', (2, 0)), ('list', (3, 1)), ('list2', (3, 2))):
        nearest_case(f'{_v}_lengths_{_w}_{_lens[0]}', _f, _w, stations_=2, vary=(_v,), lengths=(2, 3), wanted=_lens, times=1 if '2' in _w else 2)
nearest_case('id_tuple', 'station_id', 'tuple', stations_=2, vary=('id',), drop=((1, 1),))
nearest_case('id_case', 'station_id', 'list', stations_=2, vary=('id',), letters=BOTH)
nearest_case('id_alike', 'station_id', 'single', stations_=2, alike=True)
nearest_case('number', 'station_number', 'single', stations_=2, vary=('number',))
nearest_case('number_list2', 'station_number', 'list2', stations_=2, vary=('number',))
nearest_case('number_zero', 'station_number', 'single', stations_=2, zero=True)
nearest_case('number_zero_list', 'station_number', 'list', stations_=1, zero=True)
for _f in ('state', 'country'):
    nearest_case(_f, _f, 'single', stations_=2, vary=(_f,))
    nearest_case(f'{_f}_list2', _f, 'list2', stations_=2, vary=(_f,), drop=((0, 1),))
    nearest_case(f'{_f}_alike', _f, 'single', stations_=2, vary=(_f,), alike=True)
    nearest_case(f'{_f}_blank', _f, 'single', stations_=2, vary=(_f,), blank=True, drop=((1, 0),))
nearest_case('state_case', 'state', 'list', stations_=2, vary=('state',), letters=BOTH)
nearest_case('box', 'bbox', 'list', stations_=2, vary=('place',))
nearest_case('box_tuple', 'bbox', 'tuple', stations_=2, vary=('place',), drop=((1, 1),))
nearest_case('box_blank', 'bbox', 'list', stations_=2, vary=('place',), blank=True)
nearest_case('box_alike', 'bbox', 'list', stations_=2, vary=('place',), alike=True, drop=((1, 1),))
nearest_case('box_edge', 'bbox', 'edge', stations_=2, vary=('place',), drop=((1, 1),))
for _l in ('ship', 'climate'):
    nearest_case(f'{_l}_id', 'station_id', 'single', layout=_l, stations_=2, vary=('id',))
    nearest_case(f'{_l}_number', 'station_number', 'single', layout=_l, stations_=2, vary=('number',))
    nearest_case(f'{_l}_state', 'state', 'single', layout=_l, stations_=2, vary=('state',))
    nearest_case(f'{_l}_box', 'bbox', 'list', layout=_l, stations_=2, vary=('place',))


def one_filter(env):
    """Every combination of filters other than exactly one is rejected."""
    f = env.mod('gempakio.encode.gempak').SurfaceFile(['TMPC'])
    f.add_station({'TMPC': 1.0}, 43.25, -89.5, env.dt.datetime(2020, 1, 1), {'station_id': 'KMSN', 'station_number': 7, 'state': 'WI', 'country': 'US'})
    p = env.path('a.gem')
    f.to_gempak(p)
    g = env.mod(DEC).GempakSurface(p)
    form = env.choice('as_lists', (False, True))
    num = env.int('number', -9999, 99999)
    box = [env.float(n, -400, 400) for n in ('left', 'right', 'bottom', 'top')]
    vals = {'station_id': env.str('id', 4, alphabet=BOTH), 'station_number': num, 'state': env.str('state', 2, alphabet=BOTH), 'country': env.str('country', 2, alphabet=BOTH), 'bbox': tuple(box)}
    given = [k for k in vals if env.choice(f'gives_{k}', (True, False))]
    if len(given) == 1:
        env.stop()
    args = {k: ([vals[k]] if form and k != 'bbox' else vals[k]) for k in given}
    try:
        g.nearest_time(env.dt.datetime(2020, 1, 1), **args)
        accepted = True
    except (ValueError, NotImplementedError):
        accepted = False
    env.check(not accepted, f'{len(given)} filters are rejected')


add('C18', one_filter, 'one_filter', budget=40, bounds='all combinations of none, two or more filters of any value')


def nearest_special(env):
    """Special reports of the selected station take part only on request."""
    hh, mm = env.str('hour', 2, alphabet='0123456789'), env.str('minute', 2, alphabet='0123456789')
    hour, minute = (10 * env.digit(x[0]) + env.digit(x[1]) for x in (hh, mm))
    env.assume(env.And(hour <= 11, minute <= 59))
    text = 'KABC 10' + hh + mm + 'Z 5SM'
    stn = [('SFDT', 1, REAL, [('TMPC', 0, 0, 0)]), ('STXT', 1, 3, [('TEXT', 0, 0, 0)]), ('SPTX', 1, 3, [('SPCL', 0, 0, 0)])]
    cells = {(0, 0, 2): [('i', 1), ('20s', text + ' ' * (20 - len(text)))]}
    if env.p['metar']:
        cells[0, 0, 0] = [('i', 1), ('f', 5.0)]
        cells[0, 0, 1] = [('i', 1), ('20s', 'KABC 101200Z 9SM'.ljust(20))]
    s = {'id': 'KABC', 'number': 722000, 'lat': 4000, 'lon': -9000, 'state': 'WI', 'country': 'US'}
    p = env.path('s.gem')
    env.write_file(p, build(env, 'surface', SROWS, [[200210, 1200]], SCOLS, [station_values(s, SCOLS, 0)], stn, cells))
    g = env.mod(DEC).GempakSurface(p)
    rh, rm = env.int('request_hour', 0, 23), env.int('request_minute', 0, 59)
    req, req_min = env.dt.datetime(2020, 2, 10, rh, rm), rh * 60 + rm
    special = env.choice('include_special', (True, False))
    f, arg = env.choice('filter', (('station_id', 'KABC'), ('state', 'wi'), ('station_number', 722000), ('country', 'US'), ('bbox', (-95, -85, 35, 45))))
    out = g.nearest_time(req, include_special=special, **{f: arg})
    have = ([720] if env.p['metar'] else []) + ([hour * 60 + minute] if special else [])
    env.check(len(out) == min(1, len(have)), 'one observation if there is any')
    if out:
        when = out[0]['properties']['date_time']
        got = when.hour * 60 + when.minute
        dist = lambda x: env.ite(x >= req_min, x - req_min, req_min - x)
        env.check(env.Or(*[got == x for x in have]), 'time of an observation')
        for x in have:
            env.check(dist(got) <= dist(x), 'no observation is nearer')
        env.check(('spcl' in out[0]['values']) <= special, 'special reports only on request')


add('C18', nearest_special, 'special', metar=True, budget=40, bounds='a report and a special report of any time of the morning, any requested time of the day, with and without specials')
add('C18', nearest_special, 'special_only', metar=False, budget=40, bounds='a special report of any time of the morning, any requested time of the day, with and without specials')


# ---------------------------------------------------------------------------
# many entries
# ---------------------------------------------------------------------------
def grids_large(env):
    n = env.p['n']
    names = ('TMPK', 'UREL', 'VREL')
    ent = [{'name': names[k % 3], 'level': k % 70, 'vc': 1 + k % 2, 'when': env.dt.datetime(2020, 1, 1 + k % 13, 12 * (k % 2))} for k in range(n)]
    cols = [[*words_of(e['when']), 0, 0, e['level'], -1, e['vc'], e['name'], '    ', '    '] for e in ent]
    cells = {(0, k, 0): [('i', 1), ('i', 1), ('i', 0), ('f', float(k))] for k in range(n)}
    p = env.path('g.gem')
    env.write_file(p, build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], cells, nav=navigation('CED', 1, 1, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR)))
    g = env.mod(DEC).GempakGrid(p)
    env.check(len(g.gdinfo()) == n, 'every grid is listed')
    level, name, last = env.int('level', 65, 72), env.choice('name', ('urel', None)), env.choice('time', ('last', None))
    args = {'level': level, **({'parameter': name} if name else {}), **({'date_time': last} if last else {})}
    end = max(e['when'] for e in ent)
    match = [env.And(level == e['level'], name is None or e['name'] == name.upper(), last is None or e['when'] == end) for e in ent]
    decide(env, n, match, lambda: g.gdxarray(**args), lambda x: int(env.masked(x)[0][0]))


add('C15', grids_large, 'large', n=280, budget=40, bounds='280 grids, any level of 65-72, with or without a name and the last time')


def stations_large(env):
    kind, layout, nst, nt = env.p['kind'], env.p['layout'], *env.p['size']
    st = [{'id': f'S{k}', 'number': k, 'lat': 4000 + k, 'lon': -9000 - k, 'state': ('WI', 'IL', 'MN')[k % 3], 'country': 'US'} for k in range(nst)]
    when = [env.dt.datetime(2020, 1 + k // 28, 1 + k % 28, 12) for k in range(nt)]
    ymd = [[200000 + 100 * t.month + t.day, 1200] for t in when]
    ent = [(k, t) for t in range(nt) for k in range(nst) if (k + t) % 5 or t == 0]
    cell = lambda k, t: [('i', 1)] + ([('f', 1000.0)] if kind == 'sounding' else []) + [('f', float(1000 * t + k))]
    part = ('SNDT', 1, REAL, [('PRES', 0, 0, 0), ('TEMP', 0, 0, 0)]) if kind == 'sounding' else ('SFDT', 1, REAL, [('TMPC', 0, 0, 0)])
    values = [station_values(s, SCOLS, 0) for s in st]
    p = env.path('s.gem')
    if layout == 'ship':
        file = build(env, kind, ['GROW'], [[1]], SROWS + SCOLS, [ymd[t] + values[k] for k, t in ent], [part], {(0, n, 0): cell(*e) for n, e in enumerate(ent)})
    elif layout == 'climate':
        file = build(env, kind, SCOLS, values, SROWS, ymd, [part], {(k, t, 0): cell(k, t) for k, t in ent})
    else:
        file = build(env, kind, SROWS, ymd, SCOLS, values, [part], {(t, k, 0): cell(k, t) for k, t in ent})
    env.write_file(p, file)
    d = env.mod(DEC)
    g = d.GempakSounding(p) if kind == 'sounding' else d.GempakSurface(p)
    number = env.int('number', nst - 3, nst + 2)
    state, time = env.choice('state', ('il', None)), env.choice('time', ('last', 'first', 'any', None))
    if time == 'any':
        time = when[nt // 2]
    args = {'station_number': number, **({'state': state} if state else {}), **({'date_time': time} if time else {})}
    times = {None: when, 'first': [when[0]], 'last': [when[-1]]}.get(time, [time])
    match = [env.And(number == k, state is None or st[k]['state'] == 'IL', when[t] in times) for k, t in ent]
    where = {1000 * t + k: n for n, (k, t) in enumerate(ent)}
    if kind == 'sounding':
        decide(env, len(ent), match, lambda: g.snxarray(**args), lambda x: where[int(env.masked(x['temp'])[0][0])])
    else:
        decide(env, len(ent), match, lambda: g.sfjson(**args), lambda x: where[int(env.flat(x['values']['tmpc'])[0])])


for _k, _l, _s in (('sounding', 'standard', (140, 2)), ('sounding', 'standard', (4, 50)), ('surface', 'standard', (260, 1)), ('surface', 'standard', (4, 50)),
                   ('surface', 'ship', (30, 9)), ('surface', 'climate', (50, 4)), ('surface', 'climate', (3, 60))):
    add('C16' if _k == 'sounding' else 'C17', stations_large, f'large_{_l}_{_s[0]}x{_s[1]}', kind=_k, layout=_l, size=_s, budget=40,
        bounds=f'{_s[0]} stations at {_s[1]} times ({_l}), any number around the largest, with or without a state and a time')
