"""C36: what the readers cannot decode is refused, and the rest of the file stays readable."""
from sx.harness import scenario
from checks.dmfile import CHAR, GRID, HEAD, PACK, REAL, analysis, build, navigation
from checks.reader import GCOLS, GPART, LL, SCOLS, SROWS, STN, UR, gcol, grib_words

DEC = 'gempakio.decode.gempak'
REFUSALS = (ValueError, TypeError, NotImplementedError, KeyError, IndexError, EOFError)
WORD = (-2**31, 2**31 - 1)


def grids(env, cells, cols=None, nav=None, anl=None, **k):
    """A grid file of 2x2 grids."""
    cols = cols or [gcol(glv1=500 + j) for j in range(len(cells))]
    nav = nav or navigation('CED', 2, 2, LL, UR, (0.0, -100.0, 0.0))
    return build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], {(0, j, 0): w for j, w in enumerate(cells)}, nav=nav + (anl or analysis(LL, UR)), **k)


def sounding(env, parts, cells, **k):
    return build(env, 'sounding', SROWS, [[200131, 0]], SCOLS[:7], [STN[:7]], parts, {(0, 0, n): w for n, w in enumerate(cells)}, **k)


def surface(env, parts, cells, layout='standard', **k):
    heads = {'standard': (SROWS, [[200131, 0]], SCOLS, [STN]), 'climate': (SCOLS, [STN], SROWS, [[200131, 0]]),
             'ship': (['GROW'], [[1]], SROWS + SCOLS, [[200131, 0] + STN])}[layout]
    return build(env, 'surface', *heads, parts, {(0, 0, n): w for n, w in enumerate(cells)}, **k)


def read(env, kind, data, **k):
    """The entries of a file, or None when it is refused."""
    d = env.mod(DEC)
    p = env.path('a.gem')
    env.write_file(p, data)
    try:
        if kind == 'grid':
            return d.GempakGrid(p).gdxarray(**k)
        if kind == 'sounding':
            return d.GempakSounding(p).snxarray(**k)
        return d.GempakSurface(p).sfjson(**k)
    except REFUSALS:
        return None


GOOD = [('i', 2), ('i', 2), ('i', 0), ('f', 1.0), ('f', 2.0), ('f', 3.0), ('f', 4.0)]
SND = ('SNDT', 1, REAL, [(n, 0, 0, 0) for n in ('PRES', 'TEMP')])
SNDW = [('i', 1200), ('f', 1000.0), ('f', 10.0), ('f', 900.0), ('f', 5.0)]
SFC = ('SFDT', 1, REAL, [(n, 0, 0, 0) for n in ('PMSL', 'TMPC')])
SFCW = [('i', 1200), ('f', 1013.0), ('f', 10.0)]


def first_text(env):
    """Any text at the begin of the file."""
    kind = env.p['kind']
    head = env.str('head', 28, 32, 126) if env.p['free'] == 28 else HEAD[:env.p['free']] + env.str('head', 28 - env.p['free'], 32, 126)
    data = {'grid': lambda **k: grids(env, [GOOD], **k), 'sounding': lambda **k: sounding(env, [SND], [SNDW], **k),
            'surface': lambda **k: surface(env, [SFC], [SFCW], **k)}[kind](head=head)
    out = read(env, kind, data)
    if out is None:
        env.check(head != HEAD, 'a GEMPAK file is read')
    else:
        env.check(head == HEAD, 'a file that does not begin as a GEMPAK file is refused')
        env.check(len(out) == 1, 'one entry')


for _k in ('grid', 'sounding', 'surface'):
    scenario('C36', name=f'head_{_k}', kind=_k, free=28, budget=15, bounds=f'{_k} file that begins with any 28 printable characters')(first_text)
    scenario('C36', name=f'head_end_{_k}', kind=_k, free=20, budget=15, bounds=f'{_k} file whose first text ends in any 8 printable characters')(first_text)


def packing(env):
    """A grid of any packing next to one that can be unpacked."""
    kind = env.int('packing', *WORD)
    env.assume(env.And(*[kind != k for k in (0, 1, 3, 4)]))
    words = [env.int(f'w{k}', 0, 2**32 - 1, bv=32) for k in range(env.p['words'])]
    bad = [('i', 2), ('i', 2), ('i', kind)] + [('I', w) for w in words]
    n = env.p['place']
    cells = [bad, GOOD] if n == 0 else [GOOD, bad]
    data = grids(env, cells, order=env.p.get('order', '<'))
    env.check(read(env, 'grid', data) is None, 'all grids')
    env.check(read(env, 'grid', data, level=500 + n) is None, 'the grid that cannot be unpacked')
    out = read(env, 'grid', data, level=501 - n)
    env.check(out is not None and len(out) == 1, 'the other grid')
    got = env.masked(out[0])
    env.check(env.And(*[got[k][0] == k + 1.0 for k in range(4)]), 'values of the other grid')


for _n in (0, 1):
    for _w in (4, 12):
        scenario('C36', name=f'packing_{_n}_{_w}', place=_n, words=_w, budget=15, order='<>'[_n], bounds=f'two grids of which one is of any packing that is not decoded, with any {_w} words')(packing)


def data_type(env):
    """A part of any type."""
    kind, layout = env.p['kind'], env.p.get('layout')
    typ = env.int('type', *WORD)
    known = (REAL, PACK) if layout == 'merged' else (REAL, CHAR, PACK)
    env.assume(env.And(*[typ != k for k in known]))
    words = [('i', 1200)] + [('I', env.int(f'w{k}', 0, 2**32 - 1, bv=32)) for k in range(4)]
    if kind == 'sounding':
        good = [] if layout == 'merged' else [('TTAA', 1, REAL, [(n, 0, 0, 0) for n in ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')])]
        goodw = [[('i', 1200)] + [('f', v) for v in (1000.0, 10.0, 5.0, 90.0, 10.0, 100.0, 850.0, 5.0, 0.0, 90.0, 20.0, 1450.0)]] * len(good)
        data = sounding(env, good + [('SNDT' if layout == 'merged' else 'TTBB', 1, typ, [(n, 0, 0, 16) for n in ('PRES', 'TEMP')])], goodw + [words])
    else:
        data = surface(env, [SFC, ('SFD2', 1, typ, [(n, 0, 0, 16) for n in ('DRCT', 'SKNT')])], [SFCW, words], layout)
    env.check(read(env, kind, data) is None, 'a part of that type')


for _k, _l in (('sounding', 'merged'), ('sounding', 'parts'), ('surface', 'standard'), ('surface', 'ship'), ('surface', 'climate')):
    scenario('C36', name=f'type_{_k}_{_l}', kind=_k, layout=_l, budget=15, bounds=f'{_k} file ({_l}) with a part of any data type that is not decoded, any words')(data_type)


def length(env):
    """Numbers of words that do not fit the parameters."""
    env.caching(lazy_bits=True)
    kind, typ, n = env.p['kind'], env.p['type'], env.choice('words', tuple(range(1, 8)))
    names = ('PRES', 'TEMP', 'DWPT') if kind == 'sounding' else ('PMSL', 'TMPC', 'DRCT')
    bits = (20, 20, 20) if typ == PACK else (0, 0, 0)
    words = [('i', 1200)]
    for k in range(n):
        if typ == PACK:
            # The first parameter of each level (a pressure) is fixed so that levels have one order.
            words.append(('I', (900 - k) & 0xfffff if k % 2 == 0 else env.int(f'w{k}', 0, 2**32 - 1, bv=32)))
        else:
            words.append(('f', 900.0 - k if k % 3 == 0 else env.float(f'f{k}', 1, 1100, f32=True)))
    parts = [('SNDT' if kind == 'sounding' else 'SFDT', 1, typ, [(m, 0, 0, b) for m, b in zip(names, bits)])]
    data = sounding(env, parts, [words]) if kind == 'sounding' else surface(env, parts, [words], env.p['layout'])
    out = read(env, kind, data)
    each = 2 if typ == PACK else 3
    if kind == 'sounding' or typ == PACK:
        fits = n % each == 0
    else:
        fits = n >= each
    if fits:
        env.check(out is not None and len(out) == 1, f'{n} words are read')
        if kind == 'sounding':
            env.check(out[0].temp.values.size == n // each, 'number of levels')
    else:
        env.check(out is None, f'{n} words are refused')


for _k, _t, _l in (('sounding', PACK, None), ('sounding', REAL, None), ('surface', PACK, 'standard'), ('surface', REAL, 'standard'), ('surface', PACK, 'ship'),
                   ('surface', PACK, 'climate')):
    scenario('C36', name=f'length_{_k}_{"pack" if _t == PACK else "real"}' + (f'_{_l}' if _l else ''), kind=_k, type=_t, layout=_l, budget=20,
             bounds=f'{_k} of three parameters in 1-7 words of any contents')(length)


KNOWN = ('MER', 'NPS', 'SPS', 'LCC', 'SCC', 'CED', 'MCD', 'NOR', 'SOR', 'STR', 'AED', 'ORT', 'LEA', 'GNO')


def projection(env):
    n = env.p['n']
    name = env.str('name', n, 65, 90)
    env.assume(env.And(*[name != k for k in KNOWN if len(k) == n]))
    nav = navigation('CED', 2, 2, LL, UR, (30.0, -100.0, 30.0))
    nav[2] = ('4s', name + ' ' * (4 - n))
    env.check(read(env, 'grid', grids(env, [GOOD], nav=nav)) is None, 'a projection that is not known')


for _n in (1, 2, 3):
    scenario('C36', name=f'projection_{_n}', n=_n, budget=15, bounds=f'any projection of {_n} letters that is not one of those decoded')(projection)


def block_size(env):
    """The sizes of the navigation and analysis blocks."""
    size = env.int('size', *WORD)
    nav, anl = navigation('CED', 2, 2, LL, UR, (0.0, -100.0, 0.0)), analysis(LL, UR)
    if env.p['block'] == 'navigation':
        nav[0], right = ('i', size), 256
    else:
        anl[0], right = ('i', size), 128
    out = read(env, 'grid', grids(env, [GOOD], nav=nav, anl=anl))
    if out is None:
        env.check(size != right, 'blocks of the right size are read')
    else:
        env.check(size == right, 'blocks of another size are refused')


for _b in ('navigation', 'analysis'):
    scenario('C36', name=f'size_{_b}', block=_b, budget=10, bounds=f'any size of the {_b} block')(block_size)


def surface_keys(env):
    """Which keys the rows and the columns have tells the layout, if any does."""
    station, time = STN, [200131, 0]
    rk, rv = env.choice('rows', ((SROWS, time), (SCOLS, station), (['GROW'], [1]), (SROWS[1:], time[1:]), (SCOLS[1:], station[1:])))
    ck, cv = env.choice('columns', ((SROWS, time), (SCOLS, station), (SROWS + SCOLS, time + station), (SROWS[1:] + SCOLS, time[1:] + station), (SCOLS[1:], station[1:])))
    v = [env.float(f'v{k}', -3e38, 3e38, f32=True) for k in range(2)]
    data = build(env, 'surface', rk, [rv], ck, [cv], [SFC], {(0, 0, 0): [('i', 1200), ('f', v[0]), ('f', v[1])]})
    out = read(env, 'surface', data)
    have = lambda keys, *names: all(n in keys for n in names)
    ship = have(ck, 'DATE', 'STID')
    fits = ship or (have(rk, 'DATE') and have(ck, 'STID')) or (have(ck, 'DATE') and have(rk, 'STID'))
    if not fits:
        env.check(out is None, 'keys of no layout')
    else:
        env.check(out is not None and len(out) == 1, 'one observation')
        env.check(out[0]['properties']['station_id'] == 'KABC', 'station')
        env.check(out[0]['values']['tmpc'] == v[1], 'value')


scenario('C36', name='surface_keys', budget=20, bounds='rows and columns with the keys of stations, times, both or neither, any values')(surface_keys)


def vertical(env):
    """A sounding is placed by pressure or height."""
    name = env.str('name', 4, 65, 90)
    env.assume(env.And(name != 'TEMP', *[name != k for k in ('DATE', 'TIME', 'STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'TXTA', 'TXTB', 'TXTC', 'TXPB')]))
    env.assume(name != 'PRES')
    env.assume(name != 'HGHT')
    out = read(env, 'sounding', sounding(env, [('SNDT', 1, REAL, [(name, 0, 0, 0), ('TEMP', 0, 0, 0)])], [SNDW]))
    env.check(out is None, 'a sounding without pressure or height')


scenario('C36', name='vertical', budget=15, bounds='sounding of temperature and any other parameter of four letters than pressure or height')(vertical)


def grid_words(env):
    """A grid with fewer words than its points take."""
    env.caching(lazy_bits=True)
    kind, bits = env.p['packing'], env.p['bits']
    ny, nx = 2, 3
    need = ny * nx if kind == 0 else (ny * nx * bits + 31) // 32
    n = env.choice('words', tuple(range(1, need + 1)))
    head = [('i', nx), ('i', ny), ('i', kind)]
    if kind == 0:
        head = head + [('f', env.float(f'f{k}', -1000, 1000, f32=True)) for k in range(n)]
    else:
        head = head + [('i', bits), ('i', env.choice('flag', (0, 1) if kind == 1 or bits < 21 else (0,))), ('i', nx * ny)] + [('i', nx)] * (kind == 3) + [('f', 200.0), ('f', 0.5)] + [('f', -2.0)] * (kind == 3)
        head = head + [('I', env.int(f'w{k}', 0, 2**32 - 1, bv=32)) for k in range(n)]
    cols = [gcol(glv1=500)]
    data = build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], {(0, 0, 0): head}, nav=navigation('CED', nx, ny, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR))
    out = read(env, 'grid', data)
    if n == need:
        env.check(out is not None and len(out) == 1, 'a whole grid is read')
        env.check(out[0].values.size == nx * ny, 'points')
    else:
        env.check(out is None, f'a grid of {n} instead of {need} words is refused')


for _k, _b in ((0, 32), (1, 7), (1, 8), (1, 16), (1, 21), (1, 32), (3, 7), (3, 16), (3, 21)):
    scenario('C36', name=f'grid_words_{_k}_{_b}', packing=_k, bits=_b, budget=20, bounds=f'2x3 grid of packing {_k} with {_b} bits in 1 to all of its words, any words')(grid_words)


def grid_points(env):
    """A packed grid that tells another number of points than the navigation of its file."""
    points = env.choice('points', tuple(range(1, 12)))
    words = [env.int(f'w{k}', 0, 2**32 - 1, bv=32) for k in range(3)]
    head = [('i', 3), ('i', 2), ('i', 1), ('i', 8), ('i', 1), ('i', points), ('f', 200.0), ('f', 0.5)] + [('I', w) for w in words]
    data = build(env, 'grid', ['GRID'], [[1]], GCOLS, [gcol(glv1=500)], [GPART], {(0, 0, 0): head}, nav=navigation('CED', 3, 2, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR))
    out = read(env, 'grid', data)
    env.check((out is not None) == (points == 6), f'{points} points')


scenario('C36', name='grid_points', budget=15, bounds='2x3 grid packed as 1 to 11 points, any words')(grid_points)
