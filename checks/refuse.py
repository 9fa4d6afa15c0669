"""What a file cannot hold is refused, without an effect (C33)."""
from sx.harness import scenario

from .grids import ENC, DEC, const, digits, gridfile

VGF = 'gempakio.encode.vgf'
REFUSALS = (ValueError, TypeError, KeyError, OverflowError, NotImplementedError)
BASE = (2020, 1, 2, 3, 4)


class Files:
    """A surface, sounding or grid file behind one interface."""

    def __init__(self, env, kind):
        self.env, self.kind, self.shape = env, kind, env.p.get('shape', (2, 2))
        self.new = {'surface': self.surface, 'sounding': self.sounding, 'grid': lambda: gridfile(env, *self.shape)}[kind]

    def surface(self, names=('TMPC',)):
        return self.env.mod(ENC).SurfaceFile(list(names))

    def sounding(self, names=('PRES', 'TEMP')):
        return self.env.mod(ENC).SoundingFile(list(names))

    def add(self, f, when, number=7, value=1.0, when2=None, **info):
        np = self.env.np
        if self.kind == 'grid':
            f.add_grid(const(self.env, value, *self.shape), 'TMPK', 'PRES', info.get('level', number), when, level2=info.get('level2'), date_time2=when2)
            return
        info = {'station_id': 'KMSN', 'station_number': number, **info}
        if self.kind == 'surface':
            f.add_station({'TMPC': value}, 40.0, -90.0, when, info)
        else:
            f.add_sounding({'PRES': np.array([1000.0]), 'TEMP': np.array([value])}, 40.0, -90.0, when, info)

    def write(self, f, name='a.gem'):
        p = self.env.path(name)
        f.to_gempak(p)
        return p

    def content(self, f, name='b.gem'):
        return self.env.read_file(self.write(f, name))

    def read(self, f, name='a.gem'):
        """(time, number, value) of each entry."""
        env, d, p = self.env, self.env.mod(DEC), self.write(f, name)
        if self.kind == 'surface':
            return [(r['properties']['date_time'], r['properties']['station_number'], r['values']['tmpc'], r['properties']) for r in d.GempakSurface(p).sfjson()]
        if self.kind == 'sounding':
            return [(env.coord_time(x), x.attrs['station_number'], env.masked(x, 'temp')[0][0], x.attrs) for x in d.GempakSounding(p).snxarray()]
        g = d.GempakGrid(p)
        return [(i.DATTIM1, i.LEVEL1, env.masked(x)[0][0], i) for i, x in zip(g.gdinfo(), g.gdxarray(), strict=True)]


def attempt(fn):
    try:
        fn()
    except REFUSALS:
        return True
    return False


# ---------------------------------------------------------------------------
# dates
# ---------------------------------------------------------------------------
def dates(env):
    F, form = Files(env, env.p['kind']), env.p['form']
    base, other = env.dt.datetime(*BASE), env.dt.datetime(*BASE)
    a, b = F.new(), F.new()
    for f in (a, b):
        F.add(f, other, 1, 2.0)
    when = env.datetime('when', *env.p['years'])
    arg, want = when, when
    if form != 'datetime':
        arg = when.strftime('%Y%m%d%H%M')
        if form == 'hours':
            h = env.int('hours', *env.p['hours'])
            arg = arg + env.p.get('letter', 'F') + digits(env, h, 3)
            want = when + env.dt.timedelta(hours=h)
    if env.p.get('second'):
        refused = attempt(lambda: F.add(a, base, 2, 3.0, arg))
    else:
        refused = attempt(lambda: F.add(a, arg, 2, 3.0))
    # Forecasts of grids are stored with the time they start from
    held = when if F.kind == 'grid' and form == 'hours' and env.p.get('letter', 'F') != 'A' else want
    ok = env.And(held.year >= 1969, held.year <= 2068)
    if refused:
        env.check(env.Not(ok), 'a date that can be stored is accepted')
        env.check(F.content(a) == F.content(b), 'nothing is left of what was refused')
        return
    got = [r for r in F.read(a) if bool(r[1] == 2)]
    env.check(len(got) == 1, 'the entry is there')
    t = got[0][3].DATTIM2 if env.p.get('second') else got[0][0]
    env.check(t is not None, 'the time is there')
    env.check(t == want, 'the time read is the one given')


WIDE = ((1000, 1968), (1969, 2068), (2069, 9998))
for _k in ('surface', 'sounding', 'grid'):
    for _f in ('datetime', 'string'):
        for _y in (((1, 999),) if _f == 'datetime' else ()) + WIDE:
            scenario('C33', name=f'dates_{_k}_{_f}_{_y[0]}', kind=_k, form=_f, years=_y, budget=20, bounds=f'{_k} file with one entry and another one at any minute of the years {_y[0]} to {_y[1]}, given as {_f}')(dates)
for _y in WIDE:
    scenario('C33', name=f'dates_second_{_y[0]}', kind='grid', form='datetime', second=True, years=_y, budget=20, bounds=f'grid with a second time of any minute of {_y[0]} to {_y[1]}')(dates)
for _k, _l in (('sounding', 'F'), ('grid', 'F'), ('grid', 'A'), ('grid', 'I')):
    for _y in ((1968, 1969) if _k == 'grid' else (1968, 1968), (2068, 2069) if _k == 'grid' else (2068, 2068)):
        scenario('C33', name=f'dates_{_k}_hours{_l}_{_y[0]}', kind=_k, form='hours', letter=_l, years=_y, hours=(0, 9) if _k == 'sounding' else (0, 240), budget=90,
                 bounds=f'{_k} at any minute of {_y[0]} and {_y[1]} and {"0 to 9" if _k == "sounding" else "0 to 240"} hours after, given as {_l}')(dates)


def forecasts(env):
    """Forecast times of grids that are not as documented."""
    F, n, second = Files(env, 'grid'), env.p['n'], env.p['second']
    a, b = F.new(), F.new()
    for f in (a, b):
        F.add(f, env.dt.datetime(*BASE), 1, 2.0)
    text = env.str('forecast', n, alphabet='0123456789+-_. ') if n else ''
    arg = '202003040506' + env.choice('type', env.p['types']) + text
    if second:
        refused = attempt(lambda: F.add(a, '202003040506' + arg[12], 2, 3.0, arg))
    else:
        refused = attempt(lambda: F.add(a, arg, 2, 3.0))
    if refused:
        env.check(F.content(a) == F.content(b), 'nothing is left of what was refused')
        return
    numbers = env.And(*[env.And(c >= '0', c <= '9') for c in text])
    env.check(numbers, 'a forecast time that is no number is refused')
    env.check(n <= 5, 'a forecast time that is too long is refused')
    v = [env.digit(c) for c in text]
    num = lambda ds: sum((d * 10 ** k for k, d in enumerate(reversed(ds))), 0)
    want = env.dt.datetime(2020, 3, 4, 5, 6) + env.dt.timedelta(hours=num(v[:3]), minutes=num(v[3:]))
    got = [r for r in F.read(a) if bool(r[1] == 2)]
    env.check(len(got) == 1, 'the grid is there')
    env.check((got[0][3].DATTIM2 if second else got[0][0]) == want, 'the time read is the one given')


for _n in range(0, 8):
    for _s in (False, True):
        scenario('C33', name=f'forecast_{"second_" if _s else ""}{_n}', n=_n, second=_s, types='FA' if _n in (4, 5) else 'FGIA', budget=60, bounds=f'grid with a forecast time of any {_n} of the characters 0-9 + - _ . and space')(forecasts)


# ---------------------------------------------------------------------------
# names, numbers, shapes
# ---------------------------------------------------------------------------
NAMES = (('TMPCX',), ('TMPCX', 'TMPCY'), ('TMPC', 'TMPCX'), ('ABCDEFGH',), ('TMPC', 'tmpc'), ('A', 'AB', 'ABC', 'ABCD', 'ABCDE'), ('A', 'ABCD'), ('tmpc', 'DwPc'), ('ÑÑÑ',), ('TMP°',))


def names(env):
    """Names that do not fit are refused at the latest when the file is written."""
    F, what = Files(env, env.p['kind']), list(env.choice('names', NAMES))
    lead = ['PRES'] if F.kind == 'sounding' else []
    v = [env.float(f'v{k}', -1e6, 1e6) for k in range(len(what))]
    p, out = env.path('a.gem'), []
    env.write_file(p, b'before')

    def write():
        f = F.new(lead + what)
        data = dict(zip(what, v))
        if lead:
            f.add_sounding({'PRES': env.np.array([1000.0]), **{k: env.np.array([x]) for k, x in data.items()}}, 40.0, -90.0, env.dt.datetime(*BASE))
        else:
            f.add_station(data, 40.0, -90.0, env.dt.datetime(*BASE))
        f.to_gempak(p)
    if attempt(write):
        env.check(env.read_file(p) == b'before', 'the file is as it was')
        env.check(env.Or(len({n.upper() for n in what}) < len(what), max(len(n) for n in what) > 4, not all(n.isascii() for n in what)), 'names that fit are accepted')
        return
    for n, x in zip(what, v):
        env.assume(x != -9999)
        if lead:
            got = env.mod(DEC).GempakSounding(p).snxarray()
            env.check(len(got) == 1 and n.lower() in list(got[0].data_vars), f'{n} is there')
            env.check(env.masked(got[0], n.lower())[0][0] == env.f32(x), f'value of {n}')
        else:
            got = env.mod(DEC).GempakSurface(p).sfjson()
            env.check(len(got) == 1 and n.lower() in got[0]['values'], f'{n} is there')
            env.check(got[0]['values'][n.lower()] == env.f32(x), f'value of {n}')


scenario('C33', name='names_surface', kind='surface', budget=20, bounds='parameter names of several lengths, any values')(names)
scenario('C33', name='names_sounding', kind='sounding', budget=20, bounds='parameter names of several lengths, any values')(names)


TEXTS = ('K\u00d1\u00d1\u00d1', '\u00d1\u00d1\u00d1\u00d1', '\u00d1\u00d1', 'ABC\u00d1', '\u20ac\u20ac', 'A')


def texts(env):
    """Texts of more bytes than characters."""
    F, key, text = Files(env, env.p['kind']), env.p['key'], env.choice('text', TEXTS)
    p = env.path('a.gem')
    env.write_file(p, b'before')
    num = env.int('number', 0, 99999)

    def write():
        f = F.new()
        if key == 'parameter':
            f.add_grid(const(env, 1.0, 2, 2), text, 'PRES', num, env.dt.datetime(*BASE))
        else:
            F.add(f, env.dt.datetime(*BASE), num, 1.0, **{key: text})
        f.to_gempak(p)
    if attempt(write):
        env.check(env.read_file(p) == b'before', 'the file is as it was')
        env.check(not text.isascii(), 'text that fits is accepted')
        return
    d = env.mod(DEC)
    if F.kind == 'grid':
        got = d.GempakGrid(p).gdinfo()
        env.check(len(got) == 1 and got[0].PARM == text.upper() and bool(got[0].LEVEL1 == num), 'the grid is there')
    else:
        got = d.GempakSurface(p).sfinfo() if F.kind == 'surface' else d.GempakSounding(p).sninfo()
        env.check(len(got) == 1 and bool(got[0].NUMBER == num), 'the entry is there')
        env.check({'station_id': got[0].ID, 'state': got[0].STATE, 'country': got[0].COUNTRY}[key] == text.upper(), f'{key} is the one given')


for _k, _key in (('surface', 'station_id'), ('surface', 'state'), ('sounding', 'station_id'), ('sounding', 'country'), ('grid', 'parameter')):
    scenario('C33', name=f'texts_{_k}_{_key}', kind=_k, key=_key, budget=15, bounds='several texts with letters that take more than a byte, any number')(texts)


def numbers(env):
    """Numbers of more than 32 bits."""
    F, key = Files(env, env.p['kind']), env.p['key']
    lo, hi = env.p['range']
    v = env.int('v', lo, hi)
    p = env.path('a.gem')
    env.write_file(p, b'before')
    f = F.new()
    refused = attempt(lambda: F.add(f, env.dt.datetime(*BASE), **{key: v}))
    if not refused:
        try:
            f.to_gempak(p)
        except (env.struct.error, *REFUSALS):
            refused = True
    fits = env.And(v >= -2 ** 31, v < 2 ** 31)
    if refused:
        env.check(env.Not(fits), 'a number that fits is accepted')
        env.check(env.read_file(p) == b'before', 'the file is as it was')
        return
    got = F.read(f)
    env.check(len(got) == 1, 'the entry is there')
    r = got[0][3]
    env.check({'number': got[0][1], 'level': got[0][1]}[key] == v if key in ('number', 'level') else
              (r.LEVEL2 if key == 'level2' else r[{'elevation': 'elevation', 'priority': 'priority'}[key]]) == v, 'the number read is the one given')


for _k, _keys in (('surface', ('number', 'elevation', 'priority')), ('sounding', ('number', 'elevation')), ('grid', ('level', 'level2'))):
    for _key in _keys:
        scenario('C33', name=f'numbers_{_k}_{_key}', kind=_k, key=_key, range=(0 if _k == 'grid' else -2 ** 40, 2 ** 40), budget=15,
                 bounds=f'{_k} file with any {_key} of up to 40 bits' + (', not negative' if _k == 'grid' else ''))(numbers)


MOST = 500      # LLMXLV of GEMPAK


def shapes(env):
    """Grids of another shape, soundings of unequal or too many levels, observations of several values."""
    F, np = Files(env, env.p['kind']), env.np
    a, b = F.new(), F.new()
    for f in (a, b):
        F.add(f, env.dt.datetime(*BASE), 1, 2.0)
    v = env.float('v', -9000, 1e6)
    when = env.dt.datetime(2020, 5, 6)
    if F.kind == 'grid':
        n, m = env.choice('rows', range(0, 5)), env.choice('columns', range(0, 5))
        ok = (n, m) == F.shape
        refused = attempt(lambda: a.add_grid(np.full((n, m) if m else (4,), v), 'TMPK', 'PRES', 2, when))
    elif F.kind == 'sounding':
        n, m = env.choice('pressures', env.p.get('levels', range(0, 6))), env.choice('temperatures', env.p.get('levels', range(0, 6)))
        ok = n == m < MOST
        temps = [10.0] * (m - 1) + [v] if m else []
        refused = attempt(lambda: a.add_sounding({'PRES': np.array([1000.0 - k for k in range(n)]), 'TEMP': np.array(temps)}, 40.0, -90.0, when))
        if n == 0 and m == 0:
            return
    else:
        k = env.choice('data', range(7))
        data = ({'TMPC': v}, {'TMPC': [v]}, {'TMPC': np.array([v, v])}, {}, {'TMPC': v, 'DWPC': v}, {'DWPC': v}, [v])[k]
        ok = k == 0
        refused = attempt(lambda: a.add_station(data, 40.0, -90.0, when, {'station_number': 2}))
    env.check(refused == (not ok), 'refused if and only if it does not fit the file')
    if refused:
        env.check(F.content(a) == F.content(b), 'nothing is left of what was refused')
    else:
        got = [r for r in F.read(a) if bool(r[0] == when)]
        env.check(len(got) == 1, 'the entry is there')
        if F.kind != 'sounding':
            env.check(env.near(got[0][2], v, 1.0), 'its value')


scenario('C33', name='shapes_grid', kind='grid', budget=15, bounds='2x2 grid file, grids of up to 4x4 of any value, and of one dimension')(shapes)
scenario('C33', name='shapes_grid_oblong', kind='grid', shape=(2, 3), budget=15, bounds='grid file of 2 rows and 3 columns, grids of up to 4x4 of any value, and of one dimension')(shapes)
scenario('C33', name='shapes_sounding', kind='sounding', budget=20, bounds='soundings of up to 5 pressures and temperatures, any value')(shapes)
scenario('C33', name='shapes_levels', kind='sounding', levels=(MOST - 1, MOST, MOST + 1), budget=20, bounds='soundings of 499, 500 and 501 levels, any value at the last')(shapes)
scenario('C33', name='shapes_surface', kind='surface', budget=15, bounds='observations with missing, unknown or several values')(shapes)


# ---------------------------------------------------------------------------
# no room
# ---------------------------------------------------------------------------
def room(env):
    """More entries than there is room for; the limit is lowered."""
    F, n, most = Files(env, env.p['kind']), env.p['n'], env.p['most']
    e, c = env.mod(ENC), env.mod('gempakio.common')
    limits = [(m, m.MMHDRS) for m in (e, c) if hasattr(m, 'MMHDRS')]
    for m, _ in limits:
        m.MMHDRS = most
    try:
        a, b = F.new(), F.new()
        kept, ids = {}, []
        for k in range(n):
            number = env.int(f'number{k}', 0, 9)
            day = env.int(f'day{k}', 1, 9) if F.kind != 'grid' else 1
            when, value = env.dt.datetime(2020, 1, day), 10.0 * k
            same_n = [j for j in range(len(ids)) if bool(ids[j][0] == number)]
            same_d = [j for j in range(len(ids)) if bool(ids[j][1] == day)]
            size = sum(1 for i, x in enumerate(ids) if not any(bool(y[0] == x[0]) for y in ids[:i])) + (not same_n)
            size += (sum(1 for i, x in enumerate(ids) if not any(bool(y[1] == x[1]) for y in ids[:i])) + (not same_d)) if F.kind != 'grid' else 1
            refused = attempt(lambda: F.add(a, when, number, value))
            env.check(refused == (size > most), 'refused if and only if there is no room')
            if not refused:
                ids.append((number, day))
                F.add(b, when, number, value)
                kept[k] = (number, when, value)
            env.check(F.content(a) == F.content(b), 'nothing is left of what was refused')
        got = F.read(a)
        last = [k for k in kept if not any(j > k and bool(env.And(kept[j][0] == kept[k][0], kept[j][1] == kept[k][1])) for j in kept)]
        env.check(len(got) == len(last), 'as many entries as accepted')
        for k in last:
            env.check(any(bool(env.And(r[1] == kept[k][0], r[0] == kept[k][1], r[2] == kept[k][2])) for r in got), 'every entry accepted is there')
    finally:
        for m, v in limits:
            m.MMHDRS = v


for _k, _n, _m in (('surface', 3, 3), ('surface', 3, 4), ('sounding', 3, 3), ('sounding', 3, 4), ('grid', 3, 2), ('grid', 4, 3)):
    scenario('C33', name=f'room_{_k}_{_n}_{_m}', kind=_k, n=_n, most=_m, budget=30, tbudget=150,
             bounds=f'{_n} entries of any station number (level) 0-9 and day 1-9, with room for {_m} headers (32000 in the code)')(room)


# ---------------------------------------------------------------------------
# writes that fail
# ---------------------------------------------------------------------------
def vgf_failure(env):
    """An element that cannot be encoded leaves the file as it was."""
    vgf, n = env.mod(VGF), env.p['n']
    bad = env.choice('bad', range(-1, n))
    f = vgf.VGFile()
    lon = [env.float(f'lon{k}', -180, 180, f32=True) for k in range(n)]
    for k in range(n):
        f.add_element(vgf.Line([lon[k], -80.0], [30.0, 40.0], 1, line_type=1, closed=0, width=2.5 if k == bad else 2))
    p = env.path('a.vgf')
    env.write_file(p, b'before')
    try:
        f.to_vgf(p)
    except (env.struct.error, *REFUSALS):
        env.check(bad >= 0, 'elements that can be stored are')
        env.check(env.read_file(p) == b'before', 'the file is as it was')
        return
    g = env.mod('gempakio.decode.vgf').VectorGraphicFile(p)
    got = [x for x in g.elements if x.vg_class == 3]
    env.check(len(got) == n, 'every element is there')
    for x, v in zip(got, lon, strict=True):
        env.check(env.near(env.flat(x.lon)[0], v, 0.01), 'longitude')


scenario('C33', name='vgf_failure', n=3, budget=15, bounds='file of three lines of which any or none has a width that is no integer')(vgf_failure)
