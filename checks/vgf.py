"""Vector graphics files: writing and reading (C19), validation (C20), record positions (C21), fields (C22), queries (C23)."""
import struct as _struct

import enum

from sx.harness import scenario

from .vgnames import READ

DEC, ENC = 'gempakio.decode.vgf', 'gempakio.encode.vgf'
BIG = 2147483647


# ---------------------------------------------------------------------------
# The format: header of every record, then the fields of each type
# ---------------------------------------------------------------------------
HEADER = [('delete', 'B'), ('vg_type', 'B'), ('vg_class', 'B'), ('filled', 'b'), ('closed', 'B'), ('smooth', 'B'), ('version', 'B'),
          ('group_type', 'B'), ('group_number', 'i'), ('major_color', 'i'), ('minor_color', 'i'), ('record_size', 'i'),
          ('min_lat', 'f', 2), ('min_lon', 'f', 2), ('max_lat', 'f', 2), ('max_lon', 'f', 2)]


def F(text):
    """Fields from 'name:format[:digits]' words; 'name:format[:digits]>attribute' when the attribute has another name, '-' for none."""
    out = []
    for w in text.split():
        w, _, attr = w.partition('>')
        parts = w.split(':')
        out.append((parts[0], parts[1], int(parts[2]) if len(parts) > 2 else None, attr or parts[0]))
    return out


LINE = F('number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i')
SPECIAL_LINE = F('number_points:i line_type:i stroke:i direction:i size:f:1 width:i')
FRONT = F('number_points:i front_code:i pip_size:i pip_stroke:i pip_direction:i width:i label:4s')
SYMBOL = F('number_symbols:i width:i size:f:1 symbol_type:i symbol_code:f lat:f:2 lon:f:2 offset_x:i offset_y:i')
TEXT = F('rotation:f:1 size:f:3 font:i text_flag:i width:i align:i lat:f:2 lon:f:2 offset_x:i offset_y:i')
SPECIAL_TEXT = F('rotation:f:1 size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i width:i text_color:i line_color:i fill_color:i '
                 'align:i lat:f:2 lon:f:2 offset_x:i offset_y:i')
WIND = F('number_wind:i width:i size:f:1 wind_type:i head_size:f:1 speed:f:2 direction:f:2 lat:f:2 lon:f:2')
LIST = F('list_type:i marker_type:i marker_size:f:1 marker_width:i number_items:i')
TRACK = F('track_type:i total_points:i initial_points:i initial_line_type:i extrapolated_line_type:i initial_mark_type:i '
          'extrapolated_mark_type:i line_width:i speed:f:2 direction:f:2 increment:i')
SIGMET0 = F('subtype:i number_points:i line_type:i line_width:i side_of_line:i area:8s flight_info_region:32s status:i>- distance:f message_id:12s '
            'sequence_number:i start_time:20s end_time:20s remarks:80s sonic:i phenomena:32s trend:8s movement:8s type_indicator:i type_time:20s '
            'flight_level:i speed:i direction:4s tops:80s forecaster:16s')
SIGMET1 = F('subtype:i number_points:i line_type:i line_width:i side_of_line:i area:8s flight_info_region:32s status:i>- distance:f message_id:12s '
            'sequence_number:i start_time:20s end_time:20s remarks:80s sonic:i phenomena:32s phenomena2:32s phenomena_name:36s phenomena_lat:8s '
            'phenomena_lon:8s pressure:i max_wind:i free_text:256s trend:8s movement:8s type_indicator:i type_time:20s '
            'flight_level:i speed:i direction:4s tops:80s forecaster:16s')
CCF = F('subtype:i number_points:i coverage:i storm_tops:i probability:i growth:i speed:f:2 direction:f:2')
CCF_LITTLE = F('text_lat:f:2 text_lon:f:2 arrow_lat:f:2 arrow_lon:f:2 high_fill:i med_fill:i low_fill:i line_type:i arrow_size:f:1')
CCF_TEXT = [F('rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i'), F('font:i text_flag:i width:i'),
            F('text_color:i>- line_color:i>- fill_color:i align:i lat:f:2>- lon:f:2>- offset_x:i offset_y:i text:255s')]
VOLCANO = F('name:64s code:f:1 size:f:1 width:i number:17s location:17s area:33s origin_station:17s vaac:33s wmo_id:8s header_number:9s '
            'elevation:9s year:9s advisory_number:9s correction:4s info_source:256s additional_source:256s aviation_color:16s details:256s '
            'obs_date:16s obs_time:16s obs_ash:1024s forecast_6hr:1024s forecast_12hr:1024s forecast_18hr:1024s remarks:512s '
            'next_advisory:128s forecaster:64s pad:3x lat:f:2 lon:f:2 offset_x:i offset_y:i')
ASH = F('subtype:i number_points:i distance:f:2 forecast_hour:i line_type:i line_width:i side_of_line:i speed:f:2 speeds:16s direction:4s '
        'flight_level1:16s flight_level2:16s')
INNER_TEXT = F('rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i width:i text_color:i line_color:i fill_color:i '
               'align:i text_lat:f:2 text_lon:f:2 offset_x:i offset_y:i')
JET_LINE = F('line_color:i number_points:i line_type:i stroke:i direction:i size:f:1 width:i')
HASH = F('wind_color:i number_wind:i width:i size:f:1 wind_type:i head_size:f:1 speed:f:2 direction:f:2 lat:f:2 lon:f:2')
BARB = HASH + F('flight_level_color:i text_rotation:f:1 text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i text_width:i '
                'text_color:i line_color:i fill_color:i align:i text_lat:f:2 text_lon:f:2 offset_x:i offset_y:i text:255s pad:1x')
CONE = F('line_color:i line_type:i fill_color:i fill_type:i number_points:i')
TC_TRACK = F('line_color:i line_type:i number_points:i')
TC_POINT = F('lat:f:2 lon:f:2 advisory_date:50s tau:50s max_wind:50s wind_gust:50s minimum_pressure:50s development_level:50s '
             'development_label:50s direction:50s speed:50s date_label:50s storm_source:50s pad:2x')
BREAKS = F('line_color:i line_width:i ww_level:i number_points:i')
BREAK = F('lat:f:2 lon:f:2 name:256s')
SGWX = F('subtype:i number_points:i text_lat:f:2 text_lon:f:2 arrow_lat:f:2 arrow_lon:f:2 line_element:i line_type:i line_width:i arrow_size:f:1 '
         'special_symbol:i weather_symbol:i')
SGWX_TEXT = F('rotation:f:1>text_rotation text_size:f:3 text_type:i turbulence_symbol:i font:i text_flag:i width:i>text_width text_color:i '
              'line_color:i fill_color:i align:i>text_align lat:f:2>- lon:f:2>- offset_x:i offset_y:i')
WATCH0 = F('number_points:i style:i watch_type:i number:i filename:128s shape:i')
ANCHORS = F('anchor0_station:8s anchor0_lat:f:2 anchor0_lon:f:2 anchor0_distance:i anchor0_direction:4s '
            'anchor1_station:8s anchor1_lat:f:2 anchor1_lon:f:2 anchor1_distance:i anchor1_direction:4s')


def watch_body(areas):
    return F('status:i number:i issue_time:20s expire_time:20s watch_type:i severity:i timezone:4s max_hail:8s max_wind:8s max_tops:8s '
             f'mean_storm_direction:8s mean_storm_speed:8s states:{areas}s adjacent_areas:{areas}s replacing:24s forecaster:64s filename:128s '
             'issue_flag:i wsm_issue_time:20s wsm_expire_time:20s wsm_reference_direction:32s wsm_recent_from_line:128s wsm_md_number:8s '
             'wsm_forecaster:64s')


SHAPE = F('number_points:i style:i shape:i')
MARKER = F('marker_type:i marker_size:f:1 marker_width:i')
COUNTIES = F('number_counties:i plot_counties:i')


# ---------------------------------------------------------------------------
# Records with contents and what they should be read as
# ---------------------------------------------------------------------------
class Record:
    """Items of a record and the attributes they should be read as."""

    def __init__(self, env, name, concrete=False, full=()):
        self.env, self.name, self.concrete = env, name, concrete
        self.full = full
        self.items, self.expect = [], []
        self.size = 40
        self.serial = 0

    def raw(self, fmt, value, order='>'):
        self.items.append((order, fmt, value))
        self.size += _struct.calcsize('=' + fmt)

    def value(self, name, fmt, digits):
        """Content of a field and what it is read as."""
        env, full = self.env, f'{self.name}_{name}'
        self.serial += 1
        if fmt == 'i':
            v = 1000 * self.serial + 7 if self.concrete else env.int(full, -BIG - 1, BIG)
            return v, v
        if fmt == 'f':
            v = float(self.serial) + 0.5 if self.concrete else env.float(full, -1000, 1000, f32=True)
            return v, v if digits is None else ('near', v, digits)
        if fmt.endswith('x'):
            return b'#' * int(fmt[:-1]), None
        n = int(fmt[:-1])
        k = n if name in self.full else min(n - 1, 3)
        letters = ''.join(chr(97 + (self.serial + i) % 26) for i in range(k)) if self.concrete else env.str(full, k, 65, 90)
        junk = b'' if k == n else b'\x00' + b'#' * (n - k - 1)
        return (letters, junk), letters

    def fields(self, spec, prefix='', order='>', **given):
        for name, fmt, digits, attr in spec:
            if name in given:
                v = w = given[name]
            else:
                v, w = self.value(prefix.replace('.', '_') + name, fmt, digits)
            if fmt.endswith('s') and isinstance(v, tuple):
                text, junk = v
                if len(text):
                    self.raw(f'{len(text)}s', text)
                if junk:
                    self.raw(f'{len(junk)}s', junk)
            elif fmt.endswith('x'):
                self.raw(f'{fmt[:-1]}s', v)
            else:
                self.raw(fmt, v, order)
            if attr != '-' and not fmt.endswith('x'):
                self.expect.append((prefix + attr, w))
        return self

    def array(self, name, n, fmt='f', digits=None, lo=-1000, hi=1000, path=None, tail=()):
        """n values; read as an array followed by the values of the positions in tail (closed lines)."""
        env = self.env
        vs = []
        for k in range(n):
            self.serial += 1
            if self.concrete:
                v = self.serial + 0.25 if fmt == 'f' else self.serial
            else:
                v = env.float(f'{self.name}_{name}{k}', lo, hi, f32=True) if fmt == 'f' else env.int(f'{self.name}_{name}{k}', -BIG - 1, BIG)
            vs.append(v)
            self.raw(fmt, v)
        want = [v if digits is None else ('near', v, digits) for v in vs]
        self.expect.append((path or name, want + [want[k] for k in tail]))
        return want

    def points(self, n, digits=2, prefix='', closed=False, names=('lat', 'lon')):
        for c in names:
            self.array(c, n, digits=digits, path=prefix + c, tail=(0,) if closed and n > 2 else ())

    def skip(self, n):
        if n:
            self.raw(f'{n}s', b'\xfe' * n)

    def header(self, vg_class, vg_type, record_size=None, **given):
        """Bytes of the header and the record."""
        env = self.env
        if self.name != 'last':
            self.skip(env.p.get('extra', 0))
        out, expect = [], []
        values = dict(vg_class=vg_class, vg_type=vg_type, record_size=self.size if record_size is None else record_size, delete=0, filled=0, closed=0,
                      smooth=0, version=0, group_type=0, group_number=0, major_color=1, minor_color=2, min_lat=0.5, min_lon=1.5, max_lat=2.5, max_lon=3.5)
        values.update(given)
        for f in HEADER:
            v = values[f[0]]
            out.append((f[1], v))
            expect.append((f[0], ('near', v, 2) if len(f) > 2 else v))
        self.expect = expect + self.expect
        parts = [env.words('>', out)]
        run = []
        for order, fmt, v in self.items:
            if run and run[0][0] != order:
                parts.append(env.words(run[0][0], [r[1:] for r in run]))
                run = []
            run.append((order, fmt, v))
        if run:
            parts.append(env.words(run[0][0], [r[1:] for r in run]))
        return env._join(parts)


def file_header(env):
    r = Record(env, 'file', concrete=True)
    r.raw('128s', b'Version 7.19.0')
    r.raw('256s', b'NAWIPS Vector Graphic Format ')
    return r.header(0, 22, major_color=0, minor_color=0)


def last_line(env):
    """A plain record to follow others."""
    r = Record(env, 'last', concrete=True)
    r.fields(LINE, number_points=2, line_type=3)
    r.points(2)
    return r, r.header(3, 1, group_type=9, group_number=4)


def attribute(e, path):
    for p in path.split('.'):
        e = e[int(p)] if p.isdigit() else getattr(e, p)
    return e


def same(env, got, want):
    if isinstance(want, tuple) and len(want) == 3 and want[0] == 'near':
        return env.near(got, want[1], 0.5 * 10 ** -want[2] + 1e-4)
    if isinstance(want, (list, tuple)):
        got = env.flat(got) if hasattr(got, 'shape') else list(got)
        if len(got) != len(want):
            return False
        return env.And(*[same(env, a, b) for a, b in zip(got, want)])
    return got == want


def named(env, v, what):
    """A code decoded to a name is the one the format gives this name."""
    if isinstance(v, enum.Enum) and v.name in READ.get(type(v).__name__, ()):
        env.check(v.value == READ[type(v).__name__][v.name], f'{what}: {v.name} stands for {v.value}')


def compare(env, e, expect, what):
    for path, want in expect:
        v = attribute(e, path)
        env.check(same(env, v, want), f'{what}: {path}')
        named(env, v, f'{what}: {path}')


def read(env, *parts):
    env.write_file(env.path('a.vgf'), env._join(list(parts)))
    return env.mod(DEC).VectorGraphicFile(env.path('a.vgf'))


def read_one(env, r, data, what):
    """The element of a record, between the file header and another record."""
    last, tail = last_line(env)
    if 'instead' in env.p:
        env.p['instead'](env, [file_header(env), data, tail], [r, last])
    f = read(env, file_header(env), data, tail)
    env.check(len(f.elements) == 2, f'{what}: elements of the file')
    compare(env, f.elements[0], r.expect, what)
    compare(env, f.elements[1], last.expect, f'record after {what}')
    return f


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------
def plain(env):
    p = env.p
    r = Record(env, 'e', full=p.get('full', ()))
    n = p.get('n')
    given = {k: v(env) if callable(v) else v for k, v in p.get('given', {}).items()}
    if n is not None:
        given['number_points'] = n
    r.fields(p['spec'], **given)
    if n is not None:
        r.points(n, p.get('digits', 2), closed=p.get('closed', False))
    r.skip(p.get('pad', 0))
    data = r.header(*p['kind'], **p.get('header', {}))
    read_one(env, r, data, p['what'])


def element(name, kind, spec, what, **k):
    scenario('C22', name=name, kind=kind, spec=spec, what=what, bounds=f'all contents of the fields of one {what} record (strings of {"all" if k.get("full") else "up to 3"} '
             f'capitals), {k.get("n", "no")} points', **k)(plain)




def number(name, lo, hi):
    return lambda env: env.int(name, lo, hi)


def closes(env, r, data, what, path='lat'):
    return read_one(env, r, data, what)


element('circle', (12, 4), LINE, 'circle', n=2, given=dict(line_type=12))
element('line', (3, 1), LINE, 'line', n=3, given=dict(line_type=35))
element('line_closed', (3, 1), LINE, 'closed line', n=3, given=dict(line_type=7), header=dict(closed=1), closed=True)
element('line_closed_two', (3, 1), LINE, 'closed line', n=2, given=dict(line_type=10), header=dict(closed=1), closed=True)
element('line_most', (3, 1), LINE, 'line', n=500, given=dict(line_type=7))
element('front', (1, 2), FRONT, 'front', n=3, given=dict(front_code=425))
element('front_most', (1, 2), FRONT, 'front', n=500, given=dict(front_code=425))
element('front_label', (1, 2), FRONT, 'front', n=2, given=dict(front_code=425), full=('label',))
element('special_line', (3, 20), SPECIAL_LINE, 'special line', n=3, given=dict(line_type=7, direction=1))
element('special_line_most', (3, 20), SPECIAL_LINE, 'special line', n=500, given=dict(line_type=7, direction=1))
element('special_line_closed', (3, 20), SPECIAL_LINE, 'closed special line', n=4, given=dict(line_type=25, direction=1), header=dict(closed=1), closed=True)
for _t, _n in ((8, 'wind_barb'), (9, 'wind_arrow'), (23, 'directional_arrow'), (24, 'hash_mark')):
    element(_n, (6, _t), WIND, _n.replace('_', ' '))
for _t, _n in ((5, 'weather'), (10, 'cloud'), (11, 'icing'), (12, 'pressure_tendency'), (13, 'past_weather'), (14, 'sky_cover'), (15, 'special'),
               (16, 'turbulence'), (19, 'marker'), (25, 'combination')):
    element(f'symbol_{_n}', (4, _t), SYMBOL, f'{_n.replace("_", " ")} symbol', given=dict(symbol_code=number('symbol_code', 0, 9999)))
element('volcano', (11, 35), VOLCANO, 'volcano')
element('volcano_full', (11, 35), VOLCANO, 'volcano', full=('number', 'area', 'correction', 'elevation', 'obs_date', 'aviation_color'))


def header_fields(env):
    """Every field of the header."""
    r = Record(env, 'e')
    r.fields(LINE, number_points=2, line_type=1)
    r.points(2)
    given = {k: env.int(k, lo, hi) for k, lo, hi in (('delete', 0, 1), ('filled', -128, 127), ('smooth', 0, 255), ('version', 0, 255), ('group_type', 0, 255),
                                                     ('group_number', -BIG - 1, BIG), ('major_color', 0, 32), ('minor_color', 0, 32))}
    given.update({k: env.float(k, -1000, 1000, f32=True) for k in ('min_lat', 'min_lon', 'max_lat', 'max_lon')})
    data = r.header(3, 1, **given)
    f = read_one(env, r, data, 'line')
    g = given['group_type']
    env.check(env.Or(env.And(g == 0, list(f.groups) == [9]), g == 9, env.And(g != 0, [x == y for x, y in zip(f.groups, [g, 9])] == [True, True])
                     if len(f.groups) == 2 else False), 'group types of the file')


scenario('C22', name='header', bounds='all contents of the header of a line')(header_fields)
scenario('C22', name='file_header', bounds='file headers with a version of 1-3 and notes of 1-3 characters')(lambda env: file_heading(env))


def file_heading(env):
    r = Record(env, 'h')
    version, notes = env.str('version', 3, 65, 90), env.str('notes', 3, 65, 90)
    r.raw('128s', version)
    r.raw('256s', notes)
    r.expect += [('gempak_version', version), ('notes', notes)]
    data = r.header(0, 22, group_type=3)
    last, tail = last_line(env)
    f = read(env, data, tail)
    compare(env, f.header, r.expect, 'file header')
    env.check(len(f.elements) == 1, 'elements')
    compare(env, f.elements[0], last.expect, 'record after the file header')
    env.check(list(f.groups) == [9], 'group types do not count the file header')


# Names that codes stand for
LINE_NAMES = ('dotted solid short_dashed medium_dashed long_dash_short_dash long_dash long_dash_three_short_dash long_dash_dot '
              'long_dash_three_dot extra_long_dash_two_dot').split()
FRONT_TYPES = 'stationary stationary_aloft warm warm_aloft cold cold_aloft occluded dryline intertropical convergence'.split()
FRONT_INTENSITIES = ('unspecified weak_decreasing weak weak_increasing moderate_decreasing moderate moderate_increasing strong_decreasing strong '
                     'strong_increasing').split()
FRONT_CHARACTERS = ('unspecified frontal_decreasing little_change area_increasing intertropical forming_suspected quasi_stationary with_waves '
                    'diffuse position_doubtful').split()
SPECIAL_NAMES = ('ball_chain zigzag scallop pointed_arrow alt_angle_ticks filled_arrow box_circles two_x filled_circles line_fill_circle_line '
                 'tick_marks line_x_line fancy_arrow fill_circle_x box_x line_circle_line line_caret_line1 line_caret_line2 sine_curve arrow_dashed '
                 'fill_arrow_dash streamline double_line kink_line1 kink_line2 z_line').split()
MARKER_NAMES = ('none plus_sign octagon triangle box small_x diamond up_arrow x_bar z_bar y box_diagonals asterisk hourglass star dot large_x '
                'filled_octagon filled_triangle filled_box filled_diamond filled_star minus_sign tropical_storm hurricane').split()
LIST_NAMES = 'county zone wfo state marine_county'.split()


def line_codes(env):
    r = Record(env, 'e', concrete=True)
    a, b = env.int('modifier', 0, 9), env.int('style', 0, 9)
    r.fields(LINE, number_points=2, line_type=10 * a + b)
    r.points(2)
    f = read(env, file_header(env), r.header(*env.p['kind']))
    e = f.elements[0]
    compare(env, e, r.expect, 'line')
    env.check(e.line_modifier == a, 'line modifier')
    env.check(env.Or(*[env.And(b == k, e.line_style == nm) for k, nm in enumerate(LINE_NAMES)]), 'line style')


scenario('C22', name='line_codes', kind=(3, 1), bounds='all line types')(line_codes)
scenario('C22', name='circle_codes', kind=(12, 4), bounds='all line types')(line_codes)


def front_codes(env):
    r = Record(env, 'e', concrete=True)
    d = [env.int(f'digit{k}', 0, 9) for k in range(3)]
    w = env.p['which']
    env.assume(env.And(*[d[k] == 3 for k in range(3) if k != w]))
    r.fields(FRONT, number_points=2, front_code=100 * d[0] + 10 * d[1] + d[2])
    r.points(2)
    e = read(env, file_header(env), r.header(1, 2)).elements[0]
    compare(env, e, r.expect, 'front')
    for k, (attr, names) in enumerate((('front_type', FRONT_TYPES), ('front_intensity', FRONT_INTENSITIES), ('front_character', FRONT_CHARACTERS))):
        env.check(env.Or(*[env.And(d[k] == j, getattr(e, attr) == nm) for j, nm in enumerate(names)]), attr)


for _k in range(3):
    scenario('C22', name=f'front_codes{_k}', which=_k, bounds=f'front codes with any digit in place {_k}, the others 3')(front_codes)


def special_codes(env):
    r = Record(env, 'e', concrete=True)
    t = env.int('line_type', 1, 26)
    r.fields(SPECIAL_LINE, number_points=2, line_type=t, direction=1)
    r.points(2)
    e = read(env, file_header(env), r.header(3, 20)).elements[0]
    compare(env, e, r.expect, 'special line')
    env.check(env.Or(*[env.And(t == 1 + k, e.line_style == nm) for k, nm in enumerate(SPECIAL_NAMES)]), 'line style')


scenario('C22', name='special_codes', bounds='all special line types')(special_codes)


def reversed_line(env):
    """Special lines that run counter-clockwise are returned clockwise."""
    n, closed = env.p['n'], env.p['closed']
    r = Record(env, 'e')
    r.fields(SPECIAL_LINE, number_points=n, line_type=3, direction=-1)
    r.points(n, closed=closed)
    for k, (path, want) in enumerate(r.expect):
        if path in ('lat', 'lon'):
            r.expect[k] = (path, want[::-1])
    read_one(env, r, r.header(3, 20, closed=int(closed)), 'counter-clockwise special line')


for _n, _c in ((2, False), (3, False), (3, True)):
    scenario('C22', name=f'reversed_{_n}{"_closed" if _c else ""}', n=_n, closed=_c, bounds=f'all contents of a special line of {_n} points')(reversed_line)


def undirected(env):
    """Any other direction is no reason to turn a line."""
    r = Record(env, 'e')
    d = env.int('direction', -BIG - 1, BIG)
    env.assume(d != -1)
    r.fields(SPECIAL_LINE, number_points=2, line_type=3, direction=d)
    r.points(2)
    read_one(env, r, r.header(3, 20), 'special line')


scenario('C22', name='undirected', bounds='all directions but -1')(undirected)


def closed_flag(env):
    """Lines are closed when their flag says so."""
    r = Record(env, 'e')
    c = env.int('closed', 0, 255)
    env.assume(c > 0)
    if env.p['special']:
        r.fields(SPECIAL_LINE, number_points=3, line_type=3, direction=1)
    else:
        r.fields(LINE, number_points=3, line_type=3)
    r.points(3, closed=True)
    read_one(env, r, r.header(3, 20 if env.p['special'] else 1, closed=c), 'closed line')


scenario('C22', name='closed_flag', special=False, bounds='all values of the flag')(closed_flag)
scenario('C22', name='closed_flag_special', special=True, bounds='all values of the flag')(closed_flag)


# Text
def text(env):
    r = Record(env, 'e')
    r.fields(TEXT if env.p['kind'][1] != 21 else SPECIAL_TEXT)
    t = env.p['text'](env)
    body, want = t if isinstance(t, tuple) else (t, t)
    r.raw(f'{len(body)}s', body)
    r.skip(0)
    if env.p['junk'] is not None:
        r.raw(f'{1 + len(env.p["junk"])}s', b'\x00' + env.p['junk'])
    r.expect.append(('text', want))
    read_one(env, r, r.header(*env.p['kind']), 'text')


def broken_text(env):
    a, b = env.str('a', 2, 65, 90), env.str('b', 2, 65, 90)
    return a + '$$' + b, a + '\n' + b


def blank_text(env):
    a, b = env.str('a', 2, 65, 90), env.str('b', 2, 65, 90)
    return '  ' + a + ' ' + b + ' ', a + ' ' + b


TEXTS = dict(words=lambda env: env.str('text', 4, 65, 90), any=lambda env: env.str('text', 3, 33, 126, [c for c in map(chr, range(33, 127)) if c != '$']),
             broken=broken_text, blanks=blank_text)
for _t, _n in ((17, 'text'), (18, 'justified_text'), (21, 'special_text')):
    for _w, _f in TEXTS.items():
        scenario('C22', name=f'{_n}_{_w}', kind=(5, _t), text=_f, junk=b'', bounds=f'all contents of a {_n} record with a text of up to 6 letters, line breaks or blanks')(text)
    scenario('C22', name=f'{_n}_junk', kind=(5, _t), text=TEXTS['words'], junk=b'#\xff#', bounds=f'all contents of a {_n} record with leftovers after the text')(text)
    scenario('C22', name=f'{_n}_unended', kind=(5, _t), text=TEXTS['words'], junk=None, bounds=f'all contents of a {_n} record without end of text')(text)


# Lists, tracks
def lists(env):
    n = env.p['n']
    r = Record(env, 'e', concrete=env.p.get('concrete', False))
    t, m = env.int('list_type', 1, 5) if env.p['codes'] else 4, env.int('marker_type', 0, 24) if env.p['codes'] else 12
    r.fields(LIST, number_items=n, list_type=t, marker_type=m)
    items = []
    for k in range(n):
        v = f'XY{k:03d}' if r.concrete else env.str(f'item{k}', 9 if k == env.p['full'] else 3, 65, 90)
        r.raw(f'{len(v)}s', v)
        if len(v) < 9:
            r.raw(f'{9 - len(v)}s', b'\x00' + b'#' * (8 - len(v)))
        items.append(v)
    r.expect.append(('list_items', items))
    r.skip((500 - n) * 9)
    r.array('lat', n)
    r.skip((500 - n) * 4)
    r.array('lon', n)
    r.skip((500 - n) * 4)
    f = read_one(env, r, r.header(14, 34), 'list')
    e = f.elements[0]
    env.check(env.Or(*[env.And(t == 1 + k, e.list_type_name == nm) for k, nm in enumerate(LIST_NAMES)]), 'list type name')
    env.check(env.Or(*[env.And(m == k, e.marker_name == nm) for k, nm in enumerate(MARKER_NAMES)]), 'marker name')


for _n in (0, 1, 3):
    scenario('C22', name=f'list_{_n}', n=_n, codes=False, full=0, bounds=f'all contents of a list of {_n} items')(lists)
scenario('C22', name='list_500', n=500, codes=False, full=0, concrete=True, bounds='a list of 500 items')(lists)
scenario('C22', name='list_codes', n=1, codes=True, full=1, budget=30, bounds='all list and marker types')(lists)


def tracks(env):
    """The newest layout unless skip or font is out of range."""
    n, age = env.p['n'], env.p['age']
    r = Record(env, 'e', concrete=env.p.get('concrete', False))
    r.fields(TRACK, total_points=n)
    if age == 'new':
        skip, font, flag = env.int('skip', -3, 4), env.int('font', 0, 33), env.int('flag', -BIG - 1, BIG)
        size = env.float('font_size', 0, 100, f32=True)
        for v in (skip, font, flag):
            r.raw('i', v)
        r.raw('f', size, '<')
        r.expect += [('skip', skip), ('font', font), ('font_flag', flag), ('font_size', ('near', size, 1))]
    elif age == 'middle':
        skip = env.int('skip', -3, 4)
        r.raw('i', skip)
        r.expect += [('skip', skip), ('font', 1), ('font_flag', 2), ('font_size', 1.0)]
    else:
        r.expect += [('skip', 0), ('font', 1), ('font_flag', 2), ('font_size', 1.0)]
    times = []
    for k in range(n):
        v = f'2401{k + 1:02d}/1200' if r.concrete else env.str(f'time{k}', 4, 48, 57)
        r.raw(f'{len(v)}s', v)
        r.raw(f'{18 - len(v)}s', b'\x00' + b'#' * (17 - len(v)))
        times.append(v)
    r.expect.append(('times', times))
    r.skip((50 - n) * 18)
    r.points(n)
    r.skip((50 - n) * 8)
    read_one(env, r, r.header(10, 26), 'track')


for _a in ('new', 'middle', 'old'):
    for _n in (2, 3):
        scenario('C22', name=f'track_{_a}_{_n}', n=_n, age=_a, bounds=f'all contents of a {_a} track of {_n} points')(tracks)
    scenario('C22', name=f'track_{_a}_50', n=50, age=_a, concrete=True, bounds=f'a {_a} track of 50 points')(tracks)


# Sigmets
for _t, _n in ((27, 'international'), (28, 'nonconvective'), (29, 'convective'), (30, 'outlook'), (31, 'airmet')):
    element(f'sigmet_{_n}', (11, _t), SIGMET0, f'{_n} sigmet', n=3, digits=None)
    element(f'sigmet_{_n}_1', (11, _t), SIGMET1, f'{_n} sigmet', n=2, digits=None, header=dict(version=1))
element('sigmet_full', (11, 27), SIGMET1, 'sigmet', n=2, digits=None, header=dict(version=1), full=('area', 'direction', 'trend', 'phenomena_lat', 'message_id'))


def old_sigmet(env):
    r = Record(env, 'e')
    r.fields(SIGMET0, number_points=2)
    r.points(2, None)
    r.expect += [(k, '') for k in ('phenomena2', 'phenomena_name', 'phenomena_lat', 'phenomena_lon', 'free_text')] + [('pressure', -9999), ('max_wind', -9999)]
    read_one(env, r, r.header(11, 28), 'sigmet')


def sigmet_status(env):
    r = Record(env, 'e')
    status = env.int('status', -BIG - 1, BIG)
    r.fields(SIGMET0, number_points=2, status=status)
    r.points(2, None)
    e = read(env, file_header(env), r.header(11, 27)).elements[0]
    env.check(e.status == status, 'sigmet: status')


scenario('C22', name='sigmet_status', bounds='all values of the status of a version 0 sigmet')(sigmet_status)
scenario('C22', name='sigmet_old', bounds='all contents of a version 0 sigmet')(old_sigmet)


def ccf(env):
    n = env.p['n']
    r = Record(env, 'e', full=env.p.get('full', ()), concrete=env.p.get('concrete', False))
    r.fields(CCF, number_points=n)
    r.fields(CCF_LITTLE, order='<')
    swapped = {} if r.concrete else {k: env.int(k, -BIG - 1, BIG, bv=32) for k in ('font', 'text_flag', 'width')}
    for spec, order in zip(CCF_TEXT, '><>'):
        r.fields(spec, order=order, **(swapped if order == '<' else {}))
    r.skip(1)
    layout = 'LAYOUT' if r.concrete else env.str('layout', 3, 65, 90)
    r.raw(f'{len(layout)}s', layout)
    r.raw(f'{256 - len(layout)}s', b'\x00' + b'#' * (255 - len(layout)))
    r.expect.append(('text_layout', layout))
    r.points(n)
    r.skip((100 - n) * 8)
    read_one(env, r, r.header(11, 32), 'convective forecast')


scenario('C22', name='ccf_2', n=2, bounds='all contents of a convective forecast of 2 points')(ccf)
scenario('C22', name='ccf_3', n=3, full=('text',), bounds='all contents of a convective forecast of 3 points, full text')(ccf)
scenario('C22', name='ccf_100', n=100, concrete=True, bounds='a convective forecast of 100 points')(ccf)


def inner_text(env, r, name='text'):
    t = 'TEXT' if r.concrete else env.str(name, 3, 65, 90)
    r.raw(f'{len(t)}s', t)
    r.raw(f'{255 - len(t)}s', b'\x00' + b'#' * (254 - len(t)))
    r.skip(1)
    r.expect.append(('text', t))


def ash(env):
    n = env.p['n']
    r = Record(env, 'e', full=env.p.get('full', ()), concrete=env.p.get('concrete', False))
    r.fields(ASH, number_points=n)
    r.fields(INNER_TEXT)
    inner_text(env, r, 'words')
    r.points(n)
    r.skip((50 - n) * 8)
    read_one(env, r, r.header(11, 36), 'ash cloud')


scenario('C22', name='ash_3', n=3, bounds='all contents of an ash cloud of 3 points')(ash)
scenario('C22', name='ash_full', n=2, full=('speeds', 'direction', 'flight_level1', 'flight_level2'), bounds='all contents of an ash cloud of 2 points, full strings')(ash)
scenario('C22', name='ash_50', n=50, concrete=True, bounds='an ash cloud of 50 points')(ash)


def sgwx(env):
    n = env.p['n']
    r = Record(env, 'e', concrete=env.p.get('concrete', False))
    r.fields(SGWX, number_points=n)
    r.fields(SGWX_TEXT, prefix='')
    inner_text(env, r, 'words')
    r.points(n, names=('area_lat', 'area_lon'))
    r.skip((256 - n) * 8)
    read_one(env, r, r.header(15, 43), 'significant weather')


scenario('C22', name='sgwx_3', n=3, bounds='all contents of a significant weather element of 3 points')(sgwx)
scenario('C22', name='sgwx_256', n=256, concrete=True, bounds='a significant weather element of 256 points')(sgwx)


def gfa(env):
    b, n = env.p['b'], env.p['n']
    r = Record(env, 'e')
    r.raw('i', b)
    r.raw('i', n)
    r.expect += [('number_blocks', b), ('number_points', n)]
    blocks = []
    for k in range(b):
        v = env.str(f'block{k}', 3, 65, 90)
        r.raw('3s', v)
        r.raw('1021s', b'\x00' + b'#' * 1020)
        blocks.append(v)
    r.expect.append(('blocks', blocks))
    r.points(n)
    read_one(env, r, r.header(15, 37 + 1), 'graphical forecast area')


for _b, _n in ((1, 3), (2, 2), (3, 1)):
    scenario('C22', name=f'gfa_{_b}', b=_b, n=_n, bounds=f'all contents of a graphical forecast area of {_b} blocks and {_n} points')(gfa)


def jet(env):
    n, nb, nh = env.p['counts']
    r = Record(env, 'e', concrete=env.p.get('concrete', False), full=env.p.get('full', ()))
    r.fields(JET_LINE, prefix='line_attribute.', number_points=n)
    r.points(n, prefix='line_attribute.')
    r.skip((500 - n) * 8)
    r.raw('I', nb)
    for k in range(nb):
        r.fields(BARB, prefix=f'barb_attributes.{k}.')
    r.skip((50 - nb) * 360)
    r.raw('I', nh)
    for k in range(nh):
        r.fields(HASH, prefix=f'hash_attributes.{k}.')
    r.skip((50 - nh) * 40)
    r.expect += [('number_barbs', nb), ('number_hashes', nh)]
    f = read_one(env, r, r.header(15, 37), 'jet')
    env.check(len(f.elements[0].barb_attributes) == nb, 'barbs')
    env.check(len(f.elements[0].hash_attributes) == nh, 'hashes')


for _c in ((2, 1, 1), (3, 2, 0), (2, 0, 2), (2, 3, 3)):
    scenario('C22', name='jet_{}_{}_{}'.format(*_c), counts=_c, bounds='all contents of a jet of {} points, {} barbs and {} hashes'.format(*_c))(jet)
scenario('C22', name='jet_most', counts=(500, 50, 50), concrete=True, bounds='a jet of 500 points, 50 barbs and 50 hashes')(jet)


# Tropical cyclones
def storm(env, r):
    """The part all tropical cyclone records share."""
    basin, kind = env.int('basin', 0, 3), env.int('storm_type', 0, 4)
    number, status, advisory, name = env.str('number', 2, 48, 57), env.str('status', 1, 65, 90), env.str('advisory', 2, 48, 57), env.str('storm_name', 3, 65, 90)
    zone, period = env.str('zone', 3, 65, 90), env.str('period', 2, 48, 57)
    when = env.datetime('when', 1970, 2060)

    def text(v, n):
        v = v if not isinstance(v, str) else v
        r.raw(f'{len(v)}s', v)
        if n > len(v):
            r.raw(f'{n - len(v)}s', b'\x00' + b'#' * (n - len(v) - 1))

    text(number, 5)
    text(status, 2)
    text(env.tostr(basin), 5)
    text(advisory, 5)
    text(name, 128)
    text(env.tostr(kind), 5)
    text(when.strftime('%y%m%d/%H%M'), 21)
    text(zone, 4)
    text(period, 5)
    r.expect += [('storm_number', number), ('issue_status', status), ('advisory_number', advisory), ('storm_name', name), ('timezone', zone),
                 ('forecast_period', period), ('basin', basin), ('storm_type', kind)]
    return when


def same_time(env, e, when):
    t = e.valid_time
    for k in ('month', 'day', 'hour', 'minute'):
        env.check(getattr(t, k) == getattr(when, k), f'valid {k}')
    env.check((t.year - when.year) % 100 == 0, 'valid year')
    env.check(t.tzinfo == env.dt.timezone.utc, 'valid time is universal time')


def tc_cone(env):
    n = env.p['n']
    r = Record(env, 'e')
    when = storm(env, r)
    r.fields(CONE, number_points=n)
    r.points(n)
    f = read_one(env, r, r.header(15, 40), 'error cone')
    same_time(env, f.elements[0], when)


def tc_track(env):
    n = env.p['n']
    r = Record(env, 'e', full=env.p.get('full', ()))
    when = storm(env, r)
    r.fields(TC_TRACK, number_points=n)
    for k in range(n):
        r.fields(TC_POINT, prefix=f'track_points.{k}.')
    f = read_one(env, r, r.header(15, 41), 'cyclone track')
    env.check(len(f.elements[0].track_points) == n, 'points of the cyclone track')
    same_time(env, f.elements[0], when)


def tc_breaks(env):
    n = env.p['n']
    r = Record(env, 'e')
    when = storm(env, r)
    r.fields(BREAKS, number_points=n, ww_level=env.int('level', 0, 3))
    for k in range(n):
        r.fields(BREAK, prefix=f'breakpoints.{k}.')
    f = read_one(env, r, r.header(15, 42), 'break points')
    env.check(len(f.elements[0].breakpoints) == n, 'break points')
    same_time(env, f.elements[0], when)


for _n in (1, 3):
    scenario('C22', name=f'tc_cone_{_n}', n=_n, budget=30, bounds=f'all contents of an error cone of {_n} points')(tc_cone)
    scenario('C22', name=f'tc_breaks_{_n}', n=_n, budget=30, bounds=f'all contents of a record of {_n} break points')(tc_breaks)
for _n in (0, 1, 3):
    scenario('C22', name=f'tc_track_{_n}', n=_n, budget=30, bounds=f'all contents of a cyclone track of {_n} points')(tc_track)


def digits(env, name, shape):
    """Text of symbolic digits where the shape has a 0."""
    out = ''
    for k, c in enumerate(shape):
        out = out + (env.str(f'{name}{k}', 1, 48, 57) if c == '0' else c)
    return out


def decimal(env, text):
    """The value of digits with a point."""
    sign, v, scale = 1, 0, 0
    for c in text:
        if c == '-':
            sign = -1
        elif c == '.':
            scale = 1
        else:
            v = 10 * v + env.digit(c)
            scale *= 10
    return sign * v / float(scale or 1)


def advisory(env):
    """Advisories are text made of tags."""
    p = env.p
    ww = p['ww']
    number, basin, adv, kind = digits(env, 'number', '00'), env.str('basin', 1, 48, 51), digits(env, 'advisory', '00'), env.str('kind', 1, 48, 52)
    status, name, valid, zone = env.str('status', 1, 65, 90), env.str('name', 3, 65, 90), digits(env, 'valid', '000000/0000'), env.str('zone', 3, 65, 90)
    lat, lon, font, size, width = (digits(env, 'lat', '00.00'), digits(env, 'lon', '-00.00'), digits(env, 'font', '0'), digits(env, 'size', '0.0'),
                                   digits(env, 'width', '0'))
    parts = dict(stormNum=number, issueStatus=status, basin=basin, advisoryNum=adv, stormName=name, stormType=kind, validTime=valid, timezone=zone,
                 textLat=lat, textLon=lon, textFont=font, textSize=size, textWidth=width, wwNum=str(len(ww)))
    order = list(parts) if p['order'] else list(parts)[::-1]
    t = ''
    for k in order:
        t = t + f'<tca_{k}>' + parts[k]
    areas = []
    for n, breaks in enumerate(ww):
        level = [env.str(f'level{n}_{k}', 1, 48, 48 + most) for k, most in enumerate((1, 1, 2))]
        pts = [(digits(env, f'blat{n}_{k}', '00.0'), digits(env, f'blon{n}_{k}', '-00.0'), env.str(f'bname{n}_{k}', 2, 65, 90)) for k in range(breaks)]
        t = t + f'<tca_tcawwStr_{n}>' + level[0] + '|' + level[1] + '|' + level[2] + f'<tca_numBreakPts_{n}>{breaks}<tca_breakPts_{n}>'
        for k, pt in enumerate(pts):
            t = t + ('|' if k else '') + pt[0] + '|' + pt[1] + '|' + pt[2]
        areas.append((level, pts))
    if p['order'] or not ww:
        t = t + '<'
    r = Record(env, 'e')
    r.raw(f'{len(t)}s', t)
    r.raw('2s', b'\x00#')
    whole = lambda v: sum(env.digit(c) * 10 ** (len(v) - 1 - k) for k, c in enumerate(v))
    f = read_one(env, r, r.header(15, 39), 'advisory')
    e = f.elements[0]
    for attr, v in (('storm_number', number), ('basin', basin), ('advisory_number', adv), ('storm_type', kind), ('text_font', font), ('text_width', width)):
        env.check(getattr(e, attr) == whole(v), f'advisory: {attr}')
    for attr, v in (('issue_status', status), ('storm_name', name), ('valid_time', valid), ('timezone', zone)):
        env.check(getattr(e, attr) == v, f'advisory: {attr}')
    for attr, v in (('text_lat', lat), ('text_lon', lon), ('text_size', size)):
        env.check(env.near(getattr(e, attr), decimal(env, v), 1e-6), f'advisory: {attr}')
    env.check(e.number_ww == len(ww) and len(e.ww) == len(ww), 'advisory: number of areas')
    for w, (level, pts) in zip(e.ww, areas):
        for attr, v in zip(('severity', 'advisory_type', 'special_geography'), level):
            env.check(w[attr] == env.digit(v), f'advisory: {attr}')
        env.check(w['number_breaks'] == len(pts) and len(w['break_points']) == len(pts), 'advisory: number of break points')
        for b, pt in zip(w['break_points'], pts):
            env.check(env.And(env.near(b[0], decimal(env, pt[0]), 1e-6), env.near(b[1], decimal(env, pt[1]), 1e-6), b[2] == pt[2]), 'advisory: break point')


for _w in ((), (1,), (3,), (2, 1)):
    scenario('C22', name=f'tca_{"_".join(map(str, _w)) or 0}', ww=_w, order=True, budget=40, bounds=f'all digits and letters of an advisory with areas of {_w} break points')(advisory)
scenario('C22', name='tca_order', ww=(2,), order=False, budget=40, bounds='all digits and letters of an advisory with its tags in another order')(advisory)


# Watches
def watch(env):
    p = env.p
    version, n, c = p['version'], p['n'], p['c']
    r = Record(env, 'e', concrete=p.get('concrete', False), full=p.get('full', ()))
    marker = env.int('marker', 0, 24) if version == 6 and p.get('codes') else 4
    if version == 0:
        r.fields(WATCH0, number_points=n)
        r.expect += [('status', 0), ('issue_time', 0), ('expire_time', 0), ('severity', 0), ('issue_flag', 0)]
        r.expect += [(k, '') for k in ('timezone', 'max_hail', 'max_wind', 'max_tops', 'mean_storm_direction', 'mean_storm_speed', 'states', 'adjacent_areas',
                                       'replacing', 'forecaster', 'wsm_issue_time', 'wsm_expire_time', 'wsm_reference_direction', 'wsm_recent_from_line',
                                       'wsm_md_number', 'wsm_forecaster')]
    else:
        r.fields(SHAPE, number_points=n)
        if version == 6:
            r.fields(MARKER, marker_type=marker)
        if version > 2:
            r.fields(ANCHORS)
        r.fields(watch_body(20 if version < 4 else 80))
    if version < 3:
        r.expect += [(k, '') for k in ('anchor0_station', 'anchor0_direction', 'anchor1_station', 'anchor1_direction')]
        r.expect += [(f'anchor{k}_{m}', -9999.0) for k in (0, 1) for m in ('lat', 'lon', 'distance')]
    if version < 6:
        r.expect += [('marker_type', 1), ('marker_size', 1.0), ('marker_width', 1)]
    if version < 2:
        r.expect += [('number_counties', 0), ('plot_counties', 1), ('county_fips', []), ('county_status', []), ('county_lat', []), ('county_lon', [])]
    else:
        r.fields(COUNTIES, number_counties=c)
        most = 200 if version < 5 else 400
        for name, where in (('county_status', version < 5), ('county_fips', version > 3)):
            if where:
                r.array(name, c, 'i')
                r.skip((most - c) * 4)
            else:
                r.expect.append((name, []))
        r.array('county_lat', c)
        r.array('county_lon', c)
        r.skip((most - c) * 8)
    r.points(n, None, closed=True)
    f = read_one(env, r, r.header(2, 6, version=version), 'watch')
    if version == 6:
        env.check(env.Or(*[env.And(marker == k, f.elements[0].marker_name == nm) for k, nm in enumerate(MARKER_NAMES)]), 'marker name')


for _v in range(7):
    scenario('C22', name=f'watch_{_v}', version=_v, n=3, c=2, bounds=f'all contents of a version {_v} watch of 3 points and 2 counties')(watch)
    scenario('C22', name=f'watch_{_v}_two', version=_v, n=2, c=3, bounds=f'all contents of a version {_v} watch of 2 points and 3 counties')(watch)
    if _v > 1:
        scenario('C22', name=f'watch_{_v}_none', version=_v, n=4, c=0, bounds=f'all contents of a version {_v} watch of 4 points without counties')(watch)
        scenario('C22', name=f'watch_{_v}_most', version=_v, n=8, c=200 if _v < 5 else 400, concrete=True, bounds=f'a version {_v} watch of 8 points with the most counties')(watch)
scenario('C22', name='watch_full', version=6, n=2, c=1, full=('timezone', 'max_hail', 'anchor0_station', 'anchor1_direction', 'wsm_md_number', 'issue_time'),
         bounds='all contents of a version 6 watch with full strings')(watch)
scenario('C22', name='watch_codes', version=6, n=2, c=1, codes=True, budget=30, bounds='all contents and marker types of a version 6 watch')(watch)


# Watch status messages are special lines
element('watch_status', (2, 33), SPECIAL_LINE, 'watch status message', n=3, given=dict(line_type=7, direction=1))
element('watch_status_closed', (2, 33), SPECIAL_LINE, 'closed watch status message', n=3, given=dict(line_type=11, direction=1), header=dict(closed=1), closed=True)


def field_text(env):
    """Text of a field ends at its first null, blanks around it do not belong to it."""
    n = 4
    b = env.bytes('text', n, 0, 126)
    for k in range(n):
        env.assume(env.Or(b[k] == 0, b[k] >= 32))
    r = Record(env, 'e', concrete=True)
    r.fields(WATCH0_TEXT)
    r.raw('4s', b)
    r.fields(WATCH0_REST)
    end = n
    for k in range(n - 1, -1, -1):
        if b[k] == 0:
            end = k
    start = 0
    while start < end and b[start] == 32:
        start += 1
    while end > start and b[end - 1] == 32:
        end -= 1
    r.expect.append(('correction', b[start:end].decode()))
    read_one(env, r, r.header(11, 35), 'volcano')


_CUT = [f[0] for f in VOLCANO].index('correction')
WATCH0_TEXT, WATCH0_REST = VOLCANO[:_CUT], VOLCANO[_CUT + 1:]
scenario('C22', name='field_text', budget=40, bounds='all contents of a field of 4 characters, nulls and blanks included')(field_text)


def rings(env):
    """Coordinates are closed and turned, whether in lists or in arrays."""
    cls = env.mod(DEC).VectorGraphicFile
    n = env.p['n']
    x, y = [env.float(f'x{k}', -1000, 1000) for k in range(n)], [env.float(f'y{k}', -1000, 1000) for k in range(n)]
    a, b = (env.np.array(x), env.np.array(y)) if env.p['array'] else (list(x), list(y))
    p, q = cls.close_coordinates(a, b)
    p, q = env.flat(p) if env.p['array'] else list(p), env.flat(q) if env.p['array'] else list(q)
    env.check(len(p) == n + 1 and len(q) == n + 1, 'points of a closed line')
    env.check(env.And(*[g == w for g, w in zip(p + q, x + x[:1] + y + y[:1])]), 'closed line')
    a, b = (env.np.array(x), env.np.array(y)) if env.p['array'] else (list(x), list(y))
    p, q = cls.flip_coordinates(a, b)
    p, q = env.flat(p) if env.p['array'] else list(p), env.flat(q) if env.p['array'] else list(q)
    env.check(len(p) == n and len(q) == n, 'points of a turned line')
    env.check(env.And(*[g == w for g, w in zip(p + q, x[::-1] + y[::-1])]), 'turned line')


for _n in (1, 4):
    for _a in (False, True):
        scenario('C22', name=f'rings_{_n}_{"array" if _a else "list"}', n=_n, array=_a, bounds=f'lines of {_n} points')(rings)
