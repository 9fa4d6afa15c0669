"""Vector graphics files: what is written is read back (C19), parameters of elements are validated (C20)."""
from sx.harness import scenario

from .vgf import BIG, DEC, ENC, compare
from .vgnames import WRITE

POINTS = (10, 12, 14, 18, 24, 34)
FONTS = (1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33)


def reals(env, name, lo=-1000, hi=1000):
    return env.float(name, lo, hi, f32=True)


def lonlat(env, p, n):
    return [reals(env, f'{p}_lon{k}') for k in range(n)], [reals(env, f'{p}_lat{k}') for k in range(n)]


def colour(env, name):
    return env.int(name, 0, 32)


def header(env, p, e, expect, smooth=True, shape=True, colours=True):
    """Attributes common to all elements, set where there is no parameter for them."""
    for name, lo, hi in (('group_type', 0, 255), ('group_number', 0, BIG)) + ((('major_color', 0, 32), ('minor_color', 0, 32)) if colours else ()) \
            + ((('filled', 0, 8), ('closed', 0, 1)) if shape else ()) + ((('smooth', 0, 2),) if smooth else ()):
        v = env.int(f'{p}_{name}', lo, hi)
        setattr(e, name, v)
        expect.append((name, v))
    expect += [('delete', 0), ('version', 0)]
    return e


def outline(env, lon, lat, expect):
    """The bounds in the header of an element."""
    low, high = min, max
    for name, vs in (('lon', lon), ('lat', lat)):
        a = b = vs[0]
        for v in vs[1:]:
            a, b = env.ite(v < a, v, a), env.ite(v > b, v, b)
        expect += [(f'min_{name}', ('near', a, 2)), (f'max_{name}', ('near', b, 2))]


def path(vs):
    return [('near', v, 2) for v in vs]


def array(env, vs, kind):
    if kind == 'array':
        return env.np.array(vs)
    return tuple(vs) if kind == 'tuple' else list(vs)


def line(env, p, n=3, kind='list', closed=0, later=False, ltype=None):
    lon, lat = lonlat(env, p, n)
    width, ltype, color = env.int(f'{p}_width', 1, 10), ltype or env.int(f'{p}_line_type', 0, 99), colour(env, f'{p}_color')
    args = dict(line_type=ltype, closed=closed, filled=env.int(f'{p}_fill', 0, 8), smooth=env.int(f'{p}_sm', 0, 2), width=width)
    e = env.mod(ENC).Line(array(env, lon, kind), array(env, lat, kind), color, **args)
    expect = [('vg_class', 3), ('vg_type', 1), ('number_points', n), ('line_type', ltype), ('width', width)]
    if later:
        header(env, p, e, expect, shape=False)
    else:
        expect += [('major_color', color), ('minor_color', color), ('filled', args['filled']), ('smooth', args['smooth'])]
        expect += [('group_type', 0), ('group_number', 0)]
    expect.append(('closed', closed))
    outline(env, lon, lat, expect)
    shut = [0] if closed and n > 2 else []
    expect += [(c, path(vs + [vs[k] for k in shut])) for c, vs in (('lon', lon), ('lat', lat))]
    return e, expect


def special_line(env, p, n=3, kind='list', closed=0, direction=1, later=False, kink=None, flip=False, ltype=None):
    lon, lat = lonlat(env, p, n)
    width, color, size = env.int(f'{p}_width', 1, 10), colour(env, f'{p}_color'), env.float(f'{p}_size', 0.1, 10, f32=True)
    ltype = ltype or env.int(f'{p}_line_type', 1, 26)
    stroke = env.int(f'{p}_stroke', 25, 75)
    kinked = env.Or(ltype == 24, ltype == 25)
    env.assume(kinked if kink else env.Not(kinked))
    args = dict(line_type=ltype, closed=closed, filled=env.int(f'{p}_fill', 0, 8), smooth=env.int(f'{p}_sm', 0, 2), width=width, stroke=stroke,
                size=size, direction=direction)
    e = env.mod(ENC).SpecialLine(array(env, lon, kind), array(env, lat, kind), color, **args)
    if flip:
        e.flip()
        direction = -direction
    expect = [('vg_class', 3), ('vg_type', 20), ('number_points', n), ('line_type', ltype), ('width', width), ('size', ('near', size, 1)),
              ('direction', direction), ('stroke', stroke if kink else 1)]
    if later:
        header(env, p, e, expect, shape=False)
    else:
        expect += [('major_color', color), ('minor_color', color), ('filled', args['filled']), ('smooth', args['smooth'])]
        expect += [('group_type', 0), ('group_number', 0)]
    expect.append(('closed', closed))
    outline(env, lon, lat, expect)
    shut = [0] if closed and n > 2 else []
    for c, vs in (('lon', lon), ('lat', lat)):
        vs = vs + [vs[k] for k in shut]
        expect.append((c, path(vs[::direction])))
    return e, expect


def front(env, p, n=3, kind='list', later=False, minor=True, flip=False, width=None, digits=(1,)):
    lon, lat = lonlat(env, p, n)
    d = [env.int(f'{p}_code{k}', 0, 9) if k in digits else (4, 2, 5)[k] for k in range(3)]
    code = 100 * d[0] + 10 * d[1] + d[2]
    color, color2 = colour(env, f'{p}_color'), colour(env, f'{p}_color2')
    size, stroke, direction = env.int(f'{p}_pip_size', 40, 500), env.int(f'{p}_stroke', 1, BIG), env.int(f'{p}_direction', -1, 1)
    env.assume(direction != 0)
    smooth = env.int(f'{p}_sm', 0, 2)
    e = env.mod(ENC).Front(array(env, lon, kind), array(env, lat, kind), code, color, minor_color=color2 if minor else None, smooth=smooth,
                           pip_size=size, pip_stroke=stroke, pip_direction=direction)
    w = d[1]
    if flip:
        e.flip()
        direction = -direction
    if width:
        w = env.int(f'{p}_width', 1, 8)
        e.width = w
        code = 100 * d[0] + 10 * w + d[2]
    expect = [('vg_class', 1), ('vg_type', 2), ('number_points', n), ('front_code', code), ('width', w), ('pip_size', size), ('pip_stroke', stroke),
              ('pip_direction', direction), ('label', 'SPC')]
    if later:
        header(env, p, e, expect)
    else:
        expect += [('major_color', color), ('minor_color', color2 if minor else color), ('filled', 0), ('closed', 0), ('smooth', smooth)]
        expect += [('group_type', 0), ('group_number', 0)]
    outline(env, lon, lat, expect)
    expect += [(c, path(vs)) for c, vs in (('lon', lon), ('lat', lat))]
    return e, expect


def symbol(env, p, which='SpecialSymbol', later=False):
    lon, lat = reals(env, f'{p}_lon'), reals(env, f'{p}_lat')
    code = env.int(f'{p}_code', 1, 41 if which == 'SpecialSymbol' else 24)
    color, width, size = colour(env, f'{p}_color'), env.int(f'{p}_width', 1, 10), env.float(f'{p}_size', 0.1, 10, f32=True)
    x, y = env.int(f'{p}_x', -BIG - 1, BIG), env.int(f'{p}_y', -BIG - 1, BIG)
    e = getattr(env.mod(ENC), which)(lon, lat, code, color, width=width, size=size, offset_x=x, offset_y=y)
    expect = [('vg_class', 4), ('vg_type', 15 if which == 'SpecialSymbol' else 19), ('number_symbols', 1), ('width', width), ('size', ('near', size, 1)),
              ('symbol_code', code), ('lat', ('near', lat, 2)), ('lon', ('near', lon, 2)), ('offset_x', x), ('offset_y', y)]
    if later:
        header(env, p, e, expect)
    else:
        expect += [('major_color', color), ('minor_color', color), ('group_type', 0), ('group_number', 0)]
    outline(env, [lon], [lat], expect)
    return e, expect


def text(env, p, words=(3,), which=None, points=POINTS, later=False, colours=True, raw=None):
    """Special text of words of the given lengths, with line breaks between."""
    lon, lat = reals(env, f'{p}_lon'), reals(env, f'{p}_lat')
    pieces = raw if raw is not None else [env.str(f'{p}_word{k}', n, 65, 90) for k, n in enumerate(words)]
    content = joined(pieces, '$$')
    color = colour(env, f'{p}_color')
    size = env.choice(f'{p}_points', list(points))
    font = env.choice(f'{p}_font', list(FONTS)) if which is None else 12
    kind = env.int(f'{p}_type', 0, 16)
    turb = env.int(f'{p}_turb', 0, 8)
    align = env.int(f'{p}_align', -1, 1)
    edge, face = colour(env, f'{p}_edge'), colour(env, f'{p}_face')
    rotation = env.float(f'{p}_rotation', -360, 360, f32=True)
    x, y = env.int(f'{p}_x', -BIG - 1, BIG), env.int(f'{p}_y', -BIG - 1, BIG)
    e = env.mod(ENC).SpecialText(lon, lat, content, color, size=size, text_type=kind, font=font, align=align, edgecolor=edge if colours else None,
                                 facecolor=face if colours else None, rotation=rotation, offset_x=x, offset_y=y, turbulence_symbol=turb)
    expect = [('vg_class', 5), ('vg_type', 21), ('text', joined(pieces, '\n')), ('text_color', color),
              ('line_color', edge if colours else color), ('fill_color', face if colours else color), ('text_type', kind),
              ('turbulence_symbol', turb), ('align', align), ('font', font), ('size', ('near', size / 14, 3)), ('text_flag', 2), ('width', 1),
              ('rotation', ('near', rotation, 1)), ('lat', ('near', lat, 2)), ('lon', ('near', lon, 2)), ('offset_x', x), ('offset_y', y)]
    if later:
        header(env, p, e, expect)
    else:
        expect += [('major_color', color), ('minor_color', color), ('group_type', 0), ('group_number', 0)]
    outline(env, [lon], [lat], expect)
    return e, expect


def joined(pieces, sep):
    out = pieces[0]
    for piece in pieces[1:]:
        out = out + sep + piece
    return out


def written(env, made, how='from_elements'):
    """The file of the elements, read back."""
    enc = env.mod(ENC)
    if how == 'from_elements':
        f = enc.VGFile.from_elements(*[e for e, _ in made])
    else:
        f = enc.VGFile()
        for e, _ in made:
            f.add_element(e)
    f.to_vgf(env.path('a.vgf'))
    return env.mod(DEC).VectorGraphicFile(env.path('a.vgf'))


def round_trip(env):
    p = env.p
    made = [fn(env, f'{fn.__name__}{k}', **kw) for k, (fn, kw) in enumerate(p['made'])]
    f = written(env, made, p.get('how', 'from_elements'))
    env.check(f.header.gempak_version == 'Version 7.19.0', 'version of the file')
    env.check(f.header.notes == 'NAWIPS Vector Graphic Format', 'notes of the file')
    env.check(len(f.elements) == len(made), 'number of elements')
    for k, (_, expect) in enumerate(made):
        compare(env, f.elements[k], expect, f'element {k}')


def trip(name, *made, prop='C19', **k):
    scenario(prop, name=name, made=made, bounds=k.pop('bounds'), **k)(round_trip)


ALL = 'all values of all attributes'
for _n in (2, 3, 5):
    trip(f'line_{_n}', (line, dict(n=_n)), bounds=f'a line of {_n} points, {ALL}')
trip('line_array', (line, dict(kind='array')), bounds=f'a line of 3 points in arrays, {ALL}')
trip('line_tuple', (line, dict(kind='tuple')), bounds=f'a line of 3 points in tuples, {ALL}')
for _n in (2, 3):
    trip(f'line_closed_{_n}', (line, dict(n=_n, closed=1)), bounds=f'a closed line of {_n} points, {ALL}')
trip('line_later', (line, dict(later=True)), bounds='a line of 3 points, attributes of the header set later to all values')
for _n in (2, 3, 5):
    trip(f'special_line_{_n}', (special_line, dict(n=_n)), bounds=f'a special line of {_n} points, {ALL}')
for _c in (0, 1):
    trip(f'special_line_turned_{_c}', (special_line, dict(direction=-1, closed=_c)), bounds=f'a counter-clockwise special line of 3 points, {ALL}')
trip('special_line_kinked', (special_line, dict(kink=True)), bounds=f'kinked lines of 3 points, {ALL}')
trip('special_line_flipped', (special_line, dict(flip=True)), bounds=f'a special line of 3 points turned by flip, {ALL}')
trip('special_line_later', (special_line, dict(later=True, closed=1)), bounds='a special line of 3 points, attributes of the header set later to all values')
for _n in (2, 3, 5):
    trip(f'front_{_n}', (front, dict(n=_n)), bounds=f'a front of {_n} points, {ALL}, codes 4?5')
trip('front_type', (front, dict(digits=(0,))), bounds=f'a front of 3 points, {ALL}, codes ?25')
trip('front_character', (front, dict(digits=(2,))), bounds=f'a front of 3 points, {ALL}, codes 42?')
trip('front_code', (front, dict(n=2, digits=(0, 1, 2))), budget=90, bounds=f'a front of 2 points, {ALL}')
trip('front_minor', (front, dict(minor=False, kind='array')), bounds=f'a front of 3 points with one colour, {ALL}')
trip('front_flipped', (front, dict(flip=True)), bounds=f'a front of 3 points turned by flip, {ALL}')
trip('front_width', (front, dict(width=True)), bounds=f'a front of 3 points with a width set later, {ALL}')
trip('front_width_type', (front, dict(width=True, digits=(0,))), bounds=f'a front of 3 points with a width set later, {ALL}, codes ?25')
trip('front_later', (front, dict(later=True)), bounds='a front of 3 points, attributes of the header set later to all values')
for _w in ('SpecialSymbol', 'Marker'):
    trip(f'{_w.lower()}', (symbol, dict(which=_w)), bounds=f'a {_w}, {ALL}')
    trip(f'{_w.lower()}_later', (symbol, dict(which=_w, later=True)), bounds=f'a {_w}, attributes of the header set later to all values')
trip('text', (text, dict(words=(3,))), budget=60, bounds=f'special text of 3 letters, {ALL}')
trip('text_lines', (text, dict(words=(3, 2, 1), which='')), bounds=f'special text of three lines, {ALL} but the font')
trip('text_one', (text, dict(words=(1,), which='', colours=False)), bounds=f'special text of a letter with one colour, {ALL} but the font')
trip('text_long', (text, dict(words=(254,), which='')), bounds=f'special text of 254 letters, {ALL} but the font')
trip('text_later', (text, dict(words=(2,), which='', later=True)), bounds='special text, attributes of the header set later to all values')
trip('text_umlauts', (text, dict(raw=('Böe', 'é°'), which='')), bounds=f'special text outside of ASCII, {ALL} but the font')
ONE = dict(which='', points=(14,))
trip('mixed', (text, dict(words=(1,), **ONE)), (line, dict(n=2, ltype=2)), (symbol, dict()), (front, dict(n=2, digits=())), (special_line, dict(n=2, ltype=5)),
     (symbol, dict(which='Marker')), (line, dict(n=3, closed=1, later=True, ltype=14)), budget=40,
     bounds='a file with one or two elements of each type, ' + ALL + ' but the codes with names')
trip('mixed_added', (front, dict(n=2, digits=())), (text, dict(words=(2,), **ONE)), (text, dict(words=(3,), **ONE)), (front, dict(n=3, digits=())), how='add', budget=40,
     bounds='a file with two fronts and two texts added one by one, ' + ALL + ' but the codes with names')
trip('many', *[((line, dict(n=2 + k % 3, ltype=2)), (symbol, dict()), (front, dict(n=2, digits=())), (special_line, dict(n=2, ltype=5)), (symbol, dict(which='Marker')))[k % 5]
               for k in range(135)], budget=60, bounds=f'a file of 135 lines, symbols, fronts, special lines and markers, {ALL} but the codes with names')
trip('line_most', (line, dict(n=500, ltype=2)), bounds=f'a line of 500 points, {ALL}')
trip('special_line_most', (special_line, dict(n=500, ltype=5)), bounds=f'a special line of 500 points, {ALL}')
trip('front_most', (front, dict(n=500, digits=())), bounds=f'a front of 500 points, {ALL}')
trip('empty', bounds='a file without elements')


# Codes given by name
NAMED = {'LineCodes': ('Line', 'line_type'), 'SpecialLineCodes': ('SpecialLine', 'line_type'), 'MarkerCodes': ('Marker', 'symbol_code'),
         'SpecialSymbolCodes': ('SpecialSymbol', 'symbol_code'), 'FrontCodes': ('Front', 'front_code'), 'FontCodes': ('SpecialText', 'font'),
         'SpecialTextCodes': ('SpecialText', 'text_type'), 'FillCodes': ('Line', 'filled'), 'ColorCodes': ('Line', 'color')}


def names(env):
    enc, codes = env.mod(ENC), env.p['codes']
    cls, arg = NAMED[codes]
    name = env.choice('name', sorted(WRITE[codes]))
    want = WRITE[codes][name]
    kw = {arg: getattr(getattr(enc, codes), name)}
    if name.startswith('KINK'):
        kw['stroke'] = 50
    x = reals(env, 'lon')
    e = made(env, cls, lon=[x, -90.0, -80.0] if cls in ('Line', 'SpecialLine', 'Front') else x, **kw)
    f = written(env, [(e, ())])
    got = 'major_color' if arg == 'color' else arg
    compare(env, f.elements[0], [(got, want)], f'{codes}.{name}')


for _c in NAMED:
    scenario('C19', name=f'names_{_c.lower()}', codes=_c, bounds=f'every name of {_c}, any longitude')(names)


# Attributes set after the element was made
SET = {
    'Line': dict(line_type=(0, 99), width=(1, 10), filled=(0, 8), smooth=(0, 2), major_color=(0, 32), minor_color=(0, 32), group_type=(0, 255), group_number=(0, BIG)),
    'SpecialLine': dict(line_type=(1, 23), width=(1, 10), filled=(0, 8), smooth=(0, 2), major_color=(0, 32), minor_color=(0, 32), size=(0.1, 10.0),
                        group_type=(0, 255), group_number=(0, BIG)),
    'Front': dict(front_code=(420, 429), pip_size=(40, 500), pip_stroke=(1, BIG), smooth=(0, 2), major_color=(0, 32), minor_color=(0, 32),
                  group_type=(0, 255), group_number=(0, BIG)),
    'SpecialSymbol': dict(symbol_code=(1, 41), width=(1, 10), size=(0.1, 10.0), offset_x=(-BIG - 1, BIG), offset_y=(-BIG - 1, BIG), major_color=(0, 32),
                          minor_color=(0, 32), group_type=(0, 255), group_number=(0, BIG)),
    'Marker': dict(symbol_code=(1, 24), width=(1, 10), size=(0.1, 10.0), offset_x=(-BIG - 1, BIG), offset_y=(-BIG - 1, BIG), major_color=(0, 32),
                   minor_color=(0, 32), group_type=(0, 255), group_number=(0, BIG)),
    'SpecialText': dict(align=(-1, 1), text_color=(0, 32), edgecolor=(0, 32), facecolor=(0, 32), rotation=(-360.0, 360.0), offset_x=(-BIG - 1, BIG),
                        offset_y=(-BIG - 1, BIG), turbulence_symbol=(0, 8), major_color=(0, 32), minor_color=(0, 32), group_type=(0, 255), group_number=(0, BIG)),
}
READ_AS = dict(edgecolor='line_color', facecolor='fill_color')
XY = ([-97.5, -90.25, -88.0], [35.0, 40.5, 42.25])


def made(env, cls, **kw):
    """An element with ordinary values but for the given ones."""
    fn = getattr(env.mod(ENC), cls)
    if cls in ('Line', 'SpecialLine'):
        args = dict(lon=XY[0], lat=XY[1], color=2, line_type=3, closed=0)
    elif cls == 'Front':
        args = dict(lon=XY[0], lat=XY[1], front_code=425, major_color=2)
    elif cls == 'SpecialText':
        args = dict(lon=-97.5, lat=35.0, text='A B', text_color=2)
    else:
        args = dict(lon=-97.5, lat=35.0, symbol_code=7, color=2)
    return fn(**{**args, **kw})


def set_later(env):
    cls = env.p['cls']
    e = made(env, cls)
    first = made(env, cls)
    expect = []
    if env.p.get('before'):
        env.mod(ENC).VGFile.from_elements(e).to_vgf(env.path('b.vgf'))
    for name, (lo, hi) in SET[cls].items():
        v = env.float(name, lo, hi, f32=True) if isinstance(lo, float) else env.int(name, lo, hi)
        setattr(e, name, v)
        env.check(getattr(e, name) == v, f'{name} as set')
        expect.append((READ_AS.get(name, name), ('near', v, 1) if isinstance(lo, float) else v))
    f = written(env, [(e, 0), (first, 0)])
    env.check(len(f.elements) == 2, 'number of elements')
    compare(env, f.elements[0], expect, cls)
    g = f.elements[1]
    for name, value in DEFAULTS[cls].items():
        env.check(getattr(g, READ_AS.get(name, name)) == value, f'another {cls}: {name}')


DEFAULTS = {
    'Line': dict(line_type=3, width=2, filled=0, smooth=0, major_color=2, minor_color=2, group_type=0, group_number=0, closed=0),
    'SpecialLine': dict(line_type=3, width=2, filled=0, smooth=0, major_color=2, minor_color=2, group_type=0, size=1.0, stroke=1, direction=1, closed=0),
    'Front': dict(front_code=425, pip_size=100, pip_stroke=1, pip_direction=1, smooth=2, major_color=2, minor_color=2, group_type=0, width=2),
    'SpecialSymbol': dict(symbol_code=7, width=1, size=1.0, offset_x=0, offset_y=0, major_color=2, minor_color=2, group_type=0),
    'Marker': dict(symbol_code=7, width=1, size=1.0, offset_x=0, offset_y=0, major_color=2, minor_color=2, group_type=0),
    'SpecialText': dict(align=0, text_color=2, edgecolor=2, facecolor=2, rotation=0, offset_x=0, offset_y=0, turbulence_symbol=0, text='A B', font=22, text_type=0,
                        major_color=2, minor_color=2, size=0.857),
}
for _c in SET:
    scenario('C19', name=f'set_{_c.lower()}', cls=_c, bounds=f'all values of the attributes of a {_c} set after it was made')(set_later)
    scenario('C19', name=f'set_{_c.lower()}_again', cls=_c, before=True, bounds=f'all values of the attributes of a {_c} set after it was written once')(set_later)


# ---------------------------------------------------------------------------
# C20
# ---------------------------------------------------------------------------
def attempt(env, fn):
    """Whether the call is refused, and what it returns."""
    try:
        return False, fn()
    except (ValueError, TypeError):
        return True, None


def parameter(env):
    """One parameter, given when the element is made and set later."""
    p = env.p
    cls, kw, attr, given = p['cls'], p.get('kw'), p.get('attr'), p.get('given', {})
    if p['domain'] == 'real':
        v = env.float('value', -1000, 1000)
    else:
        v = env.int('value', -BIG - 1, BIG) if p.get('small') else env.int('value', -4 * BIG, 4 * BIG)
    if p.get('unsure'):
        env.assume(env.And(*[v != u for u in p['unsure']]))
    ok = p['valid'](env, v)
    data = None
    if kw:
        refused, e = attempt(env, lambda: made(env, cls, **{**given, kw: v}))
        env.check(refused == env.Not(ok), f'{cls}({kw}=...) is refused if and only if it is out of range')
        if not refused:
            if attr:
                env.check(getattr(e, attr) == v, f'{kw} of the {cls} made')
            data = e.encode()
    if attr:
        e = made(env, cls, **given)
        before = e.encode()
        old = getattr(e, attr)
        refused, _ = attempt(env, lambda: setattr(e, attr, v))
        env.check(refused == env.Not(ok), f'{cls}.{attr} is refused if and only if it is out of range')
        if refused:
            env.check(getattr(e, attr) == old, f'{attr} after it was refused')
            env.check(e.encode() == before, f'bytes after {attr} was refused')
        else:
            env.check(getattr(e, attr) == v, f'{cls}.{attr} as set')
            after = e.encode()
            if data is not None and not p.get('differ'):
                env.check(after == data, f'the {cls} is the same, whether {attr} was given or set')
            if p.get('stored', True):
                fmt, where = p['where']
                got = env.struct.unpack_from('>' + fmt, after, where)[0]
                env.check(env.near(got, v, 1e-4) if fmt == 'f' else got == v, f'{attr} written')
    elif data is not None and 'where' in p:
        fmt, where = p['where']
        got = env.struct.unpack_from('>' + fmt, data, where)[0]
        env.check(env.near(got, v, 1e-4) if fmt == 'f' else got == v, f'{kw} written')


def between(lo, hi):
    return lambda env, v: env.And(v >= lo, v <= hi)


def among(*values):
    return lambda env, v: env.Or(*[v == x for x in values])


HEAD = dict(filled=('b', 3), closed=('B', 4), smooth=('B', 5), group_type=('B', 7), group_number=('i', 8), major_color=('i', 12), minor_color=('i', 16))


def validated(cls, name, valid, where, kw=None, attr='same', domain='int', also='', **k):
    scenario('C20', name=f'{cls.lower()}_{name}{also}', cls=cls, kw=kw, attr=name if attr == 'same' else attr, valid=valid, where=where, domain=domain,
             bounds=f'all {"real" if domain == "real" else "integer"} values of {name} of a {cls}{k.pop("note", "")}', **k)(parameter)


for _c, _at in (('Line', None), ('SpecialLine', None), ('Front', None), ('SpecialSymbol', None), ('Marker', None), ('SpecialText', None)):
    validated(_c, 'group_type', between(0, 255), HEAD['group_type'])
    validated(_c, 'group_number', between(0, BIG), HEAD['group_number'])
    validated(_c, 'filled', between(0, 8), HEAD['filled'], kw='filled' if 'Line' in _c else None)
    validated(_c, 'closed', between(0, 1), HEAD['closed'], kw='closed' if 'Line' in _c else None)
    validated(_c, 'smooth', between(0, 2), HEAD['smooth'], kw='smooth' if 'Line' in _c or _c == 'Front' else None)
    validated(_c, 'major_color', between(0, 32), HEAD['major_color'], kw='major_color' if _c == 'Front' else 'text_color' if _c == 'SpecialText' else 'color', differ=True)
    validated(_c, 'minor_color', between(0, 32), HEAD['minor_color'], kw='minor_color' if _c == 'Front' else 'text_color' if _c == 'SpecialText' else 'color', differ=True)
validated('Line', 'line_type', between(0, 99), ('i', 44), kw='line_type')
validated('Line', 'width', between(1, 10), ('i', 52), kw='width')
validated('SpecialLine', 'line_type', between(1, 26), ('i', 44), kw='line_type', unsure=(24, 25))
validated('SpecialLine', 'width', between(1, 10), ('i', 60), kw='width')
validated('SpecialLine', 'size', between(0.1, 10), ('f', 56), kw='size', domain='real')
validated('SpecialLine', 'direction', among(-1, 1), ('i', 52), kw='direction')
for _t in (24, 25):
    validated('SpecialLine', 'stroke', between(25, 75), ('i', 48), kw='stroke', attr=None, given=dict(line_type=_t), also=f'_{_t}')
validated('Front', 'front_code', between(0, 999), ('i', 44), kw='front_code', budget=60)
validated('Front', 'pip_size', between(40, 500), ('i', 48), kw='pip_size')
validated('Front', 'pip_stroke', lambda env, v: v > 0, ('i', 52), kw='pip_stroke', small=True)
validated('Front', 'pip_direction', among(-1, 1), ('i', 56), kw='pip_direction')
validated('Front', 'width', between(1, 8), ('i', 60))
for _c, _hi in (('SpecialSymbol', 41), ('Marker', 24)):
    validated(_c, 'symbol_code', between(0, _hi), ('f', 56), kw='symbol_code', unsure=(0,) if _c == 'Marker' else ())
    validated(_c, 'width', between(1, 10), ('i', 44), kw='width')
    validated(_c, 'size', between(0.1, 10), ('f', 48), kw='size', domain='real')
    validated(_c, 'offset_x', between(-BIG - 1, BIG), ('i', 68), kw='offset_x', small=True)
    validated(_c, 'offset_y', between(-BIG - 1, BIG), ('i', 72), kw='offset_y', small=True)
for _o, _at in (('offset_x', 92), ('offset_y', 96)):
    validated('SpecialText', _o, between(-BIG - 1, BIG), ('i', _at), kw=_o, small=True)
validated('SpecialText', 'rotation', between(-1000, 1000), ('f', 40), kw='rotation', domain='real')
validated('SpecialText', 'text_type', between(0, 16), ('i', 48), kw='text_type')
validated('SpecialText', 'font', among(*FONTS), ('i', 56), kw='font')
validated('SpecialText', 'size', among(*POINTS), ('f', 44), kw='size', stored=False)
validated('SpecialText', 'align', between(-1, 1), ('i', 80), kw='align')
validated('SpecialText', 'edgecolor', between(0, 32), ('i', 72), kw='edgecolor')
validated('SpecialText', 'facecolor', between(0, 32), ('i', 76), kw='facecolor')
validated('SpecialText', 'text_color', between(0, 32), ('i', 68), kw='text_color', differ=True)
for _t in range(17):
    validated('SpecialText', 'turbulence_symbol', between(0, 8 if _t in (7, 9) else 10), ('i', 52), kw='turbulence_symbol', given=dict(text_type=_t), also=f'_{_t}')


def text_length(env):
    """Text has 255 bytes with the null behind it."""
    n = env.choice('length', list(range(1, 6)) + list(range(250, 258)) + [300, 1000])
    content = env.str('text', n, 32, 126)
    refused, e = attempt(env, lambda: made(env, 'SpecialText', text=content))
    env.check(refused == (n > 254), 'text is refused if and only if it is too long')
    if not refused:
        data = e.encode()
        env.check(len(data) == 100 + n + 1, 'bytes written')
        env.check(env.struct.unpack_from('>i', data, 20)[0] == len(data), 'record size written')
        env.check(data[100:] == env._join([env.words('>', [(f'{n}s', content)]), b'\x00']), 'text written')


scenario('C20', name='text_length', bounds='texts of 1-5, 250-257, 300 and 1000 characters')(text_length)


def text_bytes(env):
    """The limit holds for the bytes of text outside of ASCII."""
    k = env.choice('length', [100, 126, 127, 128])
    content = 'ö' * k
    odd = env.choice('odd', [0, 1])
    content += 'x' * odd
    refused, e = attempt(env, lambda: made(env, 'SpecialText', text=content))
    env.check(refused == (2 * k + odd > 254), 'text is refused if and only if it is too long')
    if not refused:
        env.check(len(e.encode()) == 100 + 2 * k + odd + 1, 'bytes written')


scenario('C20', name='text_bytes', bounds='texts of 100-128 umlauts')(text_bytes)


def text_kind(env):
    v = env.int('text', -5, 5)
    refused, _ = attempt(env, lambda: made(env, 'SpecialText', text=v))
    env.check(refused, 'text that is no text is refused')
    refused, _ = attempt(env, lambda: made(env, 'SpecialText', text=b'abc'))
    env.check(refused, 'bytes for text are refused')


scenario('C20', name='text_kind', bounds='integers and bytes for text')(text_kind)


def number_of_points(env):
    """Lines have 2 to 500 points, as many longitudes as latitudes."""
    cls = env.p['cls']
    n = env.choice('longitudes', [0, 1, 2, 3, 499, 500, 501, 502])
    m = env.choice('latitudes', [0, 1, 2, 3, 499, 500, 501, 502])
    a, b = env.float('lon', -180, 180, f32=True), env.float('lat', -90, 90, f32=True)
    refused, e = attempt(env, lambda: made(env, cls, lon=[a] * n, lat=[b] * m))
    env.check(refused == (not (n == m and 2 <= n <= 500)), 'coordinates are refused if and only if they are too few, too many or unequal')
    if not refused:
        data = e.encode()
        skip = dict(Line=60, SpecialLine=64, Front=68)[cls]
        env.check(env.struct.unpack_from('>i', data, 40)[0] == n, 'number of points written')
        env.check(len(data) == skip + 8 * n, 'bytes written')
        env.check(env.struct.unpack_from('>i', data, 20)[0] == len(data), 'record size written')


for _c in ('Line', 'SpecialLine', 'Front'):
    scenario('C20', name=f'{_c.lower()}_points', cls=_c, budget=60, bounds=f'{_c}s of 0-3 and 499-502 longitudes and latitudes')(number_of_points)


def text_type_again(env):
    """A new text type takes the turbulence symbol back, so that no symbol out of range stays."""
    before, after, symbol = env.int('before', 0, 16), env.int('after', -3, 20), env.int('symbol', -3, 14)
    e = made(env, 'SpecialText', text_type=before)
    refused, _ = attempt(env, lambda: setattr(e, 'turbulence_symbol', symbol))
    top = env.ite(env.Or(before == 7, before == 9), 8, 10)
    env.check(refused == env.Not(env.And(symbol >= 0, symbol <= top)), 'turbulence symbol')
    kept = e.turbulence_symbol
    env.check(kept == (0 if refused else symbol), 'symbol set')
    refused, _ = attempt(env, lambda: setattr(e, 'text_type', after))
    env.check(refused == env.Not(env.And(after >= 0, after <= 16)), 'text type')
    env.check(e.text_type == (before if refused else after), 'text type set')
    env.check(e.turbulence_symbol == (kept if refused else 0), 'symbol after the text type was set')


scenario('C20', name='text_type_again', bounds='all text types and symbols, one after another')(text_type_again)


# ---------------------------------------------------------------------------
# C29: writing is a function of what was added
# ---------------------------------------------------------------------------
def vgf_writes(env):
    """Write, add, write again, over files of other lengths, with the elements in another file too."""
    enc = env.mod(ENC)
    elements = [fn(env, f'{fn.__name__}{k}', **kw)[0] for k, (fn, kw) in enumerate(env.p['made'])]
    f, other = enc.VGFile(), enc.VGFile()
    other.add_element(elements[-1])
    for k, e in enumerate(elements):
        f.add_element(e)
        f.to_vgf(env.path(f'f{k}.vgf'))
        other.to_vgf(env.path('other.vgf'))
    f.to_vgf(env.path('other.vgf'))
    g = enc.VGFile.from_elements(*elements)
    g.to_vgf(env.path('g.vgf'))
    alone = enc.VGFile.from_elements(elements[-1])
    alone.to_vgf(env.path('alone.vgf'))
    g.to_vgf(env.path('twice.vgf'))
    other.to_vgf(env.path('g.vgf'))
    read = lambda n: env.read_file(env.path(n + '.vgf'))

    def same(a, b, what):
        x, y = read(a), read(b)
        env.check(len(x) == len(y), f'{what}: length')
        env.check(x == y, f'{what}: content')
    same(f'f{len(elements) - 1}', 'twice', 'after earlier writes')
    same('other', 'twice', 'over a shorter file')
    same('g', 'alone', 'over a longer file, from another')


for _n, _m in (('lines', [(line, {}), (line, dict(n=2, closed=1)), (line, dict(n=4))]), ('fronts', [(front, {}), (special_line, {}), (front, dict(n=2))]),
               ('symbols', [(symbol, {}), (symbol, dict(which='Marker')), (text, {}), (symbol, {})])):
    scenario('C29', name=f'vgf_{_n}', made=_m, budget=20, bounds='three or four elements of any attributes, written after each addition, over longer and shorter '
             'files, and in two files at the same time')(vgf_writes)
