"""Vector graphics files: finding the records (C21), queries of elements (C23)."""
from sx.harness import REGISTRY, scenario

from .vgf import BIG, CCF, DEC, LINE, SIGMET0, SIGMET1, SPECIAL_LINE, SYMBOL, WIND, Record, compare, file_header, last_line, read

SUPPORTED = {0: (22,), 3: (1, 20), 5: (17, 18, 21), 11: (27, 28, 29, 30, 31, 32, 35, 36), 12: (4,), 15: tuple(range(37, 44)),
             1: None, 2: None, 4: None, 6: None, 10: None, 14: None}
TYPES = [1, 2] + list(range(4, 44))


def first_line(env, group=5):
    r = Record(env, 'first', concrete=True)
    r.serial = 40
    r.fields(LINE, number_points=2, line_type=4)
    r.points(2)
    return r, r.header(3, 1, group_type=group, group_number=2)


def foreign(env, name, size, vg_class=None, vg_type=None, version=0, fill=b'\xc3', **given):
    """A record of a kind that cannot be decoded."""
    r = Record(env, name, concrete=True)
    if size:
        r.raw(f'{size}s', fill * size)
    return r.header(vg_class, vg_type, version=version, **given)


def foreign_kind(env, name, classes):
    c = env.choice(f'{name}_class', list(classes))
    t = env.int(f'{name}_type', 1, 43)
    env.assume(t != 3)
    for s in SUPPORTED.get(c) or ():
        env.assume(t != s)
    return c, t


def between_lines(env, *middle):
    """Lines before and after must be found, and nothing else."""
    first, head = first_line(env)
    last, tail = last_line(env)
    f = read(env, file_header(env), head, *middle, tail)
    env.check(len(f.elements) == 2, 'elements of the file')
    compare(env, f.elements[0], first.expect, 'first')
    compare(env, f.elements[1], last.expect, 'last')
    return f


def unknown(env):
    c, t = foreign_kind(env, 'kind', env.p['classes'])
    between_lines(env, foreign(env, 'x', env.p['size'], c, t, delete=env.int('delete', 0, 1), filled=env.int('filled', -128, 127), closed=env.int('closed', 0, 255),
                               version=env.int('version', 0, 255), group_type=env.int('group', 0, 255), major_color=env.int('major', 0, 32),
                               minor_color=env.int('minor', 0, 32)))


for _s in (0, 1, 36, 1000):
    scenario('C21', name=f'unknown_class_{_s}', classes=(7, 8, 9, 13, 16), size=_s, budget=60,
             bounds=f'records of every class without a decoder, every type, {_s} bytes of contents')(unknown)
    scenario('C21', name=f'unknown_type_{_s}', classes=(0, 3, 5, 11, 12, 15), size=_s, budget=60,
             bounds=f'records of every type without a decoder in its class, {_s} bytes of contents')(unknown)


def alone(env):
    """A file of one record, as long as the file, with no record that describes the file."""
    kind = env.p['kind']
    if kind is None:
        kind = foreign_kind(env, 'kind', (7, 3, 15))
        data = foreign(env, 'x', env.p['size'], *kind, group_type=env.int('group', 0, 255))
        want = 0
    else:
        data = record(env, 'x', kind, group_type=env.int('group', 0, 255), group_number=env.int('number', -BIG - 1, BIG), major_color=env.int('major', 0, 32))[1]
        want = 1
    p = env.path('a.vgf')
    env.write_file(p, data)
    f = env.mod(DEC).VectorGraphicFile(p)
    env.check(len(f.elements) == want, 'elements of the file')
    env.check(all((e.vg_class, e.vg_type) == kind for e in f.elements), 'class and type of the element')


def unknown_two(env):
    """Records that cannot be decoded next to each other."""
    sizes = [env.choice(f'size{k}', [0, 1, 3, 40, 77]) for k in range(2)]
    kinds = [foreign_kind(env, f'k{k}', cs) for k, cs in enumerate(((3, 15), (7,)))]
    env.assume(kinds[0][1] <= 5)
    env.assume(kinds[1][1] <= 5)
    between_lines(env, *[foreign(env, f'x{k}', s, *kind) for k, (s, kind) in enumerate(zip(sizes, kinds))])


scenario('C21', name='unknown_two', budget=60, bounds='two records of types without a decoder, of 0, 1, 3, 40 or 77 bytes')(unknown_two)


def unknown_version(env):
    c, t, lo = env.p['kind']
    v = env.int('version', lo, 255)
    between_lines(env, foreign(env, 'x', env.p['size'], c, t, version=v, fill=env.p['fill']))


for _s in (0, 5, 2000):
    for _f in (b'\0', b'\x01', b'\xff'):
        for _t in (27, 28, 29, 30, 31):
            if _t == 27 or (_s == 5 and _f == b'\x01'):
                scenario('C21', name=f'sigmet_version_{_t}_{_s}_{_f[0]}', kind=(11, _t, 2), size=_s, fill=_f, bounds=f'sigmets of type {_t} of versions 2-255 with {_s} bytes of contents')(unknown_version)
        scenario('C21', name=f'watch_version_{_s}_{_f[0]}', kind=(2, 6, 7), size=_s, fill=_f, bounds=f'watches of versions 7-255 with {_s} bytes of contents')(unknown_version)


# Records with more bytes than are decoded: everything that C22 reads has to be read, and so do the records behind
LOOSE = ('circle line line_closed front special_line wind_barb symbol_weather symbol_marker symbol_combination volcano watch_status special_text_words '
         'list_3 ccf_2 sigmet_v0_3 sigmet_v1_3 ash_3 gfa_3 jet_2_1_1 jet_2_0_2 sgwx_3 tc_cone_2 tc_track_2 tc_breaks_2 watch_0 watch_1 watch_2 watch_3 watch_4 watch_5 watch_6').split()
for _s in list(REGISTRY.get('C22', [])):
    if _s.name in LOOSE:
        for _e in (1, 44):
            scenario('C21', name=f'{_s.name}_extra{_e}', extra=_e, bounds=f'{_s.bounds}, with {_e} more bytes behind the contents', **_s.params)(_s.fn)


def invalid(env):
    """A header that cannot be ends the file: what is before it was read."""
    given = dict(delete=0, vg_type=1, vg_class=3, major_color=1, minor_color=2)
    size = 20
    total = 424 + 76 + 40 + size + 76
    which = env.p['which']
    if which == 'record_size':
        rec = env.int('record_size', -BIG - 1, BIG)
        env.assume(env.Or(rec < 40, rec > total))
    else:
        rec = None
        given[which] = v = env.int(which, *dict(delete=(0, 255), vg_type=(0, 255), vg_class=(0, 255), major_color=(-BIG - 1, BIG), minor_color=(-BIG - 1, BIG))[which])
        env.assume(env.Or(v < 0, v > dict(delete=1, vg_type=43, vg_class=16, major_color=32, minor_color=32)[which], *[v == k for k in ((0, 3) if which == 'vg_type' else ())]))
    r = Record(env, 'x', concrete=True)
    r.raw(f'{size}s', b'\0' * size)
    kind = given.pop('vg_class'), given.pop('vg_type')
    first, head = first_line(env)
    last, tail = last_line(env)
    f = read(env, file_header(env), head, r.header(*kind, record_size=rec, **given), tail)
    env.check(len(f.elements) == 1, 'elements before the invalid header')
    compare(env, f.elements[0], first.expect, 'first')


for _w in ('record_size', 'delete', 'vg_type', 'vg_class', 'major_color', 'minor_color'):
    scenario('C21', name=f'invalid_{_w}', which=_w, bounds=f'all impossible values of {_w} in the header of a record')(invalid)


def any_size(env):
    """Reading ends whatever the size of a record, and takes the next header from where the size says."""
    vg_class, vg_type = env.p['kind']
    rec = env.int('record_size', -BIG - 1, BIG)
    first, head = first_line(env)
    last, tail = last_line(env)
    r = Record(env, 'x', concrete=True)
    if env.p['kind'] == (3, 1):
        r.fields(LINE, number_points=2, line_type=4)
        r.points(2)
    elif env.p['kind'] == (3, 20):
        r.fields(SPECIAL_LINE, number_points=2, line_type=4)
        r.points(2)
    else:
        r.raw('40s', b'\xc3' * 40)
    size = r.size
    data = r.header(vg_class, vg_type, record_size=rec)
    known = (vg_class, vg_type) in ((3, 1), (3, 20))
    env.write_file(env.path('a.vgf'), env._join([head, data, tail]))
    total = 76 + size + 76
    try:
        f = env.mod(DEC).VectorGraphicFile(env.path('a.vgf'))
    except Exception:
        env.check(env.Not(env.Or(rec < 40, rec > total, rec == size, rec == size + 76)), 'reading fails for a possible or an impossible size')
        return
    env.check(len(f.elements) >= 1, 'elements before')
    compare(env, f.elements[0], first.expect, 'first')
    if rec < 40 or rec > total:
        env.check(len(f.elements) == 1, 'elements after an impossible size')
    elif rec == size:
        env.check(len(f.elements) == 2 + known, 'elements after the exact size')
        compare(env, f.elements[-1], last.expect, 'last')
    elif rec == size + 76:
        env.check(len(f.elements) == 1 + known, 'elements after a record as long as the rest')


for _k in ((3, 1), (3, 20), (7, 1), (3, 5)):
    scenario('C21', name='any_size_{}_{}'.format(*_k), kind=_k, budget=60, bounds='all record sizes of a record of class {} and type {}'.format(*_k))(any_size)


def any_header(env):
    """Reading ends for every header."""
    names = dict(delete=(0, 255), vg_class=(0, 255), vg_type=(0, 255), filled=(-128, 127), closed=(0, 255), smooth=(0, 255), version=(0, 255), group_type=(0, 255),
                 group_number=(-BIG - 1, BIG), major_color=(-BIG - 1, BIG), minor_color=(-BIG - 1, BIG), record_size=(-BIG - 1, BIG))
    given = {k: env.int(k, lo, hi) for k, (lo, hi) in names.items()}
    lo, hi = env.p['classes']
    env.assume(env.And(given['vg_class'] >= lo, given['vg_class'] <= hi))
    if env.p['size'] is not None:
        env.assume(given['record_size'] == 40 + env.p['size'])
    kind = given.pop('vg_class'), given.pop('vg_type')
    first, head = first_line(env)
    r = Record(env, 'x', concrete=True)
    if env.p['size']:
        r.raw(f'{env.p["size"]}s', env.p['fill'] * env.p['size'])
    env.write_file(env.path('a.vgf'), env._join([head, r.header(*kind, **given)]))
    try:
        f = env.mod(DEC).VectorGraphicFile(env.path('a.vgf'))
    except Exception:
        env.check(True, 'reading ends')
        return
    env.check(len(f.elements) in (1, 2), 'elements of the file')
    compare(env, f.elements[0], first.expect, 'first')


for _c in ((0, 1), (2, 2), (3, 3), (4, 4), (5, 6), (7, 10), (11, 11), (12, 14), (15, 15), (16, 255)):
    for _f in (b'\0', b'\x01', b'\xff'):
        if _f == b'\x01' and _c[0] in (7, 12):
            continue  # counts of millions of items: reading ends, after a while
        scenario('C21', name=f'any_header_{_c[0]}_{_f[0]}', classes=_c, size=300, fill=_f, budget=30,
                 bounds=f'all headers of classes {_c[0]}-{_c[1]} before 300 bytes of contents')(any_header)


# ---------------------------------------------------------------------------
# C23
# ---------------------------------------------------------------------------
KINDS = [((3, 1), LINE, 2), ((3, 20), SPECIAL_LINE, 2), ((12, 4), LINE, 2), ((4, 15), SYMBOL, 0), ((4, 19), SYMBOL, 0), ((4, 5), SYMBOL, 0), ((6, 8), WIND, 0),
         ((6, 9), WIND, 0), ((5, 21), None, 0), ((5, 17), None, 0), ((5, 18), None, 0), ((1, 2), None, 0), ((10, 26), None, 0), ((2, 6), None, 0), ((2, 33), SPECIAL_LINE, 2),
         ((11, 28), None, 0), ((11, 35), None, 0), ((15, 38), None, 0), ((15, 41), None, 0), ((14, 34), None, 0)]


def record(env, name, kind, **given):
    """A record of the kind with ordinary contents."""
    from . import vgf
    r = Record(env, name, concrete=True)
    spec, n = {k: (s, n) for k, s, n in KINDS}[kind]
    small = dict(number_points=2, line_type=3, direction=1)
    if spec is not None:
        r.fields(spec, **{k: v for k, v in small.items() if k in [f[0] for f in spec]}, **(dict(symbol_code=3.0) if spec is SYMBOL else {}))
        if n:
            r.points(n)
    elif kind[0] == 5:
        r.fields(vgf.SPECIAL_TEXT if kind[1] == 21 else vgf.TEXT)
        r.raw('4s', b'abc\0')
    elif kind == (1, 2):
        r.fields(vgf.FRONT, number_points=2, front_code=425)
        r.points(2)
    elif kind == (10, 26):
        r.fields(vgf.TRACK, track_type=0, total_points=2, initial_points=1, initial_line_type=1, extrapolated_line_type=1, initial_mark_type=1, extrapolated_mark_type=1)
        r.raw('900s', b'240102/1200\0' + b'\0' * 888)
        r.points(2)
        r.skip(48 * 8)
    elif kind == (2, 6):
        r.fields(vgf.WATCH0, number_points=2)
        r.points(2)
    elif kind == (11, 28):
        r.fields(vgf.SIGMET0, number_points=2)
        r.points(2)
    elif kind == (11, 35):
        r.fields(vgf.VOLCANO)
    elif kind == (15, 38):
        r.raw('i', 0)
        r.raw('i', 2)
        r.points(2)
    else:
        r.fields(vgf.LIST, number_items=0, list_type=4, marker_type=12)
        r.skip(500 * 17)
    return r, r.header(*kind, **given)


QUERIES = dict(fronts=(1, None), special_text=(5, 21), symbols=(4, None), special_symbols=(4, 15), markers=(4, 19), special_lines=(3, 20), lines=(3, 1),
               tracks=(10, None), winds=(6, None), watch_box=(2, None), sigmet=(11, None), met=(15, None))


def exactly(env, got, want, what):
    """The wanted elements in their order, or None if there is none."""
    if not want:
        env.check(got is None, f'{what}: none')
        return
    env.check(got is not None, f'{what}: some')
    env.check(len(got) == len(want), f'{what}: number')
    env.check(all(a is b for a, b in zip(got, want)), f'{what}: elements')


def queries(env):
    """Queries of every kind of element."""
    kinds = env.p['kinds']
    groups = [env.int(f'group{k}', 0, 255) for k in range(len(kinds))]
    f = read(env, file_header(env), *[record(env, f'r{k}', kind, group_type=groups[k])[1] for k, kind in enumerate(kinds)])
    env.check(len(f.elements) == len(kinds), 'elements')
    env.check(all((e.vg_class, e.vg_type) == k for e, k in zip(f.elements, kinds)), 'classes and types of the elements')
    for name, (c, t) in QUERIES.items():
        want = [e for e, k in zip(f.elements, kinds) if k[0] == c and (t is None or k[1] == t)]
        env.check(getattr(f, f'has_{name}') is bool(want), f'has_{name}')
        exactly(env, getattr(f, f'get_{name}')(), want, f'get_{name}')
    plain = [e for e, k in zip(f.elements, kinds) if k == (5, 17)]
    every = [e for e, k in zip(f.elements, kinds) if k[0] == 5]
    got = f.get_text()
    env.check(f.has_text is (got is not None), 'has_text')
    env.check(f.has_text is True if plain else f.has_text in (bool(every), False), 'has_text if there is')
    if got is not None:
        env.check(all(any(e is g for g in got) for e in plain), 'get_text has all text')
        env.check(all(any(e is g for e in every) for g in got), 'get_text has nothing but text')
        env.check(len(got) <= len(every), 'get_text has no text twice')
    for g in groups:
        if g != 0:
            env.check(any(x == g for x in f.groups), 'group types of the file')


_ALL = [k for k, _, _ in KINDS if k != (15, 41)]
for _k in _ALL:
    scenario('C23', name='queries_{}_{}'.format(*_k), kinds=[_k, (3, 1)], bounds='a file with an element of class {} and type {} and a line, any groups'.format(*_k))(queries)
    scenario('C23', name='queries_only_{}_{}'.format(*_k), kinds=[_k], bounds='a file with an element of class {} and type {}, any group'.format(*_k))(queries)


scenario('C23', name='queries_none', kinds=[], bounds='a file without elements')(queries)


for _k in [k for k, _, _ in KINDS if k != (15, 41)]:
    scenario('C21', name='alone_{}_{}'.format(*_k), kind=_k, bounds='a file that is one record of class {} and type {}, any group and color'.format(*_k))(alone)
for _s in (0, 1, 40):
    scenario('C21', name=f'alone_unknown_{_s}', kind=None, size=_s, bounds=f'a file that is one record without a decoder, {_s} bytes of contents')(alone)


def file_of(env, kinds, **given):
    return read(env, file_header(env), *[record(env, f'r{k}', kind, **{a: v[k] for a, v in given.items()})[1] for k, kind in enumerate(kinds)])


def filters(env):
    """Elements of a class, of a type, of both or of either."""
    kinds = env.p['kinds']
    f = file_of(env, kinds)
    c, t = env.int('vg_class', -1, 50), env.int('vg_type', -1, 50)
    op, use = env.p['operation'], env.p['use']
    args = {}
    if 'c' in use:
        args['vg_class'] = c
    if 't' in use:
        args['vg_type'] = t
    if op:
        args['operation'] = op
    got = f.filter_elements(**args)
    got = [] if got is None else list(got)
    env.check(all(sum(1 for g in got if g is e) <= 1 for e in f.elements), 'no element twice')
    at = [[k for k, e in enumerate(f.elements) if e is g] for g in got]
    env.check(all(len(x) == 1 for x in at), 'elements of the file')
    env.check([x[0] for x in at] == sorted(x[0] for x in at), 'elements in their order')
    conditions = []
    for k, (kc, kt) in enumerate(kinds):
        if use == 'c':
            want = c == kc
        elif use == 't':
            want = t == kt
        elif use == 'ct':
            want = env.Or(c == kc, t == kt) if op == 'or' else env.And(c == kc, t == kt)
        else:
            want = False
        conditions.append(env.iff([k] in at, want))
    env.check(env.And(*conditions), 'exactly the elements asked for')


MIXED = [(3, 1), (3, 20), (4, 15), (4, 19), (5, 21), (5, 17), (6, 8), (6, 9), (1, 2), (11, 28), (15, 38), (3, 1), (12, 4)]
for _u in ('c', 't', 'ct', ''):
    for _o in (None, 'and', 'or'):
        scenario('C23', name=f'filter_{_u or "none"}_{_o or "default"}', kinds=MIXED, use=_u, operation=_o, budget=60,
                 bounds=f'all classes and types asked for, in a file of {len(MIXED)} elements of {len(set(MIXED))} kinds')(filters)


def operations(env):
    """Only and and or are operations."""
    f = file_of(env, [(3, 1), (4, 15)])
    word = env.str('operation', env.p['n'], 97, 122)
    refused = False
    try:
        f.filter_elements(vg_class=3, vg_type=1, operation=word)
    except ValueError:
        refused = True
    env.check(env.iff(refused, env.And(word != 'and', word != 'or')), 'operations but and and or are refused')


for _n in (1, 2, 3, 4):
    scenario('C23', name=f'operation_{_n}', n=_n, bounds=f'all operations of {_n} small letters')(operations)


def grouping(env):
    """Groups of a type: one for each number, in the order of the numbers, with their elements in the order of the file."""
    n = env.p['n']
    few = env.p.get('few', range(n))
    types = [env.int(f'type{k}', 0, 3) if k in few else 1 + k % 2 for k in range(n)]
    numbers = [env.int(f'number{k}', -BIG - 1, BIG) if k in few else (k * 7) % 13 * 25 + k // 80 for k in range(n)]
    if env.p['limit']:
        for v in numbers:
            env.assume(env.And(v >= 0, v < env.p['limit']))
    kinds = (MIXED * (n // 13 + 2))[:n]
    f = file_of(env, kinds, group_type=types, group_number=numbers)
    asked = env.int('asked', 0, 4)
    got = f.get_group(asked)
    members = [k for k in range(n) if types[k] == asked]
    if not members:
        env.check(got is None, 'no group')
        return
    env.check(got is not None, 'some group')
    seen = []
    last = None
    for g in got:
        env.check(g.group_type == asked, 'type of a group')
        env.check(g.group_size == len(g.elements), 'size of a group')
        env.check(g.group_size > 0, 'a group has elements')
        at = [[k for k, e in enumerate(f.elements) if e is x] for x in g.elements]
        env.check(all(len(x) == 1 for x in at), 'elements of the file')
        at = [x[0] for x in at]
        env.check(at == sorted(at), 'elements of a group in their order')
        env.check(env.And(*[numbers[k] == g.group_number for k in at]), 'number of a group')
        env.check([a is b for a, b in zip(g, g.elements)] == [True] * len(at), 'iterating over a group')
        if last is not None:
            env.check(last < g.group_number, 'groups in the order of their numbers')
        last = g.group_number
        seen += at
    env.check(sorted(seen) == members, 'every element of the type is in one group')
    # the group types of the file
    types_listed = list(f.groups)
    for k in range(n):
        if types[k] != 0:
            env.check(any(x == types[k] for x in types_listed), 'group types of the file')
    env.check(all(any(x == t for t in types) for x in types_listed), 'no other group types')
    env.check(env.And(*[x != y for k, x in enumerate(types_listed) for y in types_listed[:k]]), 'no group type twice')


for _n in (1, 2, 3):
    scenario('C23', name=f'groups_{_n}', n=_n, limit=0, budget=60, bounds=f'files of {_n} elements of group types 0-3 and any number')(grouping)
scenario('C23', name='groups_large', n=150, few=(149,), limit=0, budget=60, bounds='files of 150 elements in many groups, one of them of any group')(grouping)
scenario('C23', name='groups_4', n=4, limit=3, budget=60, tbudget=300, bounds='files of 4 elements of group types 0-3, group numbers 0-2')(grouping)


def group_object(env):
    """A group holds elements of one type and number."""
    mod = env.mod(DEC)
    types, numbers = [env.int(f'type{k}', 0, 255) for k in range(3)], [env.int(f'number{k}', 0, 100) for k in range(3)]
    f = file_of(env, [(3, 1), (4, 15), (5, 21)], group_type=types, group_number=numbers)
    g = mod.Group()
    env.check(g.group_size == 0, 'an empty group')
    held = []
    for k, e in enumerate(f.elements):
        fits = not held or (types[k] == types[held[0]] and numbers[k] == numbers[held[0]])
        try:
            g.add_element(e)
            refused = False
        except ValueError:
            refused = True
        env.check(refused is not bool(fits), 'elements of another type or number are refused')
        if not refused:
            held.append(k)
        env.check(g.group_size == len(held) and len(g.elements) == len(held), 'size of the group')
        env.check(all(a is f.elements[b] for a, b in zip(g.elements, held)), 'elements of the group')
        env.check(g.group_type == types[held[0]], 'type of the group')
        env.check(g.group_number == numbers[held[0]], 'number of the group')


scenario('C23', name='group_object', bounds='three elements of any group types and numbers added to a group')(group_object)


def bounds(env):
    """The bounds of a file hold those of all elements that have some."""
    n = env.p['n']
    names = ('min_lat', 'min_lon', 'max_lat', 'max_lon')
    some = env.p.get('some', names)
    b = [{m: env.float(f'{m}{k}', -180, 180, f32=True) if m in some else env.p['rest'] for m in names} for k in range(n)]
    kinds = (MIXED * 2)[:n]
    f = file_of(env, kinds, **{m: [x[m] for x in b] for m in names})
    got = list(f.bounds)
    env.check(len(got) == 4, 'four bounds')
    for k, e in enumerate(f.elements):
        for m in names:
            env.check(env.near(getattr(e, m), b[k][m], 0.0051), f'{m} of an element')
    rows = [[getattr(e, m) for m in names] for e in f.elements]
    used = [r for r in rows if not (r[0] == 0 and r[1] == 0 and r[2] == 0 and r[3] == 0)]
    if not used:
        env.check(got == [9999, 9999, -9999, -9999], 'no bounds')
        return
    for j in range(4):
        vs = [r[j] for r in used]
        env.check(env.Or(*[got[j] == v for v in vs]), f'{names[j]} is that of an element')
        env.check(env.And(*[(got[j] <= v) if j < 2 else (got[j] >= v) for v in vs]), f'{names[j]} holds all elements')


def element_bounds(env):
    """The bounds of an element hold all of its points."""
    from . import vgf
    kind, n = env.p['kind'], env.p['n']
    r = Record(env, 'e', concrete=True)
    lat, lon = ([env.float(f'{a}{k}', -180, 180, f32=True) for k in range(n)] for a in ('lat', 'lon'))
    if kind == (1, 2):
        r.fields(vgf.FRONT, number_points=n, front_code=425)
    elif kind == (15, 38):
        r.raw('i', 0)
        r.raw('i', n)
    else:
        r.fields({(3, 20): SPECIAL_LINE}.get(kind, LINE), number_points=n, line_type=3)
    for v in lat + lon:
        r.raw('f', v)
    f = read(env, file_header(env), r.header(*kind))
    env.check(len(f.elements) == 1, 'elements')
    e = f.elements[0]
    got = list(e.bounds)
    env.check(len(got) == 4, 'four bounds')
    for want, g, at_most in ((lat, got[0], True), (lon, got[1], True), (lat, got[2], False), (lon, got[3], False)):
        env.check(env.Or(*[env.near(g, v, 0.0051) for v in want]), 'a bound is that of a point')
        env.check(env.And(*[(g <= v + 0.0051) if at_most else (g >= v - 0.0051) for v in want]), 'the bounds hold all points')


for _k in ((3, 1), (3, 20), (12, 4)):
    for _n in (2, 3):
        scenario('C23', name='element_bounds_{}_{}_{}'.format(*_k, _n), kind=_k, n=_n, bounds=f'an element of class {_k[0]} and type {_k[1]} with {_n} points anywhere')(element_bounds)


for _n in (0, 1, 2):
    scenario('C23', name=f'bounds_{_n}', n=_n, budget=60, bounds=f'files of {_n} elements with any bounds')(bounds)
scenario('C23', name='bounds_3', n=3, tiers=('thorough',), tbudget=600, bounds='files of 3 elements with any bounds')(bounds)
for _m in ('min_lat', 'min_lon', 'max_lat', 'max_lon'):
    for _r in (0.0, 7.25):
        scenario('C23', name=f'bounds_3_{_m}_{int(_r)}', n=3, some=(_m,), rest=_r, bounds=f'files of 3 elements with any {_m}, the other bounds {_r}')(bounds)
