"""Readers on files made word by word: packing, byte order, unused slots, layouts, report text."""
from sx.harness import scenario
from checks.dmfile import ANALYSIS, CHAR, GRID, PACK, REAL, analysis, any_analysis, build, navigation

DEC = 'gempakio.decode.gempak'
GCOLS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
GPART = ('GRID', 2, GRID, [('GRID', 0, 0, 0)])
LL, UR = (30.0, -110.0), (40.0, -90.0)


def gcol(gdt1=200101, gtm1=1200, gdt2=0, gtm2=0, glv1=500, glv2=-1, gvcd=1, name='TMPK'):
    name = name if not isinstance(name, str) else f'{name:12s}'
    return [gdt1, gtm1, gdt2, gtm2, glv1, glv2, gvcd, name[0:4], name[4:8], name[8:12]]


def grid_bytes(env, ny, nx, cols, cells, **k):
    """File of grids; cells: column -> words after the length word."""
    return build(env, 'grid', ['GRID'], [[1]], GCOLS, cols, [GPART], {(0, j, 0): w for j, w in cells.items()},
                 nav=navigation('CED', nx, ny, LL, UR, (0.0, -100.0, 0.0)) + analysis(LL, UR), missing=env.p.get('label', -9999.0), **k)


def grib_words(env, ny, nx, nbits, flag, ref, scale, words, kind=1):
    return [('i', nx), ('i', ny), ('i', kind), ('i', nbits), ('i', flag), ('i', nx * ny), ('f', ref), ('f', scale)] + [('I', w) for w in words]


def codes_and_words(env, n, nbits, name='c'):
    """n unsigned codes of nbits and the unsigned words that hold them, most significant bit first; the unused bits are any."""
    codes = [env.int(f'{name}{i}', 0, 2**nbits - 1, bv=nbits) for i in range(n)]
    total = n * nbits
    words = []
    for k in range((total + 31) // 32):
        w = 0
        for i, c in enumerate(codes):
            top = i * nbits - 32 * k            # place of the first bit of the code in this word
            if top >= 32 or top + nbits <= 0:
                continue
            down = 32 - top - nbits
            part = c & ((1 << min(nbits, top + nbits)) - 1) if top < 0 else c
            w = w | (part << down if down >= 0 else part >> -down)
        spare = 32 * (k + 1) - total
        if spare > 0:
            w = w | env.int(f'{name}_rest', 0, 2**spare - 1, bv=spare)
        words.append(w)
    return codes, words


def read_grid(env, data):
    d = env.mod(DEC)
    p = env.path('a.gem')
    env.write_file(p, data)
    g = d.GempakGrid(p)
    out = g.gdxarray()
    env.check(len(out) == 1, 'one grid')
    return env.masked(out[0])


def grib(env):
    ny, nx = env.p['shape']
    nbits, miss = env.p['nbits'], env.p['missing']
    env.caching(lazy_bits=True)
    codes, words = codes_and_words(env, ny * nx, nbits)
    ref = env.float('ref', -1e3, 1e3, f32=True)
    scale = env.p['scale']
    got = read_grid(env, grid_bytes(env, ny, nx, [gcol()], {0: grib_words(env, ny, nx, nbits, -1 if miss else 0, ref, scale, words, env.p.get('kind', 1))}))
    env.check(len(got) == ny * nx, 'number of points')
    for i in range(ny * nx):
        code = codes[i]
        v, m = got[i]
        want = ref + code * scale
        if miss:
            env.check(env.Or(m, env.Not(code == 2 ** nbits - 1)), f'all ones is missing ({i})')
            env.check(env.Or(env.Not(m), code == 2 ** nbits - 1, env.near(want, env.p.get('label', -9999.0), 0.001)), f'only all ones is missing ({i})')
        else:
            env.check(env.Or(env.Not(m), env.near(want, env.p.get('label', -9999.0), 0.001)), f'nothing is missing ({i})')
        env.check(env.Or(m, env.near(v, want, (code * scale + 1e3) * 2**-22)), f'value of point {i}')


for _nb in range(1, 32):
    _s = (2, 3) if _nb > 16 else (3, 4)
    scenario('C13', name=f'grib_{_nb}', nbits=_nb, shape=_s, missing=True, scale=1.0 if _nb < 23 else 2.0**-(_nb - 10), budget=25,
             bounds=f'{_s[0]}x{_s[1]} grid of {_nb} bits, any words, any reference value, all-ones code missing')(grib)
for _nb, _s in ((1, (5, 7)), (3, (3, 4)), (4, (3, 6)), (5, (4, 4)), (7, (4, 5)), (8, (3, 3)), (11, (3, 4)), (12, (4, 4)), (13, (1, 9)), (16, (3, 3)), (17, (5, 1)), (24, (3, 3)), (31, (1, 3))):
    scenario('C13', name=f'grib_{_nb}_{_s[0]}x{_s[1]}', nbits=_nb, shape=_s, missing=False, scale=0.25 if _nb < 16 else 2.0**-(_nb - 12), budget=25,
             bounds=f'{_s[0]}x{_s[1]} grid of {_nb} bits, any words, any reference value, no missing code')(grib)
for _nb in range(1, 32):
    for _s in ((1, 1), (1, 2), (5, 5), (6, 6)):
        scenario('C13', name=f'grib_{_nb}_{_s[0]}x{_s[1]}t', tiers=('thorough',), nbits=_nb, shape=_s, missing=True, scale=1.0 if _nb < 23 else 2.0**-(_nb - 10), budget=60,
                 bounds=f'{_s[0]}x{_s[1]} grid of {_nb} bits, any words, any reference value, all-ones code missing')(grib)


def some_codes(env, n, nbits, free):
    """n codes of nbits, those of the given places any, and their words."""
    codes = [(k * 37 + k // 11) % (2 ** nbits - 1) for k in range(n)]
    for k in free:
        codes[k] = env.int(f'c{k}', 0, 2 ** nbits - 1, bv=nbits)
    words = [0] * ((n * nbits + 31) // 32)
    for i, c in enumerate(codes):
        k, top = divmod(i * nbits, 32)
        if top + nbits <= 32:
            words[k] = words[k] | c << 32 - top - nbits
        else:
            over = top + nbits - 32
            words[k] = words[k] | c >> over
            words[k + 1] = words[k + 1] | (c & (1 << over) - 1) << 32 - over
    return codes, words


def grib_large(env):
    ny, nx = env.p['shape']
    nbits, free = env.p['nbits'], env.p['free']
    env.caching(lazy_bits=True)
    codes, words = some_codes(env, ny * nx, nbits, free)
    got = read_grid(env, grid_bytes(env, ny, nx, [gcol()], {0: grib_words(env, ny, nx, nbits, -1, 16.0, 0.5, words)}))
    env.check(len(got) == ny * nx, 'number of points')
    env.check([k for k in range(ny * nx) if k not in free and (bool(got[k][1]) or got[k][0] != 16 + codes[k] / 2)] == [], 'points that are given')
    for k in free:
        v, m = got[k]
        env.check(env.iff(m, codes[k] == 2 ** nbits - 1), f'missing exactly when all ones ({k})')
        env.check(env.Or(m, env.near(v, 16 + codes[k] * 0.5, (codes[k] * 0.5 + 16) * 2**-22)), f'value of point {k}')


for _nb, _s, _f in ((12, (20, 30), (0, 127, 255, 257, 599)), (31, (160, 221), (128, 32769, 35359)), (16, (41, 50), (256, 1023, 1025, 2049))):
    scenario('C13', name=f'large_{_nb}_{_s[0]}x{_s[1]}', nbits=_nb, shape=_s, free=_f, budget=60,
             bounds=f'{_s[0]}x{_s[1]} grid of {_nb} bits, {len(_f)} codes of which are any')(grib_large)


scenario('C13', name='dec_12', kind=4, nbits=12, shape=(2, 3), missing=True, scale=0.1, budget=25,
         bounds='2x3 grid of 12 bits with decimal scaling, any words, any reference value')(grib)


# ---------------------------------------------------------------------------
# C14: difference packing and no packing
# ---------------------------------------------------------------------------
def diff(env):
    env.caching(lazy_bits=True)
    ny, nx = env.p['shape']
    nbits, flag = env.p['nbits'], env.p['missing']
    codes, words = codes_and_words(env, ny * nx, nbits)
    ref = env.float('ref', -1e3, 1e3, f32=True)
    dmin = env.float('diffmin', -1e3, 1e3, f32=True)
    scale = env.p['scale']
    got = read_grid(env, grid_bytes(env, ny, nx, [gcol()], {0: [
        ('i', nx), ('i', ny), ('i', 3), ('i', nbits), ('i', flag), ('i', ny * nx), ('i', nx), ('f', ref), ('f', scale), ('f', dmin)]
        + [('I', w) for w in words]}))
    env.check(len(got) == ny * nx, 'number of points')
    step = 2e3 + scale * 2 ** nbits
    last = line = None
    for j in range(ny):
        fresh = True
        for i in range(nx):
            code = codes[j * nx + i]
            v, m = got[j * nx + i]
            missing = flag and bool(code == 2 ** nbits - 1)
            if missing:
                env.check(m, f'missing point {j},{i}')
                continue
            tol = step * (j * nx + i + 1) * (j * nx + i + 2) * 2**-23
            if last is None:
                want = ref
            else:
                want = (line if fresh else last) + (dmin + code * scale)
            env.check(env.Or(m, env.near(v, want, tol)), f'value of point {j},{i}')
            env.check(env.Or(env.Not(m), env.near(want, env.p.get('label', -9999.0), tol)), f'not missing {j},{i}')
            last = want
            if fresh:
                line, fresh = want, False


for _nb in range(1, 32):
    for _s, _f in (((2, 2), _nb % 2), ((2, 3), 0), ((1, 3), 1 - 2 * (_nb % 2))) + (((3, 2), 0),) * (_nb % 4 == 0) if _nb not in (5, 12) else (((3, 3), 0), ((2, 2), 1), ((4, 2), 0)):
        scenario('C14', name=f'diff_{_nb}_{_s[0]}x{_s[1]}', nbits=_nb, shape=_s, missing=_f, scale=1.0 if _nb < 10 else 2.0**-(_nb - 6), budget=40,
                 bounds=f'difference-packed {_s[0]}x{_s[1]} grid of {_nb} bits, any words, reference and minimum difference, '
                        + ('missing code in use' if _f else 'no missing code'))(diff)
for _nb in range(1, 32):
    for _s, _f in (((3, 3), 0), ((2, 3), 1), ((1, 5), 0), ((4, 3), 0)):
        scenario('C14', name=f'diff_{_nb}_{_s[0]}x{_s[1]}t', tiers=('thorough',), nbits=_nb, shape=_s, missing=_f, scale=1.0 if _nb < 10 else 2.0**-(_nb - 6), budget=60,
                 bounds=f'difference-packed {_s[0]}x{_s[1]} grid of {_nb} bits, any words, reference and minimum difference')(diff)


def diff_large(env):
    env.caching(lazy_bits=True)
    ny, nx = env.p['shape']
    nbits, flag, free = env.p['nbits'], env.p['missing'], env.p['free']
    codes, words = some_codes(env, ny * nx, nbits, free)
    got = read_grid(env, grid_bytes(env, ny, nx, [gcol()], {0: [
        ('i', nx), ('i', ny), ('i', 3), ('i', nbits), ('i', flag), ('i', ny * nx), ('i', nx), ('f', 300.0), ('f', 0.25), ('f', -2.0 ** nbits / 8)]
        + [('I', w) for w in words]}))
    env.check(len(got) == ny * nx, 'number of points')
    last = line = None
    bad = []
    for k in range(ny * nx):
        if k % nx == 0:
            fresh = True
        v, m = got[k]
        if flag and k in free and bool(codes[k] == 2 ** nbits - 1):
            env.check(m, f'missing point {k}')
            continue
        want = 300.0 if last is None else (line if fresh else last) + (codes[k] * 0.25 - 2.0 ** nbits / 8)
        last = want
        if fresh:
            line, fresh = want, False
        if k in free:
            env.check(env.And(env.Not(m), env.near(v, want, 0.01)), f'value of point {k}')
        else:
            bad.append(env.Or(m, env.Not(env.near(v, want, 0.01))))
    env.check(env.Not(env.Or(*bad)), 'points around')


for _nb, _s, _g, _f in ((8, (5, 130), 1, (645, 648)), (8, (3, 300), 0, (897,)), (10, (130, 5), -1, (644, 646, 649))):
    scenario('C14', name=f'large_{_nb}_{_s[0]}x{_s[1]}', nbits=_nb, shape=_s, missing=_g, free=_f, budget=60,
             bounds=f'{_s[0]}x{_s[1]} difference-packed grid of {_nb} bits, {len(_f)} codes of which are any')(diff_large)


def unpacked(env):
    ny, nx = env.p['shape']
    vals = [env.float(f'v{i}', -3e38, 3e38, f32=True) for i in range(ny * nx)]
    got = read_grid(env, grid_bytes(env, ny, nx, [gcol()], {0: [('i', nx), ('i', ny), ('i', 0)] + [('f', v) for v in vals]}))
    env.check(len(got) == ny * nx, 'number of points')
    for k, v in enumerate(vals):
        env.check(env.iff(got[k][1], v == env.p.get('label', -9999.0)), f'missing exactly when stored so ({k})')
        env.check(env.Or(got[k][1], got[k][0] == v), f'value of point {k}')


scenario('C14', name='diff_label', nbits=9, shape=(2, 2), missing=1, scale=1.0, label=-999.0, budget=20, bounds='a difference-packed 2x2 grid of 9 bits in a file with another missing value')(diff)
scenario('C14', name='none_label', shape=(2, 2), label=-999.0, budget=20, bounds='an unpacked 2x2 grid in a file with another missing value')(unpacked)
scenario('C13', name='grib_label', nbits=9, shape=(2, 2), missing=True, scale=1.0, label=-999.0, budget=20, bounds='a GRIB-packed 2x2 grid of 9 bits in a file with another missing value')(grib)
for _s in ((1, 1), (1, 4), (3, 1), (3, 4)):
    scenario('C14', name=f'none_{_s[0]}x{_s[1]}', shape=_s, budget=25, bounds=f'unpacked {_s[0]}x{_s[1]} grid, any single-precision values')(unpacked)


# ---------------------------------------------------------------------------
# C12: real values packed as integers
# ---------------------------------------------------------------------------
SROWS = ['DATE', 'TIME']
SCOLS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']
STN = ['KABC', 722000, 3500, -9700, 300, 'OK  ', 'US  ', '    ', 1]


def packed_words(env, widths, records, free=None):
    """Codes of every record, and the words holding them, fields following each other from the least significant bit."""
    nw = (sum(widths) - 1) // 32 + 1
    codes, words = [], []
    for r in range(records):
        some = free is None or r in free
        mine = [env.int(f'c{r}_{k}', 0, 2**b - 1, bv=b) if some else (r * 2654435761 + k * 40503) % 2**b for k, b in enumerate(widths)]
        rest = 32 * nw - sum(widths)
        fields = list(zip(mine, widths, strict=True)) + ([(env.int(f'rest{r}', 0, 2**rest - 1, bv=rest) if some else 0, rest)] if rest else [])
        rec = [0] * nw
        at = 0
        for c, b in fields:
            k, s = divmod(at, 32)
            if s + b <= 32:
                rec[k] = rec[k] | (c << s)
            else:
                rec[k] = rec[k] | ((c & ((1 << (32 - s)) - 1)) << s)
                rec[k + 1] = rec[k + 1] | (c >> (32 - s))
            at += b
        codes.append(mine)
        words += rec
    return codes, words


def levels_of(env, g, idx):
    """Soundings as they are before their levels are sorted (which would take every order of pressures)."""
    fn = getattr(g, '_unpack_merged' if g.merged else '_unpack_unmerged', None)
    if fn is None:
        env.stop()
    return list(fn(idx))


def packed(env):
    env.caching(lazy_bits=True)
    widths, scales = env.p['widths'], env.p['scales']
    records = env.p.get('records', 1)
    offsets = [env.int(f'offset{k}', -10**5, 10**5) if env.p.get('offsets') is None else env.p['offsets'][k] for k in range(len(widths))]
    codes, words = packed_words(env, widths, records, env.p.get('free'))
    names = ['PRES', 'TMPC', 'DWPC', 'DRCT', 'SPED', 'HGHT'][:len(widths)]
    kind = env.p['kind']
    part = ('SNDT' if kind == 'sounding' else 'SFDT', 1, PACK, list(zip(names, scales, offsets, widths, strict=True)))
    cell = {(0, 0, 0): [('i', 1200)] + [('I', w) for w in words]}
    label = env.p.get('label', -9999.0)
    data = build(env, kind, SROWS, [[200601, 1200]], SCOLS, [STN], [part], cell, missing=label)
    p = env.path('a.bin')
    env.write_file(p, data)
    d = env.mod(DEC)
    if kind == 'sounding':
        g = d.GempakSounding(p)
        got = levels_of(env, g, [(0, 0)])[0]
    else:
        g = d.GempakSurface(p)
        out = g.sfjson()
        env.check(len(out) == 1, 'one observation')
        got = out[0]['values']
    for k, name in enumerate(names):
        if kind == 'sounding':
            vals = got[name]
            env.check(len(vals) == records, f'levels of {name}')
        else:
            vals = [got[name.lower()]]
        for r in range(records):
            code, v = codes[r][k], vals[r]
            missing = code == 2 ** widths[k] - 1
            want = (code + offsets[k]) * 10.0 ** scales[k]
            mag = (2.0 ** widths[k] + abs(10.0**5 if env.p.get('offsets') is None else offsets[k])) * 10.0 ** scales[k]
            env.check(env.ite(missing, v == label, env.near(v, want, mag * 2**-22)), f'{name} of record {r}')


for _name, _w, _sc in (('temps', (14, 11, 11), (-1, -1, -1)), ('straddle', (20, 20, 20), (0, -1, 1)), ('wide', (31, 31, 2), (0, 0, 0)), ('full', (32, 5), (-2, 0)),
                       ('ones', (1, 1, 1, 31), (0, 1, 2, -3)), ('words', (32, 32), (0, -1)), ('mixed', (7, 9, 3, 16, 29, 12), (-1, 0, 1, -2, 0, -1)), ('single', (17,), (-1,)),
                       ('exact', (16, 16), (-1, 1)), ('third', (10, 30, 30, 26), (-2, -1, 0, 1)), ('seven', (7, 7, 7, 7, 7, 7), (-1, -1, 0, 0, 1, 1))):
    scenario('C12', name=f'packed_{_name}', kind='surface', widths=_w, scales=_sc, budget=60,
             bounds=f'surface observation packed in fields of {_w} bits with scales {_sc}, any words and offsets within 10^5')(packed)
    if len(_w) > 1:
        scenario('C12', name=f'packed_{_name}_levels', tiers=('quick', 'thorough') if _name in ('temps', 'exact', 'words', 'full') else ('thorough',), tbudget=300, kind='sounding', widths=_w, scales=_sc, records=2, offsets=[-100 * k * (-1)**k for k in range(len(_w))], budget=60,
                 bounds=f'sounding of two levels packed in fields of {_w} bits with scales {_sc}, any words')(packed)
for _k in ('surface', 'sounding'):
    scenario('C12', name=f'packed_label_{_k}', kind=_k, widths=(14, 11, 11), scales=(-1, -1, -1), records=1 + (_k == 'sounding'), offsets=(0, -100, 200), label=-999.0, budget=20,
             bounds=f'packed {_k} data in a file with another missing value, any words')(packed)
for _n, _w in ((290, (14, 11, 11)), (135, (7, 9, 3, 16, 29, 12)), (530, (8, 8, 16))):
    scenario('C12', name=f'packed_large_{_n}', kind='sounding', widths=_w, scales=(-1,) * len(_w), records=_n, offsets=[-20 * k for k in range(len(_w))], free=(_n - 2,), budget=40,
             bounds=f'sounding of {_n} levels packed in fields of {_w} bits, one of them any words')(packed)
for _b in range(1, 33):
    scenario('C12', name=f'packed_field_{_b}', kind='surface', widths=(13, _b, 11), scales=(0, -1, 1), offsets=(0, -20, 7), budget=20,
             bounds=f'surface observation packed in fields of 13, {_b} and 11 bits, any words')(packed)


# ---------------------------------------------------------------------------
# the same content written in different ways: C11 (byte order), C24 (unused slots)
# ---------------------------------------------------------------------------
def any_words(env, name, n):
    return [env.int(f'{name}{i}', -2**31, 2**31 - 1, bv=32) for i in range(n)]


def reals(env, name, n):
    return [('f', env.float(f'{name}{i}', -3e38, 3e38, f32=True)) for i in range(n)]


def small_int(env, name, lo, hi):
    return env.int(name, lo, hi)


class Content:
    """Headers, parts and cells of a file, to be laid out in different ways."""

    def __init__(self, kind, row_keys, rows, column_keys, columns, parts, cells, nav=None):
        self.kind, self.row_keys, self.rows, self.column_keys, self.columns = kind, row_keys, rows, column_keys, columns
        self.parts, self.cells, self.nav = parts, cells, nav

    def bytes(self, env, order='<', rows=None, columns=None, gap=0, name=''):
        """rows, columns: positions of the used headers among the slots (the others are not in use, with any content)."""
        def slots(heads, keys, at, what):
            if at is None:
                return list(heads), list(range(len(heads)))
            out = []
            n = max(at[1], max(at[0]) + 1)
            for k in range(n):
                if k in at[0]:
                    out.append(heads[at[0].index(k)])
                else:
                    out.append((False, any_words(env, f'{name}{what}{k}_', len(keys))))
            return out, list(at[0])
        r, rat = slots(self.rows, self.row_keys, rows, 'row')
        c, cat = slots(self.columns, self.column_keys, columns, 'col')
        cells = {(rat[i], cat[j], k): w for (i, j, k), w in self.cells.items()}
        stale = {}
        for i in range(len(r)):
            for j in range(len(c)):
                if i not in rat or j not in cat:
                    for k in range(len(self.parts)):
                        stale[i, j, k] = env.int(f'{name}stale{i}_{j}_{k}', -2**31, 2**31 - 1, bv=32)
        return build(env, self.kind, self.row_keys, r, self.column_keys, c, self.parts, cells, order=order, nav=self.nav, gap=gap, stale=stale)


def station(env, k, keys, ident):
    vals = {'STID': ident[:4], 'STD2': ident[4:] or '    ', 'STNM': env.int(f'stnm{k}', -9999, 2**31 - 1), 'SLAT': env.int(f'slat{k}', -9000, 9000),
            'SLON': env.int(f'slon{k}', -18000, 18000), 'SELV': env.int(f'selv{k}', -9999, 10**6), 'STAT': ('WI  ', 'IL  ', 'MN  ')[k], 'COUN': 'US  ',
            'SPRI': env.int(f'spri{k}', -9999, 100)}
    return [vals[x] for x in keys]


def sounding_content(env):
    keys = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN'] + ['STD2'] * env.p.get('std2', 0)
    rows = [[200131, 0], [200131, 1230], [200201, 600]][:env.p['rows']]
    columns = [station(env, k, keys, x) for k, x in enumerate(('KABCDEF1', 'KXYZ    ', 'CWAA    ')[:env.p['columns']])]
    parts, cells = [], {}
    names = [('PRES', 0, 0, 14), ('TEMP', -1, -1000, 11), ('DWPT', -1, -1000, 11)]
    if env.p['parts'] == 'merge':
        man = ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')
        parts = [('TXTA', 1, CHAR, [('TEXT', 0, 0, 0)]), ('TTAA', 1, REAL, [(n, 0, 0, 0) for n in man]),
                 ('TTBB', 1, PACK, [('PRES', 0, 0, 10), ('TEMP', -1, -1000, 11), ('DWPT', -1, -1000, 11)]),
                 ('PPBB', 1, REAL, [(n, 0, 0, 0) for n in ('HGHT', 'DRCT', 'SPED')])]
        for i in range(len(rows)):
            for j in range(len(columns)):
                t = f'{i}{j}'
                cells[i, j, 0] = [('i', 1200), ('12s', 'TTAA ' + env.str(f'text{t}', 4, alphabet='A1/ ') + ' 99')]
                cells[i, j, 1] = [('i', 1200)] + [('f', v) for k, (p, z) in enumerate(((1000.0, 150.0), (850.0, 1450.0), (700.0, 3000.0)))
                                                  for v in (p, env.float(f't{t}{k}', -90, 40, f32=True), -95.0, env.float(f'd{t}{k}', 0, 360, f32=True), 10.0, z)]
                cells[i, j, 2] = [('i', 1200), ('I', (780 << 22) | env.int(f'w{t}', 0, 2**22 - 1, bv=32))]
                cells[i, j, 3] = [('i', 1200), ('f', 0.0), ('f', env.float(f'w0{t}', 0, 360, f32=True)), ('f', 3.0),
                                  ('f', 2500.0), ('f', env.float(f'w1{t}', 0, 360, f32=True)), ('f', 30.0)]
    elif env.p['parts'] == 'real':
        parts = [('SNDT', 1, REAL, [(n, 0, 0, 0) for n in ('PRES', 'TEMP', 'DWPT')])]
    elif env.p['parts'] == 'pack':
        parts = [('SNDT', 1, PACK, names)]
    else:
        parts = [('TTAA', 1, PACK, names), ('TXTA', 1, CHAR, [('TXTA', 0, 0, 0)]), ('TTBB', 1, REAL, [(n, 0, 0, 0) for n in ('PRES', 'TEMP', 'DWPT')])]
    for i in range(len(rows)):
        for j in range(len(columns)):
            if (i, j) in env.p.get('empty', ()) or (i, j, 0) in cells:
                continue
            for k, part in enumerate(parts):
                w = [('i', 1200)]
                n = 1 + (i + j) % 2
                if part[2] == PACK:
                    w += [('i', v) for v in (any_words(env, f'w{i}{j}{k}_', 2 * n) if i + j == 0 else [(i * 7 + j * 11 + q * 13) * 123456789 % 2**31 for q in range(2 * n)])]
                elif part[2] == CHAR:
                    w += [('12s', 'REPORT %d %d'.ljust(14)[:12] % (i, j))]
                else:
                    w += [('f', 1000.0 - 50 * m if q == 0 else env.float(f'f{i}{j}{k}_{m}_{q}', -3e38, 3e38, f32=True)) for m in range(n) for q in range(3)]
                cells[i, j, k] = w
    return Content('sounding', SROWS, rows, keys, columns, parts, cells)


def surface_content(env):
    layout = env.p['layout']
    skeys = SCOLS
    times = [[200131, 0], [200131, 1230], [200201, 600]]
    stations = [station(env, k, skeys, x) for k, x in enumerate(('KABCDEF1', 'KXYZ    ', 'CWAA    '))]
    a, b = env.p['rows'], env.p['columns']
    if layout == 'standard':
        head = (SROWS, times[:a], skeys, stations[:b])
    elif layout == 'climate':
        head = (skeys, stations[:a], SROWS, times[:b])
    else:
        head = (['GROW'], [[1]], SROWS + skeys, [t + s for t, s in zip(times, stations)][:b])
    names = [('PMSL', -1, 9000, 14), ('TMPC', -1, -1000, 11), ('DRCT', 0, 0, 9)]
    parts = {'real': [('SFDT', 1, REAL, [(n[0], 0, 0, 0) for n in names])],
             'pack': [('SFDT', 1, PACK, names)],
             'split': [('SFDT', 1, REAL, [(names[0][0], 0, 0, 0)]), ('SFD2', 2, PACK, names[1:]), ('SFTX', 1, CHAR, [('WCOD', 0, 0, 0)])],
             'text': [('SFDT', 1, REAL, [(n[0], 0, 0, 0) for n in names[1:]]), ('SFTX', 1, CHAR, [('TEXT', 0, 0, 0)])]}[env.p['parts']]
    cells = {}
    for i in range(len(head[1])):
        for j in range(len(head[3])):
            if (i, j) in env.p.get('empty', ()):
                continue
            for k, part in enumerate(parts):
                w = [('i', 1200)] * part[1]
                if part[2] == PACK:
                    nw = (sum(q[3] for q in part[3]) - 1) // 32 + 1
                    w += [('i', v) for v in (any_words(env, f'w{i}{j}{k}_', nw) if i + j == 0 else [(i * 7 + j * 11 + q * 13) * 123456789 % 2**31 for q in range(nw)])]
                elif part[2] == CHAR:
                    w += [('8s', f'-RA {i}{j} ')] if part[3][0][0] == 'WCOD' else [('20s', f'METAR KABC 01115{i}Z')]
                else:
                    w += reals(env, f'f{i}{j}{k}_', len(part[3]))
                cells[i, j, k] = w
    return Content('surface', *head, parts, cells)


def grid_content(env):
    n = env.p['columns']
    ny, nx = env.p.get('shape', (2, 2))
    cols = [gcol(200101, 1200, 0, 0, env.int('lev0', -1, 2000), -1, env.choice('vc0', (1, 8)), 'TMPK'),
            gcol(101201200, 100600, 0, 0, 850, 700, env.str('vc1', 4, alphabet='ABCDHYBRT '), 'HGHT'),
            gcol(200101, 1200, 200102, 1300, 2, -1, 3, 'RELH')][:n]
    cells = {}
    for j in range(n):
        kind = env.p['packing'][j]
        if kind == 'none':
            cells[0, j, 0] = [('i', nx), ('i', ny), ('i', 0)] + reals(env, f'v{j}_', ny * nx)
        elif kind == 'grib':
            nb = 5
            cells[0, j, 0] = grib_words(env, ny, nx, nb, 1, env.float(f'ref{j}', -1e3, 1e3, f32=True), 0.5, [env.int(f'w{j}', 0, 2**32 - 1, bv=32)])
        else:
            cells[0, j, 0] = ([('i', nx), ('i', ny), ('i', 3), ('i', 5), ('i', 0), ('i', ny * nx), ('i', nx), ('f', env.float(f'ref{j}', -1e3, 1e3, f32=True)),
                               ('f', 1.0), ('f', env.float(f'dmin{j}', -1e3, 1e3, f32=True))] + [('I', env.int(f'w{j}', 0, 2**32 - 1, bv=32))])
    return Content('grid', ['GRID'], [[1]], GCOLS, cols, [GPART], cells,
                   nav=navigation('CED', nx, ny, LL, UR, (0.0, -100.0, 0.0)) + (any_analysis(env, env.p['analysis'])[0] if 'analysis' in env.p else analysis(LL, UR)))


CONTENT = {'grid': grid_content, 'sounding': sounding_content, 'surface': surface_content}


def gather(env, kind, data, name, only=None, **k):
    """Everything a reader returns for a file, as labelled values; only: for one of its entries."""
    d = env.mod(DEC)
    p = env.path(name)
    env.write_file(p, data, **k)
    out = []

    def arr(label, pairs):
        out.append((f'{label}: number of values', len(pairs)))
        for i, (v, m) in enumerate(pairs):
            out.append((f'{label} {i}', ('masked', v, m)))
    if kind == 'grid':
        g = d.GempakGrid(p)
        for name in ('navigation_block', 'analysis_block'):
            block = getattr(g, name)
            for f in block._fields if block is not None else ():
                out.append((f'{name} {f}', getattr(block, f)))
        for n, x in enumerate(g.gdinfo()):
            for f in x._fields[1:]:
                out.append((f'grid {n} {f}', getattr(x, f)))
        for n, x in enumerate(g.gdxarray() if only is None else g.gdxarray(parameter=[x.PARM for x in g.gdinfo()][only])):
            out.append((f'grid {n} name', x.name))
            arr(f'grid {n}', env.masked(x))
            for c in sorted(x.coords):
                if c != 'time':
                    arr(f'grid {n} coordinate {c}', env.masked(x.coords[c]))
            out.append((f'grid {n} time', env.coord_time(x)))
            for a in sorted(x.attrs):
                out.append((f'grid {n} attribute {a}', x.attrs[a]))
    elif kind == 'sounding':
        g = d.GempakSounding(p)
        for n, x in enumerate(g.sninfo()):
            for f in x._fields[2:]:
                out.append((f'sounding {n} {f}', getattr(x, f)))
        idx = [(x.DTNO, x.SNDNO) for x in g.sninfo()]
        idx = idx if only is None else idx[only:only + 1]
        for n, x in enumerate(levels_of(env, g, idx)):
            for f in sorted(x):
                if isinstance(x[f], (str, int, float)) or hasattr(x[f], 'year') or hasattr(x[f], 'hour') or not hasattr(x[f], '__len__'):
                    out.append((f'sounding {n} {f}', x[f]))
                else:
                    arr(f'sounding {n} {f}', [(v, False) for v in env.flat(env.np.array(x[f]))])
    else:
        g = d.GempakSurface(p)
        for n, x in enumerate(g.sfinfo()):
            for f in x._fields[2:]:
                out.append((f'observation {n} {f}', getattr(x, f)))
        out.append(('layout', g.surface_type))
        one = {} if only is None else {'station_id': g.sfinfo()[only].ID, 'date_time': g.sfinfo()[only].DATTIM}
        for n, x in enumerate(g.sfjson(include_special=True, **one)):
            for part in ('properties', 'values'):
                for f in sorted(x[part]):
                    v = x[part][f]
                    out.append((f'observation {n} {f}', env.flat(v)[0] if hasattr(v, 'shape') else v))
    return out


def same(env, got, want):
    env.check([a for a, _ in got] == [a for a, _ in want], 'the same items')
    for (label, v), (_, w) in zip(got, want, strict=True):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'masked':
            env.check(env.And(env.iff(v[2], w[2]), env.Or(v[2], v[1] == w[1])), label)
        else:
            env.check(v == w if v is not None and w is not None else v is w, label)


def byte_order(env):
    env.caching(lazy_bits=True)
    kind = env.p['kind']
    c = CONTENT[kind](env)
    same(env, gather(env, kind, c.bytes(env, '>', gap=env.p.get('gap', 0)), 'big.gem'), gather(env, kind, c.bytes(env, '<'), 'little.gem'))


def unused(env):
    env.caching(lazy_bits=True)
    kind = env.p['kind']
    c = CONTENT[kind](env)
    want = gather(env, kind, c.bytes(env), 'plain.gem')
    if 'any' in env.p:
        n, m = env.p['any']
        import itertools
        at = [env.choice('rows_at', list(itertools.combinations(range(n), len(c.rows)))), env.choice('columns_at', list(itertools.combinations(range(m), len(c.columns))))]
        same(env, gather(env, kind, c.bytes(env, rows=(at[0], n), columns=(at[1], m), name='x'), 'holes.gem'), want)
        return
    same(env, gather(env, kind, c.bytes(env, env.p.get('order', '<'), rows=env.p.get('at_rows'), columns=env.p.get('at_columns'), name='x'), 'holes.gem'), want)


def analysis_block(env):
    """Fields of the analysis block, each from its place in the file."""
    kind = env.p['analysis']
    nav, vals = any_analysis(env, kind)
    p = env.path('a.gem')
    env.write_file(p, build(env, 'grid', ['GRID'], [[1]], GCOLS, [gcol(200101, 1200, 0, 0, 500, -1, 1, 'TMPK')], [GPART], {(0, 0, 0): [('i', 2), ('i', 2), ('i', 0)] + [('f', 1.0)] * 4},
                            nav=navigation('CED', 2, 2, LL, UR, (0.0, -100.0, 0.0)) + nav, order=env.p['order']))
    block = env.mod(DEC).GempakGrid(p).analysis_block
    if kind not in ANALYSIS:
        env.check(block is None, 'no analysis block')
        return
    env.check(block.analysis_type == kind, 'type of analysis')
    for name, v in zip(ANALYSIS[kind], vals, strict=True):
        if name is not None:
            # the last field has had another name
            got = getattr(block, name, None) if name != 'datarea_urcr_lon' else getattr(block, name, getattr(block, 'datarea_urcrn_lon', None))
            env.check(got is not None and got == v, name)


for _a in (0, 1, 2):
    for _o in '<>':
        scenario('C31', name=f'analysis_{_a}_{"big" if _o == ">" else "little"}', analysis=_a, order=_o, budget=20, bounds=f'grid file with an analysis block of type {_a}, any values')(analysis_block)
for _a in (0, 1, 2):
    scenario('C11', name=f'order_analysis_{_a}', kind='grid', columns=1, packing=('none',), analysis=_a, budget=30, bounds=f'grid file with an analysis block of type {_a}, any values')(byte_order)
for _k, _p in (('grid', dict(columns=3, packing=('none', 'grib', 'diff'))),
               ('grid', dict(columns=3, packing=('diff', 'none', 'grib'), gap=3)),
               ('sounding', dict(rows=2, columns=2, parts='real', empty=((1, 0),))),
               ('sounding', dict(rows=1, columns=2, parts='pack', std2=1, gap=2)),
               ('sounding', dict(rows=1, columns=1, parts='merge')),
               ('surface', dict(rows=2, columns=2, parts='real', layout='standard', empty=((0, 1),))),
               ('surface', dict(rows=1, columns=2, parts='split', layout='ship')),
               ('surface', dict(rows=2, columns=2, parts='split', layout='climate')),
               ('surface', dict(rows=2, columns=1, parts='pack', layout='standard', gap=5)),
               ('surface', dict(rows=2, columns=2, parts='text', layout='standard'))):
    _n = '_'.join(str(x) for x in (_k, _p.get('layout', ''), _p.get('parts', ''), 'gap' if 'gap' in _p else '') if x)
    scenario('C11', name=f'order_{_n}', kind=_k, budget=60, bounds=f'{_k} file with {_p}: any words of data and header values', **_p)(byte_order)

for _i, (_k, _p) in enumerate((
        ('grid', dict(columns=2, packing=('none', 'grib'), at_columns=((0, 2), 3))),
        ('grid', dict(columns=2, packing=('grib', 'none'), at_columns=((1, 2), 3))),
        ('grid', dict(columns=1, packing=('none',), at_columns=((1,), 3), order='>')),
        ('sounding', dict(rows=2, columns=2, parts='real', at_rows=((0, 2), 3), at_columns=((1, 2), 4))),
        ('sounding', dict(rows=1, columns=2, parts='pack', at_rows=((1,), 2), at_columns=((0, 3), 4), order='>')),
        ('sounding', dict(rows=2, columns=1, parts='real', std2=1, at_rows=((1, 3), 4), at_columns=((2,), 3))),
        ('surface', dict(rows=2, columns=2, parts='real', layout='standard', at_rows=((0, 2), 4), at_columns=((1, 2), 3))),
        ('surface', dict(rows=1, columns=2, parts='pack', layout='standard', at_rows=((2,), 3), at_columns=((0, 2), 4))),
        ('surface', dict(rows=2, columns=1, parts='split', layout='standard', at_rows=((1, 2), 3), at_columns=((1,), 2), order='>')),
        ('surface', dict(rows=1, columns=2, parts='real', layout='ship', at_rows=((0,), 1), at_columns=((0, 2), 4))),
        ('surface', dict(rows=1, columns=2, parts='split', layout='ship', at_rows=((1,), 3), at_columns=((1, 3), 4))),
        ('surface', dict(rows=2, columns=2, parts='real', layout='climate', at_rows=((1, 2), 3), at_columns=((0, 2), 3))),
        ('surface', dict(rows=1, columns=2, parts='pack', layout='climate', at_rows=((1,), 2), at_columns=((1, 2), 3))))):
    scenario('C24', name=f'unused_{_i:02d}_{_k}' + (f'_{_p["layout"]}' if 'layout' in _p else ''), kind=_k, budget=60,
             bounds=f'{_k} file with used slots {_p.get("at_rows")} / {_p.get("at_columns")} (positions, slots): any words in the other slots and their pointers, any values', **_p)(unused)


for _i, (_k, _p) in enumerate((
        ('grid', dict(columns=2, packing=('none', 'none'), any=(1, 4))),
        ('sounding', dict(rows=2, columns=2, parts='real', any=(3, 4))),
        ('surface', dict(rows=2, columns=2, parts='real', layout='standard', any=(4, 3))),
        ('surface', dict(rows=1, columns=2, parts='real', layout='ship', any=(3, 4))),
        ('surface', dict(rows=2, columns=2, parts='real', layout='climate', any=(4, 3))))):
    scenario('C24', name=f'unused_any_{_k}' + (f'_{_p["layout"]}' if 'layout' in _p else ''), kind=_k, budget=60, tbudget=200,
             bounds=f'{_k} file with {_p}: the used slots at any places among the rows and columns given, any words in the other slots and their pointers', **_p)(unused)


# ---------------------------------------------------------------------------
# C30: layouts of surface files
# ---------------------------------------------------------------------------
IDCH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
ENCODINGS = {
    'real': [('SFDT', 1, REAL, ('PMSL', 'TMPC', 'DRCT'))],
    'pack': [('SFDT', 1, PACK, ('PMSL', 'TMPC', 'DRCT'))],
    'real_real': [('SFDT', 1, REAL, ('PMSL',)), ('SFD2', 2, REAL, ('TMPC', 'DRCT'))],
    'pack_real': [('SFDT', 2, PACK, ('PMSL', 'TMPC')), ('SFD2', 1, REAL, ('DRCT',))],
    'shared': [('SFDT', 1, REAL, ('PMSL', 'TMPC')), ('SFD2', 1, REAL, ('TMPC', 'DRCT'))],
    'real_text_pack': [('SFDT', 1, REAL, ('DRCT', 'PMSL')), ('SFTX', 1, CHAR, ('WCOD',)), ('SFD2', 3, PACK, ('TMPC',))],
}
PACKING = {'PMSL': (-1, 9000, 14), 'TMPC': (-1, -1000, 11), 'DRCT': (1, 0, 6)}


def layouts(env):
    env.caching(lazy_bits=True)
    layout, enc = env.p['layout'], ENCODINGS[env.p['encoding']]
    nst, nt = env.p['stations'], env.p['times']
    skeys = env.p.get('skeys', SCOLS)
    dates = [(200131, 0), (200131, 1230), (691231, 2359)]
    when = [env.dt.datetime(2020, 1, 31), env.dt.datetime(2020, 1, 31, 12, 30), env.dt.datetime(1969, 12, 31, 23, 59)]
    ids = []
    for k in range(nst):
        n = env.choice(f'idlen{k}', env.p.get('idlens', (4,)))
        ids.append(env.str(f'id{k}', n, alphabet=IDCH) if n else '')
    numbers = [env.int('number', -2**31, 2**31 - 1)] + [70000 + k for k in range(1, nst)]
    for k in range(1, nst):
        env.assume(numbers[0] != numbers[k])
    meta = []
    for k in range(nst):
        full = ids[k] + ' ' * (8 - len(ids[k]))
        meta.append({'STID': full[:4], 'STD2': full[4:], 'STNM': numbers[k], 'SLAT': env.int(f'slat{k}', -9000, 9000), 'SLON': env.int(f'slon{k}', -18000, 18000),
                     'SELV': env.int(f'selv{k}', -9999, 10**6), 'STAT': env.str(f'stat{k}', 2, alphabet=IDCH) + '  ', 'COUN': env.str(f'coun{k}', 2, alphabet=IDCH) + '  ',
                     'SPRI': env.int(f'spri{k}', -9999, 100)})
    heads = [[m[x] for x in skeys] for m in meta]
    obs = [(k, t) for t in range(nt) for k in range(nst)]
    if 'drop' in env.p:
        obs = [o for o in obs if o not in env.p['drop']]
    if layout == 'standard':
        rk, rows, ck, cols, place = SROWS, [list(d) for d in dates[:nt]], skeys, heads, {o: (o[1], o[0]) for o in obs}
    elif layout == 'climate':
        rk, rows, ck, cols, place = skeys, heads, SROWS, [list(d) for d in dates[:nt]], {o: (o[0], o[1]) for o in obs}
    else:
        rk, rows, ck, cols = ['GROW'], [[1]], SROWS + list(skeys), [list(dates[t]) + heads[k] for k, t in obs]
        place = {o: (0, n) for n, o in enumerate(obs)}
    parts, cells, want, absent = [], {}, {}, env.p.get('absent', ())
    for name, hl, typ, names in enc:
        parts.append((name, hl, typ, [(n, *(PACKING[n] if typ == PACK else (0, 0, 0))) for n in names]))
    for o in obs:
        want[o] = {}
        for k, (name, hl, typ, names) in enumerate(enc):
            if (o, k) in absent:
                continue
            w = [('i', 7)] * hl
            tag = f'{o[0]}{o[1]}'
            if typ == REAL:
                for n in names:
                    v = env.float(f'{n}{tag}{name if n in want[o] else ""}', -3e38, 3e38, f32=True)
                    want[o][n] = (v, None) if n not in want[o] else ((want[o][n][0], v), 'either')
                    w.append(('f', v))
            elif typ == CHAR:
                text = env.str(f'text{tag}', 4, alphabet='AB- ') + ' +Rx' if o == obs[0] else f'A{o[0]}{o[1]} -B x'
                want[o][names[0]] = (text.strip(), 'text')
                w.append(('8s', text))
            else:
                codes, words = packed_words(env, [PACKING[n][2] for n in names], 1) if o == obs[0] else (None, None)
                if codes is None:
                    widths = [PACKING[n][2] for n in names]
                    codes, big, at = [[(37 * (o[0] + 1) + 11 * o[1] + 5 * q) % (2**b - 1) for q, b in enumerate(widths)]], 0, 0
                    for c, b in zip(codes[0], widths):
                        big |= c << at
                        at += b
                    words = [(big >> (32 * q)) & 0xFFFFFFFF for q in range((at - 1) // 32 + 1)]
                for n, c in zip(names, codes[0]):
                    want[o][n] = (c, PACKING[n])
                w += [('I', x) for x in words]
            cells[(*place[o], k)] = w
    p = env.path('s.gem')
    env.write_file(p, build(env, 'surface', rk, rows, ck, cols, parts, cells, order=env.p.get('order', '<')))
    g = env.mod(DEC).GempakSurface(p)
    seen = [o for o in obs if any((*place[o], k) in cells for k in range(len(enc)))]
    env.check(len(g.sfinfo()) == len(seen), 'number of observations listed')
    out = g.sfjson()
    env.check(len(out) == len(seen), 'number of observations')
    for o in seen:
        mine = [r for r in out if r['properties']['station_number'] == numbers[o[0]] and r['properties']['date_time'] == when[o[1]]]
        env.check(len(mine) == 1, f'one observation of station {o[0]} at time {o[1]}')
        pr, va = mine[0]['properties'], mine[0]['values']
        m = meta[o[0]]
        tag = f' of {o}'
        env.check(pr['station_id'] == ids[o[0]], 'identifier' + tag)
        env.check(env.near(pr['latitude'], m['SLAT'] / 100, 1e-9), 'latitude' + tag)
        env.check(env.near(pr['longitude'], m['SLON'] / 100, 1e-9), 'longitude' + tag)
        env.check(pr['elevation'] == m['SELV'], 'elevation' + tag)
        env.check(pr['priority'] == m['SPRI'], 'priority' + tag)
        env.check(pr['state'] == m['STAT'][:2], 'state' + tag)
        env.check(pr['country'] == m['COUN'][:2], 'country' + tag)
        env.check(sorted(va) == sorted(n.lower() for n in want[o]), 'parameters' + tag)
        for n, (v, how) in want[o].items():
            x = va[n.lower()]
            if how == 'text':
                env.check(x == v, n + tag)
                continue
            x = env.flat(x)[0] if hasattr(x, 'shape') else x
            if how is None:
                env.check(x == v, n + tag)
            elif how == 'either':
                env.check(env.Or(x == v[0], x == v[1]), n + tag)
            else:
                sc, off, b = how
                env.check(env.ite(v == 2**b - 1, x == -9999.0, env.near(x, (v + off) * 10.0**sc, 1e-3)), n + tag)


for _l in ('standard', 'ship', 'climate'):
    for _e in ENCODINGS:
        scenario('C30', name=f'layout_{_l}_{_e}', layout=_l, encoding=_e, stations=2, times=2, budget=40, tbudget=120, order='>' if _e == 'pack' else '<',
                 bounds=f'{_l} surface file of two stations and two times, stored as {ENCODINGS[_e]}; any metadata, values and words')(layouts)
    scenario('C30', name=f'layout_{_l}_ids', layout=_l, encoding='real', stations=2, times=1, idlens=(0, 3, 4, 5, 8), budget=40,
             bounds=f'{_l} surface file of two stations with identifiers of 0 to 8 characters')(layouts)
    scenario('C30', name=f'layout_{_l}_sparse', layout=_l, encoding='pack_real', stations=3, times=3, drop=((0, 0), (1, 2), (2, 1)), absent=(((0, 1), 0), ((1, 0), 1), ((2, 2), 0), ((2, 2), 1)),
             budget=40, bounds=f'{_l} surface file of three stations and three times where some observations or parts of them are absent')(layouts)
    scenario('C30', name=f'layout_{_l}_single', layout=_l, encoding='real_real', stations=1, times=1, budget=20, bounds=f'{_l} surface file of one observation')(layouts)
    scenario('C30', name=f'layout_{_l}_keys', layout=_l, encoding='real', stations=2, times=2, skeys=('STNM', 'SPRI', 'COUN', 'STID', 'SELV', 'SLON', 'STD2', 'SLAT', 'STAT'), budget=20,
             bounds=f'{_l} surface file with its station keys in another order')(layouts)


# ---------------------------------------------------------------------------
# C28: report text of surface observations
# ---------------------------------------------------------------------------
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def a_report(env, k, shape):
    """Text of one report after its station identifier, and its day, hour and minute as strings if it has them."""
    text, when = '', None
    for c in shape:
        if c == 't':
            when = [env.str(f't{k}_{i}', 2, alphabet='0123456789') for i in range(3)]
            text = text + when[0] + when[1] + when[2] + 'Z'
        elif c == 'b':
            text = text + env.str(f'b{k}', 3, alphabet='A9/Z ')
        elif c == 'w':
            text = text + ' 27008KT 10SM'
        elif c == 'n':
            text = text + '$'
        else:
            text = text + c
    return text, when


def report_text(env):
    y, mo, da, ho, mi = env.choice('observed', env.p['observed'])
    base = env.dt.datetime(y, mo, da, ho, mi)
    parts, cells = [('SFDT', 1, REAL, [('TMPC', 0, 0, 0)])], {}
    vals = [env.float('tmpc', -3e38, 3e38, f32=True)]
    cells[0, 0, 0] = [('i', 1)] + [('f', v) for v in vals]
    if env.p.get('novalues'):
        del cells[0, 0, 0]
    expected = []
    for n, (part, kinds) in enumerate((('TEXT', env.p.get('text')), ('SPCL', env.p.get('special')))):
        if kinds is None:
            continue
        parts.append((('STXT', 'SPTX')[n], 1, CHAR, [(part, 0, 0, 0)]))
        text = ''
        station = env.str(f'station{n}', 1, alphabet=UPPER) + env.str(f'tation{n}', 3, alphabet=UPPER + '0123456789')
        for k, shape in enumerate(kinds):
            prefix = env.p.get('prefix', '')
            body, when = a_report(env, f'{n}{k}', shape)
            piece = (prefix + 'METAR ' if prefix == '!' else '') + station + ' ' + body
            piece = piece.replace('!', '') if prefix == '!' else piece
            text = text + piece + env.p.get('between', ' ')
            expected.append((part, piece.strip(), when))
        pad = -len(text) % 4
        text = text + ' ' * pad
        cells[0, 0, len(parts) - 1] = [('i', 1), (f'{len(text)}s', text)]
        if len(kinds) == 0:
            cells[0, 0, len(parts) - 1] = [('i', 1), ('8s', '        ')]
    p = env.path('s.gem')
    env.write_file(p, build(env, 'surface', SROWS, [[(y % 100) * 10000 + mo * 100 + da, ho * 100 + mi]], SCOLS, [STN], parts, cells))
    g = env.mod(DEC).GempakSurface(p)
    out = g.sfjson(include_special=True)
    plain = g.sfjson() if not env.p.get('only_special') else None
    metar = [x for x in expected if x[0] == 'TEXT']
    if not expected:
        expected = [(None, None, None)]
    env.check(len(out) == len(expected), 'number of reports')
    if plain is not None:
        env.check(len(plain) == max(len(metar), 1 if expected[0][0] is None else 0), 'reports other than specials')
    for r, (part, text, when) in zip(out, expected, strict=True):
        pr, va = r['properties'], r['values']
        env.check(pr['station_id'] == 'KABC' and pr['station_number'] == 722000 and pr['elevation'] == 300, 'metadata')
        if part is not None:
            env.check(va[part.lower()] == text, f'{part} text')
            env.check(('text' in va) + ('spcl' in va) == 1, 'one text')
        gets = not env.p.get('novalues') and (part != 'SPCL' or not metar)
        env.check(('tmpc' in va) == gets, 'values present')
        if gets:
            env.check(va['tmpc'] == vals[0], 'value')
        want = base
        if part == 'SPCL' and when is not None:
            d, h, m = (10 * env.digit(w[0]) + env.digit(w[1]) for w in when)
            month = (y, mo)
            for delta in (-1, 1):
                near = base + env.dt.timedelta(days=delta)
                if bool(d == near.day):
                    month = (near.year, near.month)
            last = (31, 29 if month[0] % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[month[1] - 1]
            if bool(env.And(d >= 1, d <= last, h <= 23, m <= 59)):
                got = pr['date_time']
                env.check(env.And(got.year == month[0], got.month == month[1], got.day == d, got.hour == h, got.minute == m, got.second == 0), f'time of the special report')
                continue
        env.check(pr['date_time'] == want, f'time of the {part} report')


OBSERVED = ((2020, 2, 10, 12, 0), (2021, 3, 1, 0, 0), (2020, 2, 29, 23, 0), (2021, 12, 31, 23, 45), (2022, 1, 1, 0, 0), (2021, 8, 1, 0, 0), (2021, 7, 31, 12, 0))
for _n, _p in (('metar', dict(text=('tw',))), ('metar_body', dict(text=('t bn',))), ('metar_two', dict(text=('t b', 'tw'))), ('metar_notime', dict(text=('bn',))), ('metar_three', dict(text=('t', 'n', 'tw'))), ('metar_four', dict(text=('n', 't', 'w', 'n'), special=('n',), observed=OBSERVED[:1])),
               ('special', dict(special=('tw',), only_special=True)), ('special_body', dict(special=('t bn',), only_special=True, observed=OBSERVED[:2])),
               ('special_two', dict(special=('tn', 'tw'), only_special=True, observed=OBSERVED[4:5])),
               ('special_three', dict(special=('tn', 'w', 'tw'), only_special=True, observed=OBSERVED[:1])), ('special_four', dict(special=('n', 'n', 'w', 'tn'), text=('w',), observed=OBSERVED[:1])),
               ('special_notime', dict(special=('w',), only_special=True)), ('both', dict(text=('tw',), special=('tw',), observed=OBSERVED[5:6])),
               ('both_many', dict(text=('tw', 'n'), special=('w', 'tn'), observed=OBSERVED[:1])),
               ('empty', dict(text=())), ('empty_special', dict(special=())), ('empty_both', dict(text=(), special=())), ('empty_metar', dict(text=(), special=('w',), only_special=True)),
               ('novalues', dict(text=('tw',), special=('tw',), novalues=True, observed=OBSERVED[:1])), ('newlines', dict(text=('t bn', 'tw'), between='\r\n')),
               ('long', dict(text=('t' + ' RMK AO2 27 LTG D/S' * 30, 'n'), observed=OBSERVED[:1])), ('special_long', dict(special=('t' + ' RMK P/R 3' * 50,), only_special=True, observed=OBSERVED[:1])),
               ('many', dict(text=('tw', *'n' * 12, 'n'), observed=OBSERVED[:1])), ('special_many', dict(special=('n',) * 15 + ('tw',), only_special=True, observed=OBSERVED[:1])),
               ('metar_word', dict(text=('tw',), prefix='!')), ('special_word', dict(special=('tw',), prefix='!', only_special=True, observed=OBSERVED[:2]))):
    _p.setdefault('observed', OBSERVED)
    scenario('C28', name=f'report_{_n}', budget=45, tbudget=200, bounds=f'observation with {_p}: t any six digits and Z, b any three characters, any station identifier', **_p)(report_text)
