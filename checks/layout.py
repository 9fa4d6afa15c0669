"""Layout of written files: regions of the label, pointers, blocks."""
from sx.harness import scenario

from .grids import gridfile
from .stations import ENC

BLOCK = 128
HEADER = b'GEMPAK DATA MANAGEMENT FILE '
FIELDS = ('version', 'file_headers', 'file_keys', 'rows', 'row_keys', 'row_keys_ptr', 'row_headers', 'columns', 'column_keys',
          'column_keys_ptr', 'column_headers', 'parts', 'parts_ptr', 'management', 'management_length', 'data', 'file_type', 'source',
          'machine', 'missing_int')


def label_of(env, m):
    for k in range(7):
        env.check(m.raw(k + 1) == HEADER[4 * k:4 * k + 4], 'first words of the file')
    out = {}
    for k, name in enumerate(FIELDS):
        v = m.int(8 + k)
        env.check(v is not None, f'label: {name} is there')
        out[name] = v
    return out


def word4(name):
    return f'{name:<4s}'.encode()


def describe(env, m, L, files, rows, columns, part, params):
    """Key names, file headers and part table stand where the label says; returns the regions."""
    R = [('label', 1, BLOCK), ('management', L['management'], L['management_length'])]
    env.check(L['row_keys'] == len(rows), 'number of row keys')
    env.check(L['column_keys'] == len(columns), 'number of column keys')
    env.check(L['file_headers'] == len(files), 'number of file headers')
    env.check(L['parts'] == 1, 'number of parts')
    for what, at, names in (('row', L['row_keys_ptr'], rows), ('column', L['column_keys_ptr'], columns), ('file', L['file_keys'], files)):
        for k, name in enumerate(names):
            env.check(m.raw(at + k) == word4(name), f'{what} key {name}')
        R.append((f'{what} keys', at, len(names) * (3 if what == 'file' else 1)))
    at = L['file_keys'] + 3 * len(files)
    for k, name in enumerate(files):
        n = m.int(L['file_keys'] + len(files) + k)
        env.check(n == files[name], f'length of the file header {name}')
        env.check(m.int(L['file_keys'] + 2 * len(files) + k) == 1, f'type of the file header {name}')
        env.check(m.int(at) == n, f'file header {name} starts with its length')
        R.append((f'file header {name}', at, n + 1))
        at = at + n + 1
    R.append(('row headers', L['row_headers'], L['rows'] * (len(rows) + 1)))
    R.append(('column headers', L['column_headers'], L['columns'] * (len(columns) + 1)))
    p = L['parts_ptr']
    env.check(m.raw(p) == word4(part[0]), 'name of the part')
    env.check(m.int(p + 1) == part[1], 'header length of the part')
    env.check(m.int(p + 2) == part[2], 'type of the part')
    env.check(m.int(p + 3) == len(params), 'number of parameters')
    for k, name in enumerate(params):
        env.check(m.raw(p + 4 + k) == word4(name), f'name of parameter {k}')
    for k in range(3 * len(params)):
        env.check(m.int(p + 4 + len(params) + k) == 0, 'scale, offset and bits of unpacked parameters')
    R.append(('parts', p, 4 + 4 * len(params)))
    R.append(('data pointers', L['data'], L['rows'] * L['columns']))
    for name in ('management', 'row_headers', 'parts_ptr', 'data'):
        env.check((L[name] - 1) % BLOCK == 0, f'{name} on a block boundary')
    return R


def disjoint(env, regions):
    for k, (na, a, n) in enumerate(regions):
        env.check(a >= 1, f'{na} starts inside the file')
        for nb, b, q in regions[:k]:
            env.check(env.Or(a + n <= b, b + q <= a), f'{na} and {nb} do not overlap')


def headers(env, m, at, keys, used):
    """Every header in use says so in its first word."""
    for k in range(used):
        env.check(m.int(at + k * (keys + 1)) == 9999, 'header in use')


def contents(env, m, L, R, cells, size):
    """Pointers and data of the cells; `cells` maps (row, column) to whether there is data and how long it is."""
    free = m.int(L['management'])
    env.check(free is not None, 'next free word is there')
    blocks = []
    for (i, j), n in cells.items():
        w = m.int(L['data'] + i * L['columns'] + j)
        env.check(w is not None, 'data pointer is there')
        if n is None:
            env.check(w == 0, 'no data, no pointer')
            continue
        env.check(w > 0, 'data has a pointer')
        blocks.append((f'data {i},{j}', w, n + 1))
        env.check(m.int(w) == n, 'length of the data')
        env.check(m.raw(w + n) is not None, 'last word of the data is there')
        env.check(w + n + 1 <= free, 'data ends before the next free word')
    disjoint(env, R + blocks)
    for name, a, n in R:
        env.check(a + n <= free, f'{name} before the next free word')
    if size is not None:
        env.check(size % 512 == 0, 'whole number of blocks')
        env.check(free - 1 <= size // 4, 'next free word in the file or after its end')
        env.check(size // 4 - (free - 1) < BLOCK, 'at most one block of padding')


COLS = {'grid': ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3'],
        'sounding': ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2'],
        'surface': ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']}
ROWS = {'grid': ['GRID'], 'sounding': ['DATE', 'TIME'], 'surface': ['DATE', 'TIME']}
PART = {'grid': ('GRID', 2, 5), 'sounding': ('SNDT', 1, 1), 'surface': ('SFDT', 1, 1)}
TYPE = {'surface': 1, 'sounding': 2, 'grid': 3}


def station(k):
    return {'station_id': f'S{k}', 'station_number': k}


def names(n):
    return ['PRES', 'TEMP'][:n] + [f'P{k:03d}' for k in range(n - 2)]


def fill(env, kind, shape, present, npar, levels, dims):
    """A file of the given rows and columns; returns it and the length of the data of each cell."""
    e, np = env.mod(ENC), env.np
    rows, columns = shape
    par = ['GRID'] if kind == 'grid' else names(npar)
    cells = {}
    if kind == 'grid':
        f = gridfile(env, *dims)
        for j in range(columns):
            f.add_grid(np.full(dims, 1.0), 'TMPK', 'PRES', 500 + j, '202001020304')
            cells[0, j] = 8 + (16 * dims[0] * dims[1] + 31) // 32
        return f, par, cells
    f = (e.SoundingFile if kind == 'sounding' else e.SurfaceFile)(par)
    for i in range(rows):
        for j in range(columns):
            if not present[i * columns + j]:
                cells[i, j] = None
                continue
            when = env.dt.datetime(2020, 1, 1 + i, 3, 4)
            if kind == 'sounding':
                n = levels[(i * columns + j) % len(levels)]
                f.add_sounding({k: np.array([1.0 * q for q in range(n)]) for k in par}, 40, -90, when, station(j))
                cells[i, j] = 1 + n * len(par)
            else:
                f.add_station({k: 1.0 for k in par}, 40, -90, when, station(j))
                cells[i, j] = 1 + len(par)
    return f, par, cells


def layout(env):
    """Numbers of rows and columns are any the format allows."""
    kind, npar = env.p['kind'], env.p.get('npar', 1)
    shape = (1, 2) if kind == 'grid' else (2, 2)
    rows = env.int('rows', shape[0], env.p['rows'])
    columns = env.int('columns', shape[1], env.p['columns'])
    env.assume(rows + columns <= 32000)
    env.caching(symbolic_positions=True, skip_symbolic_range=True)
    f, par, cells = fill(env, kind, shape, (True, False, True, True), npar, (2, 3), (3, 3))
    try:
        f.rows, f.columns = rows, columns
    except AttributeError:
        env.stop()
    env.assume(env.And(rows * columns >= shape[0] * columns, rows * columns >= rows * shape[1]))    # helps the solver
    p = env.path('a.gem')
    f.to_gempak(p)
    m = env.memory(p)
    L = label_of(env, m)
    R = describe(env, m, L, {'NAVB': 256, 'ANLB': 128} if kind == 'grid' else {}, ROWS[kind], COLS[kind], PART[kind], par)
    env.check(L['file_type'] == TYPE[kind], 'type of the file')
    # what a file of that many rows and columns needs: the label counts them
    env.assume(env.And(L['rows'] == rows, L['columns'] == columns))
    headers(env, m, L['row_headers'], len(ROWS[kind]), shape[0])
    headers(env, m, L['column_headers'], len(COLS[kind]), shape[1])
    contents(env, m, L, R, cells, None)


for _k, _r in (('grid', 1), ('sounding', 31998), ('surface', 31998)):
    for _n in ((1,) if _k == 'grid' else (1, 2, 31, 32, 44)):
        if _k == 'sounding' and _n == 1:
            continue
        scenario('C10', name=f'layout_{_k}_{_n}', kind=_k, npar=_n, rows=_r, columns=31999, budget=60, validate=0,
                 bounds=f'{_k} file of {_n} parameters, any number of rows up to {_r} and of columns with at most 32000 headers; '
                 'loops that clear unused headers are left out')(layout)
        scenario('C10', name=f'layout_small_{_k}_{_n}', kind=_k, npar=_n, rows=min(_r, 300), columns=300, budget=60,
                 bounds=f'the same up to {min(_r, 300)} rows and 300 columns, replayed')(layout)


def whole(env):
    """Files with any of their cells filled."""
    kind, npar = env.p['kind'], env.p.get('npar', 2)
    shape = env.p['shape']
    present = [True] * (shape[0] * shape[1])
    if kind != 'grid':
        present = [env.bool(f'p{k}') for k in range(len(present))]
        for i in range(shape[0]):
            env.assume(env.Or(*[present[i * shape[1] + j] for j in range(shape[1])]))
        for j in range(shape[1]):
            env.assume(env.Or(*[present[i * shape[1] + j] for i in range(shape[0])]))
    levels = [env.choice('levels', env.p.get('levels', (1,)))]
    dims = env.choice('dims', env.p.get('dims', ((3, 3),)))
    f, par, cells = fill(env, kind, shape, present, npar, levels, dims)
    p = env.path('a.gem')
    f.to_gempak(p)
    m = env.memory(p)
    L = label_of(env, m)
    env.check(env.And(L['rows'] == shape[0], L['columns'] == shape[1]), 'rows and columns')
    R = describe(env, m, L, {'NAVB': 256, 'ANLB': 128} if kind == 'grid' else {}, ROWS[kind], COLS[kind], PART[kind], par)
    headers(env, m, L['row_headers'], len(ROWS[kind]), shape[0])
    headers(env, m, L['column_headers'], len(COLS[kind]), shape[1])
    contents(env, m, L, R, cells, len(m.data))
    n = len(m.data)
    f.to_gempak(p)
    env.check(len(env.read_file(p)) == n, 'length when written again')


scenario('C10', name='whole_grid', kind='grid', shape=(1, 3), dims=((2, 2), (3, 5), (9, 13), (9, 14), (6, 10), (16, 15)), budget=30,
         bounds='three grids of six sizes around the size of a block')(whole)
for _k in ('sounding', 'surface'):
    for _s in ((2, 2), (1, 3), (3, 1), (3, 2)):
        scenario('C10', name=f'whole_{_k}_{_s[0]}{_s[1]}', kind=_k, shape=_s, levels=(1, 63) if _k == 'sounding' else (1,), budget=30,
                 bounds=f'{_k} file of {_s[0]} times and {_s[1]} stations, any of them without data')(whole)
    scenario('C10', name=f'whole_{_k}_33', kind=_k, shape=(3, 3), tiers=('thorough',), levels=(1, 62, 63) if _k == 'sounding' else (1,),
             tbudget=300, bounds=f'{_k} file of three times and three stations, any of them without data')(whole)


def parameters(env):
    """As many parameters as the format allows and no more."""
    e = env.mod(ENC)
    n = env.choice('n', (1, 2, 43, 44, 45, 46))
    cls = e.SoundingFile if env.p['kind'] == 'sounding' else e.SurfaceFile
    try:
        cls(names(n))
    except ValueError:
        env.check(n > 44, 'refused although allowed')
    else:
        env.check(n <= 44, 'more parameters than the format allows')


for _k in ('sounding', 'surface'):
    scenario('C10', name=f'parameters_{_k}', kind=_k, bounds='1, 2, 43-46 parameters')(parameters)
