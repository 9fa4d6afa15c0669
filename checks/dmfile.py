"""Builds GEMPAK data management files word by word from the description of the format.

This does not use the writer of the package: it is the other side of the checks of the readers.
"""
HEAD = 'GEMPAK DATA MANAGEMENT FILE '
USED, UNUSED = 9999, -9999
REAL, CHAR, PACK, GRID = 1, 3, 4, 5
STRINGS = ('STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3')


class Image:
    """Sparse file of four-byte words, numbered from 1."""

    def __init__(self):
        self.w = {}

    def put(self, at, items):
        for f, v in items:
            n = 1
            if f.endswith('s'):
                n = int(f[:-1]) // 4
            assert not any(at + k in self.w for k in range(n)), f'word {at} used twice'
            self.w[at] = (f, v)
            for k in range(1, n):
                self.w[at + k] = None
            at += n
        return at

    def render(self, env, order):
        last = max(self.w)
        items, gap = [], 0
        for k in range(1, last + 1):
            if k not in self.w:
                gap += 1
                continue
            if gap:
                items.append((f'{4 * gap}s', b''))
                gap = 0
            if self.w[k] is not None:
                items.append(self.w[k])
        return env.words(order, items)


def header_items(keys, values, used=True):
    if not used:
        return [('i', v) for v in values]
    return [('4s' if k in STRINGS or isinstance(v, (str, bytes)) else 'i', v) for k, v in zip(keys, values, strict=True)]


def navigation(gem, kx, ky, ll, ur, angles=(0.0, 0.0, 0.0)):
    return ([('i', 256), ('f', 2.0), ('4s', f'{gem:4s}'), ('f', 1.0), ('f', 1.0), ('f', float(kx)), ('f', float(ky)),
             ('f', ll[0]), ('f', ll[1]), ('f', ur[0]), ('f', ur[1])] + [('f', a) for a in angles] + [(f'{4 * 243}s', b'')])


def analysis(ll, ur):
    return [('i', 128), ('f', 2.0), ('f', 1.0)] + [('f', 0.0)] * 4 + [('f', v) for v in (*ll, *ur) * 3] + [(f'{4 * 110}s', b'')]


# the analysis block of either type: names as the reader has them, in the order of the file (None: a word not in use)
AREAS = tuple(f'{a}_{c}' for a in ('garea', 'extarea', 'datarea') for c in ('llcr_lat', 'llcr_lon', 'urcr_lat', 'urcr_lon'))
ANALYSIS = {1: ('delta_n', 'delta_x', 'delta_y', None, *AREAS), 2: ('delta_n', 'grid_ext_left', 'grid_ext_down', 'grid_ext_right', 'grid_ext_up', *AREAS)}


def any_analysis(env, kind):
    """An analysis block of any values, and these."""
    vals = [env.float(f'anl{k}', -1e6, 1e6, f32=True) for k in range(len(ANALYSIS.get(kind, ANALYSIS[1])))]
    return [('i', 128), ('f', float(kind))] + [('f', v) for v in vals] + [(f'{4 * (127 - len(vals))}s', b'')], vals


def build(env, kind, row_keys, rows, column_keys, columns, parts, cells, order='<', nav=None, missing=-9999.0, gap=0, source=6, stale=None, head=HEAD):
    """The bytes of a file.

    rows, columns: values of each header, or (False, values) for a slot that is not in use
    parts: (name, words of header, type, [(parameter, scale, offset, bits)])
    cells: {(row, column, part): list of word items after the length word}
    gap: words left between the sections
    stale: pointers of cells that belong to slots not in use
    """
    im = Image()
    nrk, nck = len(row_keys), len(column_keys)
    p = {'mgmt': 129, 'rk': 257}
    p['ck'] = p['rk'] + nrk + gap
    p['fk'] = p['ck'] + nck + gap
    at = p['fk']
    if nav is not None:
        items = [('4s', 'NAVB'), ('4s', 'ANLB'), ('i', 256), ('i', 128), ('i', 1), ('i', 1)]
        at = im.put(at, items + nav)
    p['rh'] = at + gap
    p['ch'] = p['rh'] + len(rows) * (nrk + 1) + gap
    p['parts'] = p['ch'] + len(columns) * (nck + 1) + gap
    nparm = sum(len(x[3]) for x in parts)
    p['data'] = p['parts'] + 4 * len(parts) + 4 * nparm + gap
    free = p['data'] + len(rows) * len(columns) * len(parts) + gap
    im.put(p['rk'], [('4s', k) for k in row_keys])
    im.put(p['ck'], [('4s', k) for k in column_keys])
    for at, keys, heads in ((p['rh'], row_keys, rows), (p['ch'], column_keys, columns)):
        for h in heads:
            used = True
            if isinstance(h, tuple):
                used, h = h
            flag = USED if used is True else env.ite(used, USED, UNUSED) if used is not False else UNUSED
            at = im.put(at, [('i', flag)] + header_items(keys, h, used is not False))
    at = im.put(p['parts'], [('4s', f'{x[0]:4s}') for x in parts] + [('i', x[1]) for x in parts] + [('i', x[2]) for x in parts]
                + [('i', len(x[3])) for x in parts])
    for k, f in ((0, '4s'), (1, 'i'), (2, 'i'), (3, 'i')):
        at = im.put(at, [(f, q[k]) for x in parts for q in x[3]])
    for (i, j, k), words in cells.items():
        im.put(p['data'] + (i * len(columns) + j) * len(parts) + k, [('i', free)])
        n = sum(1 if not f.endswith('s') else int(f[:-1]) // 4 for f, _ in words)
        free = im.put(free, [('i', n)] + list(words)) + gap
    for (i, j, k), v in (stale or {}).items():
        im.put(p['data'] + (i * len(columns) + j) * len(parts) + k, [('i', v)])
    # words of the pointer table without data are zero; make sure the table is there
    last = p['data'] + len(rows) * len(columns) * len(parts)
    for k in range(p['data'], last):
        if k not in im.w:
            im.put(k, [('i', 0)])
    im.put(free, [('i', 0)])
    label = [('28s', head), ('i', 1), ('i', 2 if nav is not None else 0), ('i', p['fk']), ('i', len(rows)), ('i', nrk), ('i', p['rk']),
             ('i', p['rh']), ('i', len(columns)), ('i', nck), ('i', p['ck']), ('i', p['ch']), ('i', len(parts)), ('i', p['parts']),
             ('i', p['mgmt']), ('i', 128), ('i', p['data']), ('i', {'surface': 1, 'sounding': 2, 'grid': 3}[kind]), ('i', source), ('i', 11),
             ('i', -9999), ('12s', b''), ('f', missing)]
    im.put(1, label)
    im.put(129, [('i', free), ('i', 62), ('i', 0), ('i', 0)])
    return im.render(env, order)
