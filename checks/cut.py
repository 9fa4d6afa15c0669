"""Files cut short (C34): reading fails or gives what the whole file gives."""
from sx.harness import REGISTRY, scenario

from . import reader, vgf


def outcome(env, f):
    """What f returns, or None when it fails."""
    try:
        return f()
    except Exception as e:
        if type(e).__module__.startswith('sx'):
            raise
        return None


class Some:
    """Contents that are some value each: what varies is where a file ends (and numbers that are not interpreted)."""

    def __init__(self, env, floats=True):
        self.env, self.floats, self.n = env, floats, 0

    def __getattr__(self, name):
        return getattr(self.env, name)

    def next(self):
        self.n += 1
        return self.n * 40503 % 7919

    def int(self, name, lo, hi, bv=0):
        return lo + (self.next() * 270367 + 12345) % (hi - lo + 1)

    def float(self, name, lo, hi, nan=False, f32=False):
        return self.env.float(name, lo, hi, f32=f32) if self.floats else lo + round((hi - lo) * (self.next() % 64) / 64)

    def str(self, name, length, lo=65, hi=90, alphabet=None):
        chars = [chr(c) for c in range(lo, hi + 1)] if alphabet is None else alphabet
        return ''.join(chars[self.next() % len(chars)] for _ in range(length))

    def choice(self, name, options):
        return options[self.next() % len(options)]


def managed(env):
    """Grids, soundings and surface files."""
    env.caching(lazy_bits=True)
    kind = env.p['kind']
    data = reader.CONTENT[kind](Some(env, env.p.get('floats', True))).bytes(env, env.p.get('order', '<'), gap=env.p.get('gap', 0))
    only = env.p.get('only')
    whole = reader.gather(env, kind, data, 'whole.gem', only=only)
    env.check(len(whole) > 0, 'there is an entry')
    cut = env.int('cut', 0, len(data))
    got = outcome(env, lambda: reader.gather(env, kind, data, 'cut.gem', only=only, cut=cut))
    env.observe('failed', got is None)
    if got is None:
        env.check(cut < len(data), 'the whole file is read')
    else:
        reader.same(env, got, whole)


for _k, _p in (('grid', dict(columns=2, packing=('none', 'grib'))),
               ('grid', dict(columns=2, packing=('grib', 'diff'), order='>')),
               ('sounding', dict(rows=1, columns=2, parts='real')),
               ('sounding', dict(rows=2, columns=1, parts='pack', order='>')),
               ('sounding', dict(rows=1, columns=1, parts='merge', floats=False)),
               ('surface', dict(rows=1, columns=2, parts='real', layout='standard')),
               ('surface', dict(rows=1, columns=2, parts='split', layout='ship')),
               ('surface', dict(rows=2, columns=1, parts='pack', layout='climate', order='>')),
               ('surface', dict(rows=1, columns=1, parts='text', layout='standard', gap=2))):
    _n = '_'.join(str(x) for x in (_k, _p.get('layout', ''), _p.get('parts', ''), *_p.get('packing', ())) if x)
    scenario('C34', name=f'cut_{_n}', kind=_k, budget=60, tbudget=200, bounds=f'{_k} file with {_p}, cut after any number of bytes: some contents, any floating-point data', **_p)(managed)

for _k, _p in (('grid', dict(columns=3, packing=('none', 'diff', 'grib'))),
               ('sounding', dict(rows=2, columns=2, parts='real')),
               ('sounding', dict(rows=1, columns=2, parts='merge', floats=False)),
               ('surface', dict(rows=2, columns=2, parts='split', layout='standard')),
               ('surface', dict(rows=1, columns=3, parts='text', layout='ship')),
               ('surface', dict(rows=2, columns=2, parts='real', layout='climate', order='>'))):
    for _o in range(_p['columns'] * _p.get('rows', 1)):
        _n = '_'.join(str(x) for x in (_k, _p.get('layout', ''), _p.get('parts', ''), _o) if x != '')
        scenario('C34', name=f'cut_one_{_n}', kind=_k, only=_o, budget=60, tbudget=200,
                 bounds=f'entry {_o} of a {_k} file with {_p}, cut after any number of bytes: some contents, any floating-point data', **_p)(managed)


# ---------------------------------------------------------------------------
# Vector graphics files: the elements before the end
# ---------------------------------------------------------------------------
class Done(Exception):
    pass


def cut_after(env, parts, records):
    """Elements are read in full or not at all."""
    env = env.env
    data = env._join(parts)
    cut = env.int('cut', 0, len(data))
    env.write_file(env.path('cut.vgf'), data, cut=cut)
    f = outcome(env, lambda: env.mod(vgf.DEC).VectorGraphicFile(env.path('cut.vgf')))
    env.observe('failed', f is None)
    if f is None:
        env.check(cut < len(data), 'the whole file is read')
        raise Done
    env.check(len(f.elements) <= len(records), 'no more elements than there were')
    for k, (e, r) in enumerate(zip(f.elements, records)):
        vgf.compare(env, e, r.expect, f'element {k}')
    end = 0
    for k, p in enumerate(parts):
        end += len(p)
        if k:
            env.check(env.Or(cut < end, len(f.elements) >= k), f'element {k - 1} before the end of the file')
    raise Done


def drawn(fn):
    def run(env):
        try:
            fn(Some(env, floats=not env.p.get('n', 0) or env.p['n'] < 50))
        except Done:
            return
        env.fail('no file was cut')
    return run


for _s in list(REGISTRY['C22']):
    if _s.name.startswith('rings') or _s.fn.__name__ in ('<lambda>', 'line_codes', 'front_codes', 'special_codes', 'sigmet_status'):
        continue
    scenario('C34', name=f'cut_vgf_{_s.name}', budget=20, bounds=f'file header, one record ({_s.bounds}, some contents) and a line, cut after any number of bytes',
             **{k: v for k, v in _s.params.items()}, instead=cut_after)(drawn(_s.fn))
