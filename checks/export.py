"""JSON of vector graphics files (C35)."""
from sx.harness import REGISTRY, scenario

from . import vgf


class Done(Exception):
    pass


def attribute(j, path):
    for p in path.split('.'):
        j = j[int(p)] if p.isdigit() else j[p]
    return j


def same(env, got, want):
    """Numbers may be rounded to hundredths."""
    if isinstance(want, tuple) and len(want) == 3 and want[0] == 'near':
        return env.near(got, want[1], 0.5 * 10 ** -want[2] + 0.0052)
    if isinstance(want, (list, tuple)):
        got = list(got)
        if len(got) != len(want):
            return False
        return env.And(*[same(env, a, b) for a, b in zip(got, want)])
    if hasattr(want, 'isoformat'):
        return got == want.isoformat()
    if isinstance(want, float):
        return env.near(got, want, 0.0052)
    return got == want


def exported(env, parts, records):
    """The elements of the file, in their order, with their contents."""
    env.write_file(env.path('a.vgf'), env._join(parts))
    f = env.mod(vgf.DEC).VectorGraphicFile(env.path('a.vgf'))
    env.check(len(f.elements) == len(records), 'elements of the file')
    before = [sorted(e.__dict__) for e in f.elements]
    got = env.json(f.to_json())
    env.check(len(got) == len(records), 'elements exported')
    for k, (j, e, r) in enumerate(zip(got, f.elements, records)):
        env.check(sorted(j) == before[k], 'names of the contents')
        for path, want in r.expect:
            env.check(same(env, attribute(j, path), want), f'element {k}: {path}')
        vgf.compare(env, e, r.expect, 'unchanged by the export')
    raise Done


def wrap(fn):
    def run(env):
        try:
            fn(env)
        except Done:
            return
        env.fail('nothing was exported')
    return run


for _s in list(REGISTRY['C22']):
    if _s.name.startswith('rings') or _s.fn.__name__ in ('<lambda>', 'line_codes', 'front_codes', 'special_codes', 'sigmet_status'):
        continue
    scenario('C35', name=f'json_{_s.name}', budget=20, bounds=f'one record ({_s.bounds}) and a line', **_s.params, instead=exported)(wrap(_s.fn))
