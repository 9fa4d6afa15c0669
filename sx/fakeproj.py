"""Stand-in for pyproj in symbolic runs: any projection is a scaling, its parameters stay symbolic.

Only the interface the writer and reader use is there; anything else is reported as unsupported,
and the path is then decided on the real pyproj.
"""
from .core import Unsupported

SCALE = 100000.0


class Missing:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'pyproj attribute {n}')


class Param:
    def __init__(self, name, value):
        self.name, self.value = name, value


class Operation(Missing):
    def __init__(self, method, params):
        self.method_name = method
        self.params = [Param(*p) for p in params]


class CRS(Missing):
    def __init__(self, d=None, cf=None, op=None):
        self.d, self.cf = d or {}, cf or {}
        self.coordinate_operation = op

    @staticmethod
    def from_dict(d):
        return CRS(d)

    def to_cf(self):
        return dict(self.cf)

    def to_dict(self):
        return dict(self.d)


class Proj(Missing):
    def __init__(self, crs, **k):
        if not isinstance(crs, CRS):
            raise Unsupported('pyproj.Proj of something else than a CRS')
        self.crs = crs

    def __call__(self, a, b, inverse=False, **k):
        if k:
            raise Unsupported('arguments of pyproj.Proj')
        return (a / SCALE, b / SCALE) if inverse else (a * SCALE, b * SCALE)


def overrides():
    from .shims import module
    return {'pyproj': module('pyproj', Proj=Proj, CRS=CRS)}
