"""Builtin and library stand-ins visible to the code under test while it runs symbolically."""
import builtins
import math as _math
import types

import numpy as np

from . import core, dt, nparr, rx, strx
from .bytesx import (CutBytes, SymByteArray, SymBytes, VBytesIO, cells_of, cells_to_int, is_bytes, mkbytes,
                     struct_mod, v_open)
from .core import SymBool, SymFloat, SymInt, Unsupported, as_symfloat
from .nparr import SymArray
from .strx import SymStr, mkstr

B = builtins


def is_symv(v):
    return type(v) in (SymInt, SymFloat, SymBool, SymStr, SymBytes, SymByteArray)


class _Meta(type):
    """Metaclass of the stand-ins for builtin classes."""

    def __instancecheck__(cls, o):
        return B.isinstance(o, cls.sx_real)

    def __subclasscheck__(cls, c):
        return B.issubclass(getattr(c, 'sx_real', c), cls.sx_real)

    def __call__(cls, *a, **k):
        return cls.sx_new(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.sx_real

    def __hash__(cls):
        return hash(cls.sx_real)

    def __getattr__(cls, n):
        real = B.getattr(cls.__dict__['sx_real'], n)
        if n in ('from_bytes', 'fromkeys', 'maketrans', 'fromhex'):
            return real

        def method(self, *a, **k):
            return call_method(self, n, *a, **k)
        return method if callable(real) else real

    def __repr__(cls):
        return repr(cls.sx_real)


def _item(v):
    if B.isinstance(v, SymArray) and v.size == 1:
        return v.item()
    return v


def _int_new(v=0, base=None):
    v = _item(v)
    t = type(v)
    if t is SymInt:
        return v
    if t is SymBool:
        return v._as_int()
    if t is SymFloat:
        return v.to_int_trunc()
    if t is SymStr:
        return strx.str_to_int(v, 10 if base is None else base)
    if t in (SymBytes, SymByteArray):
        return strx.str_to_int(v.decode(), 10 if base is None else base)
    return B.int(v) if base is None else B.int(v, base)


def _int_from_bytes(b, byteorder='big', *, signed=False):
    if type(b) is CutBytes:
        b = b.plain()
    if is_bytes(b) and type(b) not in (SymBytes, SymByteArray):
        return B.int.from_bytes(b, byteorder, signed=signed)
    if not is_bytes(b):
        b = mkbytes(list(b))
    return cells_to_int(cells_of(b), byteorder, signed)


def _float_new(v=0.0):
    v = _item(v)
    t = type(v)
    if t is SymFloat:
        return v
    if t is SymInt:
        return v.to_real()
    if t is SymBool:
        return v._as_int().to_real()
    if t is SymStr:
        return strx.str_to_float(v)
    if t is strx.FloatText:
        return v.value()
    return B.float(v)


def _str_new(v='', *a, **k):
    if a or k:
        if type(v) in (SymBytes, SymByteArray, CutBytes):
            return v.decode(*a, **k)
        return B.str(v, *a, **k)
    return strx.to_str(v)


def _bytes_new(v=b'', *a, **k):
    if type(v) is CutBytes:
        v = v.plain()
    t = type(v)
    if t is SymStr:
        return v.encode(*a, **k)
    if t in (SymBytes, SymByteArray):
        return mkbytes(list(v.cells))
    if t is SymInt:
        return B.bytes(v.concretize())
    if B.isinstance(v, SymArray):
        return v.tobytes()
    if B.isinstance(v, (list, tuple)) and any(is_symv(x) for x in v):
        return mkbytes([bytechk(x) for x in v])
    return B.bytes(v, *a, **k)


def bytechk(x):
    if type(x) is SymInt:
        if not core.And(x >= 0, x <= 255):
            raise ValueError('bytes must be in range(0, 256)')
        return x
    return B.int(x)


def _bytearray_new(v=b'', *a, **k):
    if type(v) is CutBytes:
        return v
    r = _bytes_new(v, *a, **k)
    c = cells_of(r)
    return B.bytearray(r) if type(r) is B.bytes else SymByteArray(c)


def _memoryview_new(v):
    if type(v) in (SymBytes, SymByteArray, CutBytes):
        return v
    return B.memoryview(v)


def _range_new(*a):
    if core.ENG is not None and core.ENG.cache.get('stop_on_symbolic_range'):
        if any(type(x) is SymInt for x in a):
            raise core.StopPath()
    if core.ENG is not None and core.ENG.cache.get('skip_symbolic_range'):
        if any(type(x) is SymInt for x in a):
            return B.range(0)
    return B.range(*[x.concretize() if type(x) is SymInt else x for x in a])


def _list_new(v=()):
    return B.list(v)


def _type_new(*a, **k):
    if len(a) == 1 and not k:
        t = B.type(a[0])
        if t in (SymInt, SymFloat, SymBool, SymStr, SymBytes, SymByteArray):
            t = a[0].__class__
        return REAL2SHADOW.get(t, t)
    return B.type(*a, **k)


class SxDict(dict):
    """dict that finds symbolic keys by comparison."""
    __slots__ = ('_symkeys',)
    __class__ = property(lambda self: dict)

    def __init__(self, *a, **k):
        super().__init__()
        self._symkeys = False
        if a:
            src = a[0]
            if B.isinstance(src, dict):
                for kk in src:
                    self[kk] = src[kk]
            elif hasattr(src, 'keys'):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            super().__setitem__(kk, v)

    def _canon(self, k):
        ks = keysym(k)
        if not ks and not self._symkeys:
            return k
        if type(k) is SymStr or type(k) is SymInt or ks or self._symkeys:
            for q in dict.keys(self):
                if q is k:
                    return q
            for q in list(dict.keys(self)):
                if not ks and not keysym(q):
                    if q == k and hash(q) == hash(k):
                        return q
                    continue
                if bool(keyeq(q, k)):
                    return q
        return k

    def _do(self, op, k, *a):
        c = self._canon(k)
        if not keysym(c):
            return op(self, c, *a)
        if op is dict.__setitem__:
            self._symkeys = True
        core.HASH_BY_ID[0] = True
        try:
            return op(self, c, *a)
        finally:
            core.HASH_BY_ID[0] = False

    def __getitem__(self, k):
        return self._do(dict.__getitem__, k)

    def __setitem__(self, k, v):
        self._do(dict.__setitem__, k, v)

    def __delitem__(self, k):
        self._do(dict.__delitem__, k)

    def __contains__(self, k):
        return self._do(dict.__contains__, k)

    def get(self, k, d=None):
        return self._do(dict.get, k, d)

    def pop(self, k, *d):
        return self._do(dict.pop, k, *d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, *a, **k):
        for src in a:
            items = src.items() if hasattr(src, 'keys') else src
            for kk, v in items:
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        return SxDict(self)

    def __eq__(self, o):
        if not B.isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        other = o if B.issubclass(type(o), SxDict) else SxDict(o)
        same = []
        for k in list(dict.keys(self)):
            if k not in other:
                return False
            same.append(self[k] == other[k])
        return core.And(*same)

    def __ne__(self, o):
        return core.Not(self == o)

    __hash__ = None

    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SxDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __deepcopy__(self, memo):
        import copy
        r = SxDict()
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __reduce__(self):
        return (dict, (dict(self),))


def keysym(k):
    t = type(k)
    if t in (SymInt, SymFloat, SymStr, SymBytes) or hasattr(k, 'sx_concrete'):
        return True
    if B.isinstance(k, tuple):
        return any(keysym(x) for x in k)
    return False


def keyeq(a, b):
    """Equality of two keys as a single condition (no forks)."""
    if B.isinstance(a, tuple) and B.isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.And(*[keyeq(x, y) for x, y in zip(a, b)])
    if B.isinstance(a, tuple) or B.isinstance(b, tuple):
        return False
    if a is b:
        return True
    try:
        return a == b
    except TypeError:
        return False


class SxSet:
    """set that finds symbolic members by comparison."""
    __class__ = property(lambda self: set)

    def __init__(self, it=()):
        self._d = SxDict()
        for x in it:
            self._d[x] = None

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        self._d.pop(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self._d[x] = None

    def pop(self):
        k = next(iter(self._d))
        self._d.pop(k)
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        return SxSet(self)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        ks = list(dict.keys(self._d))
        if not self._d._symkeys and not any(hasattr(k, 'sx_concrete') for k in ks):
            try:
                return iter(list(set(ks)))
            except TypeError:
                pass
        return iter(ks)

    def __len__(self):
        return len(self._d)

    def __or__(self, o):
        r = SxSet(self)
        r.update(o)
        return r
    __ror__ = union = __or__

    def __and__(self, o):
        return SxSet([x for x in self if x in o])
    __rand__ = intersection = __and__

    def __sub__(self, o):
        return SxSet([x for x in self if x not in o])
    difference = __sub__

    def __rsub__(self, o):
        return SxSet([x for x in o if x not in self])

    def __xor__(self, o):
        return (self - o) | SxSet([x for x in o if x not in self])
    symmetric_difference = __rxor__ = __xor__

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return all(x in o for x in self)
    issubset = __le__

    def __ge__(self, o):
        return all(x in self for x in o)
    issuperset = __ge__

    def __lt__(self, o):
        return len(self) < len(o) and self <= o

    def __gt__(self, o):
        return len(self) > len(o) and self >= o

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __hash__ = None

    def __repr__(self):
        return repr(set(dict.keys(self._d)))


def _set_new(it=()):
    return SxSet(it)


def _mk(name, real, new, **extra):
    return _Meta(name, (), {'sx_real': real, 'sx_new': staticmethod(new), '__module__': 'builtins', **extra})


sx_int = _mk('int', int, _int_new, sx_dtype=np.dtype(int), from_bytes=staticmethod(_int_from_bytes))
sx_float = _mk('float', float, _float_new, sx_dtype=np.dtype(float))
sx_str = _mk('str', str, _str_new)
sx_bytes = _mk('bytes', bytes, _bytes_new)
sx_bytearray = _mk('bytearray', bytearray, _bytearray_new)
sx_memoryview = _mk('memoryview', memoryview, _memoryview_new)
sx_range = _mk('range', range, _range_new)
sx_set = _mk('set', set, _set_new)


class sx_dict_meta(_Meta):
    pass


sx_dict = _Meta('dict', (), {'sx_real': dict, 'sx_new': staticmethod(lambda *a, **k: SxDict(*a, **k)), '__module__': 'builtins',
                             'fromkeys': staticmethod(lambda ks, v=None: SxDict([(k, v) for k in ks]))})

REAL2SHADOW = {int: sx_int, float: sx_float, str: sx_str, bytes: sx_bytes, bytearray: sx_bytearray,
               range: sx_range, set: sx_set, dict: sx_dict, SxDict: sx_dict, SxSet: sx_set}


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return B.isinstance(o, type)

    def __call__(cls, *a, **k):
        return _type_new(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class sx_type(metaclass=_TypeMeta):
    pass


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------
def s_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return strx.code(c.chars[0])
    if type(c) is SymBytes:
        return c[0]
    return B.ord(c)


def s_chr(i):
    if type(i) is SymInt:
        return mkstr([i])
    return B.chr(i)


def s_format(v, spec=''):
    return strx.format_value(v, spec)


def s_repr(v):
    if strx.contains_sym(v):
        return '<symbolic>'
    return B.repr(v)


def s_sum(it, start=0):
    it = _arr_iter(it)
    r = start
    for x in it:
        r = r + x
    return r


def _arr_iter(it):
    return it


def _minmax(name):
    real = getattr(B, name)

    def f(*a, key=None, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items or not any(is_symv(x) or hasattr(x, 'sx_concrete') for x in items):
            if key is not None:
                k['key'] = key
            return real(items, **k) if items or 'default' in k else real([])
        if key is not None:
            return real(items, key=key)
        if all(type(x) in (SymInt, SymFloat, int, float, bool) or B.isinstance(x, (np.floating, np.integer)) for x in items):
            r = items[0]
            for x in items[1:]:
                r = core.ite(x > r if name == 'max' else x < r, x, r)
            return r
        return real(items)
    return f


def s_round(v, ndigits=None):
    n = ndigits
    v = _item(v)
    return v.__round__(n) if hasattr(type(v), '__round__') and n is not None else B.round(v) if n is None else B.round(v, n)


def s_isinstance(o, c):
    return B.isinstance(o, c)


def s_len(x):
    if type(x) is CutBytes:
        return x.sx_len()
    return B.len(x)


def s_hex(f):
    def g(v):
        return f(v.concretize() if type(v) is SymInt else v)
    return g


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, m=None):
    return a ** b if m is None else B.pow(a, b, m)


def s_print(*a, **k):
    return None


def s_any(it):
    """any() without short-circuit forks when the items are symbolic conditions."""
    for x in it:
        if x:
            return True
    return False


# ---------------------------------------------------------------------------
# operators used by rewritten source
# ---------------------------------------------------------------------------
def sx_in(a, b):
    if B.isinstance(b, (list, tuple)) and type(b) is not SymArray:
        if strx.contains_sym(a) or any(keysym(x) for x in b):
            cond = []
            for x in b:
                r = True if x is a else keyeq_any(x, a)
                if r is True:
                    return True
                if r is not False:
                    cond.append(r)
            return core.Or(*cond) if cond else False
        return a in b
    if B.isinstance(b, str) and (type(a) is SymStr or type(b) is SymStr):
        if type(b) is not SymStr:
            b = SymStr(list(b))
        return b.__contains__(a)
    if type(b) in (SymBytes, SymByteArray, CutBytes):
        return a in b
    if B.isinstance(b, dict) and type(b) is not SxDict and keysym(a):
        return any_eq(a, list(b.keys()))
    if B.isinstance(b, types.MappingProxyType) and keysym(a):
        return any_eq(a, list(b.keys()))
    if B.isinstance(b, (set, frozenset)) and type(b) is not SxSet and keysym(a):
        return any_eq(a, list(b))
    if type(b) is type({}.keys()) and keysym(a):
        return any_eq(a, list(b))
    if B.isinstance(b, range) and type(a) is SymInt:
        if b.step == 1:
            return core.And(a >= b.start, a < b.stop)
        return any_eq(a, list(b))
    return a in b


def any_eq(a, items):
    return core.Or(*[keyeq(x, a) for x in items]) if items else False


def keyeq_any(x, a):
    if B.isinstance(x, tuple) and B.isinstance(a, tuple):
        return keyeq(x, a)
    try:
        r = x == a
    except TypeError:
        return False
    if B.isinstance(r, np.ndarray):
        return bool(r)
    return r


def sx_notin(a, b):
    return core.Not(sx_in(a, b))


def sx_mod(a, b):
    if B.isinstance(a, str):
        if type(a) is SymStr:
            return a.__mod__(b)
        return strx.percent_format(a, b)
    return a % b


def sx_fstr(*parts):
    return strx.fstring(parts)


def sx_dictlit(*pairs):
    d = SxDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def anysym(xs):
    for x in xs:
        if is_symv(x):
            return True
        if B.isinstance(x, (list, tuple)) and any(is_symv(y) for y in x):
            return True
    return False


def call_method(obj, name, *a, **k):
    t = type(obj)
    if t is str:
        if name == 'join':
            if len(a) == 1:
                parts = list(a[0])
                if any(type(p) is SymStr for p in parts):
                    return strx.join(obj, parts)
                return obj.join(parts)
        elif name == 'format':
            return strx.str_format(obj, a, k)
        elif anysym(a):
            return getattr(SymStr(list(obj)), name)(*a, **k)
    elif t in (bytes, bytearray):
        if name == 'join':
            parts = [p.plain() if type(p) is CutBytes else p for p in a[0]]
            if any(type(p) in (SymBytes, SymByteArray) for p in parts):
                from .bytesx import _join
                return _join(obj, parts)
            return obj.join(parts)
        if anysym(a):
            if t is bytes:
                return getattr(SymBytes(list(obj)), name)(*a, **k)
            return getattr(SymByteArray(list(obj)), name)(*a, **k)
    return getattr(obj, name)(*a, **k)


METHODS = {'join', 'format', 'startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'replace',
           'split', 'partition', 'rsplit', 'rpartition', 'strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'zfill'}


def sx_mapget(obj, key):
    """obj[key] for plain mappings with a symbolic key."""
    if B.isinstance(obj, dict) and not issubclass(type(obj), SxDict) and keysym(key):
        for q in obj:
            if bool(keyeq(q, key)):
                return obj[q]
        raise KeyError('<symbolic>')
    return obj[key]


# ---------------------------------------------------------------------------
# modules
# ---------------------------------------------------------------------------
class _Math:
    pi, e, inf, nan, tau = _math.pi, _math.e, _math.inf, _math.nan, _math.tau

    @staticmethod
    def floor(x):
        x = _item(x)
        return x.floor_int() if type(x) is SymFloat else x if type(x) is SymInt else _math.floor(x)

    @staticmethod
    def ceil(x):
        x = _item(x)
        return -((-x).floor_int()) if type(x) is SymFloat else x if type(x) is SymInt else _math.ceil(x)

    @staticmethod
    def trunc(x):
        x = _item(x)
        return x.to_int_trunc() if type(x) is SymFloat else x if type(x) is SymInt else _math.trunc(x)

    @staticmethod
    def fabs(x):
        return abs(_float_new(x))

    @staticmethod
    def isnan(x):
        x = _item(x)
        return x.isnan() if type(x) is SymFloat else False if type(x) is SymInt else _math.isnan(x)

    @staticmethod
    def isfinite(x):
        x = _item(x)
        return core.Not(x.isnan()) if type(x) is SymFloat else True if type(x) is SymInt else _math.isfinite(x)

    @staticmethod
    def isinf(x):
        return False if is_symv(x) else _math.isinf(x)

    @staticmethod
    def log(x, *b):
        x = _item(x)
        if is_symv(x):
            x = as_symfloat(x)
            if x <= 0:
                raise ValueError('math domain error')
            r = core.ulog(x)
            return r / _math.log(b[0]) if b else r
        return _math.log(x, *b)

    @staticmethod
    def exp(x):
        x = _item(x)
        return core.uexp(x) if is_symv(x) else _math.exp(x)

    @staticmethod
    def sqrt(x):
        x = _item(x)
        if is_symv(x):
            x = as_symfloat(x)
            if x < 0:
                raise ValueError('math domain error')
            return core.usqrt(x)
        return _math.sqrt(x)

    @staticmethod
    def pow(a, b):
        return _float_new(a) ** b

    @staticmethod
    def fmod(a, b):
        a, b = _item(a), _item(b)
        if is_symv(a) or is_symv(b):
            m = abs(_float_new(a)) % abs(_float_new(b))
            return core.ite(a < 0, -m, m)
        return _math.fmod(a, b)

    @staticmethod
    def modf(a):
        a = _item(a)
        if is_symv(a):
            w = as_symfloat(_Math.trunc(a))
            return (_float_new(a) - w, w)
        return _math.modf(a)

    @staticmethod
    def gcd(*a):
        a = [_item(x) for x in a]
        if any(is_symv(x) for x in a):
            r = 0
            for x in a:
                x = abs(x)
                while x:
                    r, x = x, r % x
            return r
        return _math.gcd(*a)

    @staticmethod
    def ldexp(a, n):
        a, n = _item(a), _item(n)
        return a * 2.0 ** n if is_symv(a) and not is_symv(n) else _math.ldexp(a, n)

    @staticmethod
    def copysign(a, b):
        if is_symv(a) or is_symv(b):
            m = abs(_float_new(a))
            return core.ite(b >= 0, m, -m)
        return _math.copysign(a, b)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_symv(a) or is_symv(b):
            d = abs(a - b)
            return core.Or(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, n):
        f = getattr(_math, n)

        def g(*a):
            if any(is_symv(_item(x)) for x in a):
                raise Unsupported(f'math.{n} on symbolic value')
            return f(*a)
        return g


math_mod = _Math()


class bisect_mod:
    @staticmethod
    def bisect_left(a, x, lo=0, hi=None, *, key=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            v = a[mid] if key is None else key(a[mid])
            if v < x:
                lo = mid + 1
            else:
                hi = mid
        return lo

    @staticmethod
    def bisect_right(a, x, lo=0, hi=None, *, key=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            v = a[mid] if key is None else key(a[mid])
            if x < v:
                hi = mid
            else:
                lo = mid + 1
        return lo
    bisect = bisect_right

    @staticmethod
    def insort_left(a, x, lo=0, hi=None, *, key=None):
        a.insert(bisect_mod.bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)

    @staticmethod
    def insort_right(a, x, lo=0, hi=None, *, key=None):
        a.insert(bisect_mod.bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)
    insort = insort_right


class _CInt:
    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed

    def __call__(self, v=0):
        r = types.SimpleNamespace()
        if type(v) is SymInt:
            r.value = v.wrap(self.bits, self.signed)
        else:
            v = B.int(v) & ((1 << self.bits) - 1)
            r.value = v - (1 << self.bits) if self.signed and v >> (self.bits - 1) else v
        return r


class ctypes_mod:
    pass


for _b in (8, 16, 32, 64):
    setattr(ctypes_mod, f'c_int{_b}', _CInt(_b, True))
    setattr(ctypes_mod, f'c_uint{_b}', _CInt(_b, False))
ctypes_mod.c_int, ctypes_mod.c_uint = ctypes_mod.c_int32, ctypes_mod.c_uint32


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


import copy as _copy
import io as _io


class DefaultDict(SxDict):
    __slots__ = ('default_factory',)

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __getitem__(self, k):
        if k not in self:
            if self.default_factory is None:
                raise KeyError(k)
            self[k] = self.default_factory()
        return SxDict.__getitem__(self, k)


# ---------------------------------------------------------------------------
# xarray and pyproj stand-ins
# ---------------------------------------------------------------------------
class XCoord:
    def __init__(self, name, dims, values):
        self.name, self.dims, self.values = name, dims, values

    @property
    def data(self):
        return self.values

    @property
    def shape(self):
        return getattr(self.values, 'shape', ())

    def item(self):
        return nparr.flat(nparr.asarray(self.values))[0]

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)


def _coordval(v):
    if B.isinstance(v, (np.ndarray, nparr.SymMA)):
        return v
    return list(v) if B.isinstance(v, (list, tuple)) else v


class XDataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        self.data = data
        self.dims = tuple(dims) if dims is not None and not B.isinstance(dims, str) else (dims,)
        self.name, self.attrs = name, dict(attrs or {})
        self.coords = {}
        shape = getattr(data, 'shape', None)
        if shape is not None and len(shape) != len(self.dims):
            raise ValueError('different number of dimensions on data and dims')
        for k, v in (coords or {}).items():
            if B.isinstance(v, tuple) and len(v) >= 2 and B.isinstance(v[0], (list, tuple, str)):
                d = [v[0]] if B.isinstance(v[0], str) else list(v[0])
                vals = v[1]
            else:
                vals = v
                d = [k] if hasattr(v, '__len__') and not B.isinstance(v, str) else []
            c = XCoord(k, d, _coordval(vals))
            self.coords[k] = c
            if shape is not None:
                for ax, dn in enumerate(d):
                    if dn in self.dims:
                        n = shape[self.dims.index(dn)]
                        m = c.shape[ax] if c.shape else len(c.values)
                        if m != n:
                            raise ValueError('conflicting sizes for dimension')

    @property
    def values(self):
        return self.data

    @property
    def shape(self):
        return self.data.shape

    def __getattr__(self, n):
        c = self.__dict__.get('coords', {})
        if n in c:
            return c[n]
        a = self.__dict__.get('attrs', {})
        if n in a:
            return a[n]
        raise AttributeError(n)


class XDataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars, self.coords, self.attrs = {}, {}, dict(attrs or {})
        for k, v in (coords or {}).items():
            if B.isinstance(v, tuple):
                self.coords[k] = XCoord(k, [v[0]] if B.isinstance(v[0], str) else list(v[0]), _coordval(v[1]))
            else:
                self.coords[k] = XCoord(k, [k] if hasattr(v, '__len__') and not B.isinstance(v, str) else [], _coordval(v))
        for k, v in (data_vars or {}).items():
            if B.isinstance(v, XDataArray):
                self.data_vars[k] = v
            else:
                self.data_vars[k] = XDataArray(v[1], dims=v[0], name=k, attrs=v[2] if len(v) > 2 else None)

    def sortby(self, name, ascending=True):
        c = self.coords[name]
        d = c.dims[0]
        vals = list(c.values)

        class K:
            __slots__ = ('v',)

            def __init__(s, v):
                s.v = v

            def __lt__(s, o):
                r = s.v < o.v
                if type(s.v) is SymFloat or type(o.v) is SymFloat:
                    # NaN sorts last
                    a, b = as_symfloat(s.v), as_symfloat(o.v)
                    if a.nan is not False or b.nan is not False:
                        r = core.And(core.Not(a.isnan()), core.Or(b.isnan(), core.mkbool(a.r < b.r)))
                return bool(r)
        order = sorted(range(len(vals)), key=lambda i: K(vals[i]))
        if not ascending:
            order = order[::-1]
        out = XDataset(attrs=self.attrs)
        for k, q in self.coords.items():
            out.coords[k] = XCoord(k, q.dims, _take(q.values, order, q.dims.index(d))) if d in q.dims else q
        for k, q in self.data_vars.items():
            if d in q.dims:
                out.data_vars[k] = XDataArray(_take(q.data, order, q.dims.index(d)), dims=q.dims, name=k, attrs=q.attrs)
            else:
                out.data_vars[k] = q
        return out

    def __contains__(self, n):
        return n in self.data_vars or n in self.coords

    def __getitem__(self, n):
        return self.data_vars[n] if n in self.data_vars else self.coords[n]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        for g in ('data_vars', 'coords', 'attrs'):
            if n in self.__dict__.get(g, {}):
                return self.__dict__[g][n]
        raise AttributeError(n)


def _take(v, order, axis):
    if B.isinstance(v, nparr.SymMA):
        return nparr.SymMA(_take(v.data, order, axis), _take(v.mask, order, axis))
    if B.isinstance(v, np.ndarray):
        ix = [slice(None)] * v.ndim
        ix[axis] = np.array(order, dtype=int)
        return nparr.wrapa(nparr.base(v)[tuple(ix)], v.ldt) if B.isinstance(v, SymArray) else v[tuple(ix)]
    return [v[i] for i in order]


xr_mod = module('xarray', DataArray=XDataArray, Dataset=XDataset)


def _plainarg(a):
    if B.isinstance(a, SymArray):
        r = nparr.toreal(a)
        if r is None:
            raise Unsupported('symbolic array passed to pyproj')
        return r
    if is_symv(a):
        raise Unsupported('symbolic value passed to pyproj')
    if B.isinstance(a, SxDict):
        return {k: _plainarg(v) for k, v in dict.items(a)}
    if B.isinstance(a, (list, tuple)):
        return type(a)(_plainarg(x) for x in a) if type(a) in (list, tuple) else a
    return a


def _lifted(r):
    if B.isinstance(r, tuple):
        return tuple(_lifted(x) for x in r)
    if B.isinstance(r, np.ndarray):
        return nparr.lift(r)
    return r


def make_pyproj():
    import pyproj

    class ProjMeta(type):
        def __instancecheck__(cls, o):
            return type.__instancecheck__(cls, o) or B.isinstance(o, pyproj.Proj)

    class Proj(metaclass=ProjMeta):
        def __init__(self, *a, **k):
            a = [x._crs if B.isinstance(x, CRSW) else _plainarg(x) for x in a]
            self._p = pyproj.Proj(*a, **{q: _plainarg(v) for q, v in k.items()})

        def __call__(self, *a, **k):
            return _lifted(self._p(*[_plainarg(x) for x in a], **k))

        def __getattr__(self, n):
            return getattr(self.__dict__['_p'], n)

    class CRSW:
        def __init__(self, c):
            self._crs = c

        def __getattr__(self, n):
            return getattr(self.__dict__['_crs'], n)

    class CRS:
        @staticmethod
        def from_dict(d):
            return CRSW(pyproj.CRS.from_dict(_plainarg(d)))

        def __new__(cls, *a, **k):
            return CRSW(pyproj.CRS(*[_plainarg(x) for x in a], **k))

    return module('pyproj', Proj=Proj, CRS=CRS, Geod=pyproj.Geod, __real__=pyproj)


class Logger:
    """Messages are not part of any property: their arguments are left unformatted."""
    disabled, level, name, handlers = False, 0, 'sx', ()

    def isEnabledFor(self, level):
        return False

    def getEffectiveLevel(self):
        return 100

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def _logging():
    import logging
    m = types.ModuleType('logging')
    m.__dict__.update({k: v for k, v in vars(logging).items() if not k.startswith('__')})
    m.getLogger = lambda name=None: Logger()
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'basicConfig'):
        setattr(m, n, lambda *a, **k: None)
    return m


class JsonText:
    """What json.dumps gives: the value that the text stands for."""

    def __init__(self, value):
        self.value = value


class JSONEncoder:
    def __init__(self, **k):
        pass

    def default(self, o):
        raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')


def json_dumps(obj, *, cls=None, default=None, **k):
    convert = default or (cls or JSONEncoder)().default

    def walk(v, depth=0):
        if depth > 40:
            raise ValueError('Circular reference detected')
        if v is None or is_symv(v) or type(v) in (SymStr, SymBool) or isinstance(v, (bool, B.str)):
            return v
        if isinstance(v, (int, B.float)) and not (isinstance(v, np.generic) and not isinstance(v, B.float)):
            return v
        if isinstance(v, (list, tuple)):
            return [walk(x, depth + 1) for x in v]
        if isinstance(v, B.dict):
            for key in v:
                if not (key is None or is_symv(key) or type(key) is SymStr or isinstance(key, (B.str, int, B.float))):
                    raise TypeError('keys must be str, int, float, bool or None')
            return {key: walk(x, depth + 1) for key, x in v.items()}
        return walk(convert(v), depth + 1)
    return JsonText(walk(obj))


MODULES = {
    'json': module('json', JSONEncoder=JSONEncoder, dumps=json_dumps),
    'logging': _logging(),
    'numpy': nparr.np_mod, 'struct': struct_mod, 're': rx.re_mod, 'datetime': dt.datetime_mod,
    'math': math_mod, 'bisect': bisect_mod, 'ctypes': ctypes_mod, 'xarray': xr_mod,
    'io': module('io', BytesIO=VBytesIO, StringIO=_io.StringIO, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2),
}


def builtins_dict(importer):
    d = dict(vars(B))
    d.update({
        'int': sx_int, 'float': sx_float, 'str': sx_str, 'bytes': sx_bytes, 'bytearray': sx_bytearray,
        'memoryview': sx_memoryview, 'range': sx_range, 'set': sx_set, 'dict': sx_dict, 'type': sx_type,
        'ord': s_ord, 'chr': s_chr, 'format': s_format, 'repr': s_repr, 'sum': s_sum,
        'min': _minmax('min'), 'max': _minmax('max'), 'round': s_round, 'open': v_open,
        'len': s_len, 'hex': s_hex(hex), 'oct': s_hex(oct), 'bin': s_hex(bin), 'divmod': s_divmod, 'pow': s_pow,
        'print': s_print, '__import__': importer,
        '__sx_in__': sx_in, '__sx_notin__': sx_notin, '__sx_mod__': sx_mod, '__sx_fstr__': sx_fstr,
        '__sx_dict__': sx_dictlit, '__sx_dictcomp__': SxDict, '__sx_set__': SxSet, '__sx_method__': call_method,
        '__sx_get__': sx_mapget,
    })
    return d
