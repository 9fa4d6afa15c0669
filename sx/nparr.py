"""Symbolic numpy arrays: object arrays with a logical dtype, and a numpy facade."""
import functools
import math
import operator

import numpy as np
import z3

from . import core
from .bytesx import (BT, CutBytes, SymByteArray, SymBytes, cells_of, cells_to_float, cells_to_int, float_to_cells,
                     int_to_cells, mkbytes)
from .core import (And, Not, Or, SymBool, SymFloat, SymInt, Unsupported, as_symfloat, as_symint, ite)
from .strx import SymStr

SYM = (SymInt, SymFloat, SymBool, SymStr, SymBytes)


def issym(v):
    return type(v) in SYM or hasattr(v, 'sx_concrete')


DT = {}


def to_dtype(d):
    if d is None:
        return None
    if isinstance(d, np.dtype):
        return d
    n = getattr(d, 'sx_dtype', None)
    if n is not None:
        return np.dtype(n)
    if type(d) is SymStr:
        d = d.concretize()
    return np.dtype(d)


def wrap_int(v, dt):
    bits, signed = dt.itemsize * 8, dt.kind == 'i'
    if type(v) is SymInt:
        lo, hi = v.iv()
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if lo is None or hi is None:
            if bool(And(v >= mn, v <= mx)):
                v = v + 0 if False else SymInt(v.terms, v.const)
                v._iv = (mn if lo is None else max(lo, mn), mx if hi is None else min(hi, mx))
                return v
        return v.wrap(bits, signed)
    v = int(v) & ((1 << bits) - 1)
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def conv(v, dt, rounding=True):
    """Element v as a value of dtype dt (symbolic or plain Python)."""
    k = dt.kind
    t = type(v)
    if k == 'O':
        return v
    if k in 'iu':
        if t is SymBool:
            return v._as_int()
        if t is SymFloat:
            v = v.to_int_trunc()
        elif isinstance(v, (float, np.floating)) and t is not SymInt:
            if math.isnan(v) or math.isinf(v):
                return -(1 << (dt.itemsize * 8 - 1)) if k == 'i' else 0
            v = int(v)
        elif isinstance(v, str):
            v = int(v)
        return wrap_int(v, dt)
    if k == 'f':
        if t is SymBool:
            v = v._as_int()
        if type(v) is SymInt:
            v = v.to_real()
        if type(v) is SymFloat:
            return v.to_f32() if dt.itemsize == 4 and rounding else v
        if dt.itemsize == 4:
            return float(np.float32(v))
        return float(v)
    if k == 'b':
        if t is SymBool:
            return v
        if t in (SymInt, SymFloat):
            return v != 0
        return bool(v)
    if k in 'US':
        return v
    if k in 'mM':
        return v
    raise Unsupported(f'dtype {dt}')


def obj(shape):
    return np.empty(shape, dtype=object)


def wrapa(a, ldt):
    r = a.view(SymArray)
    r.ldt = ldt
    return r


def from_list(vals, ldt, shape=None):
    a = obj(len(vals))
    for i, v in enumerate(vals):
        a[i] = v
    if shape is not None:
        a = a.reshape(shape)
    return wrapa(a, ldt)


def base(a):
    return a.view(np.ndarray)


def flat(a):
    return [base(a).reshape(-1)[i] for i in range(a.size)] if isinstance(a, SymArray) else list(a.reshape(-1))


def allconc(a):
    return not any(issym(v) for v in base(a).reshape(-1))


def toreal(a):
    """Real numpy array if all elements are concrete, else None."""
    if not isinstance(a, SymArray):
        return a
    if not allconc(a):
        return None
    vals = [v for v in base(a).reshape(-1)]
    if a.ldt.kind == 'O':
        return base(a)
    return np.array(vals, dtype=a.ldt).reshape(a.shape)


def lift(a, ldt=None):
    """Any array or scalar as a SymArray."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, SymMA):
        return a.data
    if isinstance(a, np.ndarray):
        o = obj(a.shape)
        f, g = o.reshape(-1), a.reshape(-1)
        if a.dtype.kind in 'iufb':
            l = g.tolist()
        else:
            l = list(g)
        for i, v in enumerate(l):
            f[i] = v
        o = f.reshape(a.shape)
        return wrapa(o, a.dtype)
    return array(a, ldt)


def scalar_dtype(v):
    t = type(v)
    if t is SymBool or t is bool or t is np.bool_:
        return np.dtype(bool)
    if isinstance(v, np.generic):
        return v.dtype
    if t is SymInt or isinstance(v, int):
        return np.dtype(np.int64)
    if t is SymFloat or isinstance(v, float):
        return np.dtype(np.float64)
    if isinstance(v, str):
        return np.dtype(f'U{max(1, len(v))}')
    if isinstance(v, bytes):
        return np.dtype(f'S{max(1, len(v))}')
    return np.dtype(object)


def is_seq(v):
    return isinstance(v, (list, tuple, range)) or (isinstance(v, (bytearray, memoryview)) and False)


def array(a, dtype=None, copy=True, ndmin=0, **k):
    dt = to_dtype(dtype)
    if isinstance(a, SymMA):
        a = a.data
    if isinstance(a, np.ndarray):
        s = lift(a)
        d = dt or s.ldt
        if d == s.ldt:
            r = wrapa(base(s).copy(), d) if copy or not isinstance(a, SymArray) else s
        else:
            r = s.astype(d)
    elif is_seq(a) or (hasattr(a, '__iter__') and not isinstance(a, (str, bytes, dict, set)) and not issym(a) and not hasattr(a, '__array__') and not np.isscalar(a)):
        items = list(a)
        shape, fl = (len(items),), items
        sub = [x for x in items]
        if items and all(is_seq(x) or isinstance(x, np.ndarray) and x.ndim > 0 for x in items):
            subs = [array(x) for x in items]
            shp = subs[0].shape
            if any(x.shape != shp for x in subs):
                raise ValueError('inhomogeneous shape')
            d = dt or np.result_type(*[x.ldt for x in subs])
            o = obj((len(items),) + shp)
            for i, x in enumerate(subs):
                o[i] = base(x)
            r = wrapa(o, np.dtype(object)).astype(d) if d.kind != 'O' else wrapa(o, d)
        else:
            if any(is_seq(x) for x in items):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            items = [x.item0() if isinstance(x, SymArray) and x.ndim == 0 else x for x in items]
            if dt is None:
                if not items:
                    d = np.dtype(np.float64)
                else:
                    kinds = [scalar_dtype(x) for x in items]
                    try:
                        d = np.result_type(*kinds)
                    except TypeError:
                        d = np.dtype(object)
            else:
                d = dt
            r = from_list([conv(pyval(x), d) for x in items], d)
    else:
        d = dt or scalar_dtype(a)
        o = obj(())
        o[()] = conv(pyval(a), d)
        r = wrapa(o, d)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def pyval(v):
    return v.item() if isinstance(v, np.generic) and not isinstance(v, np.datetime64) else v


def asarray(a, dtype=None, **k):
    if isinstance(a, SymMA):
        a = a.data
    if isinstance(a, SymArray) and (dtype is None or to_dtype(dtype) == a.ldt):
        return a
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and dtype is None:
        return lift(a)
    return array(a, dtype, copy=False)


def scalar_out(v, ldt):
    """Element extracted from an array."""
    if issym(v) or ldt.kind in 'OUSmM':
        return v
    return ldt.type(v)


def dummy(v):
    if isinstance(v, SymArray):
        return np.ones((1,), v.ldt) if v.ldt.kind != 'O' else np.ones(1)
    if isinstance(v, np.ndarray):
        return np.ones((1,), v.dtype)
    t = type(v)
    if t is SymBool:
        return True
    if t is SymInt:
        return 1
    if t is SymFloat:
        return 1.0
    if isinstance(v, np.generic):
        return v
    if isinstance(v, bool):
        return True
    if isinstance(v, int):
        return 1 if type(v) is not int else v
    if isinstance(v, float):
        return 1.0
    return v


def res_dtype(uf, args):
    ds = [dummy(a) for a in args]
    with np.errstate(all='ignore'):
        try:
            r = uf(*ds)
        except OverflowError:
            raise
        except TypeError:
            return np.dtype(object)
    return np.asarray(r).dtype


def fmax(a, b):
    return ite(a >= b, a, b) if not _anynan(a, b) else _nanpick(a, b, lambda x, y: ite(x >= y, x, y))


def fmin(a, b):
    return ite(a <= b, a, b) if not _anynan(a, b) else _nanpick(a, b, lambda x, y: ite(x <= y, x, y))


def _isnan(v):
    if type(v) is SymFloat:
        return v.isnan()
    if isinstance(v, float) and type(v) is not SymFloat:
        return math.isnan(v)
    return False


def _anynan(a, b):
    return not (_isnan(a) is False and _isnan(b) is False)


def _nanpick(a, b, f):
    fa, fb = as_symfloat(a), as_symfloat(b)
    r = as_symfloat(f(SymFloat(fa.r), SymFloat(fb.r)))
    n = Or(_isnan(a), _isnan(b))
    return SymFloat(r.r, core.bz(n))


def tobv(x):
    if type(x) is SymInt and not x._prefers_bv():
        return core.BVInt.make(x.bv(max(x.width(), 1)), *x.iv())
    return x


def _lsh(a, b):
    if not issym(b) and (b < 0 or b >= 64):
        return 0
    return tobv(a) << b


def _rsh(a, b):
    if not issym(b) and (b < 0 or b >= 64):
        return ite(a < 0, -1, 0)
    return tobv(a) >> b


def _and(a, b):
    if isbool(a) and isbool(b):
        return And(a, b)
    return tobv(a) & tobv(b)


def _or(a, b):
    if isbool(a) and isbool(b):
        return Or(a, b)
    return tobv(a) | tobv(b)


def isbool(a):
    return isinstance(a, (bool, np.bool_)) or type(a) is SymBool


def _inv(a):
    return Not(a) if isbool(a) else ~a


def _rint(a):
    if type(a) is SymInt or isinstance(a, int):
        return a
    if type(a) is SymFloat:
        r = a.rint()
        r = r.to_real() if type(r) is SymInt else SymFloat(core.fl2q(r))
        if a.nan is not False:
            return SymFloat(r.r, a.nan, origin=None)
        return r
    return float(np.rint(a))


def _floor(a):
    if type(a) is SymFloat:
        r = a.floor_int()
        return r.to_real() if type(r) is SymInt else float(r)
    return a if type(a) is SymInt else float(math.floor(a))


def _trunc(a):
    if type(a) is SymFloat:
        r = a.to_int_trunc()
        return r.to_real() if type(r) is SymInt else float(r)
    return a if type(a) is SymInt else float(math.trunc(a))


def _div(a, b):
    """numpy true division (zero divisors are branched on and give an arbitrary number)."""
    bf = as_symfloat(b)
    if bool(bf == 0):
        af = as_symfloat(a)
        core.ENG.note('numpy division by zero')
        return float('nan') if bool(Or(af.isnan(), af == 0)) else (float('inf') if bool(af > 0) else float('-inf'))
    return as_symfloat(a) / bf


def _pow(a, b):
    if type(b) in (SymInt,) and not issym(a):
        return a ** b
    return (as_symfloat(a) if type(a) is SymFloat else a) ** b


def _sign(a):
    return ite(a > 0, 1, ite(a < 0, -1, 0))


def _fin(a):
    return Not(_isnan(a)) if issym(a) else bool(np.isfinite(a))


ELEM = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': _div, 'true_divide': _div,
    'floor_divide': operator.floordiv, 'remainder': operator.mod, 'mod': operator.mod, 'power': _pow,
    'float_power': _pow, 'negative': operator.neg, 'positive': operator.pos, 'absolute': abs, 'fabs': abs,
    'maximum': fmax, 'minimum': fmin, 'fmax': fmax, 'fmin': fmin, 'equal': operator.eq, 'not_equal': operator.ne,
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
    'logical_and': lambda a, b: And(tb(a), tb(b)), 'logical_or': lambda a, b: Or(tb(a), tb(b)),
    'logical_not': lambda a: Not(tb(a)), 'logical_xor': lambda a, b: core.mkbool(z3.Xor(core.bz(a), core.bz(b))),
    'bitwise_and': _and, 'bitwise_or': _or, 'bitwise_xor': operator.xor, 'invert': _inv,
    'left_shift': _lsh, 'right_shift': _rsh, 'isnan': _isnan, 'isfinite': _fin,
    'isinf': lambda a: False if issym(a) else bool(np.isinf(a)), 'sqrt': core.usqrt, 'exp': core.uexp, 'log': core.ulog,
    'rint': _rint, 'floor': _floor, 'trunc': _trunc, 'ceil': lambda a: -_floor(-a), 'sign': _sign,
    'square': lambda a: a * a,
}


def tb(a):
    if isbool(a):
        return a
    return a != 0


def ufunc_call(uf, *args, out=None, where=True, dtype=None, **kw):
    args = [a.data if isinstance(a, SymMA) else a for a in args]
    args = [array(a) if is_seq(a) else a for a in args]
    if where is not True:
        raise Unsupported('ufunc where=')
    reals = [toreal(a) if isinstance(a, SymArray) else (None if issym(a) else a) for a in args]
    anyarr = any(isinstance(a, np.ndarray) for a in args)
    if all(r is not None for r in reals):
        with np.errstate(all='ignore'):
            r = uf(*reals)
        if isinstance(r, tuple):
            return tuple(lift(x) if isinstance(x, np.ndarray) else x for x in r)
        res = lift(r) if isinstance(r, np.ndarray) else r
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            store(o, res)
            return o
        return res
    name = uf.__name__
    f = ELEM.get(name)
    if f is None:
        raise Unsupported(f'numpy ufunc {name} on symbolic values')
    ldt = to_dtype(dtype) or res_dtype(uf, args)
    if not anyarr:
        plain = [a if issym(a) else pyval(a) for a in args]
        return conv(f(*plain), ldt, rounding=False) if ldt.kind in 'fb' else f(*plain)
    os = []
    for a in args:
        if isinstance(a, np.ndarray):
            os.append(base(lift(a)))
        else:
            o = obj(())
            o[()] = pyval(a)
            os.append(o)
    bs = np.broadcast_arrays(*os)
    shape = bs[0].shape
    fls = [[b.reshape(-1)[i] for i in range(b.size)] for b in bs]
    outv = []
    cast_in = np.result_type(*[lift(a).ldt for a in args if isinstance(a, np.ndarray)]) if name in ('left_shift',) else None
    for vs in zip(*fls):
        if not any(issym(v) for v in vs):
            ts = [lift(a).ldt.type(v) if isinstance(a, np.ndarray) and lift(a).ldt.kind not in 'OUS' else v for a, v in zip(args, vs)]
            with np.errstate(all='ignore'):
                v = pyval(uf(*ts))
        else:
            v = f(*vs)
        outv.append(conv(v, ldt, rounding=False))
    r = from_list(outv, ldt, shape)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        store(o, r)
        return o
    if shape == ():
        return scalar_out(base(r)[()], ldt)
    return r


def store(o, r):
    o[...] = r


class SymArray(np.ndarray):
    ldt = np.dtype(object)

    def __array_finalize__(self, o):
        if o is not None:
            self.ldt = getattr(o, 'ldt', np.dtype(object))

    @property
    def dtype(self):
        return self.ldt

    @property
    def itemsize(self):
        return self.ldt.itemsize

    @property
    def nbytes(self):
        return self.size * self.ldt.itemsize

    def __array_ufunc__(self, uf, method, *args, **kw):
        if method == '__call__':
            return ufunc_call(uf, *args, **kw)
        if method == 'reduce':
            name = uf.__name__
            m = {'add': 'sum', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any', 'logical_and': 'all'}.get(name)
            if m:
                return getattr(lift(args[0]), m)(axis=kw.get('axis', 0))
        reals = [toreal(a) if isinstance(a, SymArray) else a for a in args]
        if any(r is None for r in reals):
            raise Unsupported(f'ufunc method {uf.__name__}.{method}')
        r = getattr(uf, method)(*reals, **kw)
        return lift(r) if isinstance(r, np.ndarray) else r

    def __array_function__(self, func, types, args, kw):
        return call_real(func, args, kw)

    # -- indexing
    def _idx(self, i):
        def one(x):
            if isinstance(x, SymArray):
                r = toreal(x)
                if r is None:
                    v = [bool(e) if isbool(e) else (e.concretize() if type(e) is SymInt else e) for e in flat(x)]
                    r = np.array(v, dtype=x.ldt).reshape(x.shape)
                return r
            if type(x) is SymInt:
                return x.concretize()
            if type(x) is SymBool:
                return bool(x)
            if isinstance(x, slice):
                return slice(*[None if s is None else s.__index__() for s in (x.start, x.stop, x.step)])
            if isinstance(x, list):
                return one(array(x)) if x else np.array([], dtype=int)
            return x
        return tuple(one(x) for x in i) if isinstance(i, tuple) else one(i)

    def __getitem__(self, i):
        i = self._idx(i)
        r = base(self)[i]
        if isinstance(r, np.ndarray) and not (r.ndim == 0 and not _ell(i)):
            return wrapa(r, self.ldt)
        if isinstance(r, np.ndarray):
            r = r[()]
        return scalar_out(r, self.ldt)

    def __setitem__(self, i, v):
        if isinstance(v, SymMA):
            v = v.data
        if isinstance(i, tuple) and any(isinstance(x, SymArray) and x.ldt.kind == 'b' and not allconc(x) for x in i) or \
                isinstance(i, SymArray) and i.ldt.kind == 'b' and not allconc(i):
            if isinstance(i, SymArray) and i.shape == self.shape and not isinstance(v, (np.ndarray, list, tuple)):
                vv = conv(pyval(v), self.ldt)
                b, m = base(self), base(i)
                for k in np.ndindex(*self.shape):
                    b[k] = ite(m[k], vv, b[k])
                return
        i = self._idx(i)
        b = base(self)
        if isinstance(v, (list, tuple, range)):
            v = array(v)
        if isinstance(v, np.ndarray):
            v = lift(v)
            cv = obj(v.shape)
            f, g = cv.reshape(-1), base(v).reshape(-1)
            same = v.ldt == self.ldt
            for k in range(v.size):
                f[k] = g[k] if same else conv(g[k], self.ldt)
            cv = f.reshape(v.shape)
            b[i] = cv if v.ndim else cv[()]
        else:
            vv = conv(pyval(v), self.ldt)
            if isinstance(vv, (SymStr, SymBytes, str, bytes)) or issym(vv):
                z = obj(())
                z[()] = vv
                b[i] = z if isinstance(b[i], np.ndarray) else vv
            else:
                b[i] = vv

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(self.shape[0])])

    def item0(self):
        return base(self)[()]

    sx_scalar = item0

    def item(self, *a):
        if a:
            return pyval(self[a if len(a) > 1 else a[0]])
        return base(self).reshape(-1)[0]

    def __float__(self):
        v = self.item()
        return v.__float__()

    def __int__(self):
        return self.item().__int__()

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        return self.item().__index__()

    def __round__(self, n=None):
        return round(self.item(), n) if n is not None else round(self.item())

    def __contains__(self, x):
        return bool((self == x).any())

    # -- conversions
    def astype(self, dtype, copy=True, **k):
        dt = to_dtype(dtype)
        r = toreal(self)
        if r is not None and self.ldt.kind != 'O' and dt.kind != 'O':
            with np.errstate(all='ignore'):
                return lift(r.astype(dt))
        return from_list([conv(v, dt) for v in flat(self)], dt, self.shape)

    def view(self, dtype=None, type=None):
        if dtype is np.ndarray or dtype is SymArray or type is not None:
            return np.ndarray.view(self, dtype if dtype is not None else type)
        dt = to_dtype(dtype)
        if dt is None or dt == self.ldt:
            return wrapa(base(self), self.ldt)
        r = toreal(self)
        if r is not None:
            return lift(r.view(dt))
        if dt.kind in 'iu' and self.ldt.kind in 'iu' and dt.itemsize == self.ldt.itemsize:
            return from_list([conv(v, dt) for v in flat(self)], dt, self.shape)
        cells = cells_of(self.tobytes())
        return frombuffer(mkbytes(cells), dt).reshape(self.shape[:-1] + (-1,)) if self.ndim else frombuffer(mkbytes(cells), dt)

    def tobytes(self, order='C'):
        out = []
        dt = self.ldt
        order = 'big' if dt.byteorder == '>' else 'little'
        for v in flat(self):
            if dt.kind == 'f':
                out += float_to_cells(v, dt.itemsize, order)
            elif dt.kind in 'iu':
                if issym(v):
                    out += int_to_cells(v, dt.itemsize, order)
                else:
                    out += list(int(v).to_bytes(dt.itemsize, order, signed=v < 0))
            else:
                raise Unsupported('tobytes')
        return mkbytes(out) if any(not isinstance(c, int) or issym(c) for c in out) else bytes(out)

    def byteswap(self, inplace=False):
        r = self.tobytes()
        cs = cells_of(r)
        n = self.ldt.itemsize
        sw = []
        for i in range(0, len(cs), n):
            sw += cs[i:i + n][::-1]
        return frombuffer(mkbytes(sw), self.ldt).reshape(self.shape)

    def tolist(self):
        if self.ndim == 0:
            return self.item0()
        if self.ndim == 1:
            return [v for v in base(self)] if self.size else []
        return [self[i].tolist() for i in range(self.shape[0])]

    def copy(self, order='C'):
        return wrapa(base(self).copy(), self.ldt)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def flatten(self, order='C'):
        return wrapa(base(self).flatten(), self.ldt)

    def ravel(self, order='C'):
        return wrapa(base(self).ravel(order), self.ldt)

    def filled(self, v=None):
        return self

    def fill(self, v):
        self[...] = v

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def nonzero(self):
        return where(self)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = ufunc_call(np.maximum, r, lo)
        if hi is not None:
            r = ufunc_call(np.minimum, r, hi)
        return r

    # -- reductions
    def _reduce(self, f, axis, ldt=None, empty=None, keepdims=False):
        ldt = ldt or self.ldt
        b = base(self)
        if axis is None:
            vals = [v for v in b.reshape(-1)]
            if not vals:
                if empty is None:
                    raise ValueError('zero-size array to reduction operation which has no identity')
                return ldt.type(empty)
            return scalar_out(f(vals), ldt)
        if axis < 0:
            axis += self.ndim
        mv = np.moveaxis(b, axis, -1)
        out = obj(mv.shape[:-1])
        for k in np.ndindex(*mv.shape[:-1]):
            vals = [v for v in mv[k]]
            if not vals and empty is None:
                raise ValueError('zero-size array to reduction operation')
            out[k] = f(vals) if vals else empty
        if keepdims:
            out = np.expand_dims(out, axis)
        if out.ndim == 0:
            return scalar_out(out[()], ldt)
        return wrapa(out, ldt)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        dt = to_dtype(dtype) or np.ones(1, self.ldt).sum().dtype if self.ldt.kind != 'O' else self.ldt

        def f(vals):
            t = vals[0] if not isbool(vals[0]) else conv(vals[0], dt)
            for v in vals[1:]:
                t = t + (conv(v, dt) if isbool(v) else v)
            return conv(t, dt, rounding=False)
        return self._reduce(f, axis, dt, empty=0, keepdims=keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._reduce(lambda v: extremum(v, True), axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._reduce(lambda v: extremum(v, False), axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._reduce(lambda v: Or(*[tb(x) for x in v]), axis, np.dtype(bool), empty=False, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._reduce(lambda v: And(*[tb(x) for x in v]), axis, np.dtype(bool), empty=True, keepdims=keepdims)

    def argmin(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a > b)

    def cumsum(self, axis=None, dtype=None, **k):
        r = toreal(self)
        if r is not None:
            return lift(r.cumsum(axis))
        if axis is None or self.ndim == 1:
            out, t = [], 0
            for v in flat(self):
                t = t + v
                out.append(t)
            dt = np.ones(1, self.ldt).cumsum().dtype
            return from_list([conv(v, dt, False) for v in out], dt)
        raise Unsupported('cumsum axis')

    def sort(self, *a, **k):
        s = sorted(flat(self))
        for i, v in enumerate(s):
            base(self)[i] = v

    def argsort(self, *a, **k):
        v = flat(self)
        import functools
        return lift(np.array(sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: -1 if bool(v[i] < v[j]) else (1 if bool(v[j] < v[i]) else 0))), dtype=np.int64))

    def sx_concrete(self, model):
        vals = [core.concrete_value(v, model) for v in flat(self)]
        if self.ldt.kind == 'O':
            o = obj(len(vals))
            for i, v in enumerate(vals):
                o[i] = v
            return o.reshape(self.shape)
        return np.array(vals, dtype=self.ldt).reshape(self.shape)

    def sx_cells(self):
        return cells_of(self.tobytes())

    def __repr__(self):
        return f'SymArray({self.shape}, {self.ldt})'
    __str__ = __repr__

    def __format__(self, spec):
        from .strx import format_value
        return format_value(self.item(), spec)

    def __reduce__(self):
        raise Unsupported('pickle of symbolic array')


def _ell(i):
    return i is Ellipsis or isinstance(i, tuple) and any(x is Ellipsis for x in i) or isinstance(i, tuple) and i == ()


def _arg(a, axis, lt):
    if axis is not None and a.ndim > 1:
        raise Unsupported('argmin axis')
    v = flat(a)
    b = 0
    for i in range(1, len(v)):
        if bool(lt(v[i], v[b])):
            b = i
    return np.int64(b)


def extremum(vals, mx):
    if len(vals) == 1:
        return vals[0]
    if not any(issym(v) for v in vals):
        return (max if mx else min)(vals)
    plain = [v for v in vals if not issym(v)]
    if len(plain) > 1 and all(v == v for v in plain):
        vals = [v for v in vals if issym(v)] + [(max if mx else min)(plain)]
    if any(type(v) is SymFloat or isinstance(v, float) for v in vals):
        fs = [as_symfloat(v) for v in vals]
        e = core.ENG
        if len(plain) > 8 and not any(f.nan is not False for f in fs):
            t = fs[-1].r        # one of many values that never change may be the extreme whatever the others are
            if e._check(z3.Or(*[f.r > t if mx else f.r < t for f in fs[:-1]])) == z3.unsat:
                return vals[-1]
        key = ('ext', mx) + tuple(f.r.get_id() for f in fs)
        hit = e.cache.get(key)
        nans = [f.nan for f in fs if f.nan is not False]
        if hit is None:
            m = z3.Real(e.fresh_name('max' if mx else 'min'))
            e.add(z3.And(*[(m >= f.r if mx else m <= f.r) for f in fs], z3.Or(*[m == f.r for f in fs])))
            hit = (m, [f.r for f in fs])
            e.cache[key] = hit
        return SymFloat(hit[0], z3.Or(*nans) if nans else False, f32=all(core._isf32(f) for f in fs))
    t = vals[0]
    for v in vals[1:]:
        t = ite(v > t if mx else v < t, v, t)
    return t


# ---------------------------------------------------------------------------
# module-level functions
# ---------------------------------------------------------------------------
def real_args(x):
    if isinstance(x, SymArray):
        r = toreal(x)
        if r is None:
            raise Unsupported('numpy function on symbolic array')
        return r
    if isinstance(x, SymMA):
        return np.ma.array(real_args(x.data), mask=real_args(x.mask))
    if issym(x):
        raise Unsupported('numpy function on symbolic value')
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(real_args(v) for v in x)
    if isinstance(x, type) and hasattr(x, 'sx_dtype'):
        return np.dtype(x.sx_dtype).type if x.sx_dtype != bool else bool
    return x


def call_real(f, args, kw):
    try:
        r = f(*real_args(tuple(args)), **{k: real_args(v) for k, v in kw.items()})
    except Unsupported as e:
        raise Unsupported(f'numpy.{getattr(f, "__name__", f)}: {e}') from None
    return relift(r)


def relift(r):
    if isinstance(r, np.ma.MaskedArray):
        return SymMA(lift(np.asarray(r.data)), lift(np.ma.getmaskarray(r)))
    if isinstance(r, np.ndarray):
        return lift(r)
    if type(r) in (list, tuple):
        return type(r)(relift(v) for v in r)
    return r


def zeros(shape, dtype=float, **k):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, **k):
    return full(shape, 1, dtype)


def full(shape, v, dtype=None, **k):
    dt = to_dtype(dtype) or scalar_dtype(v)
    if isinstance(shape, (tuple, list)):
        shape = tuple(s.__index__() for s in shape)
    else:
        shape = (shape.__index__(),)
    a = obj(shape)
    f = a.reshape(-1)
    c = conv(pyval(v), dt)
    for i in range(f.size):
        f[i] = c
    return wrapa(f.reshape(shape), dt)


def like(fn):
    def g(a, dtype=None, **k):
        a = asarray(a)
        return fn(a.shape, dtype=dtype or a.ldt)
    return g


def arange(*a, dtype=None, **k):
    a = [x.concretize() if type(x) is SymInt else x for x in a]
    return lift(np.arange(*a, dtype=to_dtype(dtype)))


def where(c, a=None, b=None):
    if a is None and b is None:
        c = asarray(c)
        cb = np.array([bool(tb(v)) for v in flat(c)], dtype=bool).reshape(c.shape)
        return tuple(lift(x) for x in np.where(cb))
    args = [x.data if isinstance(x, SymMA) else x for x in (c, a, b)]
    ldt = np.where(np.array([True]), dummy(args[1] if not is_seq(args[1]) else array(args[1])), dummy(args[2] if not is_seq(args[2]) else array(args[2]))).dtype
    os = []
    for x in args:
        if isinstance(x, np.ndarray) or is_seq(x):
            os.append(base(asarray(x)))
        else:
            o = obj(())
            o[()] = pyval(x)
            os.append(o)
    bs = np.broadcast_arrays(*os)
    out = []
    for k in range(bs[0].size):
        cc, x, y = (q.reshape(-1)[k] for q in bs)
        cc = tb(cc)
        if type(cc) is SymBool:
            out.append(ite(cc, conv(x, ldt), conv(y, ldt)))
        else:
            out.append(conv(x if cc else y, ldt))
    r = from_list(out, ldt, bs[0].shape)
    return r


def np_round(a, decimals=0, out=None):
    if isinstance(a, np.ndarray) or is_seq(a):
        a = asarray(a)
        r = toreal(a)
        if r is not None:
            return lift(np.round(r, decimals))
        if decimals == 0:
            return ufunc_call(np.rint, a)
        return from_list([round(v, decimals) if issym(v) else float(np.round(v, decimals)) for v in flat(a)], a.ldt, a.shape)
    if type(a) is SymFloat:
        return _rint(a) if decimals == 0 else round(a, decimals)
    if type(a) is SymInt:
        return a
    return np.round(a, decimals)


def linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    num = num.__index__()
    dt = to_dtype(dtype) or np.dtype(float)
    if not issym(a) and not issym(b):
        return lift(np.linspace(a, b, num, endpoint=endpoint, dtype=dt))
    div = num - 1 if endpoint else num
    out = []
    for i in range(num):
        if i == 0 or div == 0:
            v = a
        elif i == num - 1 and endpoint:
            v = b
        else:
            v = a + (b - a) * (i / div)
        out.append(conv(v, dt))
    return from_list(out, dt)


def meshgrid(x, y, copy=True, indexing='xy', **k):
    x, y = asarray(x), asarray(y)
    xx, yy = np.meshgrid(base(x), base(y), indexing=indexing)
    return [wrapa(xx, x.ldt), wrapa(yy, y.ldt)]


def concatenate(arrs, axis=0, **k):
    arrs = [asarray(a) for a in arrs]
    d = np.result_type(*[a.ldt for a in arrs])
    r = np.concatenate([base(a.astype(d)) for a in arrs], axis=axis)
    return wrapa(r, d)


def stack(arrs, axis=0, **k):
    arrs = [asarray(a) for a in arrs]
    d = np.result_type(*[a.ldt for a in arrs])
    return wrapa(np.stack([base(a.astype(d)) for a in arrs], axis=axis), d)


def vstack(arrs):
    return concatenate([atleast_2d(a) for a in arrs], 0)


def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def atleast_1d(a):
    a = asarray(a)
    return a if a.ndim else a.reshape(1)


def atleast_2d(a):
    a = asarray(a)
    return a if a.ndim >= 2 else a.reshape(1, -1)


def structural(f):
    def g(a, *r, **k):
        a = asarray(a)
        out = f(base(a), *[real_args(x) for x in r], **{q: real_args(v) for q, v in k.items()})
        if isinstance(out, (list, tuple)):
            return [wrapa(x, a.ldt) for x in out]
        return wrapa(out, a.ldt) if isinstance(out, np.ndarray) else out
    return g


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    if prepend is not None:
        a = concatenate([atleast_1d(prepend), a])
    if append is not None:
        a = concatenate([a, atleast_1d(append)])
    r = toreal(a)
    if r is not None:
        return lift(np.diff(r, n, axis))
    return a[1:] - a[:-1]


def frombuffer(buf, dtype=float, count=-1, offset=0):
    dt = to_dtype(dtype)
    n = dt.itemsize
    count = count.__index__()
    if type(buf) is CutBytes and count >= 0:
        buf = buf[offset.__index__():offset.__index__() + n * count]
        if type(buf) is CutBytes:
            raise ValueError('buffer is smaller than requested size')
        offset = 0
    cells = cells_of(buf)[offset.__index__():]
    if count < 0:
        if len(cells) % n:
            raise ValueError('buffer size must be a multiple of element size')
        count = len(cells) // n
    if len(cells) < count * n:
        raise ValueError('buffer is smaller than requested size')
    order = 'big' if dt.byteorder == '>' else 'little'
    out = []
    for i in range(count):
        cc = cells[i * n:(i + 1) * n]
        if dt.kind == 'f':
            out.append(cells_to_float(cc, order))
        elif dt.kind in 'iu':
            out.append(cells_to_int(cc, order, dt.kind == 'i'))
        elif dt.kind == 'S':
            out.append(mkbytes(cc))
        else:
            raise Unsupported('frombuffer dtype')
    return from_list(out, dt)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = asarray(a), asarray(b)
        aa, bb = np.broadcast_arrays(base(a), base(b))
        return from_list([isclose(x, y, rtol, atol) for x, y in zip(aa.reshape(-1), bb.reshape(-1))], np.dtype(bool), aa.shape)
    if not issym(a) and not issym(b):
        return bool(np.isclose(a, b, rtol, atol))
    return And(abs(a - b) <= atol + rtol * abs(b), Not(Or(_isnan(a), _isnan(b))))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = [asarray(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
    r = isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, np.ndarray) else r


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return (a == b).all() if a.size else True


def isscalar(x):
    return type(x) in SYM or np.isscalar(x)


def red(name):
    def g(a, axis=None, **k):
        return getattr(asarray(a), name)(axis=axis, **k)
    return g


def nanred(mx):
    def g(a, axis=None, **k):
        a = asarray(a)
        r = toreal(a)
        if r is not None:
            return relift((np.nanmax if mx else np.nanmin)(r, axis=axis))
        vals = [v for v in flat(a) if not bool(_isnan(v))]
        return extremum(vals, mx)
    return g


def clip(a, lo, hi, **k):
    if isinstance(a, np.ndarray):
        return a.clip(lo, hi)
    if isinstance(a, (list, tuple)):
        return asarray(a).clip(lo, hi)
    return fmin(fmax(a, lo), hi)


def interp(x, xp, fp, **k):
    return call_real(np.interp, (x, xp, fp), k)


class DTM(type):
    def __instancecheck__(cls, o):
        if cls.real in (np.bool_,):
            return isinstance(o, np.bool_)
        return isinstance(o, cls.real)

    def __call__(cls, v=0):
        if isinstance(v, np.ndarray) or is_seq(v):
            return asarray(v).astype(cls.sx_dtype)
        if issym(v):
            return conv(v, np.dtype(cls.sx_dtype))
        return cls.real(v)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


def dtclass(name):
    real = getattr(np, name)
    return DTM(name, (), {'real': real, 'sx_dtype': np.dtype(real)})


class UF:
    """A numpy ufunc applied through the symbolic layer."""

    def __init__(self, uf):
        self.uf, self.__name__ = uf, uf.__name__

    def __call__(self, *a, **k):
        if len(a) > self.uf.nin:
            k['out'] = a[self.uf.nin]
            a = a[:self.uf.nin]
        return ufunc_call(self.uf, *a, **k)

    def reduce(self, a, axis=0, **k):
        return asarray(a).__array_ufunc__(self.uf, 'reduce', asarray(a), axis=axis)

    def __getattr__(self, n):
        m = getattr(self.uf, n)
        if callable(m):
            return lambda *a, **k: call_real(m, a, k)
        return m


class SymMA:
    """Masked array."""
    __class__ = property(lambda self: np.ma.MaskedArray)

    def __init__(self, data, mask, fill_value=None):
        self.data, self._mask = data, mask
        self.fill_value = fill_value

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        self._mask = asarray(m) if not isinstance(m, bool) else full(self.data.shape, m, bool)

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.ldt)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, SymMA):
            i = i.filled(False)
        d, m = self.data[i], self.mask[i]
        if isinstance(d, np.ndarray):
            return SymMA(d, m, self.fill_value)
        return np.ma.masked if bool(m) else d

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def reshape(self, *s):
        return SymMA(self.data.reshape(*s), self.mask.reshape(*s))

    def filled(self, v=None):
        if v is None:
            v = self.fill_value if self.fill_value is not None else 1e20
        return where(self.mask, v, self.data)

    def astype(self, d):
        return SymMA(self.data.astype(d), self.mask)

    def copy(self):
        return SymMA(self.data.copy(), self.mask.copy())

    def ravel(self):
        return SymMA(self.data.ravel(), self.mask.ravel())
    flatten = ravel

    def transpose(self, *a):
        return SymMA(self.data.transpose(*a), self.mask.transpose(*a), self.fill_value)
    T = property(transpose)

    def set_fill_value(self, v):
        self.fill_value = v

    def __setitem__(self, i, v):
        if v is np.ma.masked:
            self.mask[i] = True
        elif isinstance(v, SymMA):
            self.data[i] = v.data
            self.mask[i] = v.mask
        else:
            self.data[i] = v
            self.mask[i] = False

    def _all(self, axis, name):
        if axis is not None:
            raise Unsupported(f'masked {name} along an axis')
        v = flat(self.compressed())
        return v if v else None

    def sum(self, axis=None, **k):
        v = self._all(axis, 'sum')
        return np.ma.masked if v is None else sum(v[1:], v[0])

    def mean(self, axis=None, **k):
        v = self._all(axis, 'mean')
        return np.ma.masked if v is None else sum(v[1:], v[0]) / len(v)

    def min(self, axis=None, **k):
        v = self._all(axis, 'min')
        return np.ma.masked if v is None else functools.reduce(lambda a, b: ite(b < a, b, a), v)

    def max(self, axis=None, **k):
        v = self._all(axis, 'max')
        return np.ma.masked if v is None else functools.reduce(lambda a, b: ite(b > a, b, a), v)

    def any(self, axis=None, **k):
        v = self._all(axis, 'any')
        return np.ma.masked if v is None else Or(*[x != 0 if type(x) is not SymBool and type(x) is not bool else x for x in v])

    def all(self, axis=None, **k):
        v = self._all(axis, 'all')
        return np.ma.masked if v is None else And(*[x != 0 if type(x) is not SymBool and type(x) is not bool else x for x in v])

    def _op(self, o, f):
        if isinstance(o, SymMA):
            return SymMA(f(self.data, o.data), self.mask | o.mask, self.fill_value)
        if type(o) is np.ma.MaskedArray:
            return self._op(ma_array(o), f)
        d = f(self.data, o)
        return SymMA(d, self.mask if d.shape == self.mask.shape else self.mask | full(d.shape, False, bool), self.fill_value)

    def __neg__(self):
        return SymMA(-self.data, self.mask, self.fill_value)

    def __abs__(self):
        return SymMA(abs(self.data), self.mask, self.fill_value)

    def __invert__(self):
        return SymMA(~self.data, self.mask, self.fill_value)

    __hash__ = None

    def count(self, axis=None):
        if axis is not None:
            raise Unsupported('count along an axis')
        return (~self.mask).sum()

    def compressed(self):
        return self.data.ravel()[~self.mask.ravel()]

    def tolist(self):
        return [None if bool(m) else v for v, m in zip(flat(self.data), flat(self.mask))]


def _ma_ops():
    for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift'):
        f = getattr(operator, n + '_' if n in ('and', 'or') else n)
        setattr(SymMA, f'__{n}__', lambda s, o, f=f: s._op(o, f))
        setattr(SymMA, f'__r{n}__', lambda s, o, f=f: s._op(o, lambda a, b: f(b, a)))
    for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(SymMA, f'__{n}__', lambda s, o, f=getattr(operator, n): s._op(o, f))


_ma_ops()


def ma_array(data, mask=False, dtype=None, copy=False, fill_value=None, **k):
    d = asarray(data, dtype) if dtype is not None else asarray(data)
    if isinstance(data, SymMA) and mask is False:
        mask = data.mask
    elif type(data) is np.ma.MaskedArray and mask is False:
        mask = np.ma.getmaskarray(data)
    if copy:
        d = d.copy()
    if mask is False or mask is None:
        m = full(d.shape, False, bool)
    elif mask is True:
        m = full(d.shape, True, bool)
    else:
        m = asarray(mask)
        if m.ndim == 0 and d.shape != ():
            m = full(d.shape, m.item(), bool)
        elif m.shape != d.shape:
            if m.size == d.size:
                m = m.reshape(d.shape)
            elif m.size == 1:
                m = full(d.shape, flat(m)[0], bool)
            else:
                raise np.ma.MaskError('Mask and data not compatible')
    return SymMA(d, m, fill_value)


class ma_mod:
    array = masked_array = staticmethod(ma_array)
    MaskedArray = np.ma.MaskedArray
    masked = np.ma.masked
    nomask = np.ma.nomask

    @staticmethod
    def masked_where(c, a, copy=True):
        if isinstance(a, (SymMA, np.ma.MaskedArray)):
            a = ma_array(a)
            return SymMA(a.data.copy(), a.mask | asarray(c.filled(False) if isinstance(c, SymMA) else c), a.fill_value)
        return ma_array(a, mask=c.filled(False) if isinstance(c, SymMA) else c)

    masked_greater = staticmethod(lambda a, v, copy=True: ma_mod.masked_where(ma_mod.getdata(a) > v, a))
    masked_greater_equal = staticmethod(lambda a, v, copy=True: ma_mod.masked_where(ma_mod.getdata(a) >= v, a))
    masked_less = staticmethod(lambda a, v, copy=True: ma_mod.masked_where(ma_mod.getdata(a) < v, a))
    masked_less_equal = staticmethod(lambda a, v, copy=True: ma_mod.masked_where(ma_mod.getdata(a) <= v, a))
    masked_not_equal = staticmethod(lambda a, v, copy=True: ma_mod.masked_where(ma_mod.getdata(a) != v, a))
    masked_outside = staticmethod(lambda a, lo, hi, copy=True: ma_mod.masked_where((ma_mod.getdata(a) < lo) | (ma_mod.getdata(a) > hi), a))
    masked_inside = staticmethod(lambda a, lo, hi, copy=True: ma_mod.masked_where((ma_mod.getdata(a) >= lo) & (ma_mod.getdata(a) <= hi), a))
    fix_invalid = staticmethod(lambda a, **k: ma_mod.masked_invalid(a))
    isMaskedArray = isMA = isarray = staticmethod(lambda a: isinstance(a, (SymMA, np.ma.MaskedArray)))
    getdata = staticmethod(lambda a, **k: a.data if isinstance(a, SymMA) else asarray(a))
    getmask = staticmethod(lambda a: ma_mod.getmaskarray(a) if isinstance(a, (SymMA, np.ma.MaskedArray)) else np.ma.nomask)
    zeros = staticmethod(lambda s, dtype=float, **k: ma_array(zeros(s, dtype)))
    empty = zeros
    ones = staticmethod(lambda s, dtype=float, **k: ma_array(ones(s, dtype)))
    count = staticmethod(lambda a, axis=None, **k: ma_array(a).count(axis))
    count_masked = staticmethod(lambda a, axis=None: ma_mod.getmaskarray(a).sum())
    concatenate = staticmethod(lambda xs, axis=0: SymMA(concatenate([ma_array(x).data for x in xs], axis), concatenate([ma_array(x).mask for x in xs], axis)))
    stack = staticmethod(lambda xs, axis=0: SymMA(stack([ma_array(x).data for x in xs], axis), stack([ma_array(x).mask for x in xs], axis)))
    vstack = staticmethod(lambda xs: SymMA(vstack([ma_array(x).data for x in xs]), vstack([ma_array(x).mask for x in xs])))
    hstack = staticmethod(lambda xs: SymMA(hstack([ma_array(x).data for x in xs]), hstack([ma_array(x).mask for x in xs])))

    @staticmethod
    def where(c, a, b):
        c, a, b = ma_array(c), ma_array(a), ma_array(b)
        return SymMA(where(c.data, a.data, b.data), where(c.data, a.mask, b.mask) | c.mask)

    @staticmethod
    def masked_equal(a, v, copy=True):
        m = ma_mod.masked_where(ma_mod.getdata(a) == v, a)
        m.fill_value = v
        return m

    @staticmethod
    def masked_values(a, v, rtol=1e-5, atol=1e-8, **k):
        return ma_mod.masked_where(isclose(ma_mod.getdata(a), v, rtol, atol), a)

    @staticmethod
    def masked_invalid(a, copy=True):
        return ma_array(a, mask=ufunc_call(np.isnan, asarray(a)))

    @staticmethod
    def getmaskarray(a):
        return a.mask if isinstance(a, SymMA) else full(asarray(a).shape, False, bool)

    @staticmethod
    def is_masked(a):
        return a is np.ma.masked or isinstance(a, SymMA) and bool(a.mask.any())

    @staticmethod
    def filled(a, v=None):
        return a.filled(v) if isinstance(a, SymMA) else a


class _NP:
    """Facade module."""
    ndarray = np.ndarray
    newaxis = None
    nan, inf, pi, e = np.nan, np.inf, np.pi, np.e
    ma = ma_mod
    dtype = staticmethod(to_dtype)
    array, asarray, asanyarray, ascontiguousarray = map(staticmethod, (array, asarray, asarray, asarray))
    zeros, ones, full, empty = map(staticmethod, (zeros, ones, full, zeros))
    zeros_like, ones_like, empty_like = map(staticmethod, (like(zeros), like(ones), like(zeros)))
    arange, where, linspace, meshgrid = map(staticmethod, (arange, where, linspace, meshgrid))
    around = round = round_ = staticmethod(np_round)
    concatenate, stack, vstack, hstack = map(staticmethod, (concatenate, stack, vstack, hstack))
    atleast_1d, atleast_2d = staticmethod(atleast_1d), staticmethod(atleast_2d)
    roll, repeat, array_split, split, reshape, ravel, transpose, flip, tile, expand_dims, squeeze, take, broadcast_to, flipud, fliplr, moveaxis, swapaxes, delete = \
        [staticmethod(structural(getattr(np, n))) for n in
         ('roll', 'repeat', 'array_split', 'split', 'reshape', 'ravel', 'transpose', 'flip', 'tile', 'expand_dims', 'squeeze', 'take', 'broadcast_to', 'flipud', 'fliplr', 'moveaxis', 'swapaxes', 'delete')]
    diff, frombuffer, isclose, allclose, array_equal, isscalar, clip = map(staticmethod, (diff, frombuffer, isclose, allclose, array_equal, isscalar, clip))
    sum, max, min, amax, amin, any, all, mean, cumsum, argmin, argmax = \
        [staticmethod(red(n)) for n in ('sum', 'max', 'min', 'max', 'min', 'any', 'all', 'mean', 'cumsum', 'argmin', 'argmax')]
    nanmax, nanmin = staticmethod(nanred(True)), staticmethod(nanred(False))

    @staticmethod
    def full_like(a, v, dtype=None, **k):
        a = asarray(a)
        return full(a.shape, v, dtype or a.ldt)

    @staticmethod
    def copy(a, **k):
        return asarray(a).copy()

    @staticmethod
    def count_nonzero(a, **k):
        return asarray(a).astype(bool).sum()

    @staticmethod
    def flatnonzero(a):
        return where(asarray(a).ravel())[0]

    @staticmethod
    def nonzero(a):
        return where(a)

    @staticmethod
    def append(a, v, axis=None):
        return concatenate([atleast_1d(a), atleast_1d(v)], axis or 0)

    @staticmethod
    def insert(a, i, v, axis=None):
        a = asarray(a)
        i = i.__index__()
        return concatenate([a[:i], atleast_1d(v), a[i:]])

    @staticmethod
    def sort(a, **k):
        a = asarray(a).copy()
        a.sort()
        return a

    @staticmethod
    def argsort(a, **k):
        return asarray(a).argsort()

    @staticmethod
    def isin(a, b, **k):
        a, bs = asarray(a), flat(asarray(list(b) if isinstance(b, (set, tuple)) else b))
        return from_list([Or(*[x == y for y in bs]) for x in flat(a)], np.dtype(bool), a.shape)

    @staticmethod
    def unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
        if k or return_index or return_inverse or return_counts:
            raise TypeError('unique')
        a = _NP.sort(asarray(a).ravel())
        v = flat(a)
        keep = [x for i, x in enumerate(v) if i == 0 or bool(x != v[i - 1])]
        return from_list(keep, a.ldt, (len(keep),))

    @staticmethod
    def searchsorted(a, v, side='left', sorter=None):
        if sorter is not None or isinstance(v, (list, tuple, np.ndarray)) and asarray(v).ndim:
            raise TypeError('searchsorted')
        n = 0
        for x in flat(asarray(a)):
            n = n + core.ite(x < v if side == 'left' else x <= v, 1, 0)
        return n

    @staticmethod
    def column_stack(arrs):
        arrs = [asarray(x) for x in arrs]
        return concatenate([x.reshape(-1, 1) if x.ndim < 2 else x for x in arrs], 1)

    @staticmethod
    def select(conds, choices, default=0):
        out = default
        for c, x in reversed(list(zip(conds, choices))):
            out = where(c, x, out)
        return out

    @staticmethod
    def argwhere(a):
        return _NP.column_stack(where(a))

    @staticmethod
    def ediff1d(a, **k):
        if k:
            raise TypeError('ediff1d')
        return diff(asarray(a).ravel())

    @staticmethod
    def ptp(a, axis=None):
        if axis is not None:
            raise TypeError('ptp')
        a = asarray(a)
        return a.max() - a.min()

    @staticmethod
    def pad(a, n, mode='constant', constant_values=0, **k):
        a = asarray(a)
        if mode != 'constant' or k or a.ndim != 1:
            raise TypeError('pad')
        lo, hi = (n, n) if not isinstance(n, (list, tuple)) else n[0] if isinstance(n[0], (list, tuple)) else n if len(n) == 2 else (n[0], n[0])
        return concatenate([full((lo,), constant_values, a.ldt), a, full((hi,), constant_values, a.ldt)])

    @staticmethod
    def dot(a, b):
        a, b = asarray(a), asarray(b)
        if a.ndim != 1 or b.ndim != 1:
            raise TypeError('dot')
        return (a * b).sum()

    @staticmethod
    def nansum(a, axis=None, **k):
        if axis is not None or k:
            raise TypeError('nansum')
        v = flat(asarray(a))
        return sum(ite(_isnan(x), 0, x) for x in v)

    @staticmethod
    def prod(a, axis=None, **k):
        if axis is not None or k:
            raise TypeError('prod')
        return functools.reduce(operator.mul, flat(asarray(a)), 1)

    @staticmethod
    def average(a, axis=None, weights=None):
        if weights is not None:
            raise TypeError('average')
        return asarray(a).mean(axis=axis)

    @staticmethod
    def divmod(a, b):
        return (a // b, a % b)

    @staticmethod
    def fromiter(it, dtype=float, count=-1, **k):
        return asarray(list(it), dtype)

    @staticmethod
    def broadcast_arrays(*a):
        a = [asarray(x) for x in a]
        return [wrapa(b, x.ldt) for b, x in zip(np.broadcast_arrays(*[base(x) for x in a]), a)]

    @staticmethod
    def shape(a):
        return asarray(a).shape

    @staticmethod
    def ndim(a):
        return asarray(a).ndim

    @staticmethod
    def size(a, axis=None):
        return asarray(a).size

    @staticmethod
    def errstate(**k):
        return np.errstate(**k)

    @staticmethod
    def nan_to_num(a, nan=0.0, **k):
        a = asarray(a)
        return where(ufunc_call(np.isnan, a), nan, a)

    def __getattr__(self, n):
        r = getattr(np, n)
        if isinstance(r, np.ufunc):
            v = UF(r)
        elif isinstance(r, type) and issubclass(r, np.generic) and r not in (np.generic,):
            try:
                np.dtype(r)
                conc = not r.__name__ in ('floating', 'integer', 'number', 'inexact', 'signedinteger', 'unsignedinteger')
            except TypeError:
                conc = False
            v = dtclass(n) if conc and np.dtype(r).kind in 'iufb' else r
        elif callable(r) and not isinstance(r, type):
            v = lambda *a, **k: call_real(r, a, k)
        else:
            v = r
        setattr(type(self), n, staticmethod(v) if callable(v) and not isinstance(v, (type, UF)) else v)
        return v


def _guarded(name, own):
    """Own implementation; calls it does not know are left to numpy itself when nothing symbolic is involved."""
    real = getattr(np, name, None)
    if real is None:
        return own

    @functools.wraps(own)
    def g(*a, **k):
        try:
            return own(*a, **k)
        except (TypeError, AttributeError) as x:
            try:
                return call_real(real, a, k)
            except Unsupported:
                raise Unsupported(f'numpy.{name}: {x}') from None
    return g


for _n, _f in list(vars(_NP).items()):
    if isinstance(_f, staticmethod) and callable(_f.__func__) and not isinstance(_f.__func__, (type, UF)) and _n != 'dtype':
        setattr(_NP, _n, staticmethod(_guarded(_n, _f.__func__)))

np_mod = _NP()


def _scalar_ufunc(self, uf, method, *args, **kw):
    """Symbolic scalars meeting plain arrays."""
    return SymArray.__array_ufunc__(self, uf, method, *[lift(a) if isinstance(a, np.ndarray) and not isinstance(a, SymArray) else a
                                                        for a in args], **kw)


for _c in (SymInt, SymFloat, SymBool):
    _c.__array_ufunc__ = _scalar_ufunc
