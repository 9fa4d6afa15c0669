"""Symbolic execution core: engine (forking, obligations) and symbolic scalars.

The engine re-executes a harness once per path.  Branching on a symbolic boolean
consults z3 for the feasible outcomes; the untaken ones are queued as decision
prefixes.  Symbolic integers are kept as linear combinations of atoms with known
intervals (exact), with a bit-vector view for bitwise operations.
"""
import os
import builtins
import math
import sys
import time
from fractions import Fraction

import z3

_int, _float, _str, _bool = builtins.int, builtins.float, builtins.str, builtins.bool


class PathAbort(BaseException):
    """Base of exceptions that steer path exploration (never caught by code under test)."""


class Infeasible(PathAbort):
    """The path turned out infeasible."""


class Unsupported(PathAbort):
    """An operation the engine does not model was met."""


class StopPath(PathAbort):
    """The harness has seen all it needs of this path."""


class Budget(PathAbort):
    """Time or path budget exhausted."""


class Violation(PathAbort):
    """A confirmed violation; ends the scenario."""


ENG = None


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


def fl2q(x):
    """Exact z3 rational of a Python number."""
    if isinstance(x, _float) and not math.isfinite(x):
        raise Unsupported(f'non-finite constant {x}')
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


# set while symbolic keys are stored: equality has been decided by comparison already
HASH_BY_ID = [False]


SLOW = float(os.environ.get('SX_SLOW') or 0)


class Engine:
    def __init__(self, name='', query_timeout=8000, ob_timeout=60000, time_budget=600.0,
                 max_paths=100000, seed=1, log=None):
        self.name = name
        self.seed = seed
        self.sites = {} if os.environ.get('SX_FORKS') else None
        self.solver = z3.Solver()
        self.solver.set('random_seed', seed)
        self.solver.set('timeout', query_timeout)
        self.query_timeout = query_timeout
        self.ob_timeout = ob_timeout
        self.t0 = time.time()
        self.deadline = self.t0 + time_budget
        self.max_paths = max_paths
        self.work = [[]]
        self.stats = dict(paths=0, infeasible=0, unsupported=0, stopped=0, branch_queries=0,
                          forks=0, obligations=0, discharged=0, trivially_true=0,
                          inconclusive=0, unknown_branches=0, concretised=0, exceptions=0,
                          solver_s=0.0, nonreproduced=0, validated=0, validation_mismatch=0,
                          reach=0)
        self.notes = {}
        self.guesses = {}
        self.reset_path([])

    # ---- per path state -------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.counter = 0
        self.inputs = {}      # name -> (kind, symbolic value)
        self.cache = {}
        self.model = None
        self.duals = {}
        self.links = []       # exact meaning of the integers standing for bit-vectors, used only when needed
        self.bitints = []
        self.f32apps = []
        self.unapps = {}
        self.pc = []
        self.incomplete = False
        self.depth_limit_notes = 0

    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    # ---- solver ---------------------------------------------------------
    def _check(self, *assumptions, timeout=None):
        if time.time() > self.deadline:
            raise Budget()
        t = time.time()
        if timeout:
            self.solver.set('timeout', timeout)
        try:
            r = self.solver.check(*assumptions)
            if self.links and r != z3.unsat:
                if not timeout:
                    self.solver.set('timeout', 1500)
                r = self.solver.check(*assumptions, *self.links)
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            if timeout or self.links:
                self.solver.set('timeout', self.query_timeout)
        self.stats['solver_s'] += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            print(f'SLOW {time.time() - t:.1f}s {r}', str(assumptions)[:150].replace(chr(10), ' '), ' < '.join(
                f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_stack()[-2:-9:-1]), file=sys.stderr)
        return r

    def add(self, c):
        """Add a definitional (total) constraint or assumption without checking it."""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.solver.add(c)
        self.pc.append(c)
        if self.model is not None:
            self.model_dirty = True
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, cond):
        """Assume a (possibly symbolic) condition; the path ends if it is impossible."""
        if isinstance(cond, SymBool):
            self.add(cond.e)
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.sat:
                    self.model = self.solver.model()
        elif not cond:
            raise Infeasible()

    def bit_lemmas(self, e):
        """An integer standing for a bit-vector equals a number exactly when the bit-vector does."""
        known = {k.get_id(): (b, k) for b, k in self.bitints}
        st = [e]
        while st:
            x = st.pop()
            if ('seen', x.get_id()) in self.cache:
                continue
            self.cache['seen', x.get_id()] = x
            if z3.is_eq(x):
                a, c = x.children()
                if z3.is_int_value(a):
                    a, c = c, a
                if z3.is_int_value(c) and a.get_id() in known:
                    b = known[a.get_id()][0]
                    n = c.as_long()
                    fits = -(1 << (b.size() - 1)) <= n < 1 << (b.size() - 1)
                    self.add(x == (b == n if fits else z3.BoolVal(False)))
                    continue
            st.extend(x.children())

    def _model_says(self, e):
        if self.model is None:
            return None
        try:
            v = self.model.eval(e, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def fork(self, e):
        """Decide a symbolic boolean, forking if both outcomes are feasible."""
        e = z3.simplify(e)
        if self.bitints:
            self.bit_lemmas(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = ('fork', e.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d in (True, False):
                self.add(e if d else z3.Not(e))
                self.cache[key] = (d, e)
                return d
            # forced decision recorded as ('f', value)
            self.cache[key] = (d[1], e)
            return d[1]
        says = self._model_says(e)
        self.stats['branch_queries'] += 1
        if says is True:
            ct = z3.sat
            cf = self._check(z3.Not(e))
        elif says is False:
            cf = z3.sat
            ct = self._check(e)
            if ct == z3.sat:
                m2 = self.solver.model()
        else:
            ct = self._check(e)
            if ct == z3.sat:
                self.model = self.solver.model()
            self.stats['branch_queries'] += 1
            cf = self._check(z3.Not(e))
        if ct == z3.unknown or cf == z3.unknown:
            self.stats['unknown_branches'] += 1
            self.incomplete = True
        t_ok, f_ok = ct != z3.unsat, cf != z3.unsat
        self.pos += 1
        if t_ok and f_ok:
            self.stats['forks'] += 1
            if self.sites is not None:
                self.site()
            self.work.append(self.decisions + [False])
            self.decisions.append(True)
            if says is False:
                self.model = m2 if ct == z3.sat else None
            self.add(e)
            self.cache[key] = (True, e)
            return True
        if not t_ok and not f_ok:
            raise Infeasible()
        val = bool(t_ok)
        self.decisions.append(('f', val))
        self.cache[key] = (val, e)
        return val

    def site(self):
        import sys
        f = sys._getframe(2)
        out = []
        while f is not None and len(out) < (9 if os.environ["SX_FORKS"] == "2" else 3):
            fn = f.f_code.co_filename
            if os.environ["SX_FORKS"] == "2" or "/sx/" not in fn or not out:
                out.append(f'{os.path.basename(fn)}:{f.f_lineno}:{f.f_code.co_name}')
            f = f.f_back
        k = ' < '.join(out)
        self.sites[k] = self.sites.get(k, 0) + 1

    def choose(self, n, label=''):
        """Nondeterministic choice 0..n-1 (explored exhaustively)."""
        v = SymInt.var(self.fresh_name('choice_' + label), 0, n - 1)
        return v.concretize()

    # ---- obligations ----------------------------------------------------
    def obligation(self, cond, label):
        """Return None if proved on this path, or a model of the negation."""
        self.stats['obligations'] += 1
        if isinstance(cond, SymBool):
            e = cond.e
        elif hasattr(cond, 'dtype') or isinstance(cond, (_bool, _int)) or cond is None:
            e = z3.BoolVal(_bool(cond))
        else:
            e = z3.BoolVal(_bool(cond))
        e = z3.simplify(e)
        if z3.is_true(e):
            self.stats['trivially_true'] += 1
            self.stats['discharged'] += 1
            return None
        if self.bitints:
            self.bit_lemmas(e)
        self.solver.push()
        try:
            self.solver.add(z3.Not(e))
            if os.environ.get('SX_DUMP'):
                open(os.environ['SX_DUMP'], 'w').write(self.solver.to_smt2())
            r = self._check(timeout=self.ob_timeout)
            if r == z3.unknown:
                s2 = z3.SolverFor('QF_AUFLIRA') if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
                s2.set('timeout', self.ob_timeout)
                s2.add(self.solver.assertions())
                s2.add(self.links)
                t = time.time()
                r = s2.check()
                self.stats['solver_s'] += time.time() - t
                if r == z3.sat:
                    return s2.model()
            if r == z3.unsat:
                self.stats['discharged'] += 1
                return None
            if r == z3.sat:
                return self.nice_model()
            self.stats['inconclusive'] += 1
            self.note(f'inconclusive obligation: {label}')
            return None
        finally:
            self.solver.pop()

    def nice_model(self, dens=(4, 256, 65536), limit=3000):
        """Current model, preferring small dyadic values for real inputs."""
        m = self.solver.model()
        reals = [v.r for k, v in self.inputs.values() if isinstance(v, SymFloat)
                 and not v.grid and not z3.is_rational_value(v.r)]
        if reals:
            for den in dens:
                self.solver.push()
                try:
                    for i, r in enumerate(reals):
                        self.solver.add(r * den == z3.ToReal(z3.Int(f'nice!{i}')))
                    if self._check(timeout=limit) == z3.sat:
                        return self.solver.model()
                except PathAbort:
                    return m
                finally:
                    self.solver.pop()
        return m

    def path_model(self):
        r = self._check(timeout=5000)
        if r == z3.sat:
            return self.nice_model((256,), 1000)
        return self.model if r == z3.unknown else None

    # ---- input extraction -----------------------------------------------
    def extract(self, model):
        out = {}
        for name, (kind, v) in self.inputs.items():
            out[name] = concrete_value(v, model)
        return out


def model_int(e, model):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() // v.denominator_as_long()
    raise Unsupported(f'no model value for {e}: {v}')


def model_real(e, model):
    v = model.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise Unsupported(f'no model value for {e}: {v}')


def model_bool(e, model):
    return z3.is_true(model.eval(e, model_completion=True))


def concrete_value(v, model):
    """Concrete counterpart of a (possibly nested) symbolic value under a model."""
    if isinstance(v, SymInt):
        return model_int(v.z(), model)
    if isinstance(v, SymFloat):
        if v.nan is not False and model_bool(v.nan, model):
            return float('nan')
        return model_real(v.r, model)
    if isinstance(v, SymBool):
        return model_bool(v.e, model)
    if hasattr(v, 'sx_concrete'):
        return v.sx_concrete(model)
    if isinstance(v, list):
        return [concrete_value(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(concrete_value(x, model) for x in v)
    if isinstance(v, dict):
        return {k: concrete_value(x, model) for k, x in v.items()}
    return v


# ---------------------------------------------------------------------------
# Booleans
# ---------------------------------------------------------------------------
def mkbool(e):
    if isinstance(e, _bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bz(x):
    """z3 boolean of a Python/symbolic truth value."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymInt:
        r = x != 0
        return bz(r)
    if type(x) is SymFloat:
        return bz(x != 0)
    return z3.BoolVal(_bool(x))


def And(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(es[0] if len(es) == 1 else z3.And(*es))


def Or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mkbool(es[0] if len(es) == 1 else z3.Or(*es))


def Not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


class SymBool:
    __slots__ = ('e',)
    __class__ = property(lambda self: _bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.fork(self.e)

    def __and__(self, o):
        if isinstance(o, (SymBool, _bool)) or type(o).__name__ == 'bool_' or type(o).__name__ == 'bool':
            return And(self, o if isinstance(o, SymBool) else _bool(o))
        return self._as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, _bool)) or type(o).__name__ in ('bool_', 'bool'):
            return Or(self, o if isinstance(o, SymBool) else _bool(o))
        return self._as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bz(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return Not(self)

    def logical_not(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, _bool)):
            return mkbool(self.e == bz(o))
        if isinstance(o, (_int, SymInt, _float, SymFloat)):
            return self._as_int() == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash(_bool(self))

    def _as_int(self):
        return SymInt.atom(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __int__(self):
        return _int(_bool(self))

    __index__ = __int__

    def __float__(self):
        return _float(_bool(self))

    def __repr__(self):
        return f'SymBool({self.e})'

    def __format__(self, spec):
        return format(_bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'radd', 'rsub', 'rmul',
            'rtruediv', 'rfloordiv', 'rmod', 'lt', 'le', 'gt', 'ge', 'lshift', 'rshift',
            'rlshift', 'rrshift', 'neg', 'pos', 'abs'):
    def _mk(op):
        def f(self, *a):
            return getattr(self._as_int(), f'__{op}__')(*a)
        return f
    setattr(SymBool, f'__{_op}__', _mk(_op))


# ---------------------------------------------------------------------------
# Integers
# ---------------------------------------------------------------------------
class Atom:
    __slots__ = ('z', 'lo', 'hi', 'key', 'bv', 'real')

    def __init__(self, z, lo, hi):
        self.z, self.lo, self.hi = z, lo, hi
        self.key = z.get_id()
        self.bv = None
        self.real = None


def _isfl(o):
    return isinstance(o, (SymFloat, _float)) or (type(o).__module__ == 'numpy' and type(o).__name__.startswith('float') and getattr(o, 'ndim', 1) == 0)


def _is_intlike(o):
    return isinstance(o, _int) or type(o) is SymInt or hasattr(type(o), '__index__') and not isinstance(o, SymBool)


def as_symint(o):
    if type(o) is SymInt:
        return o
    if isinstance(o, SymBool):
        return o._as_int()
    if isinstance(o, _bool):
        return SymInt({}, _int(o))
    if type(o) is _int:
        return SymInt({}, o)
    if isinstance(o, _int) or hasattr(o, '__index__'):
        return SymInt({}, o.__index__())
    return None


def _add_iv(a, b):
    return None if a is None or b is None else a + b


class SymInt:
    """Unbounded Python integer: const + sum(coef * atom), exact."""
    __slots__ = ('terms', 'const', '_z', '_iv', 'bvx')
    __class__ = property(lambda self: _int)
    __array_ufunc__ = None

    def __init__(self, terms, const, bvx=None):
        self.terms = terms          # {key: (coef, Atom)}
        self.const = const
        self._z = None
        self._iv = None
        self.bvx = bvx              # optional (bv expr, signed value) when purely bit-level

    # -- construction
    @staticmethod
    def var(name, lo=None, hi=None):
        e = z3.Int(name)
        if lo is not None:
            ENG.add(e >= lo)
        if hi is not None:
            ENG.add(e <= hi)
        return SymInt.atom(e, lo, hi)

    @staticmethod
    def atom(e, lo=None, hi=None):
        a = Atom(e, lo, hi)
        return SymInt({a.key: (1, a)}, 0)

    @staticmethod
    def bvvar(name, width, signed=True):
        """Symbolic integer backed by a bit-vector constant of the given width."""
        return SymInt.from_bv(z3.BitVec(name, width), signed)

    @staticmethod
    def from_bv(b, signed=True, lo=None, hi=None):
        b = z3.simplify(b)
        if z3.is_bv_value(b):
            return b.as_signed_long() if signed else b.as_long()
        if not signed:
            b = z3.ZeroExt(1, b)
        w = b.size()
        key = ('frombv', b.get_id())
        c = ENG.cache.get(key)
        if c is None:
            if lo is None:
                lo = 0 if not signed else -(1 << (w - 1))
            if hi is None:
                hi = (1 << (w - 1)) - 1
            c = BVInt(b, lo, hi)
            ENG.cache[key] = (c, b)
        else:
            c = c[0]
        return c

    # -- views
    def z(self):
        if self._z is None and len(self.terms) > 1:
            self._z = _sum_resolve(self)
        if self._z is None:
            parts = []
            for c, a in self.terms.values():
                parts.append(a.z if c == 1 else c * a.z)
            if self.const or not parts:
                parts.append(z3.IntVal(self.const))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        return self._z

    def iv(self):
        if self._iv is None:
            lo = hi = self.const
            for c, a in self.terms.values():
                if c > 0:
                    lo, hi = _add_iv(lo, None if a.lo is None else c * a.lo), _add_iv(hi, None if a.hi is None else c * a.hi)
                else:
                    lo, hi = _add_iv(lo, None if a.hi is None else c * a.hi), _add_iv(hi, None if a.lo is None else c * a.lo)
            self._iv = (lo, hi)
        return self._iv

    @property
    def lo(self):
        return self.iv()[0]

    @property
    def hi(self):
        return self.iv()[1]

    @property
    def is_const(self):
        return not self.terms

    def simp(self):
        return self.const if not self.terms else self

    # -- linear arithmetic
    def _lin(self, o, co):
        t = dict(self.terms)
        for k, (c, a) in o.terms.items():
            if k in t:
                n = t[k][0] + co * c
                if n:
                    t[k] = (n, a)
                else:
                    del t[k]
            else:
                t[k] = (co * c, a)
        r = SymInt(t, self.const + co * o.const)
        if t:
            # combine the operands' (possibly tighter) intervals
            (l1, h1), (l2, h2) = self.iv(), o.iv()
            if co < 0:
                l2, h2 = h2, l2
            lo = None if l1 is None or l2 is None else l1 + co * l2
            hi = None if h1 is None or h2 is None else h1 + co * h2
            rl, rh = r.iv()
            r._iv = (rl if lo is None else lo if rl is None else max(lo, rl),
                     rh if hi is None else hi if rh is None else min(hi, rh))
        return r.simp()

    def _scale(self, k):
        if k == 0:
            return 0
        if k == 1:
            return self
        r = SymInt({key: (c * k, a) for key, (c, a) in self.terms.items()}, self.const * k)
        lo, hi = self.iv()
        if k < 0:
            lo, hi = hi, lo
        r._iv = (None if lo is None else lo * k, None if hi is None else hi * k)
        return r

    def __add__(self, o):
        if _isfl(o):
            return self.to_real() + o
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        if _isfl(o):
            return self.to_real() - o
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return self._lin(o, -1)

    def __rsub__(self, o):
        if _isfl(o):
            return o - self.to_real()
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return o._lin(self, -1)

    def __neg__(self):
        return self._scale(-1)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.iv()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        m = None if lo is None or hi is None else max(-lo, hi)
        return SymInt.atom(z3.If(self.z() >= 0, self.z(), -self.z()), 0, m)

    def __mul__(self, o):
        if _isfl(o):
            return self.to_real() * o
        if isinstance(o, (_str, bytes, list, tuple)):
            return o * self.__index__()
        o = as_symint(o)
        if o is None:
            return NotImplemented
        if o.is_const:
            return self._scale(o.const)
        if self.is_const:
            return o._scale(self.const)
        los = [a * b for a in self.iv() for b in o.iv() if a is not None and b is not None]
        lo, hi = (min(los), max(los)) if len(los) == 4 else (None, None)
        return SymInt.atom(self.z() * o.z(), lo, hi)
    __rmul__ = __mul__

    def divmod_const(self, c):
        """Floor division and remainder by a positive constant."""
        if c == 1:
            return self, 0
        q = {}
        rest = {}
        for k, (co, a) in self.terms.items():
            if co % c == 0:
                q[k] = (co // c, a)
            else:
                qq, rr = divmod(co, c)
                rest[k] = (co, a)
        qc, rc = divmod(self.const, c)
        R = SymInt(rest, rc)
        if not q and self._iv is not None:
            sl, sh = self.iv()
            if sl is not None and sh is not None:
                R._iv = (sl - qc * c, sh - qc * c)
        lo, hi = R.iv()
        if lo is not None and hi is not None and lo // c == hi // c:
            k = lo // c
            return SymInt(q, qc + k).simp(), R._lin(SymInt({}, k * c), -1)
        key = ('div', R.z().get_id(), c)
        hit = ENG.cache.get(key)
        if hit is None:
            d = z3.Int(ENG.fresh_name('div'))
            ENG.add(z3.And(c * d <= R.z(), R.z() < c * d + c))
            qa = Atom(d, None if lo is None else lo // c, None if hi is None else hi // c)
            if qa.lo is not None:
                ENG.add(d >= qa.lo)
            if qa.hi is not None:
                ENG.add(d <= qa.hi)
            hit = (qa, R.z())
            ENG.cache[key] = hit
        qa = hit[0]
        quo = SymInt(q, qc)._lin(SymInt({qa.key: (1, qa)}, 0), 1)
        # remainder as a bounded atom alias: R - c*d in [0, c-1]
        rem_lin = R._lin(SymInt({qa.key: (1, qa)}, 0), -c)
        rem = rem_lin
        if type(rem) is SymInt:
            rem._iv = (max(0, rem.iv()[0]) if rem.iv()[0] is not None else 0,
                       min(c - 1, rem.iv()[1]) if rem.iv()[1] is not None else c - 1)
        return quo, rem

    def __floordiv__(self, o):
        if _isfl(o):
            return self.to_real() // o
        o = as_symint(o)
        if o is None:
            return NotImplemented
        if o.is_const:
            if o.const == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o.const > 0:
                return self.divmod_const(o.const)[0]
            return (-self) // (-o.const)
        return _sym_divmod(self, o)[0]

    def __mod__(self, o):
        if _isfl(o):
            return self.to_real() % o
        o = as_symint(o)
        if o is None:
            return NotImplemented
        if o.is_const:
            if o.const == 0:
                raise ZeroDivisionError('integer modulo by zero')
            if o.const > 0:
                return self.divmod_const(o.const)[1]
            r = (-self) % (-o.const)
            return -r
        return _sym_divmod(self, o)[1]

    def __rfloordiv__(self, o):
        if _isfl(o):
            return o // self.to_real()
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return o // self if type(o // 1) is SymInt else _sym_divmod(o, self)[0]

    def __rmod__(self, o):
        if isinstance(o, _str):
            return fmt_percent(o, self)
        if _isfl(o):
            return o % self.to_real()
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return _sym_divmod(o, self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if _isfl(o):
            return self.to_real() / o
        o = as_symint(o)
        if o is None:
            return NotImplemented
        return self.to_real() / (o.to_real() if not o.is_const else o.const)

    def __rtruediv__(self, o):
        return o / self.to_real()

    def __pow__(self, o, mod=None):
        if isinstance(o, _int) and type(o) is not SymInt and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if type(o) is SymInt:
            return self ** o.concretize()
        if isinstance(o, (_float, SymFloat)) or (isinstance(o, _int) and o < 0):
            return self.to_real() ** o
        raise Unsupported('symbolic power')

    def __rpow__(self, base):
        # base ** symbolic exponent: concretise the exponent
        return base ** self.concretize()

    # -- bit operations
    def width(self):
        lo, hi = self.iv()
        if lo is None or hi is None:
            return 64
        return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1

    def bv(self, w):
        """Signed bit-vector of width w >= self.width()."""
        if self.is_const:
            return z3.BitVecVal(self.const, w)
        b = self._bv_native(max(self.width(), 1))
        if b.size() < w:
            b = z3.SignExt(w - b.size(), b)
        elif b.size() > w:
            b = z3.Extract(w - 1, 0, b)
        return b

    def _bv_native(self, w):
        key = ('dual', self.z().get_id(), w)
        hit = ENG.cache.get(key)
        if hit is None:
            lo, hi = self.iv()
            if lo is None or hi is None:
                ENG.note('bit operation on unbounded integer: assumed 64-bit')
            b = z3.BitVec(ENG.fresh_name('dual'), w)
            lo, hi = tighten(self.z(), lo, hi)
            if lo is not None and hi is not None:
                ENG.add(z3.And(b >= lo, b <= hi))
            ENG.duals[b.get_id()] = (b, self, lo, hi)
            hit = (b, self.z())
            ENG.cache[key] = hit
        return hit[0]

    def _bit(self, o, f, res_iv):
        o = as_symint(o)
        if o is None:
            return NotImplemented
        w = max(self.width(), o.width())
        lo, hi = res_iv(self, o, w)
        return BVInt.make(f(self.bv(w), o.bv(w)), lo, hi)

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = o._as_int()
        if isinstance(o, _int) and type(o) is not SymInt:
            o = _int(o)
            if o == 0:
                return 0
            lo, hi = self.iv()
            if o > 0 and (o & (o + 1)) == 0 and type(self) is SymInt:
                if lo is not None and lo >= 0 and hi is not None and hi <= o:
                    return self
                if not self._prefers_bv():
                    return self.divmod_const(o + 1)[1]
        oo = as_symint(o)
        if oo is None:
            return NotImplemented

        def iv(a, b, w):
            al, ah = a.iv()
            bl, bh = b.iv()
            if bl is not None and bl >= 0:
                hi = bh
                if al is not None and al >= 0 and ah is not None:
                    hi = min(hi, ah)
                return 0, hi
            if al is not None and al >= 0:
                return 0, ah
            return None, None
        return self._bit(oo, lambda x, y: x & y, iv)
    __rand__ = __and__

    def _prefers_bv(self):
        return any(isinstance(a, BVAtom) for _, a in self.terms.values())

    def __or__(self, o):
        if isinstance(o, _int) and type(o) is not SymInt and _int(o) == 0:
            return self

        def iv(a, b, w):
            if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0 and a.hi is not None and b.hi is not None:
                return max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            return None, None
        return self._bit(o, lambda x, y: x | y, iv)
    __ror__ = __or__

    def __xor__(self, o):
        def iv(a, b, w):
            if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0 and a.hi is not None and b.hi is not None:
                return 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            return None, None
        return self._bit(o, lambda x, y: x ^ y, iv)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if type(o) is SymInt or isinstance(o, SymBool):
            o = o.concretize() if type(o) is SymInt else _int(o)
        o = _int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if self._prefers_bv():
            w = self.width() + o
            lo, hi = self.iv()
            return BVInt.make(z3.Concat(self.bv(w - o), z3.BitVecVal(0, o)) if o else self.bv(w),
                              None if lo is None else lo << o, None if hi is None else hi << o)
        return self._scale(1 << o)

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        if type(o) is SymInt or isinstance(o, SymBool):
            o = o.concretize() if type(o) is SymInt else _int(o)
        o = _int(o)
        if o < 0:
            raise ValueError('negative shift count')
        if self._prefers_bv():
            w = self.width()
            lo, hi = self.iv()
            if o >= w:
                o = w - 1
            return BVInt.make(self.bv(w) >> o, None if lo is None else lo >> o, None if hi is None else hi >> o)
        return self.divmod_const(1 << o)[0]

    def __rrshift__(self, o):
        return o >> self.concretize()

    def wrap(self, bits, signed):
        """Reduce modulo 2**bits as a machine integer."""
        lo, hi = self.iv()
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if lo is not None and hi is not None and lo >= mn and hi <= mx:
            return self
        if self._prefers_bv():
            w = max(self.width(), bits)
            b = self.bv(w)
            b = z3.Extract(bits - 1, 0, b)
            return SymInt.from_bv(b, signed)
        if signed:
            r = (self + (1 << (bits - 1))) % (1 << bits)
            return r - (1 << (bits - 1))
        return self % (1 << bits)

    # -- comparisons
    def _cmp(self, o, op):
        if _isfl(o):
            return getattr(self.to_real(), op)(o)
        oi = as_symint(o)
        if oi is None:
            return NotImplemented
        d = self._lin(oi, -1)
        if type(d) is not SymInt:
            return {'__eq__': d == 0, '__ne__': d != 0, '__lt__': d < 0, '__le__': d <= 0,
                    '__gt__': d > 0, '__ge__': d >= 0}[op]
        lo, hi = d.iv()
        if op == '__eq__':
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        elif op == '__ne__':
            return Not(self._cmp(o, '__eq__'))
        elif op == '__lt__':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '__le__':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == '__gt__':
            return Not(self._cmp(o, '__le__'))
        elif op == '__ge__':
            return Not(self._cmp(o, '__lt__'))
        # bit-vector comparison when both sides are single bit-level atoms
        ba, bb = self._single_bv(), oi._single_bv()
        if (ba is not None or self.is_const) and (bb is not None or oi.is_const) and (ba is not None or bb is not None):
            e = _bv_cmp(self, oi, op)
            if e is not None:
                return mkbool(z3.simplify(e))
        e = _bv_decide(d, op)
        if e is not None:
            return e
        if op == '__eq__':
            # normalise the sign for better term sharing
            pos = SymInt({k: (c, a) for k, (c, a) in d.terms.items() if c > 0}, max(d.const, 0))
            neg = SymInt({k: (-c, a) for k, (c, a) in d.terms.items() if c < 0}, max(-d.const, 0))
            return mkbool(pos.z() == neg.z())
        pos = SymInt({k: (c, a) for k, (c, a) in d.terms.items() if c > 0}, max(d.const, 0))
        neg = SymInt({k: (-c, a) for k, (c, a) in d.terms.items() if c < 0}, max(-d.const, 0))
        return mkbool(pos.z() < neg.z() if op == '__lt__' else pos.z() <= neg.z())

    def _single_bv(self):
        if len(self.terms) == 1 and self.const == 0:
            (c, a), = self.terms.values()
            if c == 1 and isinstance(a, BVAtom) and not a.resolved():
                return a
        return None

    def __eq__(self, o):
        r = self._cmp(o, '__eq__')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '__eq__')
        return True if r is NotImplemented else Not(r)

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, _bool) and type(r) is _bool else r.__bool__()

    # -- conversions
    def to_real(self):
        return SymFloat(z3.ToReal(self.z()) if not self.is_const else fl2q(self.const), origin=self)

    def concretize(self, limit=4096):
        """Fork over all feasible values."""
        if self.is_const:
            return self.const
        lo, hi = self.iv()
        z = self.z()
        hit = ENG.cache.get(('conc', z.get_id()))
        if hit is not None:
            return hit[0]
        n = 0
        while True:
            v = ENG_guess(z)
            n += 1
            if n > limit:
                raise Unsupported('too many values when concretising')
            if ENG.fork(z == v):
                ENG.cache[('conc', z.get_id())] = (v, z)
                return v

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __float__(self):
        ENG.stats['concretised'] += 1
        return _float(self.concretize())

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round of int to tens')

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __hash__(self):
        if HASH_BY_ID[0]:
            return id(self)
        f = sys._getframe(1)
        if f.f_code.co_filename.endswith('enum.py'):
            raise TypeError('symbolic value (enum search)')
        lo, hi = self.iv()
        if lo is not None and hi is not None and hi - lo <= 64:
            return hash(self.concretize())
        return 0x5EED

    def bit_length(self):
        lo, hi = self.iv()
        a = abs(self)
        k = 0
        while True:
            if a < (1 << k):
                return k
            k += 1

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .bytesx import int_to_cells, mkbytes
        return mkbytes(int_to_cells(self, length, byteorder, signed))

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f'SymInt({self.z()})'

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported(f'format of symbolic int outside f-string ({spec})')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def tuple_key(ds):
    return tuple(ds)


def ENG_guess(z):
    """A feasible value of integer expression z, chosen deterministically per path."""
    e = ENG
    probe = z.sexpr() if z.num_args() < 50 else z.hash()
    key = (tuple_key(e.decisions), probe)
    if key in e.guesses:
        return e.guesses[key]
    if e.model is None:
        r = e._check()
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Unsupported('no model when concretising')
        e.model = e.solver.model()
    v = model_int(z, e.model)
    e.guesses[key] = v
    e.stats['concretised'] += 1
    return v


def _sym_divmod(a, b):
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    neg = b < 0
    if neg:
        q, r = _sym_divmod(-a if type(a) is SymInt else as_symint(a)._scale(-1), as_symint(-b))
        return q, -r
    a, b = as_symint(a), as_symint(b)
    q = z3.Int(ENG.fresh_name('sdiv'))
    r = z3.Int(ENG.fresh_name('smod'))
    ENG.add(z3.And(a.z() == b.z() * q + r, r >= 0, r < b.z()))
    lo = 0 if a.lo is not None and a.lo >= 0 else None
    return (SymInt.atom(q, lo, a.hi if lo == 0 else None),
            SymInt.atom(r, 0, None if b.hi is None else b.hi - 1))


def tighten(z, lo, hi):
    """Bounds (zero, powers of two) the path condition implies for an integer about to be seen as bits."""
    if lo is not None and lo >= 0 and hi is not None and hi <= 255:
        return lo, hi

    def never(c):
        return ENG._check(c, timeout=2000) == z3.unsat
    if lo is None or lo < 0:
        if not never(z < 0):
            return lo, hi
        lo = 0
    top = hi.bit_length() if hi is not None else 64
    a, b = 0, top            # value < 2**b known (or assumed); find the least such exponent
    while a < b:
        m = (a + b) // 2
        if never(z >= (1 << m)):
            b = m
        else:
            a = m + 1
    if b < top or hi is None:
        hi = (1 << b) - 1
    return lo, hi


class BVAtom(Atom):
    """Integer atom whose value is a signed bit-vector expression."""
    __slots__ = ('b', '_res')

    def __init__(self, b, lo, hi):
        self.b = b
        self.lo, self.hi = lo, hi
        self.key = ('bv', b.get_id())
        self._res = None
        self.bv = None
        self.real = None

    def resolved(self):
        return self._res is not None and self._res is not False

    @property
    def z(self):
        """Integer view; maps back to the originating integer when provably equal."""
        if self._res is None:
            self._res = resolve_bv(self.b, self.lo, self.hi)
        return self._res


def resolve_bv(b, lo, hi, link=True):
    e = ENG
    key = ('res', b.get_id(), link)
    if key in e.cache:
        return e.cache[key][0]
    s = z3.simplify(b)
    duals = [e.duals[v.get_id()] for v in free_bvs(s) if v.get_id() in e.duals]
    out = None
    for db, si, _l, _h in duals:
        w = max(b.size(), db.size())
        x = z3.SignExt(w - b.size(), b) if w > b.size() else b
        y = z3.SignExt(w - db.size(), db) if w > db.size() else db
        sol = z3.Solver()
        sol.set('timeout', 5000)
        for d2, s2, l2, h2 in duals:
            if l2 is not None and h2 is not None:
                sol.add(d2 >= l2, d2 <= h2)
        t = time.time()
        sol.add(x != y)
        r = sol.check()
        e.stats['solver_s'] += time.time() - t
        e.stats['bv_equalities'] = e.stats.get('bv_equalities', 0) + 1
        if r == z3.unsat:
            out = si.z()
            break
    if out is None and duals:
        # the duals may be irrelevant
        sol = z3.Solver()
        sol.set('timeout', 3000)
        for d2, s2, l2, h2 in duals:
            if l2 is not None and h2 is not None:
                sol.add(d2 >= l2, d2 <= h2)
        if sol.check() == z3.sat:
            val = sol.model().eval(b, model_completion=True)
            sol.add(b != val)
            if sol.check() == z3.unsat:
                out = z3.IntVal(val.as_signed_long())
    if out is None and not duals and 'lazy_bits' in e.cache and (link or lo is not None and lo >= 0):
        out = bitint(b, lo, hi)
    if out is None and link:
        # exact link: integer value of the bit-vector, and of every dual it mentions
        for db, si, _l, _h in duals:
            lk = ('link', db.get_id())
            if lk not in e.cache:
                e.cache[lk] = (True, db)
                e.add(bv2int_signed(db) == si.z())
        out = bv2int_signed(b)
        if lo is not None and lo >= 0:
            out = z3.BV2Int(b)
        if duals:
            e.note('bit-vector/integer link used')
            if os.environ.get('SX_DEBUG'):
                import traceback
                print('LINK', s.sexpr()[:300], lo, hi, file=sys.stderr)
                for fr in traceback.extract_stack()[-14:-1]:
                    print('    ', fr.filename.split('/')[-1], fr.lineno, fr.line[:100], file=sys.stderr)
    e.cache[key] = (out, b)
    return out


def bits_only(e):
    """Conditions of the path that speak of bit-vectors only."""
    out = []
    for c in e.pc:
        k = ('bitsonly', c.get_id())
        if k not in e.cache:
            st, ok, seen = [c], True, set()
            while st and ok:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                ok = z3.is_bool(x) or z3.is_bv(x)
                st.extend(x.children())
            e.cache[k] = (ok, c)
        if e.cache[k][0]:
            out.append(c)
    return out


def bitint(b, lo, hi):
    """Integer constant standing for a bit-vector; equal bit-vectors share one."""
    e = ENG
    for b2, k in e.bitints:
        w = max(b.size(), b2.size())
        x = z3.SignExt(w - b.size(), b) if w > b.size() else b
        y = z3.SignExt(w - b2.size(), b2) if w > b2.size() else b2
        d = z3.simplify(x != y)
        if z3.is_false(d):
            return k
        sol = z3.SolverFor('QF_BV')
        sol.set('timeout', 3000)
        sol.add(d)
        sol.add(bits_only(e))
        t = time.time()
        r = sol.check()
        e.stats['solver_s'] += time.time() - t
        e.stats['bv_equalities'] = e.stats.get('bv_equalities', 0) + 1
        if r == z3.unsat:
            return k
    if os.environ.get('SX_DEBUG'):
        print('BITS', b.size(), lo, hi, b.sexpr(), file=sys.stderr)
    k = z3.Int(e.fresh_name('bits'))
    if lo is not None:
        e.add(k >= lo)
    if hi is not None:
        e.add(k <= hi)
    e.links.append(k == (z3.BV2Int(b) if lo is not None and lo >= 0 else bv2int_signed(b)))
    e.bitints.append((b, k))
    return k


def bv2int_signed(b):
    w = b.size()
    u = z3.BV2Int(b)
    return z3.If(b < 0, u - (1 << w), u)


def free_bvs(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if z3.is_bv(x):
                out.append(x)
        else:
            st.extend(x.children())
    return out


class BVInt:
    """Factory namespace for bit-level integers."""

    def __new__(cls, b, lo, hi):
        return cls.make(b, lo, hi)

    @staticmethod
    def make(b, lo=None, hi=None):
        b = z3.simplify(b)
        if z3.is_bv_value(b):
            return b.as_signed_long()
        w = b.size()
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        lo = mn if lo is None else max(lo, mn)
        hi = mx if hi is None else min(hi, mx)
        a = BVAtom(b, lo, hi)
        return SymInt({a.key: (1, a)}, 0)


def _bv_of_single(x, w):
    a = x._single_bv()
    b = a.b
    if b.size() < w:
        b = z3.SignExt(w - b.size(), b)
    return b


def _bv_cmp(x, y, op):
    e = ENG
    sizes = []
    for v in (x, y):
        a = v._single_bv()
        if a is not None:
            if any(q.get_id() in e.duals for q in free_bvs(a.b)):
                return None     # compare through the integer view
            sizes.append(a.b.size())
        else:
            sizes.append(v.width())
    w = max(sizes)
    p = _bv_of_single(x, w) if x._single_bv() is not None else z3.BitVecVal(x.const, w)
    q = _bv_of_single(y, w) if y._single_bv() is not None else z3.BitVecVal(y.const, w)
    return {'__eq__': p == q, '__lt__': p < q, '__le__': p <= q}[op]


def _sum_resolve(v):
    """Integer originally behind a sum of bit-level parts (a bit field put together from two words)."""
    if not all(isinstance(a, BVAtom) and not a.resolved() for _, a in v.terms.values()):
        return None
    lo, hi = v.iv()
    if lo is None or hi is None:
        return None
    w = max(lo.bit_length(), hi.bit_length()) + 2
    acc = z3.BitVecVal(0, w)
    for c, a in v.terms.values():
        w2 = a.b.size()
        b = z3.SignExt(w - w2, a.b) if w2 < w else z3.Extract(w - 1, 0, a.b) if w2 > w else a.b
        acc = acc + b * z3.BitVecVal(c, w)
    r = resolve_bv(z3.simplify(acc), lo, hi, link=False)
    return r if r is None or not v.const else r + v.const


def _bv_decide(d, op):
    """Truth of `d op 0` for a sum of bit-level atoms over duals, when the bounds of the duals alone decide it."""
    lazy = 'lazy_bits' in ENG.cache
    if not d.terms or not all(isinstance(a, BVAtom) and (lazy or not a.resolved()) for _, a in d.terms.values()):
        return None
    lo, hi = d.iv()
    if lo is None or hi is None:
        return None
    w = max(lo.bit_length(), hi.bit_length()) + 2
    if w > 256:
        return None
    acc = z3.BitVecVal(d.const, w)
    duals = {}
    for c, a in d.terms.values():
        b = a.b
        w2 = b.size()
        for q in free_bvs(b):
            if q.get_id() in ENG.duals:
                duals[q.get_id()] = ENG.duals[q.get_id()]
        if w2 > w:
            return None
        b = z3.SignExt(w - w2, b) if w2 < w else b
        acc = acc + b * z3.BitVecVal(c, w)
    if not duals and not lazy:
        return None
    e = {'__eq__': acc == 0, '__lt__': acc < 0, '__le__': acc <= 0}[op]
    if not duals:
        return mkbool(z3.simplify(e))
    for val in (False, True):
        sol = z3.Solver()
        sol.set('timeout', 3000)
        for d2, s2, l2, h2 in duals.values():
            if l2 is not None and h2 is not None:
                sol.add(d2 >= l2, d2 <= h2)
        sol.add(z3.Not(e) if val else e)
        t = time.time()
        r = sol.check()
        ENG.stats['solver_s'] += time.time() - t
        ENG.stats['bv_equalities'] = ENG.stats.get('bv_equalities', 0) + 1
        if r == z3.unsat:
            return val
    return None


_orig_bv_native = SymInt._bv_native


def _bv_native2(self, w):
    """Bit-vector view; combines bit-level atoms directly instead of through integers."""
    if self.terms and all(isinstance(a, BVAtom) for _, a in self.terms.values()):
        acc = z3.BitVecVal(self.const, w) if self.const else None
        for c, a in self.terms.values():
            b = a.b
            if b.size() < w:
                b = z3.SignExt(w - b.size(), b)
            elif b.size() > w:
                b = z3.Extract(w - 1, 0, b)
            if c != 1:
                b = b * z3.BitVecVal(c, w)
            acc = b if acc is None else acc + b
        return acc
    if self.terms and any(isinstance(a, BVAtom) for _, a in self.terms.values()):
        acc = z3.BitVecVal(self.const, w)
        for c, a in self.terms.values():
            if isinstance(a, BVAtom):
                b = a.b
                if b.size() < w:
                    b = z3.SignExt(w - b.size(), b)
                elif b.size() > w:
                    b = z3.Extract(w - 1, 0, b)
            else:
                one = SymInt({a.key: (1, a)}, 0)
                b = one.bv(w)
            acc = acc + (b * z3.BitVecVal(c, w) if c != 1 else b)
        return acc
    return _orig_bv_native(self, w)


SymInt._bv_native = _bv_native2


# ---------------------------------------------------------------------------
# Floats (exact reals with an optional NaN flag; single-precision rounding modelled)
# ---------------------------------------------------------------------------
F32 = z3.Function('f32', z3.RealSort(), z3.RealSort())


def as_symfloat(o):
    if type(o) is SymFloat:
        return o
    if type(o) is SymInt:
        return o.to_real()
    if isinstance(o, SymBool):
        return o._as_int().to_real()
    if isinstance(o, _float) or type(o).__module__ == 'numpy' and hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0:
        o = _float(o)
        if math.isnan(o):
            return SymFloat(z3.RealVal(0), nan=z3.BoolVal(True))
        return SymFloat(fl2q(o))
    if isinstance(o, (_bool, _int)):
        return SymFloat(fl2q(_int(o)))
    if isinstance(o, Fraction):
        return SymFloat(fl2q(o))
    return None


def _isinf(o):
    return isinstance(o, _float) and type(o) is not SymFloat and math.isinf(o)


class SymFloat:
    __slots__ = ('r', 'nan', 'f32', 'grid', 'origin', 'lo', 'hi')
    __class__ = property(lambda self: _float)
    __array_ufunc__ = None

    def __init__(self, r, nan=False, f32=False, grid=False, origin=None):
        self.r = r
        self.nan = False if nan is not False and z3.is_false(z3.simplify(nan)) else nan
        self.f32 = f32
        self.grid = grid
        self.origin = origin      # SymInt when the value is that integer

    @staticmethod
    def var(name, lo=None, hi=None, nan=False, f32=False):
        e = z3.Real(name)
        if lo is not None:
            ENG.add(e >= fl2q(lo))
        if hi is not None:
            ENG.add(e <= fl2q(hi))
        n = z3.Bool(name + '.nan') if nan else False
        return SymFloat(e, n, f32=f32)

    def _nan2(self, o):
        if self.nan is False:
            return o.nan
        if o.nan is False:
            return self.nan
        return z3.Or(self.nan, o.nan)

    def _bin(self, o, f):
        o = as_symfloat(o)
        if o is None:
            return NotImplemented
        return SymFloat(z3.simplify(f(self.r, o.r)), self._nan2(o))

    def __add__(self, o):
        if _isinf(o):
            return o
        if not isinstance(o, SymFloat) and isinstance(o, (_int, _float)) and type(o) not in (SymInt,) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if _isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (_int, _float) and o == 1:
            return self
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _zerodiv(self):
        if self == 0:
            raise ZeroDivisionError('float division by zero')

    def __truediv__(self, o):
        of = as_symfloat(o)
        if of is None:
            return NotImplemented
        of._zerodiv()
        return self._bin(of, lambda a, b: a / b)

    def __rtruediv__(self, o):
        self._zerodiv()
        return self._bin(o, lambda a, b: b / a)

    def floor_int(self):
        if self.origin is not None:
            return self.origin
        key = ('floor', self.r.get_id())
        hit = ENG.cache.get(key)
        if hit is None:
            i = z3.Int(ENG.fresh_name('floor'))
            ENG.add(z3.And(z3.ToReal(i) <= self.r, self.r < z3.ToReal(i) + 1))
            hit = (SymInt.atom(i), self.r)
            ENG.cache[key] = hit
        return hit[0]

    def __floordiv__(self, o):
        of = as_symfloat(o)
        if of is None:
            return NotImplemented
        of._zerodiv()
        q = SymFloat(self.r / of.r, self._nan2(of)).floor_int().to_real()
        return SymFloat(q.r, self._nan2(of))

    def __rfloordiv__(self, o):
        return as_symfloat(o) // self

    def __mod__(self, o):
        of = as_symfloat(o)
        if of is None:
            return NotImplemented
        of._zerodiv()
        q = SymFloat(z3.simplify(self.r / of.r)).floor_int()
        qr = q.to_real() if type(q) is SymInt else as_symfloat(q)
        return SymFloat(self.r - of.r * qr.r, self._nan2(of))

    def __rmod__(self, o):
        if isinstance(o, _str):
            return fmt_percent(o, self)
        return as_symfloat(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymFloat(-self.r, self.nan, f32=self.f32)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.r >= 0, self.r, -self.r), self.nan, f32=self.f32)

    def __pow__(self, o, mod=None):
        if type(o) is _int and 0 <= o <= 6:
            r = SymFloat(z3.RealVal(1), self.nan)
            for _ in range(o):
                r = r * self
            return r
        if type(o) is _int and o < 0:
            return 1 / (self ** -o)
        if o == 0.5:
            return usqrt(self)
        raise Unsupported('symbolic float power')

    def __rpow__(self, base):
        raise Unsupported('power with symbolic float exponent')

    def _cmp(self, o, f):
        if _isinf(o):
            v = f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1))
            r = mkbool(z3.simplify(v))
            return And(r, mkbool(z3.Not(self.nan))) if self.nan is not False else r
        of = as_symfloat(o)
        if of is None:
            return NotImplemented
        e = f(self.r, of.r)
        n = self._nan2(of)
        if n is not False:
            e = z3.And(z3.Not(n), e)
        return mkbool(z3.simplify(e) if not z3.is_true(e) else e)

    def __eq__(self, o):
        if self.origin is not None and type(o) is SymFloat and o.origin is not None:
            return self.origin == o.origin
        if self.origin is not None and (type(o) is SymInt or isinstance(o, _int)):
            return self.origin == o
        if self.origin is not None and type(o) is _float and o.is_integer():
            return self.origin == _int(o)
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        r = Not(self == 0)
        return r if type(r) is _bool else r.__bool__()

    def isnan(self):
        return False if self.nan is False else mkbool(self.nan)

    def to_int_trunc(self):
        if self.origin is not None:
            return self.origin
        if self.nan is not False and mkbool(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        key = ('trunc', self.r.get_id())
        hit = ENG.cache.get(key)
        if hit is None:
            i = z3.Int(ENG.fresh_name('trunc'))
            ri = z3.ToReal(i)
            ENG.add(z3.If(self.r >= 0, z3.And(ri <= self.r, self.r < ri + 1),
                          z3.And(ri >= self.r, self.r > ri - 1)))
            hit = (SymInt.atom(i), self.r)
            ENG.cache[key] = hit
        return hit[0]

    def rint(self):
        """Nearest integer, ties to even."""
        if self.origin is not None:
            return self.origin
        if z3.is_rational_value(self.r):
            f = Fraction(self.r.numerator_as_long(), self.r.denominator_as_long())
            return round(f)
        key = ('rint', self.r.get_id())
        hit = ENG.cache.get(key)
        if hit is None:
            i = z3.Int(ENG.fresh_name('rint'))
            h = z3.Int(ENG.fresh_name('half'))
            ri = z3.ToReal(i)
            half = z3.Q(1, 2)
            ENG.add(z3.And(self.r - half <= ri, ri <= self.r + half,
                           z3.Implies(z3.Or(self.r - half == ri, ri == self.r + half), i == 2 * h)))
            hit = (SymInt.atom(i), self.r)
            ENG.cache[key] = hit
        return hit[0]

    def __round__(self, n=None):
        if n is None:
            if self.nan is not False and mkbool(self.nan):
                raise ValueError('cannot convert float NaN to integer')
            return self.rint()
        if type(n) is _int and -6 <= n <= 9:
            k = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
            i = SymFloat(z3.simplify(self.r * fl2q(k))).rint()
            i = as_symint(i)
            return SymFloat(z3.ToReal(i.z()) / fl2q(k), self.nan)
        raise Unsupported('round to symbolic digits')

    def __trunc__(self):
        return self.to_int_trunc()

    def __floor__(self):
        return self.floor_int()

    def __ceil__(self):
        return -((-self).floor_int())

    def __int__(self):
        r = self.to_int_trunc()
        return r if type(r) is _int else r.concretize()

    def __float__(self):
        ENG.stats['concretised'] += 1
        ENG.note('float concretised')
        raise Unsupported('symbolic float needed as concrete float')

    def is_integer(self):
        return self == self.floor_int().to_real()

    def to_f32(self):
        """Rounded to single precision (relative error bound, idempotent, monotone)."""
        if self.f32:
            return self
        if z3.is_rational_value(self.r) and self.nan is False:
            import numpy as np
            f = Fraction(self.r.numerator_as_long(), self.r.denominator_as_long())
            return SymFloat(fl2q(_float(np.float32(_float(f)))), f32=True)
        if self.origin is not None:
            lo, hi = self.origin.iv()
            if lo is not None and hi is not None and -2 ** 24 <= lo and hi <= 2 ** 24:
                return SymFloat(self.r, self.nan, f32=True, origin=self.origin)
        if z3.is_app_of(self.r, z3.Z3_OP_ITE):
            c, a, b = self.r.children()
            return SymFloat(z3.If(c, SymFloat(a).to_f32().r, SymFloat(b).to_f32().r), self.nan, f32=True)
        if z3.is_app_of(self.r, z3.Z3_OP_UNINTERPRETED) and self.r.decl().eq(F32):
            return SymFloat(self.r, self.nan, f32=True)
        key = ('f32', self.r.get_id())
        hit = ENG.cache.get(key)
        if hit is None:
            y = F32(self.r)
            x = self.r
            eps = z3.Q(1, 2 ** 24)
            tiny = z3.Q(1, 2 ** 140)
            ENG.add(z3.And(z3.Implies(x >= 0, z3.And(y >= 0, y <= x + eps * x + tiny, y >= x - eps * x - tiny)),
                           z3.Implies(x <= 0, z3.And(y <= 0, y >= x + eps * x - tiny, y <= x - eps * x + tiny))))
            m = z3.Q(-9999, 1)
            ENG.add(z3.And(z3.Implies(x <= m, y <= m), z3.Implies(x >= m, y >= m)))
            for (x2, y2) in ENG.f32apps[-24:]:
                ENG.add(z3.And(z3.Implies(x <= x2, y <= y2), z3.Implies(x2 <= x, y2 <= y)))
            ENG.f32apps.append((x, y))
            hit = (y, self.r)
            ENG.cache[key] = hit
        return SymFloat(hit[0], self.nan, f32=True)

    def __hash__(self):
        return id(self) if HASH_BY_ID[0] else 0x5EED

    def item(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def __repr__(self):
        return f'SymFloat({self.r})'

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported('format of symbolic float')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def usqrt(x):
    x = as_symfloat(x)
    s = z3.Real(ENG.fresh_name('sqrt'))
    ENG.add(z3.Implies(x.r >= 0, z3.And(s >= 0, s * s == x.r)))
    return SymFloat(s, x.nan)


# -- uninterpreted monotone functions (log, exp, trigonometry)
def _ufun(name, x, axioms, pairs):
    x = as_symfloat(x)
    f = z3.Function('u_' + name, z3.RealSort(), z3.RealSort())
    key = ('uf', name, x.r.get_id())
    hit = ENG.cache.get(key)
    if hit is None:
        y = f(x.r)
        for a in axioms(x.r, y):
            ENG.add(a)
        apps = ENG.unapps.setdefault(name, [])
        for (x2, y2) in apps:
            for a in pairs(x.r, y, x2, y2):
                ENG.add(a)
        apps.append((x.r, y))
        if name in ('log', 'exp'):
            # exp is the inverse of log
            for (x2, y2) in ENG.unapps.get('exp' if name == 'log' else 'log', []):
                (lx, ly), (ex, ey) = ((x.r, y), (x2, y2)) if name == 'log' else ((x2, y2), (x.r, y))
                ENG.add(z3.Implies(lx > 0, z3.And((ex < ly) == (ey < lx), (ex == ly) == (ey == lx))))
        hit = (y, x.r)
        ENG.cache[key] = hit
    return SymFloat(hit[0], x.nan)


def _anchor(f, xs, x, y, incr=True):
    out = []
    for c in xs:
        v = Fraction(f(c)).limit_denominator(10 ** 12)
        tol = Fraction(1, 10 ** 9) * max(1, abs(v))
        lo, hi = fl2q(v - tol), fl2q(v + tol)
        if not incr:
            raise NotImplementedError
        out.append(z3.Implies(x >= fl2q(c), y >= lo))
        out.append(z3.Implies(x <= fl2q(c), y <= hi))
    return out


def ulog(x):
    """Natural logarithm: strictly increasing on x > 0, log 1 = 0, anchored bounds."""
    x = as_symfloat(x)
    if z3.is_rational_value(x.r) and x.nan is False:
        f = Fraction(x.r.numerator_as_long(), x.r.denominator_as_long())
        return math.log(f)
    return _ufun('log', x,
                 lambda a, y: [z3.Implies(a == 1, y == 0), z3.Implies(a > 1, y > 0),
                               z3.Implies(z3.And(a > 0, a < 1), y < 0),
                               z3.Implies(a > 0, y <= a - 1), z3.Implies(a >= 1, y >= 1 - 1 / a)],
                 lambda a, y, a2, y2: [z3.Implies(z3.And(a > 0, a2 > 0), z3.And((a < a2) == (y < y2), (a == a2) == (y == y2)))])


def uexp(x):
    """Exponential: positive, strictly increasing, exp 0 = 1, anchored bounds."""
    x = as_symfloat(x)
    if z3.is_rational_value(x.r) and x.nan is False:
        f = Fraction(x.r.numerator_as_long(), x.r.denominator_as_long())
        return math.exp(f)

    def ax(a, y):
        out = [y > 0, z3.Implies(a == 0, y == 1), z3.Implies(a > 0, y > 1), z3.Implies(a < 0, y < 1)]
        out += _anchor(math.exp, [-20, -10, -5, -3, -2, -1, -0.5, 0.5, 1, 2, 3, 4, 5], a, y)
        return out
    return _ufun('exp', x, ax,
                 lambda a, y, a2, y2: [(a < a2) == (y < y2), (a == a2) == (y == y2)])


def ite(c, a, b):
    """If-then-else over symbolic scalars."""
    if isinstance(c, SymBool):
        ce = z3.simplify(c.e)
        if z3.is_true(ce):
            return a
        if z3.is_false(ce):
            return b
    else:
        return a if c else b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    isb = lambda v: isinstance(v, SymBool) or type(v) is _bool or type(v).__name__ in ('bool_',)
    isi = lambda v: type(v) is SymInt or (isinstance(v, _int)) or (type(v).__module__ == 'numpy' and hasattr(v, '__index__'))
    if isb(a) and isb(b):
        return mkbool(z3.If(ce, bz(a), bz(b)))
    if (isi(a) or isb(a)) and (isi(b) or isb(b)):
        ai, bi = as_symint(a), as_symint(b)
        d = ai._lin(bi, -1)
        if type(d) is _int and d == 0:
            return a
        if ai._prefers_bv() or bi._prefers_bv():
            w = max(ai.width(), bi.width())
            los, his = [x.lo for x in (ai, bi)], [x.hi for x in (ai, bi)]
            return BVInt.make(z3.If(ce, ai.bv(w), bi.bv(w)),
                              None if None in los else min(los), None if None in his else max(his))
        los, his = (ai.lo, bi.lo), (ai.hi, bi.hi)
        return SymInt.atom(z3.If(ce, ai.z(), bi.z()),
                           None if None in los else min(los), None if None in his else max(his))
    af, bf = as_symfloat(a), as_symfloat(b)
    if af is None or bf is None:
        return a if SymBool(ce) else b
    if af.nan is False and bf.nan is False:
        nan = False
    else:
        nan = z3.If(ce, bz(af.isnan()), bz(bf.isnan()))
    return SymFloat(z3.If(ce, af.r, bf.r), nan, f32=_isf32(af) and _isf32(bf))


def _isf32(x):
    if x.f32:
        return True
    if z3.is_rational_value(x.r):
        f = Fraction(x.r.numerator_as_long(), x.r.denominator_as_long())
        import numpy as np
        return Fraction(_float(np.float32(_float(f)))) == f
    return False


def is_sym(x):
    return type(x) in (SymInt, SymFloat, SymBool) or hasattr(x, 'sx_concrete')


def fmt_percent(fmt, args):
    from .strx import percent_format
    return percent_format(fmt, args)
