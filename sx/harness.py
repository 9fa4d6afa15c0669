"""Property harnesses: one function, run symbolically and replayed on the real package."""
import datetime as _dt
import importlib
import math
import os
import pickle
import random
import select
import shutil
import signal
import sys
import struct
import tempfile
import time
import traceback

import numpy as np

REGISTRY = {}     # property id -> list of Scenario


class Scenario:
    def __init__(self, prop, name, fn, tiers, budget, params, max_paths, overrides, hang, bounds, validate):
        self.prop, self.name, self.fn = prop, name, fn
        self.tiers, self.budget, self.params = tiers, budget, params
        self.max_paths, self.overrides, self.hang = max_paths, overrides, hang
        self.bounds = bounds
        self.validate = validate


def scenario(prop, name=None, tiers=('quick', 'thorough'), budget=20, tbudget=None, max_paths=100000,
             overrides=None, hang=True, bounds='', validate=2, **params):
    """Register a harness; `params` are passed through to it."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            b = {'quick': budget * 2.5, 'thorough': tbudget or max(budget * 6, 120)}
            REGISTRY.setdefault(p, []).append(
                Scenario(p, name or fn.__name__, fn, tiers, b, params, max_paths, overrides, hang, bounds, validate))
        return fn
    return deco


class CheckFailed(BaseException):
    def __init__(self, label):
        self.label = label


class EndPath(BaseException):
    """Concrete counterpart of a refused assumption."""


# ---------------------------------------------------------------------------
# serialisation of inputs
# ---------------------------------------------------------------------------
def enc(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return {'f': v.hex() if math.isfinite(v) else repr(v)}
    if isinstance(v, str):
        return v
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, _dt.datetime):
        return {'dt': [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond], 'utc': v.tzinfo is not None}
    if isinstance(v, (list, tuple)):
        return {'l': [enc(x) for x in v]}
    raise TypeError(f'cannot serialise {type(v)}')


def dec(v):
    if isinstance(v, dict):
        if 'f' in v:
            return float.fromhex(v['f']) if 'x' in v['f'] else float(v['f'])
        if 'b' in v:
            return bytes.fromhex(v['b'])
        if 'dt' in v:
            return _dt.datetime(*v['dt'], tzinfo=_dt.timezone.utc if v['utc'] else None)
        if 'l' in v:
            return [dec(x) for x in v['l']]
    return v


# ---------------------------------------------------------------------------
# environments
# ---------------------------------------------------------------------------
class Missing:
    pass


class BaseEnv:
    """What harnesses use in both modes."""

    def __init__(self, params):
        self.p = params
        self.observed = []

    def check_all(self, conds, label):
        self.check(self.And(*conds), label)

    def words(self, order, items):
        """Bytes of (format, value) items; strings are encoded."""
        out = []
        for f, v in items:
            if f.endswith('s'):
                v = v.encode() if isinstance(v, str) else v
            out.append(self.struct.pack(order + f, v))
        return self._join(out)

    def iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def near(self, a, b, tol):
        d = a - b
        return self.And(d <= tol, d >= -tol)


class ConcEnv(BaseEnv):
    symbolic = False

    def __init__(self, params, inputs, tmp):
        super().__init__(params)
        self.inputs, self.tmp = inputs, tmp
        self.np = np
        self.dt = _dt
        self.struct = struct
        self._join = b''.join
        self.failures = []
        self.passed = []

    def mod(self, name):
        return importlib.import_module(name)

    def _get(self, name, default):
        return self.inputs[name] if name in self.inputs else default

    def int(self, name, lo, hi, bv=0):
        return self._get(name, lo)

    def float(self, name, lo=None, hi=None, nan=False, f32=False):
        v = self._get(name, float(lo if lo is not None else 0.0))
        if v is None:
            return float('nan')
        v = float(v)
        return float(np.float32(v)) if f32 else v

    def bool(self, name):
        return self._get(name, False)

    def str(self, name, length, lo=32, hi=126, alphabet=None):
        v = self._get(name, None)
        if v is None:
            v = (alphabet[0] if alphabet else chr(max(lo, 65) if hi >= 65 else lo)) * length
        return v

    def bytes(self, name, length, lo=0, hi=255):
        v = self._get(name, None)
        return bytes([lo] * length) if v is None else v

    def choice(self, name, options):
        return options[self._get(name, 0)]

    def datetime(self, name, ylo=1969, yhi=2068, seconds=False, utc=False):
        v = self._get(name, None)
        if v is None:
            v = _dt.datetime(max(ylo, 2000), 1, 1, tzinfo=_dt.timezone.utc if utc else None)
        return v

    def assume(self, c):
        if not c:
            raise EndPath()

    def check(self, c, label):
        if hasattr(c, 'shape') and getattr(c, 'shape', ()) != ():
            c = bool(np.all(c))
        if not c:
            self.failures.append(label)
        else:
            self.passed.append(label)

    def fail(self, label):
        self.failures.append(label)

    def observe(self, name, v):
        self.observed.append((name, v))

    And = staticmethod(lambda *a: all(bool(x) for x in a))
    Or = staticmethod(lambda *a: any(bool(x) for x in a))
    Not = staticmethod(lambda a: not a)
    Implies = staticmethod(lambda a, b: (not a) or bool(b))
    ite = staticmethod(lambda c, a, b: a if c else b)

    def f32(self, v):
        return float(np.float32(v))

    def path(self, name):
        return os.path.join(self.tmp, name)

    def read_file(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def write_file(self, path, data, cut=None):
        with open(path, 'wb') as f:
            f.write(bytes(data) if cut is None else bytes(data)[:cut])

    def isnan(self, v):
        return bool(np.isnan(v))

    def tostr(self, v):
        return str(v)

    def digit(self, c):
        return ord(c) - 48

    def key(self, c):
        """A Python-level decision on a condition."""
        return bool(c)

    def flat(self, a):
        """Elements of an array-like as Python scalars."""
        if isinstance(a, np.ma.MaskedArray):
            a = a.data
        return np.asarray(a).reshape(-1).tolist()

    def masked(self, x, name=None):
        """(value, is missing) of the elements of an xarray variable or masked array."""
        v = x[name] if name is not None else x
        v = getattr(v, 'values', v)
        if isinstance(v, np.ma.MaskedArray):
            m = np.ma.getmaskarray(v).reshape(-1).tolist()
            return list(zip(np.asarray(v.data).reshape(-1).tolist(), m))
        return [(z, z != z) for z in np.asarray(v).reshape(-1).tolist()]

    def coord(self, x, name):
        return x.coords[name].values

    def json(self, text):
        import json
        return json.loads(text)

    def coord_time(self, x, name='time', i=0):
        return np.atleast_1d(x.coords[name].values)[i].astype('datetime64[us]').item()

    def ref(self, name):
        """Real counterpart of a third-party module for reference computations."""
        return importlib.import_module(name)

    def concrete(self, v):
        return v

    def stop(self):
        raise EndPath()

    def caching(self, **k):
        pass

    def memory(self, path):
        return FileMemory(self.read_file(path), self.struct)


class FileMemory:
    """Words of a file, numbered from 1."""

    def __init__(self, data, struct_mod):
        self.data, self.struct = data, struct_mod

    def raw(self, w):
        at = 4 * (w - 1)
        return self.data[at:at + 4] if 0 <= at and at + 4 <= len(self.data) else None

    def int(self, w):
        r = self.raw(w)
        return None if r is None else self.struct.unpack('<i', r)[0]


class LogMemory:
    """The same over a log of writes at symbolic positions; the last write of a word counts."""

    def __init__(self, env, log):
        self.env = env
        self.words = []
        for pos, cells in log:
            self.words += [(pos + k, cells[k:k + 4]) for k in range(0, len(cells), 4)]
        self.groups = {}
        for n, (pos, _) in enumerate(self.words):
            key, c = self.split(pos)
            g = self.groups.setdefault(key, (pos - c, {}))
            g[1][c] = n

    def split(self, pos):
        """(symbolic part, constant part)"""
        if isinstance(pos, int) and not hasattr(pos, 'terms'):
            return (), pos
        return tuple(sorted((k, v[0]) for k, v in pos.terms.items())), pos.const

    def raw(self, w):
        from . import bytesx
        at = 4 * (w - 1)
        key, c = self.split(at)
        near = self.groups.get(key, (None, {}))[1].get(c)
        for k, (base, at_) in self.groups.items():
            if k != key and not self.env.Or(at < base + min(at_), at > base + max(at_)):
                break
        else:
            if near is None:
                return None
            cells = self.words[near][1]
            return bytesx.mkbytes(cells) if len(cells) == 4 else None
        for pos, cells in reversed(self.words):
            if pos == at:
                return bytesx.mkbytes(cells) if len(cells) == 4 else None
        return None

    def int(self, w):
        r = self.raw(w)
        return None if r is None else self.env.struct.unpack('<i', r)[0]


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, params, engine, world, runner):
        super().__init__(params)
        from . import core, dt, nparr, strx
        self._core, self._dt, self._nparr, self._strx = core, dt, nparr, strx
        self.eng, self.world, self.runner = engine, world, runner
        self.np = nparr.np_mod
        self.dt = dt.datetime_mod
        from . import bytesx
        self.struct = bytesx.struct_mod
        self._join = lambda bs: bytesx.mkbytes([c for b in bs for c in bytesx.cells_of(b)])
        self.And, self.Or, self.Not, self.Implies, self.ite = core.And, core.Or, core.Not, core.Implies, core.ite
        self.nchecks = 0

    def mod(self, name):
        return self.world.load(name)

    def _reg(self, name, kind, v):
        if name in self.eng.inputs:
            raise RuntimeError(f'duplicate input {name}')
        self.eng.inputs[name] = (kind, v)
        return v

    def int(self, name, lo, hi, bv=0):
        if lo == hi:
            return lo
        if bv:
            v = self._core.SymInt.bvvar(name, bv, signed=lo < 0)
            v = self._reg(name, 'int', v)
            mn, mx = (-(1 << (bv - 1)), (1 << (bv - 1)) - 1) if lo < 0 else (0, (1 << bv) - 1)
            if (lo, hi) != (mn, mx):
                self.eng.assume(self._core.And(v >= lo, v <= hi))
            return v
        return self._reg(name, 'int', self._core.SymInt.var(name, lo, hi))

    def float(self, name, lo=None, hi=None, nan=False, f32=False):
        v = self._core.SymFloat.var(name, lo, hi, nan=nan, f32=f32)
        return self._reg(name, 'float', v)

    def bool(self, name):
        import z3
        return self._reg(name, 'bool', self._core.SymBool(z3.Bool(name)))

    def str(self, name, length, lo=32, hi=126, alphabet=None):
        if length == 0:
            return ''
        v = self._strx.SymStr.var(name, length, lo, hi, alphabet)
        return self._reg(name, 'str', v)

    def bytes(self, name, length, lo=0, hi=255):
        from .bytesx import SymBytes
        cells = [self._core.SymInt.var(f'{name}.{i}', lo, hi) for i in range(length)]
        return self._reg(name, 'bytes', SymBytes(cells))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._reg(name, 'int', self._core.SymInt.var(name, 0, len(options) - 1))
        return options[v.concretize()]

    def datetime(self, name, ylo=1969, yhi=2068, seconds=False, utc=False):
        import datetime as real
        v = self._dt.sym_datetime(name, ylo, yhi, seconds, tzinfo=real.timezone.utc if utc else None)
        return self._reg(name, 'datetime', v)

    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, label):
        self.nchecks += 1
        if hasattr(c, 'shape') and getattr(c, 'shape', ()) != ():
            c = c.all()
        m = self.eng.obligation(c, label)
        if m is not None:
            self.runner.counterexample(self.eng.extract(m), label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, name, v):
        self.observed.append((name, v))

    def f32(self, v):
        f = self._core.as_symfloat(v)
        return f.to_f32() if self._core.is_sym(v) else float(np.float32(v))

    def path(self, name):
        return '/virtual/' + name

    def read_file(self, path):
        return self.eng.cache.get('fs', {})[path]

    def write_file(self, path, data, cut=None):
        """cut: number of the bytes that are there, all of them by default."""
        if cut is not None:
            from .bytesx import CutBytes, cells_of
            data = CutBytes(cells_of(data), cut)
        self.eng.cache.setdefault('fs', {})[path] = data

    def isnan(self, v):
        return self._nparr._isnan(v)

    def tostr(self, v):
        from . import shims
        return shims.sx_str(v)

    def digit(self, c):
        from . import shims
        return shims.s_ord(c) - 48

    def key(self, c):
        return bool(c)

    def flat(self, a):
        if isinstance(a, self._nparr.SymMA) or type(a) is self._nparr.SymMA:
            a = a.data
        return self._nparr.flat(self._nparr.asarray(a))

    def masked(self, x, name=None):
        v = x[name] if name is not None else x
        if not isinstance(v, self._nparr.SymMA) and type(v) is not self._nparr.SymMA and hasattr(v, 'values'):
            v = v.values
        if type(v) is self._nparr.SymMA:
            d, m = self.flat(v), self._nparr.flat(self._nparr.asarray(v.mask))
            if len(m) == 1 and len(d) != 1:
                m = m * len(d)
            return [(a, self.Or(b, self.isnan(a))) for a, b in zip(d, m)]
        return [(a, self.isnan(a)) for a in self.flat(v)]

    def coord(self, x, name):
        return x.coords[name].values

    def coord_time(self, x, name='time', i=0):
        return list(x.coords[name].values)[i]

    def json(self, text):
        return text.value

    def ref(self, name):
        return self.world._external(name)

    def concrete(self, v):
        return v.concretize() if hasattr(v, 'concretize') else v

    def havoc(self, name, lo, hi):
        """Any real number of a range that is no input of the scenario."""
        import z3
        from . import core
        v = z3.Real(self.eng.fresh_name('havoc_' + name))
        self.eng.add(z3.And(v >= lo, v <= hi))
        return core.SymFloat(v)

    def stop(self):
        from .core import StopPath
        raise StopPath()

    def caching(self, **k):
        self.eng.cache.update(k)

    def memory(self, path):
        """Words of a file written while positions were symbolic."""
        if not self.eng.cache.get('symbolic_positions'):
            return FileMemory(self.read_file(path), self.struct)
        streams = [s for s in self.eng.cache.get('streams', ()) if s.log and not hasattr(s, 'path')]
        if len(streams) != 1:
            raise self._core.Unsupported('file not built in one stream')
        return LogMemory(self, streams[0].log)


# ---------------------------------------------------------------------------
# concrete replay in a forked child
# ---------------------------------------------------------------------------
def run_concrete(sc, inputs):
    """Run the harness on the real package; returns a result dict."""
    tmp = tempfile.mkdtemp(prefix='sxreplay.')
    env = ConcEnv(sc.params, inputs, tmp)
    res = {'failures': [], 'exception': None, 'ended': False, 'observed': [], 'passed': 0}
    try:
        sc.fn(env)
    except EndPath:
        res['ended'] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res['exception'] = f'{type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}'
        res['exc_type'] = type(e).__name__
        where = [f for f in tb if '/gempakio/' in f.filename]
        res['in_repo'] = bool(where)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res['failures'] = env.failures
    res['passed'] = len(env.passed)
    try:
        res['observed'] = [(n, enc(norm(v))) for n, v in env.observed]
    except Exception:
        res['observed'] = []
    return res


def norm(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def replay_forked(sc, inputs, timeout=30):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import resource
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import logging
            import warnings
            logging.disable(logging.CRITICAL)
            warnings.simplefilter('ignore')
            res = run_concrete(sc, inputs)
            data = pickle.dumps(res)
            os.write(w, len(data).to_bytes(8, 'little'))
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b'', time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                return {'failures': ['the real code did not return within %d s' % timeout], 'exception': None,
                        'timeout': True, 'ended': False, 'observed': [], 'passed': 0}
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        os.close(r)
    if len(buf) < 8:
        return {'failures': [], 'exception': 'replay process died', 'died': True, 'ended': False, 'observed': [], 'passed': 0}
    return pickle.loads(buf[8:])


# ---------------------------------------------------------------------------
# symbolic runner
# ---------------------------------------------------------------------------
class PathTimeout(BaseException):
    pass


class Runner:
    def __init__(self, sc, tier, seed, deadline, known):
        from . import core
        self.core = core
        self.sc, self.tier, self.known = sc, tier, known
        budget = min(sc.budget[tier], max(1.0, deadline - time.time()))
        self.e = core.Engine(sc.name, time_budget=budget, max_paths=sc.max_paths, seed=seed)
        core.set_engine(self.e)
        self.violations = []
        self.known_hits = []
        self.validated = 0
        self.samples = []
        self.funcs = set()
        self.reached = 0
        self.errors = {}
        self.budget_hit = False
        self.ce_tries = {}

    # a counterexample from the solver: confirm on the real code
    def counterexample(self, inputs, label, exc=None):
        k = self.ce_tries[label] = self.ce_tries.get(label, 0) + 1
        if k > 12:
            self.e.stats['nonreproduced'] += 1
            return False
        res = replay_forked(self.sc, inputs)
        if self.judge(res, inputs, label):
            return True
        self.e.stats['nonreproduced'] += 1
        self.e.note(f'counterexample did not reproduce on the real code: {label}'
                    + (f' ({res["exception"]})' if res.get('exception') else ''))
        if os.environ.get('SX_DEBUG'):
            print('NONREPRO', self.sc.name, label, inputs, res, file=sys.stderr)
        return False

    def judge(self, res, inputs, label):
        bad = None
        if res.get('died') or res.get('ended'):
            return False
        if res.get('timeout'):
            if not self.sc.hang:
                return False
            bad = res['failures'][0]
        elif res['failures']:
            bad = label if label in res['failures'] else res['failures'][0]
        elif res['exception']:
            bad = 'unexpected exception: ' + res['exception']
        if bad is None:
            return False
        v = {'property': self.sc.prop, 'scenario': self.sc.name, 'label': bad, 'inputs': {n: enc(x) for n, x in inputs.items()},
             'result': {k: res[k] for k in ('failures', 'exception')}}
        for kf in self.known:
            if kf['scenario'] == self.sc.name and bad.startswith(kf['label']) and all(
                    enc(inputs.get(n)) == x for n, x in kf.get('where', {}).items()):
                self.known_hits.append((kf['id'], bad))
                return True
        self.violations.append(v)
        raise self.core.Violation()

    def profile(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if '/src/gempakio/' in c.co_filename:
                self.funcs.add(c.co_filename.split('/src/')[1] + ':' + c.co_qualname)

    def run(self):
        from . import loader
        core, e, sc = self.core, self.e, self.sc
        t0 = time.time()

        world = loader.World(sc.overrides() if sc.overrides else None)

        def onalarm(sig, frm):
            raise PathTimeout()
        signal.signal(signal.SIGALRM, onalarm)
        if os.environ.get('SX_STACK'):
            import faulthandler
            faulthandler.dump_traceback_later(float(os.environ['SX_STACK']))
        npaths = 0
        rng = random.Random(self.e.seed)
        sys.setrecursionlimit(20000)
        while e.work:
            if time.time() > e.deadline or npaths >= e.max_paths:
                self.budget_hit = True
                break
            # mostly depth first, sometimes a random older alternative, so that a budget
            # that runs out has still been spread over the space
            if npaths % 2 and len(e.work) > 2:
                i = rng.randrange(len(e.work))
                e.work[i], e.work[-1] = e.work[-1], e.work[i]
            prefix = e.work.pop()
            e.solver.push()
            e.reset_path(prefix)
            npaths += 1
            env = SymEnv(sc.params, e, world, self)
            validate = False
            why = None
            prof = npaths <= 4
            try:
                signal.setitimer(signal.ITIMER_REAL, max(20, e.deadline - time.time() + 20))
                if prof:
                    sys.setprofile(self.profile)
                try:
                    sc.fn(env)
                finally:
                    sys.setprofile(None)
                e.stats['paths'] += 1
                validate = self.validated + self.reached < sc.validate or (npaths % 97 == 0)
                self.reached += env.nchecks > 0
            except core.Infeasible:
                e.stats['infeasible'] += 1
            except core.StopPath:
                e.stats['stopped'] += 1
                self.reached += env.nchecks > 0
            except core.Unsupported as u:
                e.stats['unsupported'] += 1
                why = f'unsupported: {u}'
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
            except core.Budget:
                self.budget_hit = True
                e.note('time budget reached inside a path')
                why = 'budget'
            except core.Violation:
                break
            except (PathTimeout, RecursionError):
                why = 'path did not finish in time'
                e.stats['unsupported'] += 1
                if os.environ.get('SX_DEBUG'):
                    print('\n'.join(traceback.format_exc().splitlines()[:60]), file=sys.stderr)
            except Exception as x:
                sys.setprofile(None)
                e.stats['exceptions'] += 1
                tb = traceback.extract_tb(x.__traceback__)
                why = f'exception {type(x).__name__}: {str(x)[:160]} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
            finally:
                sys.setprofile(None)
                signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                if why is not None and why != 'budget':
                    self.errors[why] = self.errors.get(why, 0) + 1
                    if self.errors[why] <= 6:
                        self.fallback(why)
                elif validate:
                    self.validate(env)
            except core.Violation:
                break
            except core.Budget:
                self.budget_hit = True
            finally:
                e.solver.pop()
            if self.budget_hit and why == 'budget':
                break
        complete = (not e.work and not self.budget_hit and not e.stats['unsupported'] and not e.stats['inconclusive']
                    and not e.stats['unknown_branches'] and not e.stats['nonreproduced']
                    and not e.stats['exceptions'] and not self.violations)
        if e.sites:
            for k, n in sorted(e.sites.items(), key=lambda x: -x[1])[:25]:
                print(f'    fork {n:5d} {k}', file=sys.stderr)
        return dict(scenario=sc.name, property=sc.prop, params={k: str(v) for k, v in sc.params.items()}, bounds=sc.bounds,
                    stats=e.stats, notes=e.notes, errors=self.errors, violations=self.violations,
                    known=self.known_hits, complete=bool(complete), reached=self.reached,
                    pending=len(e.work), validated=self.validated, samples=self.samples,
                    funcs=sorted(self.funcs), wall=round(time.time() - t0, 2))

    def model_inputs(self):
        m = self.e.path_model()
        if m is None:
            return None
        return self.e.extract(m), m

    def fallback(self, why):
        """Path the engine could not finish: run its representative on the real code."""
        try:
            r = self.model_inputs()
        except self.core.Unsupported:
            return
        if r is None:
            return
        res = replay_forked(self.sc, r[0])
        if self.judge(res, r[0], why):
            return
        self.e.note(f'path replayed concretely instead ({why})')

    def validate(self, env):
        try:
            r = self.model_inputs()
            if r is None:
                return
            inputs, m = r
            exp = [(n, self.core.concrete_value(v, m)) for n, v in env.observed]
        except self.core.Unsupported:
            return
        res = replay_forked(self.sc, inputs)
        if self.judge(res, inputs, 'concrete replay of a proved path'):
            return
        if res.get('ended') or res.get('died') or res.get('exception'):
            self.e.note('validation replay ended early: ' + str(res.get('exception') or 'assumption'))
            return
        ok = True
        got = res['observed']
        for (n, a), (n2, b) in zip(exp, got):
            if n != n2 or not same(norm(a), dec(b)):
                ok = False
                self.e.note(f'validation mismatch for {n}: predicted {a!r}, real {dec(b)!r}'[:200])
        if ok:
            self.validated += 1
            self.e.stats['validated'] += 1
            if len(self.samples) < 3:
                self.samples.append({k: repr(v)[:80] for k, v in list(inputs.items())[:14]})
        else:
            self.e.stats['validation_mismatch'] += 1


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(norm(x), norm(y)) for x, y in zip(a, b))
    return a == b
