"""Regular expressions over symbolic strings (backtracking matcher on Python's own parse tree)."""
import re as _re
import re._constants as C
import re._parser as P

from . import core
from .core import And, Not, Or, Unsupported
from .strx import SymStr, ch_isspace, chars_of, code, in_range, join, mkstr


def _conc(s):
    return s.concretize() if type(s) is SymStr else s


def cat_test(cat, c):
    n = str(cat)
    neg = 'NOT_' in n
    if 'DIGIT' in n:
        r = in_range(c, 48, 57)
    elif 'SPACE' in n:
        r = ch_isspace(c)
    elif 'WORD' in n:
        r = Or(in_range(c, 48, 57), in_range(c, 65, 90), in_range(c, 97, 122), in_range(c, 95, 95))
    else:
        raise Unsupported(f'regex category {n}')
    return Not(r) if neg else r


def lit(c, v, ic):
    if ic and chr(v).lower() != chr(v).upper():
        return Or(in_range(c, ord(chr(v).lower()), ord(chr(v).lower())), in_range(c, ord(chr(v).upper()), ord(chr(v).upper())))
    return in_range(c, v, v)


def in_test(items, c, ic):
    neg, rs = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            rs.append(lit(c, av, ic))
        elif op is C.RANGE:
            rs.append(in_range(c, *av))
            if ic:
                lo, hi = av
                for f in (str.lower, str.upper):
                    a, b = ord(f(chr(lo))), ord(f(chr(hi)))
                    rs.append(in_range(c, a, b))
        elif op is C.CATEGORY:
            rs.append(cat_test(av, c))
        else:
            raise Unsupported(f'regex set item {op}')
    r = Or(*rs)
    return Not(r) if neg else r


class Matcher:
    def __init__(self, tree, flags, cs):
        self.tree, self.flags, self.cs = tree, flags, cs
        self.ic = bool(flags & _re.I)

    def run(self, nodes, k, i, g):
        """Yield (end, groups) for nodes[k:] from position i."""
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        cs = self.cs
        n = len(cs)
        if op is C.LITERAL:
            if i < n and bool(lit(cs[i], av, self.ic)):
                yield from self.run(nodes, k + 1, i + 1, g)
        elif op is C.NOT_LITERAL:
            if i < n and bool(Not(lit(cs[i], av, self.ic))):
                yield from self.run(nodes, k + 1, i + 1, g)
        elif op is C.ANY:
            if i < n and (self.flags & _re.S or bool(Not(in_range(cs[i], 10, 10)))):
                yield from self.run(nodes, k + 1, i + 1, g)
        elif op is C.IN:
            if i < n and bool(in_test(av, cs[i], self.ic)):
                yield from self.run(nodes, k + 1, i + 1, g)
        elif op is C.AT:
            if self.at(av, i):
                yield from self.run(nodes, k + 1, i, g)
        elif op is C.SUBPATTERN:
            gid, add, rem, sub = av
            for e, g2 in self.run(list(sub), 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, e)
                yield from self.run(nodes, k + 1, e, g2)
        elif op is C.BRANCH:
            for alt in av[1]:
                for e, g2 in self.run(list(alt), 0, i, g):
                    yield from self.run(nodes, k + 1, e, g2)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = n + 1 if hi is C.MAXREPEAT else hi
            yield from self.rep(nodes, k, i, g, list(sub), lo, hi, 0, op is C.MAX_REPEAT)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = sub.getwidth()[0]
                m = next((x for x in self.run(list(sub), 0, i - w, g) if x[0] == i), None) if i >= w else None
            else:
                m = next(self.run(list(sub), 0, i, g), None)
            if (m is not None) == (op is C.ASSERT):
                yield from self.run(nodes, k + 1, i, m[1] if m else g)
        elif op is C.GROUPREF:
            a, b = g.get(av, (None, None))
            if a is not None:
                seg = cs[a:b]
                if i + len(seg) <= n and bool(And(*[code(x) == code(y) for x, y in zip(seg, cs[i:i + len(seg)])])):
                    yield from self.run(nodes, k + 1, i + len(seg), g)
        else:
            raise Unsupported(f'regex op {op}')

    def rep(self, nodes, k, i, g, sub, lo, hi, cnt, greedy):
        if cnt < lo:
            for e, g2 in self.run(sub, 0, i, g):
                yield from self.rep(nodes, k, e, g2, sub, lo, hi, cnt + 1, greedy)
            return
        if not greedy:
            yield from self.run(nodes, k + 1, i, g)
        if cnt < hi:
            for e, g2 in self.run(sub, 0, i, g):
                if e > i:
                    yield from self.rep(nodes, k, e, g2, sub, lo, hi, cnt + 1, greedy)
        if greedy:
            yield from self.run(nodes, k + 1, i, g)

    def at(self, av, i):
        n = len(self.cs)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & _re.M and i > 0:
                return bool(in_range(self.cs[i - 1], 10, 10))
            return i == 0
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if self.flags & _re.M or i == n - 1:
                return bool(in_range(self.cs[i], 10, 10))
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = lambda j: 0 <= j < n and bool(cat_test('WORD', self.cs[j]))
            return (w(i - 1) != w(i)) == (av is C.AT_BOUNDARY)
        raise Unsupported(f'regex anchor {av}')


class Match:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups
        self.pos, self.endpos = 0, len(s)

    def _one(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k == 0:
            return self.string[self._s:self._e]
        if k > self.re.groups:
            raise IndexError('no such group')
        if k not in self._g:
            return None
        a, b = self._g[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)
    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(k) is None else self._one(k) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._one(k) is None else self._one(k)) for n, k in self.re.groupindex.items()}

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def span(self, k=0):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k == 0:
            return self._s, self._e
        return self._g.get(k, (-1, -1))

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, real):
        self.real = real
        self.pattern, self.flags = real.pattern, real.flags
        self.groups, self.groupindex = real.groups, real.groupindex
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(P.parse(self.pattern, self.flags & ~_re.UNICODE))
        return self._tree

    def _at(self, s, i, full=False):
        cs = chars_of(s)
        m = Matcher(self.tree, self.flags, cs)
        for e, g in m.run(self.tree, 0, i, {}):
            if full and e != len(cs):
                continue
            return Match(self, s, i, e, g)
        return None

    def match(self, s, pos=0, *a):
        if type(s) is not SymStr:
            return self.real.match(s, pos, *a)
        return self._at(s, pos)

    def fullmatch(self, s):
        if type(s) is not SymStr:
            return self.real.fullmatch(s)
        return self._at(s, 0, True)

    def search(self, s, pos=0):
        if type(s) is not SymStr:
            return self.real.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self._at(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        if type(s) is not SymStr:
            yield from self.real.finditer(s)
            return
        i, last_empty_ok = 0, True
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                return
            yield m
            i = m._e if m._e > m._s else m._e + 1

    def findall(self, s):
        if type(s) is not SymStr:
            return self.real.findall(s)
        return [m.group(0) if not self.groups else m.group(1) if self.groups == 1 else m.groups() for m in self.finditer(s)]

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[i:m._s])
            out.extend(m.groups())
            i = m._e
            n += 1
        out.append(s[i:])
        return out

    def sub(self, repl, s, count=0):
        if type(s) is not SymStr:
            return self.real.sub(repl, s, count)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[i:m._s])
            if callable(repl):
                out.append(repl(m))
            elif '\\' in repl:
                raise Unsupported('regex template')
            else:
                out.append(repl)
            i = m._e
            n += 1
        out.append(s[i:])
        return join('', out)


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    p = _conc(p)
    if isinstance(p, _re.Pattern):
        return Pattern(p)
    r = _re.compile(p, flags)
    if isinstance(p, bytes):
        return r
    return Pattern(r)


class re_mod:
    Pattern = Pattern
    Match = Match
    error = _re.error
    I = IGNORECASE = _re.I
    M = MULTILINE = _re.M
    S = DOTALL = _re.S
    X = VERBOSE = _re.X
    A = ASCII = _re.A
    U = UNICODE = _re.U
    compile = staticmethod(compile)
    escape = staticmethod(lambda s: _re.escape(_conc(s)))

    @staticmethod
    def match(p, s, flags=0):
        return compile(p, flags).match(s)

    @staticmethod
    def search(p, s, flags=0):
        return compile(p, flags).search(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return compile(p, flags).fullmatch(s)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return compile(p, flags).split(s, maxsplit)

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return compile(p, flags).sub(r, s, count)

    @staticmethod
    def findall(p, s, flags=0):
        return compile(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return compile(p, flags).finditer(s)
