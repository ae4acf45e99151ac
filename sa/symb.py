"""Value domain of the dataflow analysis: rational functions over interned atoms (value numbers).

An Expr is num / product(den factors); polynomials are dicts monomial -> Fraction, a monomial is a sorted tuple of
(atom id, exponent).  Two values are equal iff the numerator of their difference vanishes; joins are gated (`ite`) atoms,
reductions over a symbolic range are `sum` atoms.  `top` atoms stand for "nothing known".
"""
from fractions import Fraction as Fr
from fractions import Fraction
import mpmath as mp
mp.mp.dps = 60
import itertools
import struct as _struct

ATOMS = []
_tab = {}


class Atom:
    __slots__ = ('i', 'kind', 'd', 'top', 'rk', 'bvs', 'isint', 'inner')

    def __repr__(self):
        return astr(self)


def _intern(kind, key, d, isint=False):
    k = (kind, key)
    a = _tab.get(k)
    if a is None:
        a = Atom()
        a.i = len(ATOMS)
        a.kind = kind
        a.d = d
        a.top = kind == 'top'
        a.rk = None
        a.isint = isint
        a.inner = None
        ATOMS.append(a)
        _tab[k] = a
    return a


class Undecided(Exception):
    pass


ONE_M = ()


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m)
            c = c1 * c2
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    if len(r) > 60000:
        raise Undecided('polynomial too large')
    return r


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    _mm[k] = r
    return r


def mdiv(a, b):
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0)
        if v < e:
            return None
        if v == e:
            del d[x]
        else:
            d[x] = v - e
    return tuple(sorted(d.items()))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        c = c * s
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pdiv_exact(n, d):
    """exact division of polynomials, None when it does not divide"""
    if len(d) == 1:
        (m, c), = d.items()
        r = {}
        for mm, cc in n.items():
            q = mdiv(mm, m)
            if q is None:
                return None
            r[q] = cc / c
        return r
    # multivariate division with a graded order
    lt = max(d, key=_mord)
    lc = d[lt]
    n = dict(n)
    q = {}
    steps = 0
    while n:
        steps += 1
        if steps > 400:
            return None
        m = max(n, key=_mord)
        t = mdiv(m, lt)
        if t is None:
            return None
        c = n[m] / lc
        q[t] = c
        n = padd(n, pmul({t: c}, d), -1)
    return q


_mo = {}


def _mord(m):
    r = _mo.get(m)
    if r is None:
        # graded lexicographic (atoms of lower id first), as a comparable tuple
        r = (sum(e for _, e in m), tuple(x for a, e in m for x in (-a, e)))
        _mo[m] = r
    return r


OPAQUE = [False]     # keep quotients as written: no cancellation, so that a division by zero stays visible


class Expr:
    __slots__ = ('n', 'd', '_k', '_at')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d  # tuple of (polykey, power), sorted
        self._k = None
        self._at = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.n), self.d)
        return self._k

    def const(self):
        if not self.n:
            return Fr(0)
        if not self.d and len(self.n) == 1 and ONE_M in self.n:
            return self.n[ONE_M]
        return None

    def iconst(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def atoms(self):
        if self._at is None:
            s = set()
            for m in self.n:
                for a, _ in m:
                    s.add(a)
            for pk, _ in self.d:
                for m, _c in pk:
                    for a, _e in m:
                        s.add(a)
            self._at = frozenset(s)
        return self._at

    def __add__(self, o):
        o = E(o)
        if not self.n:
            return o
        if not o.n:
            return self
        if self.d == o.d:
            return norm(padd(self.n, o.n), self.d)
        f1 = dict(self.d)
        f2 = dict(o.d)
        a, b = self.n, o.n
        l = dict(f1)
        for k, e in f2.items():
            if l.get(k, 0) < e:
                l[k] = e
        for k, e in l.items():
            for _ in range(e - f1.get(k, 0)):
                a = pmul(a, dict(k))
            for _ in range(e - f2.get(k, 0)):
                b = pmul(b, dict(k))
        return norm(padd(a, b), tuple(sorted(l.items())))

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) - self

    def __mul__(self, o):
        o = E(o)
        if not self.n or not o.n:
            return ZERO
        n = pmul(self.n, o.n)
        if not self.d and not o.d:
            return norm(n, ())
        f = dict(self.d)
        for k, e in o.d:
            f[k] = f.get(k, 0) + e
        return norm(n, tuple(sorted(f.items())))

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise Undecided('division by zero value')
        n = {ONE_M: Fr(1)}
        for k, e in self.d:
            for _ in range(e):
                n = pmul(n, dict(k))
        # factor numerator: monomial content * primitive
        fs = {}
        c, mono, prim = content(self.n)
        for a, e in mono:
            fs[(((((a, 1),)), Fr(1)),)] = e
        if prim is not None:
            fs[pkey(prim)] = 1
        n = {m: x / c for m, x in n.items()}
        return norm(n, tuple(sorted(fs.items())))

    def __truediv__(self, o):
        o = E(o)
        c = o.const()
        if c is not None:
            if c == 0:
                return fn('divzero', self)      # not a number of the reals: equal to no required value
            return Expr({m: x / c for m, x in self.n.items()}, self.d)
        if OPAQUE[0]:
            return self * fn('inv', o)
        return self * o.inv()

    def __rtruediv__(self, o):
        return E(o) / self

    def __pow__(self, k):
        if k < 0:
            return (self ** (-k)).inv()
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def __repr__(self):
        return estr(self)


def content(p):
    """p = c * monomial * primitive; primitive None when p is a single term"""
    ms = list(p)
    mono = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(mono):
            e = min(mono[a], d.get(a, 0))
            if e:
                mono[a] = e
            else:
                del mono[a]
        if not mono:
            break
    mono = tuple(sorted(mono.items()))
    lm = max(p, key=_mord)
    c = p[lm]
    if len(p) == 1:
        return c, mono, None
    prim = {mdiv(m, mono): x / c for m, x in p.items()}
    return c, mono, prim


def norm(n, d):
    """reduce sqrt powers and cancel denominators"""
    if not n:
        return ZERO
    # sqrt reduction
    red = None
    for m in n:
        for a, e in m:
            if e >= 2 and ATOMS[a].rk is not None:
                red = a
                break
        if red is not None:
            break
    if red is not None:
        arg = ATOMS[red].rk
        keep = {}
        acc = ZERO
        for m, c in n.items():
            e = 0
            for a, x in m:
                if a == red:
                    e = x
            if e >= 2:
                rest = tuple((a, x) for a, x in m if a != red)
                if e % 2:
                    rest = mmul(rest, ((red, 1),))
                acc = acc + norm({rest: c}, ()) * (arg ** (e // 2))
            else:
                keep[m] = c
        r = norm(keep, ()) + acc
        if not d:
            return r
        return r * Expr({ONE_M: Fr(1)}, d)
    if d:
        f = None
        for k, e in d:
            # a den factor whose own atoms are sqrt with power is left alone
            dk = None
            cnt = 0
            while cnt < e:
                if dk is None:
                    dk = dict(k)
                q = pdiv_exact(n, dk)
                if q is None:
                    break
                n = q
                cnt += 1
            if cnt:
                if f is None:
                    f = dict(d)
                f[k] = e - cnt
                if f[k] == 0:
                    del f[k]
        if f is not None:
            d = tuple(sorted(f.items()))
    return Expr(n, d)


ZERO = Expr({}, ())
ONE = Expr({ONE_M: Fr(1)}, ())


def num(c):
    c = Fr(c)
    if c == 0:
        return ZERO
    return Expr({ONE_M: c}, ())


def E(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, (int, Fr)):
        return num(x)
    raise TypeError('not numeric: %r' % (x,))


def of_atom(a):
    return Expr({((a.i, 1),): Fr(1)}, ())


def sym(name, isint=False):
    return of_atom(_intern('sym', name, name, isint))


_cnt = itertools.count()


def fresh(name, isint=False):
    return sym('%s#%d' % (name, next(_cnt)), isint)


def top(why=''):
    n = next(_cnt)
    return of_atom(_intern('top', n, why))


def cell(view, idx):
    return of_atom(_intern('cell', (view, tuple(i.key() for i in idx)), (view, tuple(idx))))


def as_atom(e):
    """the atom when e is exactly one atom"""
    if not e.d and len(e.n) == 1:
        (m, c), = e.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


# ---- function atoms: interned up to semantic equality of arguments
_fns = {}


def fn(name, *args):
    args = [E(a) for a in args]
    r = _simp(name, args)
    if r is not None:
        return r
    return of_atom(_fnatom(name, tuple(args)))


def _fnatom(name, args):
    k = ('fn', (name, tuple(a.key() for a in args)))
    a = _tab.get(k)
    if a is not None:
        return a
    sig = (name, len(args))
    lst = _fns.setdefault(sig, [])
    if len(lst) < 400:
        for oa, at in lst:
            if all((x is y) or not (x - y).n for x, y in zip(oa, args)):
                _tab[k] = at
                return at
    at = _intern('fn', k[1], (name, args), isint=name in ('idiv', 'imod', 'ext', 'floor_i'))
    if name == 'sqrt':
        at.rk = args[0]
    lst.append((args, at))
    return at


def _simp(name, a):
    if name == 'sqrt':
        c = a[0].const()
        if c is not None and c >= 0:
            import math
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return num(Fr(p, q))
            # pull square factors out of rational constants: sqrt(p/q) = sqrt(p*q)/q
            v = c.numerator * c.denominator
            out = 1
            f = 2
            while f * f <= v and f < 1000:
                while v % (f * f) == 0:
                    v //= f * f
                    out *= f
                f += 1
            if Fr(v) != c:
                return num(Fr(out, c.denominator)) * fn('sqrt', num(v))
            return None
        # perfect-square constant content: sqrt(c^2 e) = c sqrt(e)
        if not a[0].n:
            return ZERO
        c, mono, prim = content(a[0].n)
        if c > 0 and c != 1:
            s = fn('sqrt', num(c))
            return s * fn('sqrt', a[0] / num(c))
        return None
    if name == 'abs':
        return ite(cmp(a[0], '>='), a[0], -a[0])
    if name == 'max':
        return ite(cmp(a[0] - a[1], '<'), a[1], a[0])
    if name == 'min':
        return ite(cmp(a[1] - a[0], '<'), a[1], a[0])
    if name == 'pow':
        c = a[1].const()
        if c is not None:
            if c.denominator == 1 and abs(c) <= 8:
                return a[0] ** int(c)
            if c == Fr(1, 2):
                return fn('sqrt', a[0])
            if c == Fr(-1, 2):
                return fn('sqrt', a[0]).inv()
            if c == Fr(3, 2):
                return a[0] * fn('sqrt', a[0])
        b = a[0].const()
        if b is not None and b == 1:
            return ONE
        return None
    if name in ('exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sinh', 'cosh', 'asin', 'acos', 'atan'):
        c = a[0].const()
        if c == 0 and name in ('sin', 'tan', 'tanh', 'sinh', 'asin', 'atan'):
            return ZERO
        if c == 0 and name in ('cos', 'cosh', 'exp'):
            return ONE
        if c == 1 and name == 'log':
            return ZERO
        if name == 'exp' and a[0].n[max(a[0].n, key=_mord)] < 0:
            return fn('exp', -a[0]).inv()
        # odd / even symmetry, canonical leading sign
        if c is None and name in ('sin', 'tan', 'tanh', 'sinh', 'atan', 'asin', 'cos', 'cosh'):
            lc = a[0].n[max(a[0].n, key=_mord)]
            if lc < 0:
                r = fn(name, -a[0])
                return r if name in ('cos', 'cosh') else -r
        return None
    if name == 'idiv':
        x, y = a
        cx, cy = x.iconst(), y.iconst()
        if cx is not None and cy:
            q = abs(cx) // abs(cy)
            return num(q if (cx >= 0) == (cy > 0) else -q)
        if cy == 1:
            return x
        if cy == 0:
            return fn('divzero', x)
        return _idivmod(x, y, True)
    if name == 'imod':
        x, y = a
        cx, cy = x.iconst(), y.iconst()
        if cx is not None and cy:
            q = abs(cx) // abs(cy)
            q = q if (cx >= 0) == (cy > 0) else -q
            return num(cx - q * cy)
        if cy == 1:
            return ZERO
        if cy == 0:
            return fn('divzero', x)
        return _idivmod(x, y, False)
    return None


# ranges of integer atoms: atom id -> (lo Expr, hi Expr) meaning lo <= a < hi ; all non-negative
RANGES = {}


def _idivmod(x, y, div):
    """(k*y + r) div/mod y with 0 <= r < y"""
    if x.d or y.d:
        return None
    q = pdiv_floor(x, y)
    if q is None:
        return None
    quo, rem = q
    if not quo.n and not rem.n:
        return ZERO
    if not quo.n:
        if in_range(rem, y):
            return ZERO if div else rem
        return None
    if not rem.n or in_range(rem, y):
        return quo if div else rem
    if div:
        return None
    return None


def pdiv_floor(x, y):
    """split x = quo*y + rem by monomials, integer coefficients"""
    cy = y.iconst()
    quo, rem = {}, {}
    if cy is not None:
        if cy <= 0:
            return None
        for m, c in x.n.items():
            if c.denominator != 1:
                return None
            if m == ONE_M:
                k = int(c) // cy
                r = int(c) - k * cy
                if k:
                    quo[m] = Fr(k)
                if r:
                    rem[m] = Fr(r)
            elif int(c) % cy == 0:
                quo[m] = c / cy
            else:
                rem[m] = c
        return Expr(quo), Expr(rem)
    if len(y.n) == 1:
        (my, c), = y.n.items()
        if c != 1:
            return None
        for m, cc in x.n.items():
            t = mdiv(m, my)
            if t is None:
                rem[m] = cc
            else:
                quo[t] = cc
        return Expr(quo), Expr(rem)
    return None


def in_range(r, y):
    """0 <= r < y provable from constant facts and variable ranges"""
    c, cy = r.iconst(), y.iconst()
    if c is not None:
        return cy is not None and 0 <= c < cy
    lo, hi = bounds(r)
    if lo is not None and lo >= 0 and hi is not None and cy is not None and hi < cy:
        return True
    a = as_atom(r)
    if a is not None and a.i in RANGES:
        l, h = RANGES[a.i]
        return h is not None and l.const() is not None and l.const() >= 0 and not (h - y).n
    return False


def bounds(e):
    """constant bounds (inclusive) of an affine integer expression from RANGES"""
    if e.d:
        return None, None
    lo = hi = Fr(0)
    for m, c in e.n.items():
        if m == ONE_M:
            lo = lo + c if lo is not None else None
            hi = hi + c if hi is not None else None
            continue
        l = h = None
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            r = RANGES.get(a.i)
            if r:
                l = r[0].const()
                h = r[1].const() if r[1] is not None else None
                h = h - 1 if h is not None else None
            elif a.kind == 'fn' and a.d[0] == 'ext':
                l = Fr(0)
        else:
            # a product of quantities that cannot be negative
            l = Fr(1)
            for ai, ex in m:
                a = ATOMS[ai]
                r = RANGES.get(ai)
                x = r[0].const() if r else (Fr(0) if a.kind == 'fn' and a.d[0] == 'ext' else None)
                if x is None or x < 0 or ex < 0:
                    l = None
                    break
                l = l * x ** ex
        if c > 0:
            l2, h2 = l, h
        else:
            l2, h2 = h, l
        lo = lo + c * l2 if lo is not None and l2 is not None else None
        hi = hi + c * h2 if hi is not None and h2 is not None else None
    return lo, hi


# ---- conditions: True/False, ('c', Expr p, signset) with p canonical, ('not',x) ('and',x,y) ('or',x,y), ('b', atom)
FULL = frozenset('-0+')


def cmp(p, op):
    p = E(p)
    ss = {'<': '-', '<=': '-0', '>': '+', '>=': '0+', '==': '0', '!=': '-+'}[op]
    return mkc(p, frozenset(ss))


def mkc(p, ss):
    c = p.const()
    if c is not None:
        s = '0' if c == 0 else ('+' if c > 0 else '-')
        return s in ss
    if not ss:
        return False
    if ss == FULL:
        return True
    if not p.d and len(p.n) <= 2:
        ms = [m for m in p.n if m != ONE_M]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ATOMS[ms[0][0][0]].kind == 'ite':
            cc, xa, xb = ATOMS[ms[0][0][0]].d
            xa, xb = xa.const(), xb.const()
            if xa is not None and xb is not None:
                k0, m0 = p.n.get(ONE_M, 0), p.n[ms[0]]
                r1, r2 = (mkc(num(k0 + m0 * x), ss) for x in (xa, xb))
                return r1 if r1 == r2 else (cc if r1 else cnot(cc))
    # integer ranges
    lo, hi = bounds(p) if all(ATOMS[a].isint or a in RANGES for a in p.atoms()) else (None, None)
    if lo is not None or hi is not None:
        poss = set()
        if lo is None or lo < 0:
            poss.add('-')
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            poss.add('0')
        if hi is None or hi > 0:
            poss.add('+')
        if poss <= ss:
            return True
        if not (poss & ss):
            return False
        if '-' not in poss:
            ss = ss | {'-'} if not (ss >= {'0', '+'}) else ss
            # normalise: without '-' possible, only the split of {0,+} matters
            if ss & {'0', '+'} == {'0'}:
                ss = frozenset('0')
            elif ss & {'0', '+'} == {'+'}:
                ss = frozenset('-+')
    n = p.n
    if p.d:
        # sign(n/d) = sign(n*d) for d != 0
        q = Expr(p.n)
        for k, e in p.d:
            if e % 2:
                q = q * Expr(dict(k))
        n = q.n
        if q.d:
            n = p.n
    lm = max(n, key=_mord)
    c = n[lm]
    if c < 0:
        ss = frozenset({'-': '+', '+': '-', '0': '0'}[x] for x in ss)
    p = Expr({m: x / c for m, x in n.items()}, p.d if p.d and n is p.n else ())
    neg = False
    if '-' in ss:
        ss = FULL - ss
        neg = True
    r = ('c', p, ss)
    return ('not', r) if neg else r


def boolsym(name):
    """an uninterpreted boolean: the sign of a dedicated symbol"""
    return ('c', sym('?' + name), frozenset('+'))


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if ckey(a) == ckey(b):
        return a
    if ckey(a) == ckey(cnot(b)):
        return False
    return ('and', a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def ckey(c):
    if c is True or c is False:
        return c
    if c[0] == 'c':
        return ('c', c[1].key(), c[2])
    return (c[0],) + tuple(ckey(x) for x in c[1:])


def catoms(c, out=None):
    if out is None:
        out = set()
    if c is True or c is False:
        return out
    if c[0] == 'c':
        out |= c[1].atoms()
    else:
        for x in c[1:]:
            catoms(x, out)
    return out


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    a, b = E(a), E(b)
    if a is b or not (a - b).n:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'and':
        return ite(c[1], ite(c[2], a, b), b)
    if c[0] == 'or':
        return ite(c[1], a, ite(c[2], a, b))
    # under the condition, equal conditions inside are known
    a = assume(a, c[1], c[2])
    b = assume(b, c[1], FULL - c[2])
    if not (a - b).n:
        return a
    at = _intern('ite', (c[1].key(), c[2], a.key(), b.key()), (c, a, b))
    return of_atom(at)


def restrict_cond(c, p, ss):
    """simplify condition c knowing sign(p) in ss"""
    if c is True or c is False:
        return c
    if c[0] == 'c':
        if c[1].key() == p.key():
            if ss <= c[2]:
                return True
            if not (ss & c[2]):
                return False
            return c
        return c
    if c[0] == 'not':
        return cnot(restrict_cond(c[1], p, ss))
    x, y = restrict_cond(c[1], p, ss), restrict_cond(c[2], p, ss)
    return cand(x, y) if c[0] == 'and' else cor(x, y)


def inner_atoms(aid, memo={}):
    """transitive atoms"""
    r = memo.get(aid)
    if r is not None:
        return r
    a = ATOMS[aid]
    s = {aid}
    if a.kind == 'fn':
        for x in a.d[1]:
            for y in x.atoms():
                s |= inner_atoms(y)
    elif a.kind == 'ite':
        c, x, y = a.d
        for z in (c[1], x, y):
            for w in z.atoms():
                s |= inner_atoms(w)
    elif a.kind == 'sum':
        bv, lo, hi, t = a.d
        for z in (lo, hi, t):
            for w in z.atoms():
                s |= inner_atoms(w)
    elif a.kind == 'cell':
        for z in a.d[1]:
            for w in z.atoms():
                s |= inner_atoms(w)
    r = frozenset(s)
    memo[aid] = r
    return r


def all_atoms(e):
    s = set()
    for a in e.atoms():
        s |= inner_atoms(a)
    return s


def has_top(e):
    return any(ATOMS[a].top for a in all_atoms(e))


def subst(e, f, memo=None):
    """rebuild e with f(atom) -> Expr or None (None: rebuild structurally)"""
    if memo is None:
        memo = {}

    def atom(aid):
        if aid in memo:
            return memo[aid]
        a = ATOMS[aid]
        r = f(a)
        if r is None:
            if a.kind == 'fn':
                na = [ex(x) for x in a.d[1]]
                r = of_atom(a) if all(x is y for x, y in zip(na, a.d[1])) else fn(a.d[0], *na)
            elif a.kind == 'ite':
                c, x, y = a.d
                np, nx, ny = ex(c[1]), ex(x), ex(y)
                r = of_atom(a) if np is c[1] and nx is x and ny is y else ite(mkc(np, c[2]), nx, ny)
            elif a.kind == 'cell':
                ni = [ex(x) for x in a.d[1]]
                r = of_atom(a) if all(x is y for x, y in zip(ni, a.d[1])) else cell(a.d[0], ni)
            elif a.kind == 'sum':
                bv, lo, hi, t = a.d
                nl, nh, nt = ex(lo), ex(hi), ex(t)
                r = of_atom(a) if nl is lo and nh is hi and nt is t else mksum(bv, nl, nh, nt)
            else:
                r = of_atom(a)
        memo[aid] = r
        return r

    def ex(x):
        ch = False
        for aid in x.atoms():
            r = atom(aid)
            if as_atom(r) is not ATOMS[aid]:
                ch = True
        if not ch:
            return x
        n = psub(x.n)
        for k, e_ in x.d:
            dd = psub(dict(k))
            for _ in range(e_):
                n = n / dd
        return n

    def psub(p):
        acc = ZERO
        for m, c in p.items():
            t = num(c)
            for aid, e_ in m:
                t = t * (memo[aid] ** e_)
            acc = acc + t
        return acc

    return ex(e)


def subst_atom(e, at, val):
    if at.i not in all_atoms(e):
        return e
    return subst(e, lambda a: val if a is at else None)


def csubst(c, f):
    if c is True or c is False:
        return c
    if c[0] == 'c':
        return mkc(subst(c[1], f), c[2])
    if c[0] == 'not':
        return cnot(csubst(c[1], f))
    x, y = csubst(c[1], f), csubst(c[2], f)
    return cand(x, y) if c[0] == 'and' else cor(x, y)


def assume(e, p, ss):
    """simplify e knowing sign(p) in ss"""
    its = [a for a in all_atoms(e) if ATOMS[a].kind == 'ite']
    pk = p.key()
    if not any(ATOMS[a].d[0][1].key() == pk for a in its):
        return e

    def f(a):
        if a.kind == 'ite':
            c, x, y = a.d
            if c[1].key() == pk:
                if ss <= c[2]:
                    return assume(x, p, ss)
                if not (ss & c[2]):
                    return assume(y, p, ss)
        return None

    return subst(e, f)


def assume_zero(e, p):
    """simplify e knowing p == 0: solve for an atom that occurs linearly"""
    e = assume(e, p, frozenset('0'))
    for m, c in sorted(p.n.items(), key=lambda t: -len(t[0])):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            at = ATOMS[a]
            if at.kind in ('sym', 'cell'):
                rest = Expr({mm: cc for mm, cc in p.n.items() if mm != m})
                if a in all_atoms(rest):
                    continue
                return subst_atom(e, at, -(rest / num(c)))
    return e


def mksum(bv, lo, hi, t):
    """sum_{bv=lo}^{hi-1} t ; bv is an Atom"""
    if not t.n:
        return ZERO
    n = hi - lo
    nc = n.iconst()
    if bv.i not in all_atoms(t):
        if nc is not None and nc <= 0:
            return ZERO
        return t * n
    if nc is not None and nc <= 64:
        acc = ZERO
        for k in range(max(nc, 0)):
            acc = acc + subst_atom(t, bv, lo + k)
        return acc
    # separate monomials, pull out factors that do not depend on bv
    acc = ZERO
    dfree = True
    for k, e in t.d:
        for m, _ in k:
            for a, _e in m:
                if bv.i in inner_atoms(a):
                    dfree = False
    if not dfree:
        return of_atom(_sumatom(bv, lo, hi, t))
    den = Expr({ONE_M: Fr(1)}, t.d)
    for m, c in t.n.items():
        ins, outs = [], []
        for a, e in m:
            (ins if bv.i in inner_atoms(a) else outs).append((a, e))
        o = Expr({tuple(outs): c})
        if not ins:
            acc = acc + o * n
        else:
            acc = acc + o * of_atom(_sumatom(bv, lo, hi, Expr({tuple(ins): Fr(1)})))
    return acc * den


def bvatom(depth):
    return _intern('sym', '$b%d' % depth, '$b%d' % depth, True)


def _depth(e):
    d = 0
    for a in all_atoms(e):
        at = ATOMS[a]
        if at.kind == 'sum':
            d = max(d, int(at.d[0].d[2:]) + 1)
    return d


def _sumatom(bv, lo, hi, t):
    nb = bvatom(_depth(t))
    if nb is not bv:
        t = subst_atom(t, bv, of_atom(nb))
    return _intern('sum', (nb.i, lo.key(), hi.key(), t.key()), (nb, lo, hi, t))


# ---- decision of equality with gated joins
class Budget:
    def __init__(self, n):
        self.n = n


def outer_cond(e):
    """an innermost-free ite condition of e"""
    best = None
    for a in all_atoms(e):
        at = ATOMS[a]
        if at.kind == 'ite':
            p = at.d[0][1]
            k = len(p.n) + 10 * sum(1 for x in all_atoms(p) if ATOMS[x].kind == 'ite')
            if best is None or (k, a) < best[0]:
                best = ((k, a), p)
    return best and best[1]


def equal(a, b, facts=(), budget=None):
    """True / False / None(undecided).  False: the value numbers differ as functions of the free atoms."""
    try:
        return _equal(E(a) - E(b), budget or Budget(600))
    except Undecided:
        return None


def _equal(d, bud):
    if not d.n:
        return True
    bud.n -= 1
    if bud.n < 0:
        return None
    p = outer_cond(d)
    if p is None:
        if has_top(d):
            return None
        return False
    res = True
    for s in '+-0':
        try:
            x = assume(d, p, frozenset(s))
            if s == '0':
                x = assume_zero(x, p)
        except Undecided:
            continue  # division by zero on that side: not a defined value
        r = _equal(x, bud)
        if r is False:
            if s == '0':
                # the borderline case may only be reachable with more facts; still a definite difference of value
                return False
            return False
        if r is None:
            res = None
    return res


def witness(d, limit=600):
    """a (conditions, difference) leaf where the difference is non-zero"""
    conds = []
    while True:
        p = outer_cond(d)
        if p is None:
            return conds, d
        for s in '+-0':
            try:
                x = assume(d, p, frozenset(s))
                if s == '0':
                    x = assume_zero(x, p)
            except Undecided:
                continue
            if _equal(x, Budget(limit)) is False:
                conds.append((p, s))
                d = x
                break
        else:
            return conds, d


def deriv(e, at, memo=None):
    """d e / d atom"""
    if memo is None:
        memo = {}

    def da(aid):
        if aid in memo:
            return memo[aid]
        a = ATOMS[aid]
        if a is at:
            r = ONE
        elif at.i not in inner_atoms(aid):
            r = ZERO
        elif a.kind == 'fn':
            nm, args = a.d
            x = args[0]
            s = of_atom(a)
            if nm == 'sqrt':
                r = deriv(x, at, memo) / (2 * s)
            elif nm == 'exp':
                r = s * deriv(x, at, memo)
            elif nm == 'log':
                r = deriv(x, at, memo) / x
            elif nm == 'sin':
                r = fn('cos', x) * deriv(x, at, memo)
            elif nm == 'cos':
                r = -fn('sin', x) * deriv(x, at, memo)
            elif nm == 'tanh':
                r = (ONE - s * s) * deriv(x, at, memo)
            elif nm == 'pow' and at.i not in all_atoms(args[1]):
                r = args[1] * fn('pow', x, args[1] - 1) * deriv(x, at, memo)
            else:
                raise Undecided('derivative of ' + nm)
        elif a.kind == 'ite':
            c, x, y = a.d
            r = ite(c, deriv(x, at, memo), deriv(y, at, memo))
        elif a.kind == 'sum':
            bv, lo, hi, t = a.d
            r = mksum(bv, lo, hi, deriv(t, at))
        else:
            raise Undecided('derivative through ' + a.kind)
        memo[aid] = r
        return r

    def dp(p):
        acc = ZERO
        for m, c in p.items():
            for i, (aid, ex) in enumerate(m):
                d = da(aid)
                if not d.n:
                    continue
                rest = list(m)
                if ex == 1:
                    rest.pop(i)
                else:
                    rest[i] = (aid, ex - 1)
                acc = acc + norm({tuple(rest): c * ex}, ()) * d
        return acc

    n = Expr(e.n)
    dn = dp(e.n)
    if not e.d:
        return dn
    den = ONE
    for k, ex in e.d:
        den = den * Expr(dict(k)) ** ex
    dd = ZERO
    for k, ex in e.d:
        dd = dd + num(ex) * dp(dict(k)) / Expr(dict(k))
    return dn / den - e * dd


def astr(a):
    if a.kind == 'sym':
        return str(a.d)
    if a.kind == 'cell':
        return '%s(%s)' % (a.d[0], ','.join(map(estr, a.d[1])))
    if a.kind == 'fn':
        return '%s(%s)' % (a.d[0], ', '.join(map(estr, a.d[1])))
    if a.kind == 'ite':
        return '[%s ? %s : %s]' % (cstr(a.d[0]), estr(a.d[1]), estr(a.d[2]))
    if a.kind == 'sum':
        return 'sum{%s=%s..%s}(%s)' % (astr(a.d[0]), estr(a.d[1]), estr(a.d[2]), estr(a.d[3]))
    return 'unknown(%s)' % a.d


def cstr(c):
    if c is True or c is False:
        return str(c)
    if c[0] == 'c':
        return '%s %s 0' % (estr(c[1]), {frozenset('+'): '>', frozenset('0+'): '>=', frozenset('0'): '=='}.get(c[2], str(c[2])))
    if c[0] == 'not':
        return '!(%s)' % cstr(c[1])
    return '(%s %s %s)' % (cstr(c[1]), c[0], cstr(c[2]))


def pstr(p):
    out = []
    for m, c in sorted(p.items(), key=lambda t: [(-e, a) for a, e in t[0]]):
        s = '*'.join(astr(ATOMS[a]) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ') or '0'


def estr(e):
    s = pstr(e.n)
    if e.d:
        s = '(%s)/(%s)' % (s, ')('.join(pstr(dict(k)) + ('^%d' % p if p > 1 else '') for k, p in e.d))
    return s if len(s) < 1500 else s[:1500] + '...'


# ---- evaluation of value numbers at sample points (used only to confirm that a difference is realisable, and to show it)
import math, random as _random


class _Dom(Exception):
    pass


def _h(*k):
    import zlib
    return zlib.crc32(repr(k).encode()) / 2**32


class _Div(_Dom):
    pass


class Sample:
    def __init__(self, seed, mode=0, pre=None):
        self.seed = seed
        self.mode = mode
        self.rng = _random.Random(seed)
        self.val = dict(pre) if pre else {}
        self.memo = {}

    def draw(self, isint, key):
        r = self.rng
        if isint:
            return r.choice([0, 1, 2, 3, 4, 5])
        m = self.mode
        if m == 0:
            return r.uniform(0.2, 2.0)
        if m == 1:
            return r.uniform(-2.0, 2.0)
        if m == 2:
            return r.choice([0.0, 1.0, -1.0, 0.5, 2.0, r.uniform(-3, 3)])
        if m == 3:
            return r.uniform(0.001, 0.999)
        return r.uniform(-200, 200) if r.random() < 0.5 else r.uniform(-1, 1)

    def longest(self):
        return 6

    def pick(self, n):
        return self.rng.randrange(min(n, 12))

    def atom(self, aid):
        if aid in self.memo:
            return self.memo[aid]
        a = ATOMS[aid]
        if a.kind == 'top':
            raise _Dom()
        if a.kind == 'sym':
            if aid not in self.val:
                r = RANGES.get(aid)
                if a.isint and r is not None:
                    lo = self.ex(E(r[0]))
                    hi = self.ex(E(r[1])) if r[1] is not None else lo + self.longest()
                    if lo != int(lo) or hi <= lo:
                        raise _Dom()
                    self.val[aid] = float(lo + self.pick(int(hi - lo)))
                else:
                    self.val[aid] = float(self.draw(a.isint, aid))
            v = self.val[aid]
        elif a.kind == 'cell':
            k = (a.d[0],) + tuple(round(self.ex(x), 6) for x in a.d[1])
            if k not in self.val:
                self.val[k] = float(self.draw(a.isint, k))
            v = self.val[k]
        elif a.kind == 'ite':
            c, x, y = a.d
            v = self.ex(x) if self.cond(c) else self.ex(y)
        elif a.kind == 'fn' and a.d[0].startswith('all_'):      # over three processes, each with inputs of its own
            if not hasattr(self, 'peers'):
                self.peers = [type(self)(self.seed + 7001 * k, self.mode) for k in (1, 2)]
            vs = [q.ex(a.d[1][0]) for q in [self] + self.peers]
            v = {'all_max': max, 'all_min': min, 'all_sum': sum}[a.d[0]](vs)
        elif a.kind == 'fn' and a.d[0] not in ('redmax', 'redmin'):
            v = self.f(a.d[0], [self.ex(x) for x in a.d[1]])
        elif a.kind in ('sum', 'fn'):
            red = None
            if a.kind == 'fn':
                red = max if a.d[0] == 'redmax' else min
                (lo, hi, t), bv = a.d[1], bvatom(50)
            else:
                bv, lo, hi, t = a.d
            l, h = int(round(self.ex(lo))), int(round(self.ex(hi)))
            if h - l > 5000:
                raise _Dom()
            v = 0.0 if red is None else -math.inf if red is max else math.inf
            sv = self.val.get(bv.i)
            mm = self.memo
            for k in range(l, h):
                self.val[bv.i] = float(k)
                self.memo = {}
                v = v + self.ex(t) if red is None else red(v, self.ex(t))
            self.memo = mm
            if sv is None:
                self.val.pop(bv.i, None)
            else:
                self.val[bv.i] = sv
            return v
        else:
            raise _Dom()
        if not any(ATOMS[x].kind == 'sym' and str(ATOMS[x].d).startswith('$b') for x in inner_atoms(aid)):
            self.memo[aid] = v
        return v

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == 'c':
            v = self.ex(c[1])
            return ('0' if abs(v) < 1e-12 else ('+' if v > 0 else '-')) in c[2]
        if c[0] == 'not':
            return not self.cond(c[1])
        if c[0] == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        return self.cond(c[1]) or self.cond(c[2])

    def poly(self, p):
        s = 0.0
        mag = 0.0
        for m, c in p.items():
            t = float(c)
            for a, e in m:
                t *= self.atom(a) ** e
            s += t
            mag += abs(t)
        return s, mag

    def ex(self, e):
        return self.exm(e)[0]

    def exm(self, e):
        s, mag = self.poly(e.n)
        for k, p in e.d:
            d = self.poly(dict(k))[0] ** p
            if abs(d) < 1e-9:
                raise _Dom()
            s /= d
            mag /= abs(d)
        if s != s or abs(s) > 1e306:
            raise _Dom()
        return s, mag

    def f(self, n, a):
        if n in ('max', 'min') and len(a) == 2:
            return max(a) if n == 'max' else min(a)
        if n == 'abs':
            return abs(a[0])
        try:
            if n == 'sqrt':
                return math.sqrt(a[0])
            if n == 'pow':
                if a[0] < 0 and a[1] != int(a[1]):
                    raise _Dom()
                return a[0] ** a[1]
            if n in ('exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'log10', 'atan2'):
                return getattr(math, n)(*a)
            if n == 'idiv':
                if a[1] == 0:
                    raise _Dom()
                return float(int(a[0] / a[1]))
            if n == 'imod':
                if a[1] == 0:
                    raise _Dom()
                return float(math.fmod(a[0], a[1]))
            if n == 'inv':
                if abs(a[0]) < 1e-30:
                    raise _Div()
                return 1 / a[0]
            if n == 'cbrt':
                return math.copysign(abs(a[0]) ** (1 / 3), a[0])
            if n == 'copysign':
                return math.copysign(*a)
            if n in ('expm1', 'log1p', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'log2', 'hypot'):
                return getattr(math, n)(*a)
            if n == 'exp2':
                return 2.0 ** a[0]
            if n == 'fmod':
                return math.fmod(*a)
            if n in ('round', 'lround'):
                return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
            if n == 'ceil':
                return float(math.ceil(a[0]))
            if n == 'f32':
                return _struct.unpack('f', _struct.pack('f', float(a[0])))[0]
            if n == 'trunc':
                return float(int(a[0]))
            if n == 'floor':
                return float(math.floor(a[0]))
            if n == 'ext':
                return 3.0
        except (ValueError, OverflowError, ZeroDivisionError):
            raise _Dom()
        return _h(n, tuple(round(x, 9) for x in a)) * 3 - 1


def deriv_lin(e, at):
    """e = a*at + c with a, c free of at; else None"""
    if e.d:
        return None
    a, c = {}, {}
    for m, k in e.n.items():
        p = 0
        inner = False
        for x, ex in m:
            if x == at.i:
                p = ex
            elif at.i in inner_atoms(x):
                inner = True
        if inner or p > 1:
            return None
        if p == 1:
            a[tuple(t for t in m if t[0] != at.i)] = k
        else:
            c[m] = k
    return Expr(a), Expr(c)


def presets(conds, rng):
    """values for the inputs that single-input conditions fix: [(expr, signs)] -> sample presets"""
    per = {}
    for p, sg in conds:
        if p.d or len(p.n) > 2:
            continue
        ats = p.atoms()
        if len(ats) != 1:
            continue
        a = ATOMS[next(iter(ats))]
        if a.kind == 'sym':
            key = a.i
        elif a.kind == 'cell' and all(x.const() is not None for x in a.d[1]):
            key = (a.d[0],) + tuple(round(float(x.const()), 6) for x in a.d[1])
        else:
            continue
        lin = deriv_lin(p, a)
        co = lin[0].const() if lin is not None else None
        k = lin[1].const() if lin is not None else None
        if not co or k is None:
            continue
        per.setdefault(key, (a, []))[1].append((float(co), float(k), frozenset(sg)))
    out = {}
    for key, (a, L) in per.items():
        cand = []
        for co, k, sg in L:
            for t in ((0.0,) if '0' in sg else ()) + tuple(x * rng.choice((1, 1, 1, 0.3, 2)) for x in ((1.0,) if '+' in sg else ()) + ((-1.0,) if '-' in sg else ())):
                cand.append((t - k) / co)
        rng.shuffle(cand)
        if a.isint:
            cand = [c for c in cand if c == int(c)] + [float(math.floor(c)) for c in cand] + [float(math.ceil(c)) for c in cand]
        for c in cand:
            if all(('0' if abs(co * c + k) < 1e-12 else '+' if co * c + k > 0 else '-') in sg for co, k, sg in L):
                out[key] = c
                break
    return out


def atomic(conds):
    """the sign conditions a conjunction of conditions contains"""
    out = []
    for c in conds:
        if not isinstance(c, tuple):
            continue
        if c[0] == 'c':
            out.append((c[1], c[2]))
        elif c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] == 'c':
            out.append((c[1][1], frozenset('+-0') - frozenset(c[1][2])))
        elif c[0] == 'and':
            out += atomic(c[1:])
    return out


class _One(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return 1.0


class SampleHP(Sample):
    """the same at other orders of magnitude, with enough digits for the rounding of the evaluation not to matter"""
    SCALES = (1e-6, 1e-9, 1e-12, 1e6, 1e9)

    def __init__(self, seed, mode):
        Sample.__init__(self, seed, mode)
        self.scale = {}

    def draw(self, isint, key):
        if isint:
            if self.mode is None and self.rng.random() < 0.5:
                return self.rng.choice([7, 17, 70, 600, 5000])
            return Sample.draw(self, isint, key)
        if self.mode is None:
            # an order of magnitude for each array of its own
            nm = key[0] if isinstance(key, tuple) else key
            if nm not in self.scale:
                self.scale[nm] = self.rng.choice((0.0, 1e-20, 1e-15, 1e-12, 1e-9, 1e-6, 1.0, 1.0, 1.0, 1e3, 1e8))
            sc = self.scale[nm]
        else:
            sc = self.SCALES[self.mode]
        return mp.mpf(self.rng.uniform(-2.0, 2.0) if self.seed % 2 else self.rng.uniform(0.2, 2.0)) * mp.mpf(sc)

    def longest(self):
        return 6 if self.mode is not None else self.rng.choice((6, 40, 700, 6000))

    def pick(self, n):
        return Sample.pick(self, n) if self.mode is not None else self.rng.choice((n - 1, self.rng.randrange(n), self.rng.randrange(min(n, 12))))

    def near(self, p):
        """choose one input such that p is close to zero: a point inside a thin band"""
        self.scale = _One()
        cand = [ATOMS[x] for x in p.atoms() if ATOMS[x].kind in ('sym', 'cell') and not ATOMS[x].isint]
        self.rng.shuffle(cand)
        for a in cand:
            lin = deriv_lin(p, a)
            if lin is None:
                continue
            if a.kind == 'sym':
                k = a.i
            else:
                k = (a.d[0],) + tuple(round(float(self.ex(x)), 6) for x in a.d[1])
            if k in self.val:
                continue
            co, c = self.exm(lin[0])[0], self.exm(lin[1])[0]
            if k in self.val or not co:
                continue
            self.val[k] = (self.rng.choice((1, -1)) * mp.mpf(10) ** -self.rng.choice((4, 7, 10, 13, 17, 25)) - c) / co
            return

    def poly(self, p):
        s = mp.mpf(0)
        mag = mp.mpf(0)
        for m, c in p.items():
            c = Fraction(c)
            t = mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                t *= mp.mpf(self.atom(a)) ** e
            s += t
            mag += abs(t)
        return s, mag

    def exm(self, e):
        s, mag = self.poly(e.n)
        for k, p in e.d:
            v, m = self.poly(dict(k))
            if abs(v) <= m * mp.mpf(10) ** -9:
                raise _Dom()
            s /= v ** p
            mag /= abs(v ** p)
        return s, mag

    def cond(self, c):
        if isinstance(c, tuple) and c[0] == 'c':
            v, m = self.exm(c[1])
            return ('0' if abs(v) <= m * mp.mpf(10) ** -40 else ('+' if v > 0 else '-')) in c[2]
        return Sample.cond(self, c)

    def f(self, n, a):
        if n in ('sqrt', 'pow', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'log10', 'atan2'):
            try:
                if n == 'pow':
                    r = mp.power(*a)
                else:
                    if n in ('exp', 'sinh', 'cosh') and abs(a[0]) > 500:
                        raise _Dom()
                    r = getattr(mp, n)(*a)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise _Dom()
            if isinstance(r, mp.mpc) or not mp.isfinite(r):
                raise _Dom()
            return r
        return Sample.f(self, n, a)

    def atom(self, aid):
        a = ATOMS[aid]
        if a.kind in ('sym', 'cell') and not a.isint:
            # Sample.atom stores floats; keep the digits
            if a.kind == 'sym':
                k = aid
            else:
                k = (a.d[0],) + tuple(round(float(self.ex(x)), 6) for x in a.d[1])
            if k not in self.val:
                self.val[k] = self.draw(False, k)
            return self.val[k]
        return Sample.atom(self, aid)


class SampleZ(SampleHP):
    """points where whole arrays vanish, or where one input is chosen such that a given divisor is zero"""
    def __init__(self, seed):
        SampleHP.__init__(self, seed, None)

    def draw(self, isint, key):
        if isint:
            return Sample.draw(self, isint, key)
        nm = key[0] if isinstance(key, tuple) else key
        if nm not in self.scale:
            self.scale[nm] = self.rng.choice((0, 1, 1)) if self.seed % 2 else 1
        return mp.mpf(self.rng.choice((1, 2, 3, -1, -2, 0.5, 0.75, 1.25))) * self.scale[nm]

    def longest(self):
        return 6

    def pick(self, n):
        return Sample.pick(self, n)

    def admissible(self):
        for k, v in list(self.val.items()):
            r = RANGES.get(k) if isinstance(k, int) else None
            if r is not None and (v < self.ex(E(r[0])) or (r[1] is not None and v >= self.ex(E(r[1])))):
                return False
        return True

    def vanish(self, p):
        cand = [ATOMS[x] for x in p.atoms() if ATOMS[x].kind in ('sym', 'cell') and not ATOMS[x].isint]
        self.rng.shuffle(cand)
        for a in cand:
            lin = deriv_lin(p, a)
            if lin is None:
                continue
            k = a.i if a.kind == 'sym' else (a.d[0],) + tuple(round(float(self.ex(x)), 6) for x in a.d[1])
            if k in self.val:
                continue
            co, c = self.exm(lin[0])[0], self.exm(lin[1])[0]
            if k in self.val or not co:
                continue
            self.val[k] = -c / co
            return


def written_out(e):
    """the quotients of e as quotients again"""
    return subst(e, lambda a: ONE / written_out(a.d[1][0]) if a.kind == 'fn' and a.d[0] == 'inv' else None)


def undefined_at(got, want, conds=(), listed=()):
    """a point where the required value exists and the computed one divides by zero; None when none was found.
    A divisor among `listed` is reported only when there is no other."""
    found = None
    ds = {}
    for x in all_atoms(got):
        a = ATOMS[x]
        if a.kind == 'fn' and a.d[0] == 'inv':
            ds.setdefault(a.i, a.d[1][0])
    at = atomic(conds)
    for d in list(ds.values())[:12]:
        for t in range(16):
            s = SampleZ(t)
            if at:
                s.val.update(presets(at, s.rng))
            try:
                if t % 4 < 3:
                    s.vanish(d)
                s.exm(want)
                if not all(s.cond(c) for c in conds) or not s.admissible():
                    continue
            except _Dom:
                continue
            try:
                s.exm(got)
            except _Div:
                if s.admissible():
                    if any((written_out(d) - p).const() == 0 for p in listed):
                        found = d, s, True
                        break
                    return d, s, False
            except _Dom:
                continue
    return found


def realise_scaled(a, b, conds=()):
    d = a - b
    at = atomic(conds)
    gates = sorted({a.d[0][1] for a in (ATOMS[x] for x in all_atoms(d)) if a.kind == 'ite' and a.d[0][0] == 'c'}, key=lambda e: str(e.key()) if hasattr(e, 'key') else str(e.n))
    for t in range(120 if gates else 60):
        s = SampleHP(t, t % 5 if t < 20 else None)
        if at:
            s.val.update(presets(at, s.rng))
        try:
            if t >= 60:
                s.near(s.rng.choice(gates))
            v, mag = s.exm(d)
            if abs(v) > mag * mp.mpf(10) ** -9 and all(s.cond(c) for c in conds) and \
                    abs(v) > max(abs(s.exm(a)[0]), abs(s.exm(b)[0])) * mp.mpf(10) ** -9:
                return s, v
        except (_Dom, RecursionError, OverflowError, ValueError, ZeroDivisionError):
            continue
    return None


def realise(d, tries=60, conds=()):
    """an assignment (dict) at which the value d is clearly non-zero, or None; conds: conditions that hold there"""
    at = atomic(conds)
    for t in range(tries):
        s = Sample(t, t % 5)
        if at:
            s.val.update(presets(at, s.rng))
        try:
            v, mag = s.exm(d)
            if abs(v) <= 1e-7 * max(mag, 1e-6) or abs(v) <= 1e-11:
                # smaller magnitudes are rounding of the evaluation
                continue
            if all(s.cond(c) for c in conds):
                return s, v
        except (_Dom, RecursionError, OverflowError):
            continue
    return None


def differ(a, b, conds=()):
    """(verdict, info): verdict True = equal for all inputs, False = a realisable difference, None = undecided"""
    try:
        d = E(a) - E(b)
        r = _equal(d, Budget(600))
    except Undecided as u:
        return None, str(u)
    if r is True:
        return True, None
    if has_top(d):
        return None, 'value not tracked: ' + '; '.join(sorted({str(ATOMS[x].d) for x in all_atoms(d) if ATOMS[x].top}))[:300]
    if r is None:
        return None, 'budget'
    w = realise(d, conds=conds) or realise_scaled(E(a), E(b), conds)
    if w is None and conds:
        g = d
        for c in conds:
            g = ite(c, g, ZERO)
        d = g
        try:
            r = _equal(d, Budget(600))
        except Undecided as u:
            return None, str(u)
        if r is not False:
            return r, None if r else 'budget'
    if w is None:
        try:
            cs, leaf = witness(d)
        except Undecided:
            return None, 'no leaf'
        # impose equalities of the leaf by substitution, then look for a point of the leaf
        s = leafpoint(d, cs)
        if s is None:
            return None, 'difference not realised'
        w = s
    s, v = w
    return False, {'difference': float('%.6g' % float(v)), 'at': point(s)}


def point(s):
    at = {}
    for k, x in s.val.items():
        nm = astr(ATOMS[k]) if isinstance(k, int) else '%s(%s)' % (k[0], ','.join(str(int(y)) if y == int(y) else str(y) for y in k[1:]))
        at[nm] = float('%.4g' % float(x))
    return dict(list(at.items())[:24])


def leafpoint(d, cs):
    x = d
    for p, sgn in cs:
        if sgn == '0':
            try:
                x = assume_zero(x, p)
            except Undecided:
                return None
        else:
            x = assume(x, p, frozenset(sgn))
    for t in range(200):
        s = Sample(1000 + t, t % 5)
        s.val.update(presets([(p, sgn) for p, sgn in cs], s.rng))
        try:
            v, mag = s.exm(x)
            ok = True
            for p, sgn in cs:
                if sgn == '0':
                    continue
                q = p
                for p2, s2 in cs:
                    if s2 == '0':
                        q = assume_zero(q, p2)
                pv = s.ex(q)
                if (pv > 0) != (sgn == '+') or abs(pv) < 1e-12:
                    ok = False
                    break
            if ok and abs(v) > 1e-11 and abs(v) > 1e-7 * max(mag, 1e-6):
                return s, v
        except (_Dom, RecursionError, Undecided, OverflowError):
            continue
    return None
