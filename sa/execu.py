"""Statement and expression transfer functions (see interp.py)."""
from interp import *
import interp
import symb
import itertools
import struct


def iscond(v):
    return v is True or v is False or (isinstance(v, tuple) and len(v) > 0 and v[0] in ('c', 'not', 'and', 'or'))


MATH1 = {'sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'floor', 'ceil', 'log10'}


USES = {}


def uses(nd):
    """local variables named in the body of a lambda"""
    r = USES.get(id(nd))
    if r is None:
        out, todo = set(), [nd.get('body'), nd.get('insts')]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get('k') == 'ref' and x.get('dk') not in ('global', 'slocal', 'static') and isinstance(x.get('id'), int):
                    out.add(x['id'])
                todo.extend(x.values())
            elif isinstance(x, list):
                todo.extend(x)
        r = USES[id(nd)] = (nd, sorted(out))
    return r[1]


class Frame:
    __slots__ = ('fid', 'parent', 'this', 'rets', 'fn', 'brk', 'cont')

    def __init__(self, fid, parent, this, fn):
        self.fid, self.parent, self.this, self.fn = fid, parent, this, fn
        self.rets = []
        self.brk = None
        self.cont = None


def assigns(nd, did):
    """does the subtree assign the variable, take its address, pass it on, or contain a continue"""
    if isinstance(nd, list):
        return any(assigns(x, did) for x in nd)
    if not isinstance(nd, dict):
        return False
    k = nd.get('k')
    if k == 'continue':
        return True
    if k in ('un', 'assign') and isinstance(nd.get('a'), dict) and nd['a'].get('k') == 'ref' and nd['a'].get('id') == did and nd.get('op') not in ('-', '+', '!', '~'):
        return True
    if k in ('lambda',):
        return True
    if k in ('call', 'ctor') and any(a.get('k') == 'ref' and a.get('id') == did for a in nd.get('a', []) if isinstance(a, dict)):
        return True
    return any(assigns(v, did) for kk, v in nd.items() if isinstance(v, (dict, list)))


def has_assign(nd):
    if isinstance(nd, list):
        return any(has_assign(x) for x in nd)
    if not isinstance(nd, dict):
        return False
    if nd.get('k') == 'assign' or nd.get('k') == 'un' and nd.get('op') in ('++', '--'):
        return True
    return any(has_assign(v) for v in nd.values() if isinstance(v, (dict, list)))


def assigned_in(nd, did):
    if isinstance(nd, list):
        return any(assigned_in(x, did) for x in nd)
    if not isinstance(nd, dict):
        return False
    k = nd.get('k')
    if k in ('un', 'assign') and isinstance(nd.get('a'), dict) and nd['a'].get('k') in ('ref', 'member') and nd['a'].get('id') == did and nd.get('op') not in ('-', '+', '!', '~', '*'):
        return True
    return any(assigned_in(v, did) for v in nd.values() if isinstance(v, (dict, list)))


def f32(x):
    """the value in single precision"""
    c = x.const()
    if c is not None:
        try:
            return num(Fraction(struct.unpack('f', struct.pack('f', float(c)))[0]))
        except OverflowError:
            pass
    return fn('f32', x)


BITS = {'int': 32, 'short': 16, 'signed char': 8, 'long': 64, 'long long': 64}


def wrap(x, t):
    """a constant outside the range of the signed type it is stored in keeps only its low bits"""
    b = BITS.get(t)
    c = x.iconst() if b and isinstance(x, Expr) else None
    if c is None or -(1 << b - 1) <= c < 1 << b - 1:
        return x
    c &= (1 << b) - 1
    return num(c - (1 << b) if c >> b - 1 else c)


def inputfree(e):
    """a value that is the same in every call"""
    return not has_top(e) and all(ATOMS[a].kind in ('fn', 'ite') for a in all_atoms(e))


def increment(v, at):
    """v - at, with the subtraction taken into the branches of a gated value: ite(c, at + t, at) adds ite(c, t, 0)"""
    d = v - of_atom(at)
    for _ in range(4):
        hit = None
        for m, c in d.n.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ite' and at.i in inner_atoms(m[0][0]):
                hit = ATOMS[m[0][0]]
                break
        if hit is None or d.d:
            return d
        c, x, y = hit.d
        d = d - of_atom(hit) + of_atom(at) + ite(c, increment(x, at), increment(y, at))
    return d


def bare(e):
    """a comparison looks at values only: val(x) compares as x"""
    for _ in range(4):
        if not any(isval(ATOMS[a]) for a in all_atoms(e)):
            return e
        e = subst(e, lambda a: a.d[1][0] if isval(a) else None)
    return e


def isval(a):
    return a.kind == 'fn' and a.d[0] == 'val'


class Exec(Interp):
    def __init__(self, prog, cfg=None):
        super().__init__(prog, cfg)
        self.tu = None
        self.fr = None
        self.hooks = {}

    # ================= numeric coercions
    def n(self, v, why='non-numeric value'):
        if isinstance(v, Expr):
            return v
        if iscond(v):
            return ite(v, ONE, ZERO)
        if isinstance(v, Choice):
            return ite(v.c, self.n(v.a), self.n(v.b))
        if isinstance(v, Unknown):
            return top(v.why)
        if isinstance(v, ViewRef) and not v.free():
            return top('array as value')
        return self.topv(why)

    def b(self, v):
        if iscond(v):
            return v
        if isinstance(v, Expr):
            return cmp(v, '!=')
        if isinstance(v, Ptr):
            return v.to is not None
        if isinstance(v, Choice):
            x, y = self.b(v.a), self.b(v.b)
            return cor(cand(v.c, x), cand(cnot(v.c), y))
        if isinstance(v, (Obj, SPtr, str, Sstr)):
            return True
        return ('c', self.topv('condition of unknown value'), frozenset('+'))

    # ================= lvalues
    def vkey(self, did):
        f = self.fr
        while f is not None:
            k = ('v', f.fid, did)
            if k in self.st.mem:
                return k
            f = f.parent
        return None

    def lval(self, nd):
        """Ref for an lvalue expression; or a handle value (Obj / ViewRef) for class objects"""
        k = nd['k']
        st = self.st
        if k == 'ref':
            key = self.vkey(nd['id'])
            if key is None:
                if nd.get('dk') in ('global', 'slocal', 'static'):
                    return self.global_ref(nd)
                self.note('unbound variable ' + nd['n'])
                key = ('v', self.fr.fid, nd['id'])
                st.mem[key] = self.mksym_any(self.tu.ty(nd), 'unbound:' + nd['n'])
            v = st.mem[key]
            if isinstance(v, Ref):
                return v
            return Ref('m', key)
        if k == 'member':
            if nd['dk'] == 'static':
                return self.global_ref(nd)
            o = self.obj(nd['b'])
            if isinstance(o, Obj):
                self.getfield(st, o, nd['n'], self.tu.ty(nd), self.tu)
                v = st.mem[('o', o.oid, nd['n'])]
                if isinstance(v, Ref):
                    return v
                return Ref('m', ('o', o.oid, nd['n']))
            return Ref('x', Unknown('member of unknown'))
        if k == 'index':
            base = self.ev(nd['a'])
            i = self.n(self.ev(nd['b']))
            return self.elem(base, [i], nd)
        if k == 'un' and nd['op'] == '*':
            v = self.ev(nd['a'])
            return self.deref(v)
        if k == 'un' and nd['op'] in ('++', '--') and not nd['post']:
            r = self.lval(nd['a'])
            self.ev(nd)
            return r
        if k == 'assign':
            self.ev(nd)
            return self.lval(nd['a'])
        if k == 'cast':
            return self.lval(nd['a'])
        if k == 'cond':
            c = self.cond(nd['cond'])
            if c is True:
                return self.lval(nd['a'])
            if c is False:
                return self.lval(nd['b'])
            if nd['a']['k'] in ('ref', 'index', 'member', 'un') and nd['b']['k'] in ('ref', 'index', 'member', 'un'):
                ra, rb = self.lval(nd['a']), self.lval(nd['b'])
                if ra.k in 'mc?' and rb.k in 'mc?' and isinstance(self.load(ra), Expr) and isinstance(self.load(rb), Expr):
                    return Ref('?', c, (ra, rb))
            return Ref('x', self.ev(nd))
        if k == 'call':
            r = self.call(nd, want_ref=True)
            if isinstance(r, Ref):
                return r
            return Ref('x', r)
        v = self.ev(nd)
        return Ref('x', v)

    def elem(self, base, idx, nd):
        if isinstance(base, Ref):
            base = self.load(base, nd)
        if isinstance(base, Ptr):
            base = base.to
            if isinstance(base, Ref) and base.k == 'c' and len(idx) == 1:
                return self.advance(base, self.n(idx[0]))      # pointer to an element: p[i]
        if isinstance(base, ViewRef):
            fr = base.free()
            if len(idx) < len(fr):
                full, _ = base.full(idx)
                return Ref('x', ViewRef(base.vid, tuple(full), base.kind))
            full, _ = base.full(idx[:len(fr)])
            return Ref('c', base, full)
        if isinstance(base, SPtr) and len(idx) == 1:
            i = self.n(idx[0]).iconst()
            if i is not None and 0 <= base.i + i <= len(base.s):
                return Ref('x', num(ord(base.s[base.i + i]) if base.i + i < len(base.s) else 0))
        if isinstance(base, str) and len(idx) == 1:
            i = self.n(idx[0]).iconst()
            if i is not None and 0 <= i <= len(base):
                return Ref('x', num(ord(base[i]) if i < len(base) else 0))
        return Ref('x', self.unknown(self.tu.ty(nd), 'element of unknown'))

    def advance(self, r, d):
        """the element d places after the element r in storage (row-major)"""
        b = list(r.b)
        if any(x is None for x in b):
            return Ref('x', Unknown('pointer arithmetic'))
        if len(b) == 1:
            return Ref('c', r.a, (E(b[0]) + d,))
        vi = self.views.get(r.a.vid)
        ext = [E(x).iconst() if x is not None else None for x in (vi.ext if vi else ())]
        if len(ext) == len(b) and None not in ext[1:]:
            ix, di = [E(x).iconst() for x in b], E(d).iconst()
            if di is not None and None not in ix:
                flat = 0
                for x, n in zip(ix, ext):
                    flat = flat * (n or 0) + x if n is not None else x
                flat += di
                out = []
                for n in reversed(ext[1:]):
                    out.append(flat % n if n else 0)
                    flat = flat // n if n else flat
                out.append(flat)
                return Ref('c', r.a, tuple(num(x) for x in reversed(out)))
            if ix[-1] is not None and di is not None and 0 <= ix[-1] + di < ext[-1]:
                b[-1] = num(ix[-1] + di)
                return Ref('c', r.a, tuple(b))
        return Ref('x', Unknown('pointer arithmetic'))

    def deref(self, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Ptr):
            t = v.to
            if isinstance(t, Ref):
                return t
            if isinstance(t, ViewRef):
                fr = t.free()
                if len(fr) == 1:
                    full, _ = t.full([ZERO])
                    return Ref('c', t, full)
            return Ref('x', t if t is not None else Unknown('null dereference'))
        if isinstance(v, ViewRef):
            fr = v.free()
            if len(fr) == 1:
                full, _ = v.full([ZERO])
                return Ref('c', v, full)
        if isinstance(v, str):
            v = SPtr(v)
        if isinstance(v, SPtr) and 0 <= v.i <= len(v.s):
            return Ref('x', num(ord(v.s[v.i]) if v.i < len(v.s) else 0))
        if isinstance(v, Obj):
            return Ref('x', v)
        if isinstance(v, Choice):
            return Ref('x', Unknown('choice deref'))
        return Ref('x', Unknown('deref'))

    def global_ref(self, nd):
        key = ('g', self.tu.name, nd['id'])
        if key not in self.st.mem:
            g = self.tu.gv.get(nd['id'])
            v = None
            if nd.get('v') is not None:
                v = num(int(nd['v']))
            elif nd['n'] == 'npos':
                v = num(2 ** 64 - 1)
            elif g is not None and g.get('i') is not None and g.get('r'):
                try:
                    v = self.ev(g['i'])
                except Throw:
                    v = None
                if not g.get('const') and any(f.get('body') is not None and assigned_in(f['body'], nd['id']) for f in self.tu.functions):
                    self.note('reads mutable global ' + g['qn'])
                    v = None
            if v is None:
                v = self.mksym_any(self.tu.ty(nd), 'global:' + (nd.get('qn') or nd['n']))
            self.st.mem[key] = v
        return Ref('m', key)

    def load(self, r, nd=None):
        if not isinstance(r, Ref):
            return r
        if r.k == 'm':
            v = self.st.mem.get(r.a)
            if isinstance(v, Ref):
                return self.load(v, nd)
            if v is None:
                return Unknown('empty slot')
            return v
        if r.k == 'c':
            info = self.views.get(r.a.vid)
            if info is None:
                return top('view')
            self.log('R', r.a.vid, r.b, nd, self.st)
            return self.lookup(self.content(self.st, r.a.vid), r.b, r.a.vid)
        if r.k == '?':
            return ite(r.a, self.n(self.load(r.b[0], nd)), self.n(self.load(r.b[1], nd)))
        return r.a

    def store(self, r, v, nd=None, atomic=False):
        if r.k == 'm':
            cur = self.st.mem.get(r.a)
            if isinstance(cur, Ref):
                return self.store(cur, v, nd, atomic)
            self.st.mem[r.a] = v
            return
        if r.k == 'c':
            if r.a.vid not in self.views:
                return
            self.log('A' if atomic else 'W', r.a.vid, r.b, nd, self.st)
            self.put(self.st, r.a.vid, r.b, v, atomic)
            return
        if r.k == '?':
            if not isinstance(v, Expr):
                raise Undecided('assignment through a conditional')
            o = [self.n(self.load(x, nd)) for x in r.b]
            self.store(r.b[0], ite(r.a, v, o[0]), nd, atomic)
            o = self.n(self.load(r.b[1], nd))
            self.store(r.b[1], ite(r.a, o, v), nd, atomic)
            return
        t = r.a
        if isinstance(t, ViewRef):
            self.assign_arr(t, v)
        elif isinstance(t, Obj):
            self.assign_obj(t, v)
        else:
            raise Undecided('store to untracked location')
            if isinstance(t, (Unknown, Choice)):
                raise Undecided('store through an unknown pointer')

    def assign_arr(self, t, v):
        if isinstance(v, ViewRef) and v.vid in self.views:
            if all(p is None for p in t.pat) and all(p is None for p in v.pat):
                c = self.content(self.st, v.vid)
                self.st.mem[('view', t.vid)] = Content(('copy', c, v.vid))
                self.st.mem[('ext', t.vid)] = tuple(self.exts(v.vid))
                return
        self.havoc_view(self.st, t.vid)

    def assign_obj(self, o, v):
        if isinstance(v, Obj):
            st = self.st
            for k in list(st.mem):
                if k[0] in ('o', 'map') and k[1] == o.oid:
                    del st.mem[k]
            for k in list(st.mem):
                if k[0] in ('o', 'map') and k[1] == v.oid:
                    st.mem[(k[0], o.oid) + k[2:]] = self.copyval(st, st.mem[k])
            o.symname = v.symname
            o.x = dict(v.x)
            return
        self.havoc_value(o)
        self.note('object assignment from unknown')

    def obj(self, nd):
        """class object designated by an expression (pointer or value)"""
        v = self.ev(nd)
        while True:
            if isinstance(v, Ref):
                v = self.load(v, nd)
            elif isinstance(v, Ptr):
                v = v.to
            else:
                return v

    # ================= expressions
    def ev(self, nd):
        if nd is None:
            return None
        self.steps += 1
        k = nd['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k.startswith('expr:'):
                return self.unknown(self.tu.ty(nd), 'expression ' + k)
            return self.unknown(self.tu.ty(nd), 'expression ' + k)
        return m(nd)

    def evn(self, nd):
        return self.n(self.ev(nd))

    def cond(self, nd):
        if nd is None:
            return True
        c = self.b(self.ev(nd))
        return self.simplify(c)

    def simplify(self, c):
        if c is True or c is False:
            return c
        for f in self.st.pc:
            pos = True
            g = f
            if isinstance(g, tuple) and g[0] == 'not':
                pos, g = False, g[1]
            if isinstance(g, tuple) and g[0] == 'c':
                c = restrict_cond(c, g[1], g[2] if pos else FULL - g[2])
                if c is True or c is False:
                    return c
            elif isinstance(g, tuple):
                if ckey(c) == ckey(f):
                    return True
                if ckey(c) == ckey(cnot(f)):
                    return False
        return c

    def e_int(self, nd):
        return num(int(nd['v']))

    def e_float(self, nd):
        s = (nd.get('s') or '').rstrip('fFlL')
        try:
            return num(Fr(s))
        except Exception:
            return num(Fr(nd['v']).limit_denominator(10**15)) if nd['v'] is not None else self.topv('float literal')

    def e_bool(self, nd):
        return bool(nd['v'])

    def e_char(self, nd):
        return num(nd['v'])

    def e_str(self, nd):
        return nd['v']

    def e_nullptr(self, nd):
        return Ptr(None)

    def e_zero(self, nd):
        t = strip_cv(self.tu.ty(nd))
        if isnum(t):
            return False if t == 'bool' else ZERO
        if t.endswith('*'):
            return Ptr(None)
        v = self.default(self.st, t, self.tu)
        if isinstance(v, ViewRef):
            self.st.mem[('view', v.vid)] = Content('zero')
        return v

    def e_sizeof(self, nd):
        return num(nd['v']) if nd.get('v') is not None else self.topv('sizeof')

    def e_ref(self, nd):
        dk = nd.get('dk')
        if nd.get('v') is not None and dk in ('enum', 'global', 'nttp', 'slocal'):
            if strip_cv(self.tu.ty(nd)) == 'bool':
                return bool(int(nd['v']))
            return num(int(nd['v']))
        if dk == 'func':
            return nd
        return self.load(self.lval(nd), nd)

    def e_member(self, nd):
        if nd.get('v') is not None:
            if strip_cv(self.tu.ty(nd)) == 'bool':
                return bool(int(nd['v']))
            return num(int(nd['v']))
        if nd['dk'] == 'method':
            return nd
        return self.load(self.lval(nd), nd)

    def e_this(self, nd):
        f = self.fr
        while f is not None and f.this is None:
            f = f.parent
        return Ptr(f.this) if f is not None else Unknown('this')

    def e_index(self, nd):
        return self.load(self.lval(nd), nd)

    def e_opaque(self, nd):
        return self.unknown(self.tu.ty(nd), 'opaque')

    def e_cast(self, nd):
        ck = nd['ck']
        v = self.ev(nd['a'])
        if ck in ('FloatingToIntegral',):
            x = self.n(v)
            c = x.const()
            if c is not None:
                return num(int(c))
            return fn('trunc', x)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.b(v)
        if ck == 'ToVoid':
            return None
        if ck in ('FloatingCast', 'IntegralToFloating'):
            return f32(self.n(v))
        if ck == 'IntegralCast':
            t = strip_cv(self.tu.ty(nd))
            if t == 'bool':
                return self.b(v)
            if iscond(v):
                return self.n(v)
            return wrap(v, t)
        return v

    def e_assign(self, nd):
        op = nd['op']
        r = self.lval(nd['a'])
        v = self.ev(nd['b'])
        t = strip_cv(self.tu.ty(nd['a']))
        if op == '=':
            if isnum(t) and t != 'bool' and not isinstance(v, (Unknown,)):
                v = self.n(v)
            if isinstance(v, Ref):
                v = self.load(v)
            cur = None
            if isinstance(v, (Obj,)) or (isinstance(v, ViewRef) and v.kind == 'arr') and not t.endswith('*'):
                v = self.copyval(self.st, v)
            self.store(r, v, nd)
            return v
        cur = self.load(r, nd)
        o = op[:-1]
        if isinstance(cur, (SPtr, str)) and t.endswith('*'):
            v = self.ptrarith(cur, self.n(v), o)
        elif isinstance(cur, str) or isinstance(cur, Sstr):
            v = Sstr('concat#%d' % self.nid())
        else:
            v = self.arith(o, self.n(cur), self.n(v), t, nd)
            if t == 'float' and isinstance(v, Expr):
                v = f32(v)
            v = wrap(v, t)
        if t == 'bool' and not iscond(v):
            v = self.b(v)
        self.store(r, v, nd)
        return v

    def arith(self, o, a, b, t, nd):
        try:
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            if o == '/':
                if strip_cv(t) in INTT:
                    return fn('idiv', a, b)
                self.divs.append((b, self.st.pc, nd, self.calls[-1] if self.calls else None))
                return a / b
            if o == '%':
                return fn('imod', a, b)
            ia, ib = a.iconst(), b.iconst()
            if ia is not None and ib is not None:
                if o == '<<':
                    return num(ia << ib)
                if o == '>>':
                    return num(ia >> ib)
                if o == '&':
                    return num(ia & ib)
                if o == '|':
                    return num(ia | ib)
                if o == '^':
                    return num(ia ^ ib)
        except Undecided as u:
            return self.topv(str(u))
        return self.topv('operator ' + o)

    def e_bin(self, nd):
        o = nd['op']
        if o == ',':
            self.ev(nd['a'])
            return self.ev(nd['b'])
        if o in ('&&', '||'):
            a = self.cond(nd['a'])
            if o == '&&' and a is False:
                return False
            if o == '||' and a is True:
                return True
            if a is True or a is False:
                return self.cond(nd['b'])
            # the right operand is evaluated under the left one
            s0 = self.st
            s1 = s0.copy()
            s1.pc = s0.pc + ((a if o == '&&' else cnot(a)),)
            self.st = s1
            try:
                b = self.cond(nd['b'])
                if len(s1.pc) == len(s0.pc) + 1 and all(s1.mem.get(k) is v for k, v in s0.mem.items()):
                    s0.mem.update({k: v for k, v in s1.mem.items() if k not in s0.mem})
                    self.st = s0
                else:
                    s2 = s0.copy()
                    s2.pc = s0.pc + ((cnot(a) if o == '&&' else a),)
                    m = self.merge([s1, s2])
                    s0.mem = m.mem
                    self.st = s0
            finally:
                self.st = s0
            return cand(a, b) if o == '&&' else cor(a, b)
        a = self.ev(nd['a'])
        b = self.ev(nd['b'])
        return self.binop(o, a, b, nd)

    def binop(self, o, a, b, nd):
        if isinstance(a, Ref):
            a = self.load(a)
        if isinstance(b, Ref):
            b = self.load(b)
        if o in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(o, a, b)
        if isinstance(b, (Ptr, ViewRef, SPtr, str)) and isinstance(a, Expr) and o == '+':
            a, b = b, a
        if isinstance(a, (Ptr, ViewRef, SPtr, str)) and o in ('+', '-'):
            return self.ptrarith(a, b, o)
        return self.arith(o, self.n(a), self.n(b), self.tu.ty(nd), nd)

    def ptrarith(self, a, b, o):
        if isinstance(a, str):
            a = SPtr(a)
        if isinstance(b, str):
            b = SPtr(b)
        if isinstance(a, SPtr):
            if isinstance(b, SPtr) and b.s == a.s and o == '-':
                return num(a.i - b.i)
            i = b.iconst() if isinstance(b, Expr) else None
            return SPtr(a.s, a.i + (i if o == '+' else -i)) if i is not None else Unknown('string pointer')
        t = a.to if isinstance(a, Ptr) else a
        if isinstance(t, ViewRef) and len(t.free()) == 1 and isinstance(b, Expr):
            full, _ = t.full([b if o == '+' else -b])
            return Ptr(Ref('c', t, full))
        if isinstance(t, Ref) and t.k == 'c' and isinstance(t.a, ViewRef):
            t2 = b.to if isinstance(b, Ptr) else b
            if isinstance(b, Expr):
                r = self.advance(t, b if o == '+' else -b)
                return Ptr(r) if r.k == 'c' else r.a
            if len(t.b) != 1:
                return Unknown('pointer arithmetic')
            if isinstance(t2, Ref) and t2.k == 'c' and isinstance(t2.a, ViewRef) and t2.a.vid == t.a.vid and o == '-':
                return E(t.b[0]) - E(t2.b[0])
            if isinstance(t2, ViewRef) and t2.vid == t.a.vid and o == '-':
                return E(t.b[0])
        return Unknown('pointer arithmetic')

    def compare(self, o, a, b):
        if isinstance(a, Choice):
            return cor(cand(a.c, self.compare(o, a.a, b)), cand(cnot(a.c), self.compare(o, a.b, b)))
        if isinstance(b, Choice):
            return cor(cand(b.c, self.compare(o, a, b.a)), cand(cnot(b.c), self.compare(o, a, b.b)))
        if isinstance(a, SPtr) or isinstance(b, SPtr) or (isinstance(a, (str, Sstr)) and isinstance(b, Ptr)) or (isinstance(b, (str, Sstr)) and isinstance(a, Ptr)):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return o == '!='
            d = self.ptrarith(a, b, '-')
            return cmp(d, o) if isinstance(d, Expr) else ('c', self.topv('string pointer order'), frozenset('+'))
        if isinstance(a, (str, Sstr)) or isinstance(b, (str, Sstr)):
            if o in ('==', '!='):
                r = self.streq(a, b)
                return r if o == '==' else cnot(r)
            return ('c', self.topv('string order'), frozenset('+'))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            ta = a.to if isinstance(a, Ptr) else a
            tb = b.to if isinstance(b, Ptr) else b
            if isinstance(ta, Unknown) or isinstance(tb, Unknown):
                return ('c', self.topv('pointer comparison'), frozenset('+'))
            same = ta is tb or (isinstance(ta, Obj) and isinstance(tb, Obj) and ta.oid == tb.oid)
            return same if o == '==' else not same
        if iscond(a) and iscond(b) and o in ('==', '!='):
            if a is True or a is False:
                a, b = b, a
            if b is True:
                r = a
            elif b is False:
                r = cnot(a)
            else:
                r = cor(cand(a, b), cand(cnot(a), cnot(b)))
            return r if o == '==' else cnot(r)
        try:
            return cmp(bare(self.n(a)) - bare(self.n(b)), o)
        except Undecided as u:
            return ('c', self.topv(str(u)), frozenset('+'))

    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            if '\ufffd' in a or '\ufffd' in b:
                return False if a == '' or b == '' else ('c', self.topv('string with unknown part'), frozenset('+'))
            return a == b
        if isinstance(b, Sstr) and isinstance(a, str):
            a, b = b, a
        if isinstance(a, Sstr) and isinstance(b, str):
            # one symbol takes one value: equality with a literal is a decidable atom
            return boolsym('%s=="%s"' % (a.name, b))
        if isinstance(a, Sstr) and isinstance(b, Sstr):
            if a.name == b.name:
                return True
            return boolsym('%s==%s' % tuple(sorted((a.name, b.name))))
        return ('c', self.topv('string comparison'), frozenset('+'))

    def e_un(self, nd):
        o = nd['op']
        if o in ('++', '--'):
            r = self.lval(nd['a'])
            old = self.load(r, nd)
            if isinstance(old, (Expr,)) or iscond(old):
                new = self.n(old) + (1 if o == '++' else -1)
            elif isinstance(old, (str, SPtr, Ptr, ViewRef)):
                new = self.ptrarith(old, ONE, '+' if o == '++' else '-')
            else:
                new = Unknown('increment')
            self.store(r, new, nd)
            return old if nd['post'] else new
        if o == '!':
            return cnot(self.cond(nd['a']))
        if o == '&':
            r = self.lval(nd['a'])
            v = None
            if r.k in ('m', 'x'):
                v = self.load(r)
                if isinstance(v, (Obj, ViewRef)):
                    return Ptr(v)
            return Ptr(r)
        if o == '*':
            return self.load(self.deref(self.ev(nd['a'])), nd)
        v = self.evn(nd['a'])
        if o == '-':
            return -v
        if o == '+':
            return v
        return self.topv('unary ' + o)

    def e_cond(self, nd):
        c = self.cond(nd['cond'])
        if c is True:
            return self.ev(nd['a'])
        if c is False:
            return self.ev(nd['b'])
        s0 = self.st
        vals = []
        states = []
        for cc, x in ((c, nd['a']), (cnot(c), nd['b'])):
            s = s0.copy()
            s.pc = s0.pc + (cc,)
            self.st = s
            try:
                v = self.ev(x)
                if isinstance(v, Ref):
                    v = self.load(v)
                vals.append(v)
                states.append(s)
            except Throw:
                pass
        if not states:
            self.st = s0
            raise Throw()
        if len(states) == 1:
            s0.mem = states[0].mem
            s0.pc = states[0].pc
            self.st = s0
            return vals[0]
        m = self.merge(states)
        s0.mem = m.mem
        s0.pc = m.pc
        self.st = s0
        return self.mergeval(c, vals[0], vals[1])

    def e_list(self, nd):
        t = strip_cv(self.tu.ty(nd))
        if isnum(t) and len(nd['a']) == 1:
            return self.ev(nd['a'][0])
        if isnum(t) and not nd['a']:
            return ZERO
        r = self.tu.rec.get(t)
        if r is not None and not t.endswith(']'):
            o = Obj(self.nid(), t)
            for f, a in zip(r['fields'], nd['a']):
                self.st.mem[('o', o.oid, f['n'])] = self.rv(a)
            return o
        # array-like
        vals = [self.rv(a) for a in nd['a']]
        el = 'double'
        dims = None
        if t.endswith(']'):
            j = t.find('[')
            dims = [int(x.rstrip(']')) for x in t[j + 1:].split('[')]
            el = t[:j].strip()
        elif t.startswith('std::array<'):
            a = targs(t)
            dims = [int(a[1].rstrip('UL'))]
            el = a[0]
            if len(vals) == 1 and isinstance(vals[0], ViewRef):
                return vals[0]
        elif t.startswith('std::initializer_list') or t.startswith(SEQ):
            el = (targs(t) or ['double'])[0]
        n = dims[0] if dims else len(vals)
        shape = [num(n)]
        sub = [v for v in vals if isinstance(v, ViewRef) and v.vid in self.views]
        if sub and len(sub) == len(vals) and (dims is None or len(dims) > 1):
            shape = [num(n)] + list(self.exts(sub[0].vid))
        arr = self.newview(self.st, shape, 'zero' if nd.get('fill') is not None or len(vals) < n else 'undef', el, 'list', 'arr')
        for i, v in enumerate(vals):
            if len(shape) > 1:
                ns = [x.iconst() for x in self.exts(v.vid)]
                if None in ns or len(ns) != len(shape) - 1:
                    self.havoc_view(self.st, arr.vid)
                    return arr
                for ix in itertools.product(*[range(q) for q in ns]):
                    tx = tuple(num(q) for q in ix)
                    self.put(self.st, arr.vid, (num(i),) + tx, self.lookup(self.content(self.st, v.vid), tx, v.vid))
            else:
                self.put(self.st, arr.vid, (num(i),), v)
        return arr

    def rv(self, nd):
        """rvalue, copied when it has value semantics and names storage"""
        v = self.call(nd, True) if nd['k'] == 'call' else self.ev(nd)
        lv = isinstance(v, Ref)
        if lv:
            v = self.load(v, nd) if nd['k'] == 'call' else self.load(v)
        if (nd['k'] in ('ref', 'member', 'index') or nd['k'] == 'un' and nd.get('op') == '*' or nd['k'] == 'call' and lv) and not self.tu.ty(nd).rstrip().endswith((']', '*', '*const')):     # a C array decays, a pointer is copied as such
            v = self.copyval(self.st, v)
        return v

    def e_arrcopy(self, nd):
        return self.copyval(self.st, self.ev(nd['a']))

    def e_lambda(self, nd):
        cid = self.nid()
        env = Frame(cid, None, None, None)
        for c in nd['caps']:
            if c.get('k') == 'this':
                f = self.fr
                while f is not None and f.this is None:
                    f = f.parent
                env.this = f.this if f else None
            elif c.get('init') is not None:
                if c['k'] == 'ref':
                    r = self.lval(c['init'])
                    self.st.mem[('v', cid, c['id'])] = r if r.k != 'x' else r.a
                else:
                    self.st.mem[('v', cid, c['id'])] = self.copyval(self.st, self.rv(c['init']))
            elif c.get('k') == 'copy':
                key = self.vkey(c['id'])
                if key is None:
                    continue
                v = self.st.mem[key]
                if isinstance(v, Ref):
                    v = self.load(v)
                self.st.mem[('v', cid, c['id'])] = v if isinstance(v, Obj) and not nd.get('mutable') else self.copyval(self.st, v)
            elif c.get('k') == 'ref':
                key = self.vkey(c['id'])
                if key is None:
                    continue
                v = self.st.mem[key]
                self.st.mem[('v', cid, c['id'])] = v if isinstance(v, Ref) else Ref('m', key)
        for i in uses(nd):           # constants may be named without being captured
            key = self.vkey(i)
            if key is not None and ('v', cid, i) not in self.st.mem and isinstance(self.st.mem[key], Expr):
                self.st.mem[('v', cid, i)] = self.st.mem[key]
        return Closure(nd, env, env.this, self.tu)

    def e_throw(self, nd):
        t = self.tu.ty(nd['a']) if nd.get('a') else 'rethrow'
        self.record_throw(strip_cv(t), nd)
        raise Throw()

    def record_throw(self, t, nd):
        self.throws.append((self.st.pc, t, State(dict(self.st.mem), self.st.pc), nd.get('l') if nd else 0, self.calls[-1] if self.calls else None, self.ctx))

    def e_new(self, nd):
        t = self.tu.types[nd['at']]
        i = nd.get('i')
        if nd.get('array'):
            return Unknown('new[]')
        if i is None:
            return Ptr(self.default(self.st, t, self.tu, 'new'))
        v = self.ev(i)
        if isinstance(v, (Obj, ViewRef)):
            return Ptr(v)
        k = ('v', 0, 'heap%d' % self.nid())
        self.st.mem[k] = v
        return Ptr(Ref('m', k))

    def e_delete(self, nd):
        self.ev(nd['a'])
        return None

    # ================= calls
    def bindparams(self, f, args, argnodes=None):
        """values for parameters: references stay references"""
        out = []
        return out

    def run_function(self, tu, f, this, args, refs=None, env=None):
        """inline f; args: list of values or Ref (for reference parameters)"""
        if self.depth > 60:
            return self.unknown(tu.types[f['ret']], 'call depth')
        self.depth += 1
        self.fnseen.add((tu.files[f['file']] if 'file' in f else '', f.get('fn', 'lambda')))
        ofr, otu = self.fr, self.tu
        fr = Frame(self.nid(), env, this, f)
        self.fr, self.tu = fr, tu
        self.calls.append(f.get('fn') or 'lambda')
        st = self.st
        npc = len(st.pc)
        try:
            for p, a in zip(f['ps'], args):
                st.mem[('v', fr.fid, p['id'])] = a
            for p in f['ps'][len(args):]:
                if p.get('i') is not None:
                    st.mem[('v', fr.fid, p['id'])] = self.ev(p['i'])
            if f.get('kind') == 'ctor':
                self.run_inits(f, this)
            body = f.get('body')
            end = self.exec(body, st) if body is not None else st
            outs = list(fr.rets)
            if end is not None:
                outs.append((end, None))
            if not outs:
                raise Throw()
            if len(outs) == 1:
                s, v = outs[0]
                st.mem, st.pc = s.mem, s.pc
                return v
            # gate the return value together with the memory
            key = ('v', fr.fid, '$ret')
            for s, v in outs:
                s.mem[key] = v if v is not None else 0
            m = self.merge([s for s, _ in outs])
            st.mem, st.pc = m.mem, m.pc
            v = st.mem.pop(key, None)
            return v
        finally:
            self.fr, self.tu = ofr, otu
            self.st = st
            self.calls.pop()
            self.depth -= 1
            # locals of the finished frame are dropped
            fid = fr.fid
            for k in [k for k in st.mem if k[0] == 'v' and k[1] == fid]:
                v = st.mem[k]
                del st.mem[k]

    def run_inits(self, f, this):
        tu = self.tu
        done = set()
        rec = tu.rec.get(f.get('cls'))
        for i in f.get('inits') or []:
            if 'm' in i:
                done.add(i['m'])
                v = self.init_value(i['e'], None)
                self.st.mem[('o', this.oid, i['m'])] = v
            else:
                e = i['e']
                if e is not None and e['k'] == 'ctor':
                    self.construct(e, this)
                elif e is not None:
                    self.ev(e)

    def init_value(self, e, var):
        if e is None:
            return Unknown('no initialiser')
        if var is not None and var.get('ref'):
            r = self.lval(e)
            if r.k == 'x':
                return r.a
            if r.k == 'm':
                v = self.st.mem.get(r.a)
                if isinstance(v, (Obj,)) or (isinstance(v, ViewRef)):
                    # handles have identity; a reference shares it unless the slot itself can be reassigned
                    if isinstance(v, Obj):
                        return v
            return r
        v = self.rv(e)
        if isinstance(v, Ref):
            v = self.load(v)
        return v

    def find_fn(self, nd):
        """(tu, function node) of a call, None when it has no body here"""
        f = self.tu.byid.get(nd['f'])
        if f is not None and f.get('body') is not None:
            return self.tu, f
        if f is not None:
            for t, g in self.p.defs.get(self.tu.sig(f), []):
                return t, g
            return self.tu, f
        return None

    def dispatch(self, nd, o):
        """virtual call on an object of known dynamic class"""
        r = self.find_fn(nd)
        if not nd.get('virt') or not isinstance(o, Obj):
            return r
        name = nd['fn'].split('::')[-1]
        np = len(nd['pk'])
        seen = set()
        cls = o.cls
        if r is not None and r[1].get('cls') == cls:
            return r
        work = [cls]
        while work:
            c = work.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for t in [self.tu] + [x for x in self.p.tus if x is not self.tu]:
                rec = t.rec.get(c)
                if rec is None:
                    continue
                for f in t.functions:
                    if f.get('cls') == c and f['n'] == name and len(f['ps']) == np and f.get('body') is not None:
                        return t, f
                for b in rec['bases']:
                    work.append(strip_cv(t.types[b['t']]))
                break
        return r

    def args_for(self, f, argnodes):
        out = []
        for p, a in zip(f['ps'], argnodes):
            if p.get('ref'):
                r = self.lval(a)
                if r.k == 'x':
                    out.append(r.a if not isinstance(r.a, Ref) else r.a)
                elif r.k == 'm':
                    v = self.st.mem.get(r.a)
                    if isinstance(v, (Obj, Closure)):
                        out.append(v)
                    elif isinstance(v, ViewRef) and p.get('cref'):
                        out.append(v)
                    else:
                        out.append(r)
                else:
                    out.append(r)
            else:
                v = self.rv(a)
                out.append(v)
        return out

    def e_call(self, nd):
        v = self.call(nd)
        if isinstance(v, Ref):
            return self.load(v, nd)
        return v

    def call(self, nd, want_ref=False):
        fnm = nd.get('fn')
        if fnm is None:
            return self.call_indirect(nd)
        h = self.hooks.get(fnm)
        if h is not None:
            return h(self, nd)
        if fnm.startswith(('Omega_h::Vector', 'Omega_h::Matrix')) and nd.get('obj') is not None:
            return self.external(nd, want_ref)
        if nd.get('r'):
            o = None
            if nd.get('obj') is not None:
                o = self.obj(nd['obj'])
                if isinstance(o, Closure):
                    return self.call_closure(o, nd['a'], fid=nd.get('f'))
            r = self.dispatch(nd, o) if nd.get('obj') is not None else self.find_fn(nd)
            if r is not None and r[1].get('body') is not None and not r[1]['dep']:
                tu, f = r
                args = self.args_for_x(tu, f, nd['a'])
                return self.run_function(tu, f, o if isinstance(o, Obj) else (o if o is not None else None), args)
            if r is not None and nd.get('oper') == '=' and isinstance(o, Obj):
                v = self.rv(nd['a'][0])
                self.assign_obj(o, v)
                return Ref('x', o)
            if r is not None and (r[1].get('defaulted')):
                pass
            self.clobber(nd)
            return self.unknown(self.tu.ty(nd), 'no body: ' + fnm)
        return self.external(nd, want_ref)

    def args_for_x(self, tu, f, argnodes):
        return self.args_for(f, argnodes)

    def clobber(self, nd):
        """an unmodelled callee may write through its object, non-const references, pointers, iterators, views and closures"""
        ops = [('r', nd['obj'])] if nd.get('obj') is not None and not nd.get('mconst') else []
        pk = nd.get('pk', '')
        ops += [(pk[i] if i < len(pk) else 'r', a) for i, a in enumerate(nd['a'])]
        for k, a in ops:
            if k in 'rp':
                try:
                    r = self.lval(a)
                except Undecided:
                    continue
                v = r.a if r.k == 'x' else (self.load(r) if r.k != 'c' else None)
                if k == 'p' and isinstance(v, Unknown):
                    raise Undecided('an unmodelled callee writes through an unknown pointer')
                if r.k in ('m', 'c') and not isinstance(v, (ViewRef, Obj)):
                    self.store(r, self.unknown(self.tu.ty(a), 'clobbered'), nd)
            else:
                v = self.ev(a)
                if k == 'q' and isinstance(v, (Ptr, ViewRef)):      # pointer to const
                    continue
            self.havoc_value(v)

    def havoc_value(self, v, depth=0, seen=None):
        seen = set() if seen is None else seen
        if isinstance(v, Ref):
            if v.k == 'x':
                v = v.a
            elif v.k == 'c':
                v = v.a
                if not isinstance(v, ViewRef):
                    return
            else:
                w = self.load(v)
                if not isinstance(w, (ViewRef, Obj, Closure, Ptr)):
                    self.st.mem[v.a] = self.unknown_like(w)
                    return
                v = w
        if isinstance(v, Ptr):
            return self.havoc_value(v.to, depth + 1, seen)
        if type(v).__name__ == 'Iter':
            v = v.v
        if isinstance(v, ViewRef):
            self.havoc_view(self.st, v.vid)
        elif isinstance(v, Obj):
            if v.oid in seen or depth > 6:
                return
            seen.add(v.oid)
            for k in [k for k in self.st.mem if len(k) > 1 and k[1] == v.oid]:
                w = self.st.mem[k]
                if isinstance(w, (Obj, ViewRef)):
                    self.havoc_value(w, depth + 1, seen)
                else:
                    self.havoc_key(self.st, k)
        elif isinstance(v, Closure):
            self.havoc_closure(v)

    def havoc_closure(self, c):
        """a closure called an unknown number of times by unmodelled code: forget what its body can change"""
        st = self.st
        node = c.node
        ps = node['insts'][0]['ps'] if node.get('insts') else node['ps']
        s = st.copy()
        self.st = s
        r0 = dict(s.mem)
        oc = self.ctx
        self.ctx = self.ctx + (('u', None, None, None, self.nid()),)
        try:
            args = [self.mksym_any(c.tu.types[q['t']], 'arg#%d' % self.nid()) for q in ps]
            self.call_closure(c, [], args)
            out = self.st
        except Throw:
            out = None
        self.ctx = oc
        self.st = st
        if out is not None:
            for k, v in out.mem.items():
                if (k in r0 and v is not r0[k]) or (k not in r0 and k[0] == 'view'):
                    self.havoc_key(st, k)

    def call_indirect(self, nd):
        c = nd.get('callee')
        v = self.ev(c) if c is not None else None
        if isinstance(v, Closure):
            return self.call_closure(v, nd['a'])
        self.clobber(nd)
        return self.unknown(self.tu.ty(nd), 'indirect call')

    def call_closure(self, c, argnodes, argvals=None, fid=None):
        node = c.node
        f = {'ps': node['ps'], 'body': node['body'], 'fn': (self.calls[-1] if self.calls else '') + '::lambda', 'ret': node.get('ret', 0), 'kind': 'func', 'file': 0}
        if node.get('insts'):
            m = [x for x in node['insts'] if x.get('id') == fid]
            if not m and len(node['insts']) > 1:
                raise Undecided('generic lambda with several instantiations')
            f = dict((m or node['insts'])[0])
            f['fn'] = 'lambda'
        args = argvals if argvals is not None else self.args_for(f, argnodes)
        return self.run_function(c.tu, f, None, args, env=c.env)

    def e_ctor(self, nd):
        return self.construct(nd, None)

    def construct(self, nd, this):
        cls = strip_cv(nd['cls'])
        a = nd['a']
        if nd.get('copy') and len(a) == 1 and this is None:
            v = self.call(a[0], True) if a[0]['k'] == 'call' else self.ev(a[0])
            lv = isinstance(v, Ref)
            if lv:
                v = self.load(v)
            if a[0]['k'] in ('ref', 'member', 'index', 'un', 'call'):
                v = self.copyval(self.st, v) if not (a[0]['k'] == 'call') or lv else v
            return v
        if nd.get('copy') and len(a) == 1 and this is not None:
            v = self.obj(a[0])
            if isinstance(v, Obj):
                self.assign_obj(this, v)
            return this
        m = self.ext_ctor(cls, nd)
        if m is not NotImplemented:
            return m
        if nd.get('r'):
            o = this or Obj(self.nid(), cls)
            r = self.find_fn(nd)
            rec = self.tu.rec.get(cls)
            if r is not None and r[1].get('body') is not None and not r[1].get('dep'):
                tu, f = r
                if not f.get('inits') and rec:
                    self.inclass(rec, o)
                self.run_function(tu, f, o, self.args_for(f, a))
                return o
            if r is not None and r[1].get('inits'):
                tu, f = r
                self.run_function(tu, dict(f, body=None), o, self.args_for(f, a))
                return o
            if rec:
                self.inclass(rec, o)
                for b in rec['bases']:
                    pass
                if a:
                    self.note('constructor without body ' + cls)
                return o
            return o
        for x in a:
            self.ev(x)
        self.clobber(nd)
        return Unknown('object of ' + cls[:60])

    def inclass(self, rec, o):
        for f in rec['fields']:
            if f.get('i') is not None and ('o', o.oid, f['n']) not in self.st.mem:
                self.st.mem[('o', o.oid, f['n'])] = self.rv(f['i'])

    # ================= statements: return live state or None
    def exec(self, nd, st):
        if nd is None:
            return st
        self.st = st
        k = nd['k']
        m = getattr(self, 's_' + k, None)
        try:
            if m is not None:
                return m(nd, st)
            if k.startswith('stmt:'):
                raise Undecided('statement ' + k)
            self.ev(nd)
            return st
        except Throw:
            return None
        finally:
            self.st = st

    def s_block(self, nd, st):
        for c in nd['c']:
            st = self.exec(c, st)
            if st is None:
                return None
        return st

    def s_null(self, nd, st):
        return st

    def stale(self, st, v, val):
        """what a static local holds when the function is entered: any value an earlier call may have left"""
        t = strip_cv(self.tu.ty(v))
        nm = 'static:%s' % v['n']
        const = self.tu.ty(v).startswith('const ')
        kept = const or not assigned_in(self.fr.fn.get('body'), v['id'])
        if isinstance(val, Expr):
            return val if kept and inputfree(val) else sym(nm, t in INTT)
        if iscond(val):
            return val if kept and (val is True or val is False) else boolsym(nm)
        if isinstance(val, Obj):
            if val.cls.startswith('Teuchos::ParameterList') and val.symname and not val.symname.startswith('PL#'):
                return Obj(self.nid(), val.cls, 'static:' + val.symname)
            return val
        if isinstance(val, Sstr):
            return Sstr(nm)
        if isinstance(val, ViewRef) and val.kind == 'arr':
            if const:
                ns = [x.iconst() for x in self.exts(val.vid)]
                if None not in ns:
                    import itertools
                    es = [self.lookup(self.content(st, val.vid), tuple(num(i) for i in ix), val.vid) for ix in itertools.product(*[range(n) for n in ns])]
                    if not all(not isinstance(e, Expr) or inputfree(e) for e in es):
                        return self.mksym_any(self.tu.ty(v), nm)
            return val
        return val

    def s_decl(self, nd, st):
        self.st = st
        for v in nd['c']:
            if v.get('k') != 'var':
                continue
            key = ('v', self.fr.fid, v['id'])
            if v.get('i') is not None and v['i'].get('k') in ('construct', 'ctor') and not v['i']['a'] and strip_cv(self.tu.ty(v)).startswith(('Omega_h::Vector<', 'Omega_h::Matrix<')):
                val = self.default(st, self.tu.ty(v), self.tu, v['n'])
            elif v.get('i') is not None:
                val = self.init_value(v['i'], v)
                if v.get('static'):
                    val = self.stale(st, v, val)
                t = strip_cv(self.tu.ty(v))
                if t in INTT and t != 'bool' or t in FLT:
                    if iscond(val):
                        val = self.n(val)
                if isinstance(val, ViewRef) and t.startswith(SEQ) and val.kind == 'arr':
                    self.views[val.vid].eltype = targs(t)[0]
            else:
                val = self.default(st, self.tu.ty(v), self.tu, v['n'])
            st.mem[key] = val
            if isinstance(val, Obj) and self.acting_dtor(val.cls):
                raise Undecided('destructor of ' + val.cls)
        return st

    def acting_dtor(self, cls):
        """does leaving the scope of such an object assign something?"""
        r = self.tu.rec.get(cls)
        if r is None or not r.get('userdtor'):
            return False
        memo = self.__dict__.setdefault('_dtors', {})
        if cls not in memo:
            memo[cls] = any(has_assign(f.get('body')) for f in self.tu.functions if f.get('kind') == 'dtor' and f.get('cls') == cls)
        return memo[cls]

    def s_return(self, nd, st):
        self.st = st
        v = None
        if nd.get('e') is not None:
            f = self.fr.fn
            rt = self.tu.types[f['ret']] if f and f.get('ret') is not None and f.get('fn') else ''
            if rt.endswith('&'):
                r = self.lval(nd['e'])
                v = r if r.k != 'x' else r.a
            else:
                v = self.rv(nd['e'])
        self.fr.rets.append((st, v))
        return None

    def s_if(self, nd, st):
        self.st = st
        if nd.get('init') is not None:
            st = self.exec(nd['init'], st)
        if nd.get('cv') is not None:
            st = self.exec(nd['cv'], st)
        self.st = st
        c = self.cond(nd['cond'])
        if c is True:
            return self.exec(nd['then'], st)
        if c is False:
            return self.exec(nd['else'], st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (cnot(c),)
        r1 = self.exec(nd['then'], s1)
        r2 = self.exec(nd['else'], s2)
        return self.merge([r1, r2])

    def s_break(self, nd, st):
        if self.fr.brk is not None:
            self.fr.brk.append(st)
        return None

    def s_continue(self, nd, st):
        if self.fr.cont is not None:
            self.fr.cont.append(st)
        return None

    def loopbody(self, body, st):
        """one pass over a loop body; returns (state at next iteration, break states)"""
        ob, oc = self.fr.brk, self.fr.cont
        self.fr.brk, self.fr.cont = [], []
        r = self.exec(body, st)
        brk, cont = self.fr.brk, self.fr.cont
        self.fr.brk, self.fr.cont = ob, oc
        return self.merge([r] + cont), brk

    def s_for(self, nd, st):
        st = self.exec(nd.get('init'), st)
        if st is None:
            return None
        return self.loop(nd, st, nd.get('cond'), nd.get('inc'), nd['body'])

    def s_while(self, nd, st):
        # while(i < n) { ...; i++; }  is a counting loop when nothing else assigns i and no continue skips the step
        b = nd['body']
        if b['k'] == 'block' and b['c'] and nd['cond']['k'] == 'bin':
            lst = b['c'][-1]
            if lst['k'] in ('un', 'assign') and lst['a']['k'] == 'ref':
                did = lst['a']['id']
                rest = dict(b, c=b['c'][:-1])
                if not assigns(rest, did):
                    return self.loop(nd, st, nd['cond'], lst, rest)
        return self.loop(nd, st, nd['cond'], None, nd['body'])

    def s_do(self, nd, st):
        st, brk = self.loopbody(nd['body'], st)
        out = list(brk)
        if st is not None:
            r = self.loop(nd, st, nd['cond'], None, nd['body'])
            out.append(r)
        return self.merge(out)

    def loop(self, nd, st, condn, incn, body):
        exits = []
        n = 0
        while True:
            self.st = st
            try:
                c = self.cond(condn) if condn is not None else True
            except Throw:
                break
            if c is False:
                exits.append(st)
                break
            if c is not True and self.loopvar(condn, incn) is None:
                g = self.gated_unroll(st, condn, incn, body)
                if g is not None:
                    exits.append(g[0])
                    break
                self.st = st
            if c is not True or n >= UNROLL or (n == 0 and self.symbolic_trip(st, condn, incn)):
                r = self.sym_for(nd, st, condn, incn, body, c)
                exits.append(r)
                break
            st, brk = self.loopbody(body, st)
            exits += brk
            if st is None:
                break
            if incn is not None:
                st = self.exec(incn, st)
                if st is None:
                    break
            n += 1
        return self.merge(exits)

    def gated_unroll(self, st, condn, incn, body):
        """a loop with an undecided condition and no counter: if the number of passes has a small constant bound, merge the states of every exit; None otherwise"""
        cur = st.copy()
        exits = []
        nacc, nthr, oa = len(self.acc), len(self.throws), self.logacc
        for n in range(6):
            self.st = cur
            c = self.cond(condn) if condn is not None else True
            if cond_top(c):
                break
            if c is False:
                exits.append(cur)
                return (self.merge(exits),)
            if c is not True:
                out = cur.copy()
                out.pc = cur.pc + (cnot(c),)
                exits.append(out)
                cur = cur.copy()
                cur.pc = cur.pc + (c,)
            cur, brk = self.loopbody(body, cur)
            exits += brk
            if cur is not None and incn is not None:
                cur = self.exec(incn, cur)
            if cur is None:
                return (self.merge(exits),)
        del self.acc[nacc:]
        del self.throws[nthr:]
        return None

    def symbolic_trip(self, st, condn, incn):
        """a counting loop whose number of iterations is not a constant: summarise it from the first iteration on"""
        self.st = st
        lv = self.loopvar(condn, incn) if condn is not None and incn is not None else None
        if lv is None:
            return False
        lo = self.load(Ref('m', self.vkey(lv[0])))
        return isinstance(lo, Expr) and (lv[2] - lo).const() is None

    def loopvar(self, condn, incn):
        """(decl id, key, step, hi Expr, strictness) of a counting loop"""
        if condn is None or incn is None or condn['k'] != 'bin' or condn['op'] not in ('<', '<=', '!=', '>', '>='):
            return None
        a, b, op = condn['a'], condn['b'], condn['op']
        while a['k'] == 'cast':
            a = a['a']
        while b['k'] == 'cast' and b.get('ck') == 'IntegralCast':
            b = b['a']

        def incvar(x):
            if x['k'] == 'un' and x['op'] in ('++', '--') and x['a']['k'] == 'ref':
                return x['a']['id'], 1 if x['op'] == '++' else -1
            if x['k'] == 'assign' and x['op'] in ('+=', '-=') and x['a']['k'] == 'ref':
                v = self.evn(x['b']).iconst()
                if v is not None:
                    return x['a']['id'], v if x['op'] == '+=' else -v
            return None
        iv = incvar(incn)
        if iv is None:
            return None
        if a['k'] == 'ref' and a['id'] == iv[0]:
            bound, o = condn['b'], op
        elif b['k'] == 'ref' and b['id'] == iv[0]:
            bound, o = condn['a'], {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
        else:
            return None
        hi = self.evn(bound)
        if iv[1] == 1 and o in ('<', '<=', '!='):
            return iv[0], 1, hi + 1 if o == '<=' else hi
        if iv[1] == -1 and o in ('>', '>=', '!='):
            return iv[0], -1, hi - 1 if o == '>=' else hi
        return None

    def sym_for(self, nd, st, condn, incn, body, c):
        self.st = st
        lv = self.loopvar(condn, incn)
        if lv is None:
            return self.havoc_loop(st, condn, incn, body)
        did, step, hi = lv
        key = self.vkey(did)
        lo = self.n(self.load(Ref('m', key)))
        if step == -1:
            lo, hi = hi + 1, lo + 1
        at = as_atom(fresh('j', True))
        symb.RANGES[at.i] = (lo, hi)
        broke = []

        def run(s):
            s.mem[key] = of_atom(at)
            r, brk = self.loopbody(body, s)
            if brk:
                broke.append(1)
            return r
        r = self.summarise(st, at, lo, hi, 'l', run, {key}, nd, step == -1)
        if r is None:
            return None
        if broke:
            self.note('break out of a symbolic loop')
            return self.havoc_loop(st, condn, incn, body)
        r.mem[key] = ite(cmp(hi - lo, '>'), hi if step == 1 else lo - 1, lo if step == 1 else hi - 1)
        if step == 1:
            r.mem[key] = fn('max', lo, hi) if nonneg(hi - lo) is False else hi
        return r

    def havoc_loop(self, st, condn, incn, body):
        self.note('loop without a summary')
        s = st.copy()
        oa = self.logacc
        ctx = self.ctx
        self.ctx = self.ctx + (('u', None, None, None, self.nid()),)
        changed = set()
        last = None
        for it in range(3):
            s = st.copy()
            for k in changed:
                self.havoc_key(s, k)
            r0 = dict(s.mem)
            self.st = s
            cc = self.cond(condn) if condn is not None else True
            s.pc = s.pc + ((cc,) if cc is not True else ())
            nret = len(self.fr.rets)
            r, brk = self.loopbody(body, s)
            if len(self.fr.rets) > nret:
                raise Undecided('return out of a loop with an unknown number of passes')
            if r is not None and incn is not None:
                r = self.exec(incn, r)
            outs = [x for x in [r] + brk if x is not None]
            new = set()
            for o in outs:
                for k, v in o.mem.items():
                    if k in st.mem and v is not r0.get(k) and k not in changed:
                        new.add(k)
                    elif k not in st.mem and k[0] == 'view' and isinstance(v, Content) and v.ents:
                        if k[1] in self.views and self.views[k[1]].base != 'undef':
                            new.add(k)
            if not new:
                break
            changed |= new
        self.ctx = ctx
        self.logacc = oa
        out = st.copy()
        for k in changed:
            self.havoc_key(out, k)
        self.st = out
        cc = self.cond(condn) if condn is not None else False
        out.pc = st.pc
        return out

    def havoc_key(self, s, k):
        v = s.mem.get(k)
        if k[0] == 'view':
            s.mem[k] = Content(('top', 'havoc#%d' % self.nid()))
        elif k[0] == 'ext':
            s.mem[k] = tuple(top('size') for _ in v or (1,))
        elif isinstance(v, Expr):
            s.mem[k] = top('loop-carried')
        elif iscond(v):
            s.mem[k] = ('c', top('loop-carried'), frozenset('+'))
        else:
            s.mem[k] = Unknown('loop-carried')

    # ---- loop / kernel summary
    def summarise(self, st, at, lo, hi, kind, run, skip, nd, down=False):
        changed = set()
        known = set(self.views)
        ctx0 = self.ctx
        rid = self.nid()
        self.ctx = ctx0 + ((kind, at, lo, hi, rid),)
        oa = self.logacc
        ot = len(self.throws)
        pre = st
        try:
            for it in range(6):
                s = pre.copy()
                lin = {}
                ln = {}
                for k in changed:
                    v = pre.mem.get(k)
                    if k[0] == 'ext':
                        s.mem[k] = tuple(top('size') for _ in (v or self.views[k[1]].ext))
                    elif k[0] == 'view':
                        nm = 'L#%d:%s' % (self.nid(), k[1])
                        ln[k] = nm
                        s.mem[k] = Content(('sym', nm))
                    elif isinstance(v, Expr):
                        a = fresh('Lv')
                        lin[k] = as_atom(a)
                        s.mem[k] = a
                    elif iscond(v):
                        a = fresh('Lv')
                        s.mem[k] = ('c', a, frozenset('+'))
                        lin[k] = as_atom(a)
                    else:
                        s.mem[k] = Unknown('loop-carried')
                snap = dict(s.mem)
                self.logacc = False
                del self.throws[ot:]
                nret = len(self.fr.rets)
                r = run(s)
                if len(self.fr.rets) > nret:
                    raise Undecided('return out of a loop with an unknown number of passes')
                if r is None:
                    # every iteration leaves (throws): the loop only completes when it is empty
                    self.ctx = ctx0
                    self.logacc = oa
                    return st
                new = set()
                for k, v in r.mem.items():
                    if k in skip or k in changed:
                        continue
                    if k in snap:
                        if v is not snap[k]:
                            new.add(k)
                    elif k[0] == 'view' and k[1] in self.views and isinstance(self.views[k[1]].base, tuple) and isinstance(v, Content) and v.ents:
                        new.add(k)
                    elif k[0] == 'ext' and k[1] in known and (len(v) != len(self.views[k[1]].ext) or any(tup_same((x,), (y,)) != 'eq' for x, y in zip(v, self.views[k[1]].ext))):
                        new.add(k)
                    elif k[0] == 'o' and k not in pre.mem:
                        # lazily created symbolic field: unchanged initial value unless written
                        pass
                for k in new:
                    if k not in pre.mem and k[0] == 'view':
                        pre.mem[k] = Content(self.views[k[1]].base)
                    elif k not in pre.mem and k[0] == 'ext':
                        pre.mem[k] = tuple(self.views[k[1]].ext)
                if not new:
                    break
                changed |= new
            # final pass with access log
            self.logacc = oa
            if oa:
                del self.throws[ot:]
                s = pre.copy()
                for k in changed:
                    s.mem[k] = snap[k]
                r = run(s)
                if r is None:
                    self.ctx = ctx0
                    return st
        finally:
            self.ctx = ctx0
            self.logacc = oa
        st = pre
        latoms = {a.i for a in lin.values()}
        lviews = {nm: k for k, nm in ln.items()}
        # induction variables
        ind = {}
        prefix = {}
        for k, a in lin.items():
            v = r.mem.get(k)
            p = pre.mem.get(k)
            if isinstance(v, Expr) and isinstance(p, Expr):
                d = increment(v, a)
                if not d.n:
                    ind[a.i] = p
                elif at.i not in all_atoms(d) and not (all_atoms(d) & latoms) and not any(self.lcell(x, lviews) for x in all_atoms(d)):
                    ind[a.i] = p + d * (of_atom(at) - lo if not down else hi - 1 - of_atom(at))
                elif kind == 'l' and not (all_atoms(d) & latoms) and not any(self.lcell(x, lviews) for x in all_atoms(d)):
                    # the value on entry to a pass is what the passes before it added
                    prefix[a.i] = p + (mksum(at, lo, of_atom(at), d) if not down else mksum(at, of_atom(at) + 1, hi, d))

        def fix(e, idx=None):
            """replace loop-in atoms by their value where that is certain"""
            if not isinstance(e, Expr):
                if iscond(e) and e is not True and e is not False:
                    return csubst(e, sub)
                return e
            return subst(e, sub)

        def sub(a):
            if a.i in ind:
                return ind[a.i]
            return prefix.get(a.i)

        out = State(dict(pre.mem), pre.pc)
        for k in changed:
            if k[0] == 'view':
                out.mem[k] = self.sum_view(k[1], pre, r, ln[k], at, lo, hi, kind, fix, latoms, lviews, down)
                continue
            p = pre.mem.get(k)
            v = r.mem.get(k)
            if k[0] == 'ext':
                out.mem[k] = tuple(top('size') for _ in v)
                continue
            if k in lin and isinstance(p, Expr) and isinstance(v, Expr):
                d = fix(increment(v, lin[k])) if lin[k].i not in ind else increment(v, lin[k])
                if lin[k].i in ind:
                    out.mem[k] = p + d * (hi - lo) if at.i not in all_atoms(d) else top('induction')
                    continue
                bad = (all_atoms(d) & latoms) or any(self.lcell(x, lviews) for x in all_atoms(d))
                if not bad:
                    out.mem[k] = p + mksum(at, lo, hi, d)
                    continue
                vv = fix(v)
                if not (all_atoms(vv) & latoms) and not any(self.lcell(x, lviews) for x in all_atoms(vv)):
                    last = subst_atom(vv, at, hi - 1 if not down else lo)
                    out.mem[k] = ite(cmp(hi - lo, '>'), last, p)
                    continue
                mm = self.sum_minmax(v, lin[k], at, lo, hi, p, latoms, lviews)
                out.mem[k] = mm if mm is not None else top('loop-carried value')
            else:
                out.mem[k] = self.unknown_like(p)
        # objects created inside keep their (last) fields
        for k, v in r.mem.items():
            if k not in out.mem:
                if k[0] in 'ov' and isinstance(v, Expr) and (at.i in all_atoms(v) or all_atoms(v) & latoms):
                    v = top('value of a pass of the loop')
                out.mem[k] = v
        return out

    def sum_minmax(self, v, la, at, lo, hi, p, latoms, lviews):
        """x = max(x, t) style reductions become a dedicated atom"""
        a = as_atom(v)
        if a is None or a.kind != 'ite':
            return None
        c, x, y = a.d
        L = of_atom(la)
        if not (x - L).n:
            t = y
            strict = c
        elif not (y - L).n:
            t = x
        else:
            return None
        if la.i in all_atoms(t) or any(self.lcell(z, lviews) for z in all_atoms(t)):
            return None
        for nm in ('max', 'min'):
            if not (fn(nm, L, t) - v).n or not (fn(nm, t, L) - v).n:
                nb = bvatom(50)
                return fn(nm, p, fn('red' + nm, lo, hi, subst_atom(t, at, of_atom(nb))))
        return None

    def unknown_like(self, v):
        if isinstance(v, Expr):
            return top('loop-carried')
        if iscond(v):
            return ('c', top('loop-carried'), frozenset('+'))
        return Unknown('loop-carried')

    def cexatoms(self, v):
        if isinstance(v, Expr):
            return all_atoms(v)
        if isinstance(v, tuple):
            r = set()
            for x in v:
                r |= self.cexatoms(x)
            return r
        return set()

    def lcell(self, aid, lviews):
        a = ATOMS[aid]
        return a.kind == 'cell' and a.d[0] in lviews

    def sum_view(self, vid, pre, r, lname, at, lo, hi, kind, fix, latoms, lviews, down=False):
        prec = pre.mem.get(('view', vid)) or Content(self.views[vid].base)
        cont = r.mem[('view', vid)]
        if not (isinstance(cont.base, tuple) and cont.base == ('sym', lname)):
            if at is not None and not (isinstance(cont.base, tuple) and cont.base[0] == 'top'):
                # whole content replaced in the body (deep_copy): value of the last iteration
                pass
            return Content(('top', 'loop#%d' % self.nid()))
        ents = list(cont.ents)
        pats = [e.idx for e in ents]
        new = list(prec.ents)

        def shifted(e, back):
            """the cells the write e touches in an earlier (a later) pass"""
            dl = as_atom(fresh('jd', True))
            symb.RANGES[dl.i] = (ZERO, None)
            to = of_atom(at) - 1 - of_atom(dl) if back else of_atom(at) + 1 + of_atom(dl)
            ix = [subst_atom(fix(x), at, to) for x in e.idx]
            for b, l, h in e.q:
                nb = as_atom(fresh('jq', True))
                symb.RANGES[nb.i] = (subst_atom(fix(l), at, to), subst_atom(fix(h), at, to))
                ix = [subst_atom(x, b, of_atom(nb)) for x in ix]
            return tuple(ix)

        wr = {}

        def early(k, idx, own):
            """can another pass have written that cell of k before it is read?"""
            if k not in wr:
                wr[k] = [(e, [shifted(e, b) for b in ((True, False) if kind != 'l' else (not down,))]) for e in r.mem[k].ents]
            for e, sh in wr[k]:
                if tup_same(tuple(fix(x) for x in e.idx), idx) == 'eq' and injective(e.idx, e.q):
                    continue
                if any(tup_same(idx, z) != 'ne' for z in sh):
                    return True
            return False

        def injective(idx, q):
            for x in idx:
                d = deriv_lin(x, at)
                if d and d[0].n:
                    return True
            # index owned through a row map: a bound variable whose range is rowmap(at)..rowmap(at+1)
            for b, l, h in q:
                if self.owned(l, h, at) and any(b.i in x.atoms() for x in idx):
                    return True
            return False

        n0 = len(new)
        for e in ents:
            val = fix(e.val)
            idx = tuple(fix(x) for x in e.idx)
            if not isinstance(val, Expr) and not iscond(val):
                new.append(Entry(idx, val, ((at, lo, hi),) + e.q, e.atomic))
                continue
            dep = any(at.i in all_atoms(x) for x in idx) or any(at.i in all_atoms(l) or at.i in all_atoms(h) for _, l, h in e.q)
            if dep:
                inj = injective(idx, e.q)
                okval = self.resolve_l(val, lname, lviews, prec, vid, pats if inj else None, idx, pre, at, early)
                if okval is None or self.cexatoms(okval) & latoms:
                    okval = top('cross-iteration read') if isinstance(val, Expr) else ('c', top('cross-iteration read'), frozenset('+'))
                new.append(Entry(idx, okval, ((at, lo, hi),) + e.q, e.atomic))
                continue
            # same cell in every iteration
            if not isinstance(val, Expr):
                new.append(Entry(idx, ('c', top('loop-carried'), frozenset('+')), e.q, e.atomic))
                continue
            L = cell(lname, idx)
            d = increment(val, as_atom(L))
            res = None
            d2 = self.resolve_l(d, lname, lviews, prec, vid, pats, None, pre, at, early)
            old = self.lookup(Content(prec.base, tuple(new)), idx, vid)
            if d2 is not None and not (all_atoms(d2) & latoms) and isinstance(old, Expr):
                res = old + mksum(at, lo, hi, d2)
            else:
                v2 = self.resolve_l(val, lname, lviews, prec, vid, pats, None, pre, at, early)
                if v2 is not None and not (all_atoms(v2) & latoms) and isinstance(old, Expr):
                    res = ite(cmp(hi - lo, '>'), subst_atom(v2, at, hi - 1 if not down else lo), old)
            if res is None:
                res = top('loop-carried cell')
            new.append(Entry(idx, res, e.q, e.atomic))
        if kind == 'l' and len(ents) > 1:
            new[n0:] = self.pass_order(ents, new[n0:], shifted, injective, fix, down)
        return Content(prec.base, tuple(new))

    def pass_order(self, ents, new, shifted, injective, fix, down):
        """the writes of a loop in an order in which the one that happens last for a cell comes last"""
        def overtaken(i, k):
            """can write i of a later pass hit the cell write k has set?"""
            x, y = ents[i], ents[k]
            if tup_same(tuple(fix(z) for z in x.idx), tuple(fix(z) for z in y.idx)) == 'eq' and injective(x.idx, x.q):
                return False
            return tup_same(tuple(fix(z) for z in y.idx), shifted(x, down)) != 'ne'
        order = []
        for k in range(len(ents)):
            pos = len(order)
            while pos > 0 and overtaken(order[pos - 1], k):
                i = order[pos - 1]
                if overtaken(k, i) or tup_same(tuple(fix(z) for z in ents[i].idx), tuple(fix(z) for z in ents[k].idx)) != 'ne':
                    # the order differs from cell to cell
                    for q in (i, k):
                        v = new[q].val
                        new[q] = Entry(new[q].idx, top('order of writes') if isinstance(v, Expr) or not iscond(v) else ('c', top('order of writes'), frozenset('+')), new[q].q, new[q].atomic)
                    break
                pos -= 1
            if any(overtaken(order[p], k) for p in range(pos)):
                for q in order[:pos] + [k]:
                    v = new[q].val
                    new[q] = Entry(new[q].idx, top('order of writes') if isinstance(v, Expr) or not iscond(v) else ('c', top('order of writes'), frozenset('+')), new[q].q, new[q].atomic)
            order.insert(pos, k)
        return [new[k] for k in order]

    def owned(self, l, h, at):
        """l = M(at), h = M(at+1) for the same array M"""
        a, b = as_atom(l), as_atom(h)
        if a is None or b is None or a.kind != 'cell' or b.kind != 'cell' or a.d[0] != b.d[0]:
            return False
        if len(a.d[1]) != 1:
            return False
        return not (b.d[1][0] - a.d[1][0] - 1).n and deriv_lin(a.d[1][0], at) is not None and deriv_lin(a.d[1][0], at)[0].n != {}

    def resolve_l(self, val, lname, lviews, prec, vid, pats, own, pre, at, early):
        """replace loop-in cells by pre-loop content when no earlier iteration can have written them; None if unsure"""
        bad = []

        def f(a):
            if a.kind == 'cell' and a.d[0] in lviews:
                k = lviews[a.d[0]]
                idx = a.d[1]
                c = pre.mem.get(k) or Content(self.views[k[1]].base)
                if early(k, idx, own):
                    bad.append(a)
                    return None
                if a.d[0] == lname:
                    if own is not None and pats is not None and tup_same(idx, own) == 'eq':
                        v = self.lookup(c, idx, k[1])
                        if isinstance(v, Expr):
                            return v
                    if pats is not None and all(tup_same(idx, p) == 'ne' for p in pats):
                        v = self.lookup(c, idx, k[1])
                        if isinstance(v, Expr):
                            return v
                    if pats is not None and own is not None and any(tup_same(idx, p) == 'eq' for p in pats):
                        v = self.lookup(c, idx, k[1])
                        if isinstance(v, Expr):
                            return v
                else:
                    # another view written in the loop, read in this iteration before its own write
                    v = self.lookup(c, idx, k[1])
                    if isinstance(v, Expr) and any(at.i in x.atoms() for x in idx):
                        return v
                bad.append(a)
            return None
        if isinstance(val, Expr):
            r = subst(val, f)
        elif val is True or val is False:
            return val
        else:
            r = csubst(val, f)
        return None if bad else r

    def s_forrange(self, nd, st):
        self.st = st
        rng = self.ev(nd['range'])
        if isinstance(rng, Ref):
            rng = self.load(rng)
        var = nd.get('var')
        if not isinstance(rng, ViewRef) or rng.vid not in self.views or len(rng.free()) != 1:
            if isinstance(rng, Obj) and isinstance(st.mem.get(('map', rng.oid)), dict):
                exits = []
                ents = list(st.mem[('map', rng.oid)].items())
                if all(isinstance(k_, str) for k_, _ in ents):
                    ents.sort()
                else:
                    raise Undecided('order of the entries of a map')
                for kk, ent in ents:
                    o = Obj(self.nid(), 'std::pair')
                    st.mem[('o', o.oid, 'first')] = kk
                    st.mem[('o', o.oid, 'second')] = st.mem.get(ent[1]) if self.simplify(ent[2]) is True else Unknown('map entry that may be absent')
                    st.mem[('v', self.fr.fid, var['id'])] = o
                    st, brk = self.loopbody(nd['body'], st)
                    exits += brk
                    if st is None:
                        break
                return self.merge(exits + [st])
            st.mem[('v', self.fr.fid, var['id'])] = self.unknown(self.tu.ty(var), 'range element')
            return self.havoc_loop(st, None, None, nd['body'])
        n = self.ext(rng, 0)
        cn = n.iconst()
        key = ('v', self.fr.fid, var['id'])
        if cn is not None and cn <= UNROLL:
            exits = []
            for i in range(cn):
                full, _ = rng.full([num(i)])
                r = Ref('c', rng, full)
                st.mem[key] = r if var.get('ref') else self.load(r)
                st, brk = self.loopbody(nd['body'], st)
                exits += brk
                if st is None:
                    break
            return self.merge(exits + [st])
        at = as_atom(fresh('j', True))
        symb.RANGES[at.i] = (ZERO, n)

        def run(s):
            self.st = s
            full, _ = rng.full([of_atom(at)])
            r = Ref('c', rng, full)
            s.mem[key] = r if var.get('ref') else self.load(r)
            x, brk = self.loopbody(nd['body'], s)
            return x
        return self.summarise(st, at, ZERO, n, 'l', run, {key}, nd)

    def s_switch(self, nd, st):
        self.st = st
        v = self.evn(nd['cond'])
        items = []   # (labels, stmt)

        def flat(x):
            if x is None:
                return
            if x['k'] == 'block':
                for c in x['c']:
                    flat1(c)
            else:
                flat1(x)

        def flat1(c):
            labs = []
            while c is not None and c['k'] in ('case', 'default'):
                labs.append(c.get('v') if c['k'] == 'case' else 'default')
                c = c['body']
            items.append((labs, c))
        flat(nd['body'])
        cases = [l for ls, _ in items for l in ls if l != 'default']
        res = []
        ob = self.fr.brk
        brks = []
        rest = True
        hasdef = any('default' in ls for ls, _ in items)
        for pos, (ls, _) in enumerate(items):
            for l in ls:
                if l == 'default':
                    c = True
                    for x in cases:
                        c = cand(c, cmp(v - num(x), '!=')) if x is not None else c
                else:
                    c = cmp(v - num(l), '==') if l is not None else ('c', top('case'), frozenset('+'))
                self.st = st
                c = self.simplify(c)
                if c is False:
                    continue
                s = st.copy()
                if c is not True:
                    s.pc = st.pc + (c,)
                self.fr.brk = []
                x = s
                for _, stm in items[pos:]:
                    x = self.exec(stm, x)
                    if x is None:
                        break
                brks += self.fr.brk
                if x is not None:
                    res.append(x)
        self.fr.brk = ob
        if not hasdef:
            c = True
            for x in cases:
                c = cand(c, cmp(v - num(x), '!='))
            self.st = st
            c = self.simplify(c)
            if c is not False:
                s = st.copy()
                if c is not True:
                    s.pc = st.pc + (c,)
                res.append(s)
        return self.merge(res + brks)

    def s_try(self, nd, st):
        n0 = len(self.throws)
        r = self.exec(nd['body'], st.copy())
        caught = self.throws[n0:]
        outs = [r]
        for h in nd['h'][:1]:
            keep = []
            for t in caught:
                s = t[2].copy()
                x = self.exec(h['body'], s)
                outs.append(x)
            del self.throws[n0:n0 + len(caught)]
        return self.merge(outs)


from externs import install
install(Exec)
