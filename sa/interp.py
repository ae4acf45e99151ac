"""Forward dataflow over the type-checked syntax tree: gated value numbering with a store of array cells.

Every statement is visited once per abstract context; branches are joined by gated values, loops whose trip count is not a
constant are summarised from one visit of their body (loop-in values become unknowns, `x += t` becomes a sum, writes whose
index is injective in the loop variable become quantified writes).  Calls to functions of the repository are inlined.
Anything that is not modelled becomes `top`.
"""
import sys
from fractions import Fraction as Fr
from symb import *
import symb

sys.setrecursionlimit(20000)

INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char',
        'signed char', 'unsigned char', 'size_t', 'bool'}
FLT = {'double', 'float', 'long double'}
UNROLL = 300


def cond_top(c):
    if isinstance(c, Expr):
        return has_top(c)
    return isinstance(c, tuple) and any(cond_top(x) for x in c)


def omega_dims(t):
    """small vectors and column-major matrices are arrays of numbers"""
    if t.startswith('Omega_h::Vector<') and t.endswith('>'):
        return (int(targs(t)[0]),)
    if t.startswith('Omega_h::Matrix<') and t.endswith('>'):
        m, n = targs(t)
        return (int(n), int(m))
    return None


class Unknown:
    """an untracked non-numeric value"""
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unknown(%s)' % self.why


class Sstr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Sstr(%s)' % self.name


class Obj:
    __slots__ = ('oid', 'cls', 'symname', 'x')

    def __init__(self, oid, cls, symname=None):
        self.oid = oid
        self.cls = cls
        self.symname = symname
        self.x = {}

    def __repr__(self):
        return 'Obj%d<%s>%s' % (self.oid, self.cls, self.symname or '')


SEQ = ('std::vector<', 'std::stack<', 'std::deque<', 'std::queue<', 'std::list<')      # sequences modelled as one-dimensional arrays


class Ptr:
    __slots__ = ('to',)

    def __init__(self, to):
        self.to = to

    def __repr__(self):
        return 'Ptr(%r)' % (self.to,)


class SPtr:
    """pointer into a constant character string"""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def __repr__(self):
        return 'SPtr(%r,%d)' % (self.s, self.i)


class ViewRef:
    """handle to array storage; pat = fixed leading/any indices (Expr) or None for free dimensions"""
    __slots__ = ('vid', 'pat', 'kind')

    def __init__(self, vid, pat, kind='view'):
        self.vid = vid
        self.pat = pat
        self.kind = kind

    def full(self, idx):
        it = iter(idx)
        out = []
        for p in self.pat:
            if p is None:
                try:
                    out.append(next(it))
                except StopIteration:
                    out.append(None)
            else:
                out.append(p)
        rest = list(it)
        return tuple(out), rest

    def free(self):
        return [k for k, p in enumerate(self.pat) if p is None]

    def __repr__(self):
        return 'View(%s%s)' % (self.vid, '' if all(p is None for p in self.pat) else str(self.pat))


class Ref:
    """lvalue: ('m', key) memory slot, ('c', ViewRef full idx) array cell"""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Ref(%s,%r,%r)' % (self.k, self.a, self.b)


class Closure:
    def __init__(self, node, env, this, tu):
        self.node = node
        self.env = env
        self.this = this
        self.tu = tu


class VInfo:
    """static facts of an array: name, extents, element base"""
    __slots__ = ('vid', 'ext', 'base', 'eltype', 'name', 'kind', 'line', 'alias')

    def __init__(self, vid, ext, base, eltype='double', name=None, kind='view'):
        self.vid = vid
        self.ext = ext
        self.base = base
        self.eltype = eltype
        self.name = name or vid
        self.kind = kind
        self.alias = None


class Entry:
    __slots__ = ('idx', 'val', 'q', 'atomic')

    def __init__(self, idx, val, q=(), atomic=False):
        self.idx = idx
        self.val = val
        self.q = q  # tuple of (bound atom, lo, hi): for all values of the bound variables
        self.atomic = atomic


class Content:
    """immutable array content: base + ordered entries (later wins)"""
    __slots__ = ('base', 'ents', 'keys')

    def __init__(self, base, ents=(), keys=None):
        self.base = base
        self.ents = ents
        self.keys = keys if keys is not None else {tuple(i.key() for i in e.idx): n for n, e in enumerate(ents)}


class Throw(Exception):
    """current state is dead"""


class Budgeted(Exception):
    pass


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


def tup_same(a, b):
    """'eq' / 'ne' / None for index tuples"""
    if len(a) != len(b):
        return None
    eq = True
    for x, y in zip(a, b):
        if x is y:
            continue
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            if cx != cy:
                return 'ne'
            continue
        d = x - y
        if not d.n:
            continue
        c = d.const()
        if c is not None:
            return 'ne'
        lo, hi = bounds(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return 'ne'
        eq = False
    return 'eq' if eq else None


class Access:
    __slots__ = ('kind', 'vid', 'idx', 'line', 'file', 'ctx', 'pc', 'ext')

    def __init__(self, kind, vid, idx, line, file, ctx, pc, ext):
        self.kind, self.vid, self.idx, self.line, self.file, self.ctx, self.pc, self.ext = kind, vid, idx, line, file, ctx, pc, ext


class Prog:
    """all translation units of one extraction"""

    def __init__(self, tus):
        self.tus = tus
        for t in tus:
            t.byid = {}
            for f in t.functions:
                o = t.byid.get(f['id'])
                if o is None or (f.get('body') is not None and o.get('body') is None):
                    t.byid[f['id']] = f
            t.rec = {r['n']: r for r in t.records}
            t.gv = {g['id']: g for g in t.gvars}
        # definitions across TUs by (qualified name, signature)
        self.defs = {}
        for t in tus:
            for f in t.functions:
                if f.get('body') is not None and not f['dep']:
                    self.defs.setdefault(t.sig(f), []).append((t, f))


class TU:
    def __init__(self, d, name):
        self.name = name
        self.errors = d['errors']
        self.types = d['types']
        self.files = d['files']
        self.functions = d['functions']
        self.records = d['records']
        self.gvars = d['gvars']
        self.enums = d['enums']

    def sig(self, f):
        return (f.get('cls') or '', f['fn'], tuple(f.get('ta') or ()), tuple(self.types[p['t']] for p in f['ps']), f.get('const'))

    def ty(self, n):
        t = n.get('t')
        return self.types[t] if t is not None and t >= 0 else ''


def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for w in ('const ', 'volatile '):
            if t.startswith(w):
                t = t[len(w):]
                ch = True
        for w in (' const', ' &', ' &&', '&', ' volatile'):
            if t.endswith(w):
                t = t[:-len(w)].strip()
                ch = True
    return t


def targs(t):
    """template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    depth = 0
    out = []
    cur = ''
    for ch in t[i:]:
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        if ch == '>':
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if ch == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


def isview(t):
    return strip_cv(t).startswith('Kokkos::View<')


def viewrank(t):
    a = targs(strip_cv(t))
    d = a[0] if a else ''
    st = d.count('*')
    el = d
    fixed = []
    if '[' in d:
        j = d.find('[')
        fixed = [int(x.rstrip(']')) for x in d[j + 1:].split('[') if x.rstrip(']').isdigit()]
        el = d[:j]
    el = strip_cv(el.replace('*', ' ').strip())
    return st, fixed, el


def isnum(t):
    t = strip_cv(t)
    return t in FLT or t in INTT or t.startswith('Sacado::') or t.startswith('enum ')


class Interp:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.views = {}
        self.acc = []          # Access log
        self.throws = []       # (pc, type, mem snapshot of views, line, file)
        self.ctx = ()          # kernel / loop context: tuples ('k'|'l', atom, lo, hi, id)
        self.noid = 0
        self.depth = 0
        self.cfg = cfg or {}
        self.unk = {}          # untracked constructs: name -> count
        self.calls = []        # stack of (fn, line)
        self.fnseen = set()
        self.logacc = True
        self.steps = 0
        self.kernels = []
        self.sqrtargs = []
        self.divs = []
        self.ext_calls = []    # calls to modelled externals of interest

    # ---------- helpers
    def nid(self):
        self.noid += 1
        return self.noid

    def note(self, what):
        self.unk[what] = self.unk.get(what, 0) + 1

    def topv(self, why):
        self.note(why)
        return top(why)

    def newview(self, st, ext, base, eltype='double', name=None, kind='view', vid=None):
        vid = vid or '%s#%d' % (name or 'arr', self.nid())
        self.views[vid] = VInfo(vid, tuple(ext), base, eltype, name, kind)
        st.mem[('view', vid)] = Content(base)
        return ViewRef(vid, (None,) * len(ext), kind)

    def content(self, st, vid):
        c = st.mem.get(('view', vid))
        if c is None:
            c = Content(self.views[vid].base)
            st.mem[('view', vid)] = c
        return c

    def ext(self, v, k):
        info = self.views.get(v.vid)
        fr = v.free()
        if info is None or k >= len(fr):
            return ONE if info is not None else self.topv('extent')
        return self.exts(v.vid)[fr[k]]

    def exts(self, vid):
        e = self.st.mem.get(('ext', vid))
        return e if e is not None else self.views[vid].ext

    # base content of a cell
    def basecell(self, vid, base, idx):
        if base == 'zero':
            return ZERO
        if isinstance(base, tuple) and base[0] == 'fill':
            return base[1]
        if isinstance(base, tuple) and base[0] == 'copy':
            return self.lookup(base[1], idx, base[2])
        if isinstance(base, tuple) and base[0] == 'sym':
            el = self.views[vid].eltype if vid in self.views else 'double'
            if el == 'bool':
                return ('c', cell('?' + base[1], idx), frozenset('+'))
            if not isnum(el):
                return self.mksym_any(el, base[1] + str([str(i) for i in idx]))
            c = cell(base[1], idx)
            if strip_cv(el) in INTT:
                as_atom(c).isint = True
            return c
        if base == 'undef':
            return cell('uninit:' + vid, idx)
        return top('base')

    def lookup(self, c, idx, vid=None):
        k = tuple(i.key() for i in idx)
        n = c.keys.get(k)
        ents = c.ents
        stop = -1
        if n is not None and not ents[n].q:
            stop = n
        for j in range(len(ents) - 1, stop, -1):
            e = ents[j]
            if e.q:
                r = self.matchq(e, idx)
                if r == 'no':
                    continue
                if r is None:
                    return top('may alias (quantified write)')
                if isinstance(r, tuple) and r and r[0] == 'gate':
                    rest = self.lookup(Content(c.base, ents[:j]), idx, vid)
                    if not isinstance(rest, Expr):
                        return top('may alias (quantified write)')
                    return ite(r[1], r[2], rest)
                return r
            s = tup_same(e.idx, idx)
            if s == 'ne':
                continue
            if s == 'eq':
                return e.val
            # undetermined: gated on index equality when both values are numeric
            return self.alias_read(c, j, e, idx, vid)
        if stop >= 0:
            return ents[stop].val
        return self.basecell(vid, c.base, idx)

    def alias_read(self, c, j, e, idx, vid):
        if not isinstance(e.val, Expr):
            return top('may alias')
        cond = True
        for x, y in zip(e.idx, idx):
            cond = cand(cond, cmp(x - y, '=='))
        rest = self.lookup(Content(c.base, c.ents[:j]), idx, vid)
        if not isinstance(rest, Expr):
            return top('may alias')
        return ite(cond, e.val, rest)

    def matchq(self, e, idx):
        """value of the quantified entry at idx; 'no' if certainly not covered; None if unknown"""
        bvs = {a.i: (a, lo, hi) for a, lo, hi in e.q}
        sol = {}
        whole = True
        if len(e.idx) != len(idx):
            return None
        for pat, x in zip(e.idx, idx):
            vs = [b for b in bvs if b in all_atoms(pat)]
            if not vs:
                s = tup_same((pat,), (x,))
                if s == 'ne':
                    return 'no'
                if s is None:
                    return None
                continue
            if len(vs) == 1:
                b = vs[0]
                at = bvs[b][0]
                inj = self.cfg.get('injective') or ()
                pa, xa = as_atom(pat), as_atom(x)
                while pa is not None and xa is not None and pa.kind == 'cell' and xa.kind == 'cell' and pa.d[0] in inj and pa.d[0] == xa.d[0] and len(pa.d[1]) == 1:
                    pat, x = pa.d[1][0], xa.d[1][0]
                    pa, xa = as_atom(pat), as_atom(x)
                d = deriv_lin(pat, at)
                if d is None:
                    return None
                a, c0 = d  # pat = a*b + c0
                if a.const() is None:
                    return None
                v = (x - c0) / a
                if integral(x - c0, a) is False:
                    return 'no'
                if integral(x - c0, a) is not True:
                    whole = False
                if b in sol:
                    if (sol[b] - v).n:
                        return None
                sol[b] = v
            else:
                return None
        if len(sol) < len(bvs):
            # a bound variable that does not occur in the index: loop order matters
            return None
        val = e.val
        conds = True
        for b, v in sol.items():
            at, lo, hi = bvs[b]
            lo = subst(lo, lambda a: sol.get(a.i)) if sol else lo
            hi = subst(hi, lambda a: sol.get(a.i)) if sol else hi
            r = within(v, lo, hi)
            if r is False:
                return 'no'
            if r is None:
                if not whole or has_top(v - lo) or has_top(hi - v):
                    return None
                conds = cand(conds, cand(cmp(v - lo, '>='), cmp(hi - v, '>')))
        if conds is not True:
            return ('gate', conds, subst(val, lambda a: sol.get(a.i))) if isinstance(val, Expr) else None
        if isinstance(val, Expr):
            return subst(val, lambda a: sol.get(a.i))
        if isinstance(val, tuple) or val is True or val is False:
            return csubst(val, lambda a: sol.get(a.i))
        return val

    def read(self, st, v, idx, node=None, tu=None):
        info = self.views.get(v.vid)
        full, rest = v.full(idx)
        if info is None or None in full:
            return top('partial index')
        full = tuple(E(x) if not isinstance(x, Expr) else x for x in full)
        self.log('R', v.vid, full, node, st)
        r = self.lookup(self.content(st, v.vid), full, v.vid)
        return r

    def log(self, kind, vid, idx, node, st):
        if not self.logacc:
            return
        f = self.calls[-1] if self.calls else None
        self.acc.append(Access(kind, vid, idx, node.get('l') if node else 0, f, self.ctx, st.pc, st.mem.get(('ext', vid)) or self.views[vid].ext))

    def write(self, st, v, idx, val, node=None, atomic=False):
        full, rest = v.full(idx)
        if v.vid not in self.views or None in full:
            self.havoc_view(st, v.vid)
            return
        self.log('A' if atomic else 'W', v.vid, full, node, st)
        self.put(st, v.vid, full, val, atomic)

    def put(self, st, vid, full, val, atomic=False):
        c = self.content(st, vid)
        k = tuple(i.key() for i in full)
        n = c.keys.get(k)
        if n is not None and not c.ents[n].q:
            later = c.ents[n + 1:]
            if all(not e.q and tup_same(e.idx, full) == 'ne' for e in later):
                ents = c.ents[:n] + (Entry(full, val, (), atomic),) + later
                st.mem[('view', vid)] = Content(c.base, ents, c.keys)
                return
        ents = c.ents + (Entry(full, val, (), atomic),)
        keys = dict(c.keys)
        keys[k] = len(ents) - 1
        st.mem[('view', vid)] = Content(c.base, ents, keys)

    def havoc_view(self, st, vid):
        nm = 'top:%s#%d' % (vid, self.nid())
        st.mem[('view', vid)] = Content(('top', nm))

    # ---------- symbolic values by type
    def mksym_any(self, t, name, st=None):
        t0 = t
        t = strip_cv(t)
        if t in FLT or t.startswith('Sacado::'):
            return sym(name)
        if t == 'bool':
            return boolsym(name)
        if t in INTT:
            return sym(name, True)
        if isview(t):
            rk, fixed, el = viewrank(t)
            ext = self.cfg.get('ext', {}).get(name)
            if ext is None:
                ext = [fn('ext', sym('V:' + name), num(k)) for k in range(rk)]
                for e in ext:
                    as_atom(e).isint = True
            else:
                ext = [E(x) if x is not None else fn('ext', sym('V:' + name), num(k)) for k, x in enumerate(ext)]
                for e in ext:
                    if as_atom(e):
                        as_atom(e).isint = True
            ext = list(ext) + [num(x) for x in fixed]
            if name not in self.views:
                self.views[name] = VInfo(name, tuple(ext), ('sym', name), el, name)
            return ViewRef(name, (None,) * len(ext))
        if t.startswith(SEQ) or t.startswith('std::array<') or t.startswith('Plato::Array<') or t.startswith('Teuchos::Array<'):
            a = targs(t)
            ext = self.cfg.get('ext', {}).get(name)
            if ext is not None:
                e = E(ext[0])
            elif t.startswith('std::array<'):
                e = num(int(a[1].rstrip('UL')))
            else:
                e = fn('ext', sym('V:' + name), num(0))
                as_atom(e).isint = True
            if name not in self.views:
                self.views[name] = VInfo(name, (e,), ('sym', name), a[0], name, 'arr')
            return ViewRef(name, (None,), 'arr')
        if t.startswith('std::basic_string<') or t in ('std::string', 'std::basic_string'):
            return Sstr(name)
        if t.startswith('Teuchos::RCP<') or t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
            return Ptr(self.mksym_any(targs(t)[0], name))
        if t.endswith('*'):
            return Ptr(self.mksym_any(t[:-1], name))
        if t.startswith('Teuchos::ParameterList'):
            o = Obj(self.nid(), 'Teuchos::ParameterList', name)
            return o
        for tu in self.p.tus:
            for e in tu.enums:
                if tu.types[e['t']] == t:
                    return sym(name, True)
        o = Obj(self.nid(), t, name)
        return o

    # ---------- field access
    def getfield(self, st, o, name, t, tu):
        if not isinstance(o, Obj):
            return self.unknown(t, 'field %s of %r' % (name, type(o).__name__))
        k = ('o', o.oid, name)
        v = st.mem.get(k)
        if v is None:
            if o.symname is not None:
                v = self.mksym_any(t, o.symname + '.' + name)
            else:
                tt = strip_cv(t)
                if isnum(tt):
                    v = sym('uninit:%s.%s#%d' % (o.cls, name, o.oid), tt in INTT)
                else:
                    v = self.default(st, tt, tu, name)
            st.mem[k] = v
        return v

    def unknown(self, t, why):
        self.note(why)
        t = strip_cv(t)
        if t == 'bool':
            return boolsym('%s#%d' % ('top', self.nid())) if False else ('c', top(why), frozenset('+'))
        if isnum(t):
            return top(why)
        return Unknown(why)

    def default(self, st, t, tu, name='tmp'):
        """default-initialised object of type t"""
        t = strip_cv(t)
        if isview(t):
            rk, fixed, el = viewrank(t)
            return self.newview(st, [ZERO] * rk + [num(x) for x in fixed], 'zero', el, name)
        if t.startswith(SEQ):
            return self.newview(st, [ZERO], 'undef', targs(t)[0], name, 'arr')
        if t.startswith('std::array<'):
            a = targs(t)
            return self.newview(st, [num(int(a[1].rstrip('UL')))], 'undef', a[0], name, 'arr')
        if t.endswith(']'):
            j = t.find('[')
            dims = [int(x.rstrip(']')) for x in t[j + 1:].split('[')]
            el = t[:j].strip()
            od = omega_dims(el)
            return self.newview(st, [num(d) for d in dims + list(od or ())], 'undef', 'double' if od else el, name, 'arr')
        od = omega_dims(t)
        if od:
            return self.newview(st, [num(d) for d in od], 'undef', 'double', name, 'arr')
        if t.startswith('std::basic_string') and 'stringstream' not in t:
            return ''
        if t.startswith(('Teuchos::RCP<', 'std::shared_ptr<', 'std::unique_ptr<')):
            return Ptr(None)
        if t.startswith('std::map<') or t.startswith('std::unordered_map<'):
            o = Obj(self.nid(), t)
            st.mem[('map', o.oid)] = {}
            return o
        if isnum(t) or t == 'bool':
            return sym('uninit:%s#%d' % (name, self.nid()))
        if t.endswith('*'):
            return Unknown('uninitialised pointer')
        o = Obj(self.nid(), t)
        return o

    def copyval(self, st, v):
        if isinstance(v, ViewRef) and v.kind == 'arr':
            info = self.views.get(v.vid)
            if info is None:
                return v
            if not all(p is None for p in v.pat):
                fr = v.free()
                if not fr:
                    return self.read(st, v, ())
                ex = self.exts(v.vid)
                nv = self.newview(st, [ex[k] for k in fr], 'undef', info.eltype, info.name, 'arr')
                ns = [ex[k].iconst() for k in fr]
                if None in ns:
                    self.havoc_view(st, nv.vid)
                    return nv
                import itertools as it
                for ix in it.product(*[range(n) for n in ns]):
                    self.put(st, nv.vid, tuple(num(i) for i in ix), self.lookup(self.content(st, v.vid), v.full([num(i) for i in ix])[0], v.vid))
                return nv
            nv = self.newview(st, self.exts(v.vid), 'undef', info.eltype, info.name, 'arr')
            c = self.content(st, v.vid)
            st.mem[('view', nv.vid)] = Content(('copy', c, v.vid))
            return nv
        if isinstance(v, Obj):
            if v.cls.startswith('Teuchos::ParameterList'):
                return v
            n = Obj(self.nid(), v.cls, v.symname)
            n.x = dict(v.x)
            for k in list(st.mem):
                if k[0] == 'map' and k[1] == v.oid:
                    self.copymap(st, v, n)
                elif k[0] == 'o' and k[1] == v.oid:
                    st.mem[(k[0], n.oid) + k[2:]] = self.copyval(st, st.mem[k])
            return n
        return v

    def copymap(self, st, v, n):
        """n becomes a copy of the map v"""
        m = st.mem.get(('map', v.oid))
        if not isinstance(m, dict):
            st.mem[('map', n.oid)] = m
            return
        d = {}
        for kk, e in m.items():
            slot = ('mapslot', n.oid, kk)
            st.mem[slot] = self.copyval(st, st.mem.get(e[1]))
            d[kk] = ('slot', slot, e[2])
        st.mem[('map', n.oid)] = d

    # ---------- merging
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        pre = states[0].pc
        for s in states[1:]:
            n = 0
            while n < len(pre) and n < len(s.pc) and (pre[n] is s.pc[n] or ckey(pre[n]) == ckey(s.pc[n])):
                n += 1
            pre = pre[:n]
        states = sorted(states, key=lambda s: len(s.pc))
        acc = states[-1]
        res = State(acc.mem, pre)
        conds = []
        for s in reversed(states[:-1]):
            c = True
            for x in s.pc[len(pre):]:
                c = cand(c, x)
            conds.append(c)
            res = State(self.mergemem(c, s.mem, res.mem), pre)
        if res.mem is acc.mem:
            res = State(dict(acc.mem), pre)
        # what has left before (a return, a break, a throw) must not be covered by the joined path
        c = True
        for x in acc.pc[len(pre):]:
            c = cand(c, x)
        conds.append(c)
        if any(x is True for x in conds) or (len(conds) == 2 and ckey(conds[0]) == ckey(cnot(conds[1]))):
            return res
        d, u = False, ZERO
        for x in conds:
            d = cor(d, x)
        try:
            for x in conds:
                u = ite(x, ONE, u) if u is not None and not cond_top(x) else None
        except Undecided:
            u = None
        if u is not None and u.const() == 1:
            return res
        if d is not True:
            res.pc = pre + (d,)
        return res

    def mergemem(self, c, a, b):
        out = dict(b)
        for k, va in a.items():
            vb = b.get(k)
            if vb is va:
                continue
            if k not in b:
                if k[0] == 'view':
                    vb = Content(self.views[k[1]].base)
                elif k[0] == 'ext':
                    vb = self.views[k[1]].ext
                elif k[0] == 'o':
                    out[k] = va
                    continue
                else:
                    out[k] = va
                    continue
            out[k] = self.mergeval(c, va, vb, k)
        for k, vb in b.items():
            if k not in a and k[0] == 'view':
                va = Content(self.views[k[1]].base)
                out[k] = self.mergeval(c, va, vb, k)
            elif k not in a and k[0] == 'ext':
                out[k] = self.mergeval(c, self.views[k[1]].ext, vb, k)
        return out

    def mergeval(self, c, a, b, k=None):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if k is not None and k[0] == 'ext':
            return tuple(ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Content) and isinstance(b, Content):
            return self.mergecontent(c, a, b, k[1])
        if isinstance(a, Expr) and isinstance(b, Expr):
            try:
                return ite(c, a, b)
            except Undecided as u:
                return top(str(u))
        ca = a is True or a is False or isinstance(a, tuple)
        cb = b is True or b is False or isinstance(b, tuple)
        if ca and cb:
            return cor(cand(c, a), cand(cnot(c), b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        if isinstance(a, ViewRef) and isinstance(b, ViewRef) and a.vid == b.vid and a.pat == b.pat:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.to is b.to:
                return a
            return Choice(c, a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            d = {}
            for x in list(a) + [y for y in b if y not in a]:
                ea, eb = a.get(x), b.get(x)
                if ea is not None and eb is not None:
                    if ea[1] != eb[1]:
                        return Unknown('map merge')
                    d[x] = (ea[0], ea[1], ea[2] if ea[2] is eb[2] else cor(cand(c, ea[2]), cand(cnot(c), eb[2])))
                elif ea is not None:
                    d[x] = (ea[0], ea[1], cand(c, ea[2]))
                else:
                    d[x] = (eb[0], eb[1], cand(cnot(c), eb[2]))
            return d
        if isinstance(a, Ref) and isinstance(b, Ref) and a.k == b.k and a.a == b.a and a.b == b.b:
            return a
        if isinstance(a, (str, Sstr, Choice, Ptr, Obj)) and isinstance(b, (str, Sstr, Choice, Ptr, Obj)):
            return Choice(c, a, b)
        return Unknown('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def mergecontent(self, c, a, b, vid):
        n = 0
        while n < len(a.ents) and n < len(b.ents) and a.ents[n] is b.ents[n]:
            n += 1
        if a.base is not b.base and a.base != b.base:
            return Content(('top', 'merge#%d' % self.nid()))
        ra, rb = a.ents[n:], b.ents[n:]
        if not ra and not rb:
            return a
        base = Content(a.base, a.ents[:n])
        if any(e.q for e in ra) or any(e.q for e in rb):
            # same quantified patterns in both branches: gate their values
            if len(ra) == len(rb) and all(same_pattern(x, y) for x, y in zip(ra, rb)):
                ents = a.ents[:n] + tuple(Entry(x.idx, self.mergeval(c, x.val, requant(y, x)), x.q, x.atomic) for x, y in zip(ra, rb))
                return Content(a.base, ents)
            one, other, cc = (ra, rb, c) if not rb else (rb, ra, cnot(c))
            if not other and all(isinstance(x.val, Expr) for x in one):
                ents = list(a.ents[:n])
                for x in one:
                    old = self.lookup(Content(a.base, tuple(ents)), x.idx, vid)
                    if not isinstance(old, Expr):
                        break
                    ents.append(Entry(x.idx, ite(cc, x.val, old), x.q, x.atomic))
                else:
                    return Content(a.base, tuple(ents))
            return Content(('top', 'merge#%d' % self.nid()))
        ents = list(a.ents[:n])
        done = []
        for e in list(ra) + list(rb):
            if any(tup_same(e.idx, d) == 'eq' for d in done):
                continue
            va = self.lookup(a, e.idx, vid)
            vb = self.lookup(b, e.idx, vid)
            done.append(e.idx)
            ents.append(Entry(e.idx, self.mergeval(c, va, vb), (), e.atomic))
        # entries that may alias each other must not be reordered: they were merged pointwise, keep only if pairwise distinct
        for i in range(len(done)):
            for j in range(i):
                if tup_same(done[i], done[j]) is None:
                    return Content(('top', 'merge alias#%d' % self.nid()))
        return Content(a.base, tuple(ents))


class Choice:
    """gated non-numeric value"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%s, %r, %r)' % (cstr(self.c), self.a, self.b)


def same_pattern(x, y):
    if len(x.q) != len(y.q) or len(x.idx) != len(y.idx):
        return False
    m = {b.i: of_atom(a) for (a, _, _), (b, _, _) in zip(x.q, y.q)}
    f = lambda a: m.get(a.i)
    if not all(not (subst(yi, f) - xi).n for xi, yi in zip(x.idx, y.idx)):
        return False
    return all(not (subst(l2, f) - l1).n and not (subst(h2, f) - h1).n for (_, l1, h1), (_, l2, h2) in zip(x.q, y.q))


def requant(y, x):
    m = {b.i: of_atom(a) for (a, _, _), (b, _, _) in zip(x.q, y.q)}
    if isinstance(y.val, Expr):
        return subst(y.val, lambda a: m.get(a.i))
    return y.val


def integral(e, a):
    """False if e/a can not be an integer: all atoms of e are integers with coefficients divisible by a, the rest is not"""
    k = a.const()
    if k is None or e.d or k == 0:
        return None
    for m, c in e.n.items():
        if m != ONE_M and ((c / k).denominator != 1 or not all(ATOMS[x].isint for x, _ in m)):
            return None
    c0 = e.n.get(ONE_M, Fr(0))
    return (c0 / k).denominator == 1


def lowbound(e, lower=True, depth=0):
    """a constant that e is never below (lower) / never above, from the ranges of its integer atoms; None if unknown"""
    if e.d:
        return None
    c = e.const()
    if c is not None:
        return c
    if depth > 8:
        return None
    # eliminate one ranged atom whose range depends on nothing still to be eliminated
    best = None
    for a in sorted(e.atoms()):
        r = symb.RANGES.get(a)
        at = ATOMS[a]
        if r is None and at.kind == 'fn' and at.d[0] == 'ext':
            r = (ZERO, None)
        if r is None and at.kind == 'ite':
            lin = deriv_lin(e, at)
            if lin is None:
                continue
            xs = [lowbound(lin[0] * v + lin[1], lower, depth + 1) for v in at.d[1:3]]
            if None in xs:
                return None
            return min(xs) if lower else max(xs)
        if r is None and at.kind == 'fn' and at.d[0] == 'imod' and at.d[1][1].iconst():
            r = (ZERO, at.d[1][1])
        if r is None:
            return None
        k = 0 if (r[1] is not None and not r[1].const() is not None) else 1
        if best is None or (k, -a) < best[0]:
            best = ((k, -a), at, r)
    if best is None:
        return None
    at, r = best[1], best[2]
    lin = deriv_lin(e, at)
    if lin is None:
        return None
    co, rest = lin
    cb = co.const()
    if cb is None:
        sg = lowbound(co, True, depth + 1)
        if sg is not None and sg >= 0:
            pos = True
        else:
            sg = lowbound(co, False, depth + 1)
            if sg is None or sg > 0:
                return None
            pos = False
    else:
        pos = cb >= 0
    if pos == lower:
        v = r[0]
    else:
        if r[1] is None:
            return None
        v = r[1] - 1
    return lowbound(co * v + rest, lower, depth + 1)


def within(v, lo, hi):
    """lo <= v < hi: True / False / None"""
    a = v - lo
    b = hi - v
    la, lb = lowbound(a), lowbound(b)
    okl = la is not None and la >= 0
    okh = lb is not None and lb >= 1
    if okl and okh:
        return True
    ha, hb = lowbound(a, False), lowbound(b, False)
    if (ha is not None and ha < 0) or (hb is not None and hb < 1):
        return False
    return None


def nonneg(e):
    lo = lowbound(e)
    return lo is not None and lo >= 0
