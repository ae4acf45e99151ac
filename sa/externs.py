"""Models of library calls (Kokkos, Teuchos, Sacado, the standard library)."""
HUGE = 2 ** 500      # stands for the largest finite number
import re
import symb
from symb import *
from interp import *


def iscond(v):
    return v is True or v is False or (isinstance(v, tuple) and len(v) > 0 and v[0] in ('c', 'not', 'and', 'or'))


MATH1 = {'sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'floor', 'ceil', 'log10', 'erf'}
STREAM = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istream', 'std::basic_ios', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::ios_base')


def ext_ctor(self, cls, nd):
    a = nd['a']
    st = self.st
    if cls.startswith('Kokkos::View<'):
        vals = []
        for x in a:
            if x['k'] == 'zero' or x.get('k') == 'float' and False:
                continue
            v = self.ev(x)
            if isinstance(v, Ref):
                v = self.load(v)
            vals.append(v)
        rk, fixed, el = viewrank(cls)
        if not vals:
            return self.newview(st, [ZERO] * rk + [num(x) for x in fixed], 'zero', el, 'empty')
        if isinstance(vals[0], ViewRef) and (len(vals) == 1 or len(a) == 2 and a[1]['k'] == 'nullptr'):
            return ViewRef(vals[0].vid, vals[0].pat, 'view')
        if isinstance(vals[0], ViewRef) and vals[0].kind == 'view':
            return self.subview(vals[0], vals[1:])
        if isinstance(vals[0], Ptr):
            t = vals[0].to
            if isinstance(t, ViewRef) and len(t.free()) == rk:
                return ViewRef(t.vid, t.pat, 'view')
            if isinstance(t, Ref) and t.k == 'c' and rk == 1:
                return ViewRef(t.a.vid, t.a.pat, 'view')
            return Unknown('unmanaged view')
        ext = [self.n(v) for v in vals[1:1 + rk]]
        while len(ext) < rk:
            ext.append(ZERO)
        base = 'zero'
        if isinstance(vals[0], Obj) and vals[0].x.get('noinit'):
            base = 'undef'
        return self.newview(st, ext + [num(x) for x in fixed], base, el, vals[0] if isinstance(vals[0], str) else 'view')
    if cls.startswith(('Omega_h::Vector<', 'Omega_h::Matrix<')) and not a:
        return self.default(st, cls, self.tu)
    if cls.startswith('Kokkos::RangePolicy<'):
        vs = [self.ev(x) for x in a]
        vs = [self.n(self.load(v) if isinstance(v, Ref) else v) for v in vs if isinstance(v, Expr) or isinstance(v, Ref)]
        o = Obj(self.nid(), 'Kokkos::RangePolicy')
        if len(vs) >= 2:
            o.x['lo'], o.x['hi'] = vs[0], vs[1]
        return o
    if '__normal_iterator' in cls and len(a) >= 1:
        v = self.ev(a[0])
        return self.load(v) if isinstance(v, Ref) else v
    if cls.startswith(('Kokkos::Max<', 'Kokkos::Min<', 'Kokkos::Sum<', 'Kokkos::Prod<')):
        o = Obj(self.nid(), cls.split('<')[0])
        r = self.lval(a[0])
        o.x['ref'] = r if r.k != 'x' else r.a
        return o
    if cls.startswith('std::basic_string') and 'stringstream' not in cls:
        if not a:
            return ''
        v = cstring(self, self.ev(a[0]))
        more = [x for x in (self.rv(y) for y in a[1:] if y is not None) if x is not None and not (isinstance(x, (Obj, Unknown)) and 'lloc' in str(getattr(x, 'cls', 'lloc')))]
        if more:
            n = v.iconst() if isinstance(v, Expr) else None
            m = [x.iconst() if isinstance(x, Expr) else None for x in more]
            if n is not None and len(more) == 1 and m[0] is not None:
                return chr(m[0]) * n if 0 <= n < 4096 and m[0] > 0 else Sstr('str#%d' % self.nid())
            if isinstance(v, str) and '\ufffd' not in v and None not in m and all(x >= 0 for x in m):
                if len(m) == 1:
                    return v[:m[0]] if self.tu.ty(a[0]).replace('const', '').strip().endswith('*') else v[m[0]:]
                if len(m) == 2:
                    return v[m[0]:m[0] + m[1]]
            return Sstr('str#%d' % self.nid())
        if isinstance(v, (str, Sstr, Choice)):
            return v
        return Sstr('str#%d' % self.nid())
    if cls.startswith(SEQ) or cls.startswith('std::initializer_list'):
        el = (targs(cls) or ['double'])[0]
        if not a:
            return self.newview(st, [ZERO], 'undef', el, 'vector', 'arr')
        if nd.get('list') or a[0]['k'] == 'list':
            v = self.ev(a[0])
            if isinstance(v, ViewRef):
                self.views[v.vid].eltype = el
                return v
        v0 = self.ev(a[0])
        if isinstance(v0, Expr):
            if len(a) > 1:
                v1 = self.ev(a[1])
                if isinstance(v1, Expr):
                    return self.newview(st, [v0], ('fill', v1), el, 'vector', 'arr')
                if not isinstance(v1, Unknown) and not (isinstance(v1, Obj) and 'allocator' in v1.cls):
                    nv = self.newview(st, [v0], 'undef', el, 'vector', 'arr')
                    n = v0.iconst()
                    if n is not None:
                        for i in range(n):
                            self.put(st, nv.vid, (num(i),), self.copyval(st, v1))
                    return nv
            return self.newview(st, [v0], 'zero' if isnum(el) else 'undef', el, 'vector', 'arr')
        if isinstance(v0, ViewRef):
            return self.copyval(st, v0)
        return Unknown('vector')
    if cls.startswith('std::map<') or cls.startswith('std::unordered_map<'):
        o = Obj(self.nid(), cls)
        st.mem[('map', o.oid)] = {}
        if a:
            v = self.ev(a[0])
            if isinstance(v, ViewRef) and v.vid in self.views:
                d = {}
                n = self.ext(v, 0).iconst()
                ok = n is not None
                for i in range(n or 0):
                    pr = self.lookup(self.content(st, v.vid), (num(i),), v.vid)
                    if isinstance(pr, Obj) and isinstance(st.mem.get(('o', pr.oid, 'first')), (str, Expr)):
                        kk = st.mem[('o', pr.oid, 'first')]
                        kk = kk if isinstance(kk, str) else ('k', kk.key())
                        if kk not in d:
                            d[kk] = ('slot', ('mapslot', o.oid, kk), True)
                            st.mem[d[kk][1]] = st.mem.get(('o', pr.oid, 'second'))
                    else:
                        ok = False
                st.mem[('map', o.oid)] = d if ok else Unknown('map')
            else:
                if isinstance(v, Ref):
                    v = self.load(v)
                if isinstance(v, Obj):
                    o.symname = v.symname
                    self.copymap(st, v, o)
                else:
                    st.mem[('map', o.oid)] = Unknown('map')
        return o
    if cls.startswith('std::pair<') or cls.startswith('std::tuple<'):
        o = Obj(self.nid(), 'std::pair')
        vs = [self.rv(x) for x in a]
        if len(vs) == 1 and isinstance(vs[0], Obj) and ('o', vs[0].oid, 'first') in st.mem:     # converting / copying
            vs = [self.copyval(st, st.mem[('o', vs[0].oid, k)]) for k in ('first', 'second')]
        if len(vs) >= 2:
            st.mem[('o', o.oid, 'first')] = vs[0]
            st.mem[('o', o.oid, 'second')] = vs[1]
        return o
    if cls.startswith(('Teuchos::RCP<', 'std::shared_ptr<', 'std::unique_ptr<')):
        if not a:
            return Ptr(None)
        v = self.ev(a[0])
        if isinstance(v, Ref):
            v = self.load(v)
        if isinstance(v, (Ptr, Choice)):
            return v
        if isinstance(v, (Obj, ViewRef)):
            return Ptr(v)
        return Ptr(None) if nd['a'][0]['k'] in ('nullptr', 'zero') else v if isinstance(v, Unknown) else Ptr(None)
    if cls.startswith('Sacado::'):
        if not a:
            return ZERO
        # the k-th independent variable of n: (n, k, value)
        if self.cfg.get('seeds') and len(a) == 3 and all(strip_cv(self.tu.ty(q).rstrip('& ')) in INTT for q in a[:2]):
            return fn('indep', *[self.evn(q) for q in a])
        # (value, enable_if default) or (size, value)
        sized = len(a) > 1 and strip_cv(self.tu.ty(a[0]).rstrip('& ')) in INTT and a[-1]['k'] != 'int'
        v = self.ev(a[-1] if sized else a[0])
        if isinstance(v, Ref):
            v = self.load(v)
        return self.n(v)
    if cls.startswith('std::allocator') or cls.startswith('std::less') or cls.startswith('Kokkos::ALL') or cls.startswith('Kokkos::Impl::ALL'):
        o = Obj(self.nid(), 'ALL' if 'ALL' in cls else 'std::allocator')
        return o
    if any(cls.startswith(s) for s in STREAM):
        o = Obj(self.nid(), 'stream')
        if 'stringstream' in cls and not a:
            st.mem[('o', o.oid, '$str')] = ''
        if 'fstream' in cls:
            st.mem[('o', o.oid, '$open')] = boolsym('open#%d' % o.oid) if a else False
            if a:
                openfile(self, o, self.ev(a[0]))
        return o
    if cls.startswith('Kokkos::Timer') or cls.startswith('Kokkos::Impl'):
        return Obj(self.nid(), cls)
    if cls.startswith('std::') and 'error' in cls or 'exception' in cls:
        for x in a:
            self.ev(x)
        return Obj(self.nid(), cls)
    if cls.startswith('Teuchos::ParameterList'):
        return Obj(self.nid(), 'Teuchos::ParameterList', 'PL#%d' % self.nid())
    if cls.startswith('Teuchos::Array<'):
        if not a:
            return self.newview(st, [ZERO], 'undef', 'double', 'TArray', 'arr')
        v0 = self.ev(a[0])
        if isinstance(v0, Expr):
            v1 = self.ev(a[1]) if len(a) > 1 else ZERO
            return self.newview(st, [v0], ('fill', self.n(v1)), 'double', 'TArray', 'arr')
        if isinstance(v0, ViewRef):
            return self.copyval(st, v0)
        return Unknown('Teuchos::Array')
    return NotImplemented


def subview(self, v, args):
    it = iter(args)
    pat = []
    for p in v.pat:
        if p is not None:
            pat.append(p)
            continue
        try:
            a = next(it)
        except StopIteration:
            pat.append(None)
            continue
        if isinstance(a, Expr):
            pat.append(a)
        elif isinstance(a, Obj) and a.cls == 'ALL':
            pat.append(None)
        else:
            return Unknown('subview range')
    return ViewRef(v.vid, tuple(pat), v.kind)


def vals(self, nodes):
    out = []
    for x in nodes:
        v = self.ev(x)
        if isinstance(v, Ref):
            v = self.load(v)
        out.append(v)
    return out


def kernel(self, nd, reduce=False):
    vs = []
    red = None
    for i, x in enumerate(nd['a']):
        t = strip_cv(self.tu.ty(x))
        if reduce and i == len(nd['a']) - 1 and x['k'] in ('ref', 'member', 'index') :
            r = self.lval(x)
            v = self.load(r)
            if isinstance(v, Obj) and v.cls.startswith('Kokkos::'):
                red = v
            else:
                red = r
            continue
        v = self.ev(x)
        if isinstance(v, Ref):
            v = self.load(v)
        if reduce and isinstance(v, Obj) and v.cls.startswith(('Kokkos::Max', 'Kokkos::Min', 'Kokkos::Sum')):
            red = v
            continue
        vs.append(v)
    pol = [v for v in vs if isinstance(v, Obj) and v.cls == 'Kokkos::RangePolicy']
    clo = [v for v in vs if isinstance(v, Closure)]
    fobj = [v for v in vs if isinstance(v, Obj) and v.cls != 'Kokkos::RangePolicy']
    lo, hi = ZERO, None
    if pol and 'hi' in pol[0].x:
        lo, hi = pol[0].x['lo'], pol[0].x['hi']
    else:
        ns = [v for v in vs if isinstance(v, Expr)]
        if ns:
            hi = ns[0]
    if hi is None or (not clo and not fobj):
        self.note('kernel without a recognised policy')
        for k in list(self.st.mem):
            if k[0] == 'view':
                self.havoc_key(self.st, k)
        return None
    st = self.st
    un = self.cfg.get('unroll')
    if un and lo.const() is not None and hi.const() is not None and hi.const() - lo.const() <= self.cfg.get('unroll_max', 400):
        return unrolled(self, nd, reduce, red, clo, fobj, int(lo.const()), int(hi.const()), un)
    at = as_atom(fresh('i', True))
    symb.RANGES[at.i] = (lo, hi)
    kinfo = {'at': at, 'lo': lo, 'hi': hi, 'line': nd.get('l'), 'fn': self.calls[-1] if self.calls else '', 'closure': clo[0] if clo else None,
             'acc0': len(self.acc), 'tu': self.tu, 'node': nd}
    key = None
    if reduce:
        key = ('v', 0, 'red%d' % self.nid())
        st.mem[key] = ZERO
        mode = 'sum'
        if isinstance(red, Obj):
            mode = red.cls.split('::')[-1].lower()

    def run(s):
        self.st = s
        args = [of_atom(at)]
        if reduce:
            args.append(Ref('m', key))
        try:
            if clo:
                self.call_closure(clo[0], None, args)
            else:
                o = fobj[-1]
                for t in [self.tu] + [x for x in self.p.tus if x is not self.tu]:
                    fs = [f for f in t.functions if f.get('cls') == o.cls and f['n'] == 'operator()' and len(f['ps']) == len(args) and f.get('body') is not None]
                    if fs:
                        self.run_function(t, fs[0], o, args)
                        break
                else:
                    self.note('functor kernel without body')
            return s
        except Throw:
            return None
    r = self.summarise(st, at, lo, hi, 'k', run, set(), nd)
    kinfo['acc1'] = len(self.acc)
    self.kernels.append(kinfo)
    st.mem, st.pc = r.mem, r.pc
    self.st = st
    if reduce:
        v = st.mem.pop(key)
        tgt = red.x['ref'] if isinstance(red, Obj) else red
        if isinstance(red, Obj) and mode in ('max', 'min'):
            # the reducer starts from its identity, so only the reduced part remains
            a = None
            for x in all_atoms(v):
                if ATOMS[x].kind == 'fn' and ATOMS[x].d[0] == 'red' + mode:
                    a = ATOMS[x]
            v = of_atom(a) if a is not None else top('reduction')
        if tgt is None:
            self.note('reduction target')
        elif isinstance(tgt, Ref):
            self.store(tgt, v, nd)
        elif isinstance(tgt, ViewRef):
            self.write(st, tgt, [], v, nd)
    return None


REDUCER_IDENTITY = num(10**300)


def unrolled(self, nd, reduce, red, clo, fobj, lo, hi, order):
    """a kernel over a constant range: one evaluation per ordinal, in the given order (the race rule compares the access sets)"""
    st = self.st
    kinfo = {'lo': lo, 'hi': hi, 'line': nd.get('l'), 'fn': self.calls[-1] if self.calls else '', 'its': [], 'acc0': len(self.acc), 'tu': self.tu, 'node': nd}
    key = None
    if reduce:
        key = ('v', 0, 'red%d' % self.nid())
        st.mem[key] = ZERO
        if isinstance(red, Obj):
            m_ = red.cls.split('::')[-1].lower()
            st.mem[key] = -REDUCER_IDENTITY if m_ == 'max' else REDUCER_IDENTITY if m_ == 'min' else ZERO
            red = red.x['ref']
    rng = list(range(lo, hi))
    if order == 'reverse':
        rng.reverse()
    for i in rng:
        a0 = len(self.acc)
        args = [num(i)]
        if reduce:
            args.append(Ref('m', key))
        if clo:
            self.call_closure(clo[0], None, args)
        else:
            o = fobj[-1]
            for t in [self.tu] + [x for x in self.p.tus if x is not self.tu]:
                fs = [f for f in t.functions if f.get('cls') == o.cls and f['n'] == 'operator()' and len(f['ps']) == len(args) and f.get('body') is not None]
                if fs:
                    self.run_function(t, fs[0], o, args)
                    break
            else:
                self.note('functor kernel without body')
        kinfo['its'].append((i, a0, len(self.acc)))
    kinfo['acc1'] = len(self.acc)
    self.kernels.append(kinfo)
    if reduce:
        v = self.st.mem.pop(key)
        if isinstance(red, Ref):
            self.store(red, v, nd)
        elif isinstance(red, ViewRef):
            self.write(self.st, red, [], v, nd)
        else:
            self.note('reduction target')
    return None


def istype(t, key):
    """a deck entry that is present has the type the code reads it with (integers, which are easily confused with reals, are kept apart)"""
    if 'ParameterList' in t:
        return boolsym('sublist:' + key)
    if t in ('double', 'bool') or 'string' in t:
        return boolsym('has:' + key)
    return boolsym('is<%s>:%s' % (t, key))


def need_list(self, nd, key, required):
    """access to a sublist; a read-only access to one that is absent raises"""
    if not required:
        return
    c = self.simplify(boolsym('sublist:' + key))
    if c is True:
        return
    pc = self.st.pc + (cnot(c),)
    self.throws.append((pc, 'Teuchos::missing', State(dict(self.st.mem), pc), nd.get('l'), self.calls[-1] if self.calls else None, self.ctx))
    if c is False:
        raise Throw()


def plist(self, o):
    return o.symname if isinstance(o, Obj) else '?'


def batched(self, nd, fnm, vs):
    """KokkosBatched serial LU (no pivoting, in place) and triangular solve, on views of constant size"""
    views = [v for v in vs if isinstance(v, ViewRef)]
    if not views:
        return None
    def dim(v, k):
        return self.ext(v, k).iconst()
    def rd(v, i, j):
        return self.n(self.read(self.st, v, [num(i), num(j)], nd))
    def wr(v, i, j, x):
        self.write(self.st, v, [num(i), num(j)], x, nd)
    if 'SerialLU<' in fnm:
        a = views[0]
        if len(a.free()) != 2 or dim(a, 0) is None or dim(a, 1) is None or max(dim(a, 0), dim(a, 1)) > 4:
            return None
        m, n = dim(a, 0), dim(a, 1)
        for k in range(min(m, n)):
            for i in range(k + 1, m):
                l = rd(a, i, k) / rd(a, k, k)
                wr(a, i, k, l)
                for j in range(k + 1, n):
                    wr(a, i, j, rd(a, i, j) - l * rd(a, k, j))
        return ZERO
    if 'SerialTrsm<' in fnm and len(views) == 2 and 'Side::Left' in fnm and 'Trans::NoTranspose' in fnm:
        a, b = views
        al = self.n(vs[0])
        if any(len(v.free()) != 2 or dim(v, k) is None or dim(v, k) > 4 for v in views for k in (0, 1)):
            return None
        m, n = dim(b, 0), dim(b, 1)
        lower, unit = 'Uplo::Lower' in fnm, 'Diag::Unit' in fnm
        for j in range(n):
            for i in (range(m) if lower else range(m - 1, -1, -1)):
                x = al * rd(b, i, j)
                for k in (range(i) if lower else range(i + 1, m)):
                    x = x - rd(a, i, k) * rd(b, k, j)
                wr(b, i, j, x if unit else x / rd(a, i, i))
        return ZERO
    return None


def sparse_lib(self, nd, what, vs):
    views = [self.load(v) if isinstance(v, Ref) else v for v in vs]
    scal = [v for v in views if isinstance(v, Expr)]
    views = [v for v in views if isinstance(v, ViewRef)]

    def ints(v, n=None):
        e = self.ext(v, 0).iconst()
        if e is None:
            return None
        out = []
        for q in range(e if n is None else n):
            x = self.read(self.st, v, [num(q)], nd)
            if not isinstance(x, Expr) or x.iconst() is None:
                return None
            out.append(x.iconst())
        return out
    num_ = what.endswith('numeric')
    if len(views) != (9 if num_ else 5):
        return False
    if num_:
        rA, cA, vA, rB, cB, vB, rC, cC, vC = views
    else:
        rA, cA, rB, cB, rC = views
    ra, rb = ints(rA), ints(rB)
    if not ra or not rb:
        return False
    ca, cb = ints(cA, ra[-1]), ints(cB, rb[-1])
    if ca is None or cb is None:
        return False
    if not hasattr(self, 'sp_nnz'):
        self.sp_nnz = {}
    val = lambda v, q: self.n(self.read(self.st, v, [num(q)], nd)) if num_ else ONE
    rows = []
    if what.startswith('spgemm'):
        for i in range(len(ra) - 1):
            r = {}
            for p in range(ra[i], ra[i + 1]):
                if ca[p] + 1 >= len(rb):
                    return False
                for q in range(rb[ca[p]], rb[ca[p] + 1]):
                    r[cb[q]] = r.get(cb[q], ZERO) + val(vA, p) * val(vB, q) if num_ else ONE
            rows.append([(j, r[j]) for j in sorted(r, reverse=True)])  # the library promises no column order
    else:
        if num_ and len(scal) < 2:
            return False
        if len(ra) != len(rb):
            return False
        for i in range(len(ra) - 1):
            if getattr(self, 'spadd_sorted', False):
                # the caller promised sorted rows: the library merges the two rows as they stand
                m, p, q = [], ra[i], rb[i]
                while p < ra[i + 1] or q < rb[i + 1]:
                    if q >= rb[i + 1] or p < ra[i + 1] and ca[p] < cb[q]:
                        m.append((ca[p], scal[-2] * val(vA, p) if num_ else ONE))
                        p += 1
                    elif p >= ra[i + 1] or cb[q] < ca[p]:
                        m.append((cb[q], scal[-1] * val(vB, q) if num_ else ONE))
                        q += 1
                    else:
                        m.append((ca[p], scal[-2] * val(vA, p) + scal[-1] * val(vB, q) if num_ else ONE))
                        p += 1
                        q += 1
                rows.append(m)
                continue
            r = {}
            for p in range(ra[i], ra[i + 1]):
                r[ca[p]] = r.get(ca[p], ZERO) + (scal[-2] * val(vA, p) if num_ else ONE)
            for q in range(rb[i], rb[i + 1]):
                r[cb[q]] = r.get(cb[q], ZERO) + (scal[-1] * val(vB, q) if num_ else ONE)
            rows.append(list(r.items()))
    k = 0
    if not num_:
        for i, r in enumerate(rows):
            self.write(self.st, rC, [num(i)], num(k), nd)
            k += len(r)
        self.write(self.st, rC, [num(len(rows))], num(k), nd)
        self.sp_nnz['spgemm' if what.startswith('spgemm') else 'spadd'] = k
        return True
    rc = ints(rC)
    if rc is None or len(rc) != len(rows) + 1:
        return False
    for i, r in enumerate(rows):
        k = rc[i]
        for j, v in r:
            self.write(self.st, cC, [num(k)], num(j), nd)
            self.write(self.st, vC, [num(k)], v, nd)
            k += 1
    return True


def unmodelled(self, nd, tr, why):
    self.clobber(nd)
    return self.unknown(tr, why)


def external(self, nd, want_ref=False):
    fnm = nd['fn']
    last = fnm.split('::')[-1]
    st = self.st
    tr = self.tu.ty(nd)
    oper = nd.get('oper')
    cls = nd.get('cls') or ''
    A = nd['a']

    if fnm == 'std::make_pair' and len(A) == 2:
        o = Obj(self.nid(), 'std::pair')
        vs = [self.rv(x) for x in A]
        st.mem[('o', o.oid, 'first')], st.mem[('o', o.oid, 'second')] = vs
        return o
    # ---- sparse kernels of the library, on constant structure
    if last in ('spgemm_symbolic', 'spgemm_numeric', 'spadd_symbolic', 'spadd_numeric'):
        if sparse_lib(self, nd, last, [y for y in vals(self, A)]):
            return None
        return unmodelled(self, nd, tr, last)
    if last == 'create_spadd_handle':
        f = [self.load(v) if isinstance(v, Ref) else v for v in vals(self, A)]
        f = f[0] if f else False
        if isinstance(f, Expr):
            f = f.iconst() != 0 if f.iconst() is not None else None
        if f not in (True, False):
            return unmodelled(self, nd, tr, last)
        self.spadd_sorted = f
        return None
    if last in ('get_c_nnz', 'get_max_result_nnz', 'get_c_nnz_size'):
        v = getattr(self, 'sp_nnz', {}).get('spadd' if 'SPADD' in cls.upper() or 'max_result' in last else 'spgemm')
        return num(v) if v is not None else self.unknown(tr, last)
    # ---- kernels
    if fnm == 'Kokkos::parallel_for':
        return kernel(self, nd)
    if fnm == 'Kokkos::parallel_reduce':
        return kernel(self, nd, True)
    if fnm in ('Kokkos::parallel_scan',):
        self.note('parallel_scan')
        vs = vals(self, A)
        for v in vs:
            if isinstance(v, Closure):
                # one visit of the body with unknown running value; everything it writes is unknown
                for c in v.node['caps']:
                    x = st.mem.get(('v', v.env.fid, c.get('id')))
                    if isinstance(x, ViewRef):
                        pass
                self.scan(v)
        return None

    if fnm.startswith('KokkosBatched::Serial') and last == 'invoke':
        r = batched(self, nd, fnm, vals(self, A))
        if r is not None:
            return r

    if cls.startswith(('Omega_h::Vector<', 'Omega_h::Matrix<')) and last in ('operator[]', 'operator()') and nd.get('obj') is not None:
        o = self.obj(nd['obj'])
        idx = [self.evn(x) for x in A]
        return self.elem(o, idx[::-1] if last == 'operator()' else idx, nd)
    if cls.startswith(('Omega_h::Vector<', 'Omega_h::Matrix<')) and last == 'operator=' and nd.get('obj') is not None:
        o, v = self.obj(nd['obj']), self.rv(A[0])
        if not isinstance(o, ViewRef) or not isinstance(v, ViewRef):
            return unmodelled(self, nd, tr, 'assignment of unknown')
        self.assign_arr(o, self.copyval(st, v))
        return Ref('x', o)
    # ---- views
    if cls.startswith('Kokkos::View<') or last in ('operator()',) and cls.startswith('Kokkos::View'):
        o = self.obj(nd['obj']) if nd.get('obj') is not None else None
        if last in ('operator()', 'operator[]', 'access', 'at'):
            idx = [self.evn(x) for x in A if x['k'] != 'zero']
            if isinstance(o, ViewRef):
                return self.elem(o, idx, nd)
            return unmodelled(self, nd, tr, 'view access on unknown')
        if last == 'operator=':
            r = self.lval(nd['obj'])
            v = self.ev(A[0])
            if isinstance(v, Ref):
                v = self.load(v)
            if isinstance(v, ViewRef):
                v = ViewRef(v.vid, v.pat, 'view')
            self.store(r, v, nd) if r.k != 'x' else self.note('view handle assigned to temporary')
            return r
        if isinstance(o, ViewRef) and o.vid in self.views:
            if last in ('extent', 'extent_int', 'dimension'):
                k = self.evn(A[0]).iconst() if A else 0
                return self.ext(o, k) if k is not None else self.topv('extent')
            if last == 'size' or last == 'span':
                s = ONE
                for k in range(len(o.free())):
                    s = s * self.ext(o, k)
                return s
            if last == 'label':
                return Sstr('label:' + self.views[o.vid].name)
            if last == 'data':
                return Ptr(o)
            if last == 'rank':
                return num(len(o.free()))
        return unmodelled(self, nd, tr, 'view method ' + last)
    if fnm == 'Kokkos::subview':
        vs = vals(self, A)
        if vs and isinstance(vs[0], ViewRef):
            return self.subview(vs[0], vs[1:])
        return Unknown('subview')
    if fnm in ('Kokkos::ALL', 'Kokkos::ALL_t') or 'ALL_t::operator()' in fnm:
        return Obj(self.nid(), 'ALL')
    if last in ('create_mirror', 'create_mirror_view', 'create_mirror_view_and_copy'):
        vs = vals(self, A)
        v = [x for x in vs if isinstance(x, ViewRef)]
        if v:
            v = v[0]
            info = self.views[v.vid]
            nv = self.newview(st, [self.ext(v, k) for k in range(len(v.free()))], 'undef' if last != 'create_mirror_view_and_copy' else ('copy', self.content(st, v.vid), v.vid), info.eltype, 'mirror:' + info.name)
            return nv
        return Unknown('mirror')
    if fnm == 'Kokkos::deep_copy':
        vs = vals(self, A)
        vs = [v for v in vs if not (isinstance(v, Obj))]
        d, s = vs[0], vs[1] if len(vs) > 1 else None
        if isinstance(d, ViewRef) and d.vid in self.views:
            if isinstance(s, ViewRef) and s.vid in self.views and len(s.free()) == len(d.free()):
                for k in range(len(d.free())):
                    a, b = self.ext(d, k).iconst(), self.ext(s, k).iconst()
                    if a is not None and b is not None and a != b:
                        self.record_throw('deep_copy of different extents', nd)
                        raise Throw()
            lidx = []
            for k, p in enumerate(d.pat):
                if p is None:
                    b = as_atom(fresh('q', True))
                    symb.RANGES[b.i] = (ZERO, self.exts(d.vid)[k])
                    lidx.append(of_atom(b))
                else:
                    lidx.append(p)
            self.log('W', d.vid, tuple(lidx), nd, st)
            allfree = all(p is None for p in d.pat)
            if isinstance(s, Expr):
                if allfree:
                    st.mem[('view', d.vid)] = Content(('fill', s))
                    self.fills.append((d.vid, s, nd.get('l'), self.calls[-1] if self.calls else '')) if hasattr(self, 'fills') else None
                else:
                    q = []
                    idx = []
                    for k, p in enumerate(d.pat):
                        if p is None:
                            b = as_atom(fresh('q', True))
                            symb.RANGES[b.i] = (ZERO, self.exts(d.vid)[k])
                            q.append((b, ZERO, self.exts(d.vid)[k]))
                            idx.append(of_atom(b))
                        else:
                            idx.append(p)
                    c = self.content(st, d.vid)
                    st.mem[('view', d.vid)] = Content(c.base, c.ents + (Entry(tuple(idx), s, tuple(q)),))
                return None
            if isinstance(s, ViewRef) and s.vid in self.views:
                if allfree and all(p is None for p in s.pat):
                    st.mem[('view', d.vid)] = Content(('copy', self.content(st, s.vid), s.vid))
                    return None
                # element-wise over free dims
                q, di, si = [], [], []
                bs = []
                for k, p in enumerate(d.pat):
                    if p is None:
                        b = as_atom(fresh('q', True))
                        symb.RANGES[b.i] = (ZERO, self.exts(d.vid)[k])
                        q.append((b, ZERO, self.exts(d.vid)[k]))
                        bs.append(of_atom(b))
                        di.append(of_atom(b))
                    else:
                        di.append(p)
                full, _ = s.full(bs)
                v = self.lookup(self.content(st, s.vid), full, s.vid)
                c = self.content(st, d.vid)
                st.mem[('view', d.vid)] = Content(c.base, c.ents + (Entry(tuple(di), v, tuple(q)),))
                return None
            self.havoc_view(st, d.vid)
            return None
        if isinstance(s, ViewRef) and isinstance(d, Expr):
            r = self.lval(A[0])
            self.store(r, self.read(st, s, []), nd)
            return None
        self.note('deep_copy')
        return None
    if fnm in ('Kokkos::atomic_add', 'Kokkos::atomic_fetch_add', 'Kokkos::atomic_increment', 'Kokkos::atomic_sub', 'Kokkos::atomic_fetch_sub', 'Kokkos::Experimental::atomic_add'):
        p = self.ev(A[0])
        r = self.deref(p)
        x = self.evn(A[1]) if len(A) > 1 else ONE
        lo = self.logacc
        self.logacc = False
        cur = self.load(r, nd)
        self.logacc = lo
        if 'sub' in last:
            x = -x
        self.store(r, self.n(cur) + x, nd, atomic=True)
        return cur
    if fnm in ('Kokkos::fence', 'Kokkos::Impl::fence', 'Kokkos::DefaultExecutionSpace::fence') or last == 'fence':
        return None
    if fnm.startswith('Kokkos::view_alloc') or last == 'ViewAllocateWithoutInitializing':
        o = Obj(self.nid(), 'alloc')
        o.x['noinit'] = True
        return o
    if cls.startswith('Kokkos::Max') or cls.startswith('Kokkos::Min'):
        if last == 'join':
            r = self.lval(A[0])
            x = self.evn(A[1])
            self.store(r, fn('max' if cls.startswith('Kokkos::Max') else 'min', self.n(self.load(r)), x), nd)
            return None

    # ---- arithmetic on AD types / std::complex-free math
    if oper and (cls.startswith('Sacado::') or fnm.startswith('Sacado::') or 'Sacado' in tr):
        ops = ([nd['obj']] if nd.get('obj') is not None else []) + A
        if oper in ('+=', '-=', '*=', '/=', '='):
            r = self.lval(ops[0])
            v = self.n(self.deval(ops[1]))
            if oper != '=':
                v = self.arith(oper[:-1], self.n(self.load(r, nd)), v, 'double', nd)
            self.store(r, v, nd)
            return r
        vs = [self.deval(x) for x in ops]
        if len(vs) == 1:
            return -self.n(vs[0]) if oper == '-' else self.n(vs[0])
        if oper in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(oper, vs[0], vs[1])
        return self.arith(oper, self.n(vs[0]), self.n(vs[1]), 'double', nd)
    if cls.startswith('Sacado::') or fnm.startswith('Sacado::'):
        if last == 'val' or last.startswith('operator '):
            v = self.n(self.obj(nd['obj']))
            if last == 'val':
                self.ext_calls.append(('val', nd.get('l'), list(self.calls)))
                if self.cfg.get('ad') and v.const() is None:
                    return fn('val', v)
            return v
        if self.cfg.get('seeds') and last in ('dx', 'fastAccessDx') and len(A) == 1:
            return fn('dx', self.n(self.obj(nd['obj'])), self.evn(A[0]))
        if last in MATH1 or last in ('pow', 'fabs', 'abs', 'max', 'min', 'atan2'):
            return mathfn(self, last, A, nd, tr)
        if last in ('value', 'eval') and A:
            v = self.evn(A[0])
            return fn('val', v) if self.cfg.get('ad') and v.const() is None and 'Sacado' in self.tu.ty(A[0]) else v
    base = last
    if (fnm.startswith('std::') or '::' not in fnm or fnm.startswith('Kokkos::')) and nd.get('obj') is None:
        if base.endswith('f') and base[:-1] in MATH1:
            base = base[:-1]
        if not fnm.startswith('std::numeric_limits<') and base in MATH1 or not fnm.startswith('std::numeric_limits<') and base in ('pow', 'fabs', 'abs', 'max', 'min', 'atan2', 'fmax', 'fmin', 'fmod', 'hypot', 'cbrt', 'powf', '__builtin_fabs', 'fma', 'sign', 'copysign', 'round'):
            return mathfn(self, base, A, nd, tr)
        if base in ('isfinite', 'isnan', 'isinf'):
            v = self.evn(A[0])
            if v.const() is not None:
                return base == 'isfinite'
            x = sym_finite(v)
            if base == 'isfinite':
                return x
            q = boolsym('nan:%s' % estr(v)[:400])
            return cand(cnot(x), q if base == 'isnan' else cnot(q))
        if base in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const'):
            r = self.lval(A[0])
            return r if r.k != 'x' else r.a
        if base in ('make_shared', 'make_unique'):
            t = nd.get('ta') or []
            return make_obj(self, t[0] if t else '', nd)
        if base in ('accumulate',):
            vs = vals(self, A)
            a0, a1 = vs[0], vs[1]
            if isinstance(a0, Iter) and isinstance(a1, Iter) and a0.v.vid == a1.v.vid and len(vs) == 3:
                n = a1.i.iconst()
                m = a0.i.iconst()
                acc = self.n(vs[2])
                if n is not None and m is not None:
                    for i in range(m, n):
                        acc = acc + self.n(self.read(st, a0.v, [num(i)], nd))
                    return acc
                b = as_atom(fresh('q', True))
                symb.RANGES[b.i] = (a0.i, a1.i)
                return acc + mksum(b, a0.i, a1.i, self.n(self.read(st, a0.v, [of_atom(b)], nd)))
            return self.topv('accumulate')
        if base == 'to_string':
            v = vals(self, A)[0]
            if isinstance(v, Expr) and v.iconst() is not None and strip_cv(self.tu.ty(A[0])) in ('int', 'unsigned int', 'long', 'unsigned long'):
                return str(v.iconst())
            if isinstance(v, Expr) and isinstance(self.cfg.get('tokens'), list):
                return token(self, 'shown' if strip_cv(self.tu.ty(A[0])) in INTT else 'fixed', v)
            return Sstr('num#%d' % self.nid())
        if base in ('strcmp',):
            vs = vals(self, A)
            return ite(self.streq(vs[0], vs[1]), ZERO, ONE)
        if base in ('printf', 'fprintf', 'puts', 'putchar'):
            vals(self, A)
            return ZERO
        if base in ('abort', 'exit', 'terminate', '_Exit', 'quick_exit', '__assert_fail'):
            self.record_throw('exit:' + base, nd)
            raise Throw()
        if base == 'swap' and len(A) == 2:
            r1, r2 = self.lval(A[0]), self.lval(A[1])
            v1, v2 = self.load(r1), self.load(r2)
            self.store(r1, v2, nd)
            self.store(r2, v1, nd)
            return None
        if base in ('fill',) and len(A) == 3:
            vs = vals(self, A)
            if isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
                n0, n1 = vs[0].i.iconst(), vs[1].i.iconst()
                if n0 is not None and n1 is not None:
                    for i in range(n0, n1):
                        self.write(st, vs[0].v, [num(i)], vs[2], nd)
                    return None
                if not vs[0].i.n and not (vs[1].i - self.ext(vs[0].v, 0)).n and all(p is None for p in vs[0].v.pat):
                    st.mem[('view', vs[0].v.vid)] = Content(('fill', self.n(vs[2])))
                    return None
        if fnm.startswith('std::numeric_limits<') and not A:
            import sys as _sys
            flt = 'float' in fnm or 'double' in fnm
            k = {'max': HUGE, 'lowest': -HUGE, 'min': _sys.float_info.min, 'epsilon': _sys.float_info.epsilon} if flt else {'max': 2**31 - 1, 'min': -2**31, 'lowest': -2**31}
            if base in k and ('double' in fnm or '<int>' in fnm):
                from fractions import Fraction
                return num(Fraction(k[base]))
            return unmodelled(self, nd, tr, fnm)
        if base in ('copy', 'copy_n') and len(A) == 3:
            vs = vals(self, A)
            p0, p2 = cursor(self, vs[0]), cursor(self, vs[2])
            p1 = cursor(self, vs[1]) if base == 'copy' else None
            n = None
            if base == 'copy_n' and isinstance(vs[1], Expr):
                n = vs[1].iconst()
            elif p0 and p1 and samebase(p0[0], p1[0]):
                n = (p1[1] - p0[1]).iconst()
            if p0 and p2 and n is not None and n <= 4096:
                got = [self.load(at(self, p0, q), nd) for q in range(max(n, 0))]
                for q, e in enumerate(got):
                    self.store(at(self, p2, q), e, nd)
                return shifted(self, vs[2], p2, max(n, 0))
            return unmodelled(self, nd, tr, fnm)
        if base in ('toupper', 'tolower') and len(A) >= 1:
            v = self.evn(A[0])
            c = v.iconst()
            return num(ord(getattr(chr(c), base[2:])())) if c is not None and 0 <= c < 128 else unmodelled(self, nd, tr, base)
        if base in ('for_each', 'transform') and len(A) in (3, 4):
            its = [self.ev(q) for q in A[:-1]]
            its = [self.load(q) if isinstance(q, Ref) else q for q in its]
            f_ = A[-1]
            while f_['k'] == 'cast' or (f_['k'] == 'un' and f_.get('op') == '&'):
                f_ = f_['a']
            name = (f_.get('n') or '') if f_['k'] == 'ref' else ''
            fv = None
            if name not in ('toupper', 'tolower'):
                fv = self.ev(A[-1])
                fv = self.load(fv) if isinstance(fv, Ref) else fv
            if isinstance(fv, Closure) or name in ('toupper', 'tolower'):
                def app(v):
                    if fv is None:
                        c = v.iconst() if isinstance(v, Expr) else None
                        return num(ord(getattr(chr(c), name[2:])())) if c is not None and 0 <= c < 128 else None
                    key = ('v', self.fr.fid, 'tmp#%d' % self.nid())
                    st.mem[key] = v
                    isref = self.tu.types[(fv.node['insts'][0] if fv.node.get('insts') else fv.node)['ps'][0]['t']].endswith('&')
                    r = self.call_closure(fv, None, [Ref('m', key) if isref else v])
                    return self.st.mem[key] if base == 'for_each' else r
                if all(isinstance(q, StrIter) for q in its) and its[0].r.k == 'm' and its[0].i == 0 and its[1].i is None and (len(its) == 2 or (its[2].i == 0 and its[2].r.k == 'm')):
                    s0 = self.load(its[0].r)
                    if isinstance(s0, str):
                        o_ = [app(num(ord(ch))) for ch in s0]
                        if all(isinstance(e, Expr) and e.iconst() is not None and 0 <= e.iconst() < 128 for e in o_):
                            self.store(its[-1].r if base == 'transform' else its[0].r, ''.join(chr(e.iconst()) for e in o_), nd)
                            return None
                if all(isinstance(q, Iter) for q in its) and its[0].i.iconst() is not None and its[1].i.iconst() is not None and its[1].i.iconst() - its[0].i.iconst() <= 64:
                    for q in range(its[0].i.iconst(), its[1].i.iconst()):
                        ri = self.elem(its[0].v, [num(q)], nd)
                        rv_ = app(self.load(ri, nd) if isinstance(ri, Ref) else ri)
                        if base == 'transform':
                            off = its[2].i + (q - its[0].i.iconst())
                            self.write(self.st, its[2].v, [off], rv_, nd)
                        elif isinstance(ri, Ref):
                            self.store(ri, rv_, nd)
                    return None
        if base == 'setprecision' and len(A) == 1:
            o = Obj(self.nid(), 'manip')
            v = self.evn(A[0])
            o.x['prec'] = v.iconst()
            return o
        if base in ('endl', 'flush', 'setprecision', 'setw', 'scientific', 'fixed', 'setfill', 'left', 'right'):
            return Obj(self.nid(), 'stream')
        if base in ('__builtin_expect',):
            return self.evn(A[0])
        if base in ('rand', 'srand', 'time', 'clock', 'random'):
            vals(self, A)
            self.ext_calls.append((base, nd.get('l'), list(self.calls)))
            return sym('extern:%s#%d' % (base, self.nid()), True)

    # ---- smart pointers
    if cls.startswith(('Teuchos::RCP<', 'std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr', 'std::__shared_ptr_access')) or fnm in ('Teuchos::rcp', 'Teuchos::is_null', 'Teuchos::nonnull', 'Teuchos::rcp_dynamic_cast', 'std::dynamic_pointer_cast', 'std::static_pointer_cast'):
        if fnm in ('Teuchos::rcp', 'Teuchos::rcp_dynamic_cast', 'std::dynamic_pointer_cast', 'std::static_pointer_cast'):
            v = self.ev(A[0])
            if isinstance(v, Ref):
                v = self.load(v)
            return v if isinstance(v, (Ptr, Choice, Unknown)) else Ptr(v)
        if fnm in ('Teuchos::is_null', 'Teuchos::nonnull'):
            v = vals(self, A)[0]
            r = self.compare('==', v, Ptr(None)) if isinstance(v, (Ptr, Choice)) else ('c', top('null test'), frozenset('+'))
            return r if 'is_null' in fnm else cnot(r)
        if nd.get('obj') is not None:
            if last in ('operator->', 'operator*', 'get', 'getRawPtr'):
                v = self.ev(nd['obj'])
                if isinstance(v, Ref):
                    v = self.load(v)
                if isinstance(v, Ptr):
                    if last == 'operator*':
                        return self.deref(v)
                    return v
                return v
            if last in ('operator bool', 'is_null', 'operator=='):
                v = self.ev(nd['obj'])
                if isinstance(v, Ref):
                    v = self.load(v)
                if last == 'operator bool':
                    return self.b(v)
                if last == 'is_null':
                    return cnot(self.b(v))
            if last in ('operator=', 'reset'):
                r = self.lval(nd['obj'])
                v = self.ev(A[0]) if A else Ptr(None)
                if isinstance(v, Ref):
                    v = self.load(v)
                self.store(r, v, nd) if r.k != 'x' else None
                return r
            if last in ('use_count', 'count'):
                return self.topv('use_count')
    if oper in ('==', '!=') and any('RCP<' in self.tu.ty(x) or '_ptr<' in self.tu.ty(x) for x in A):
        vs = vals(self, A)
        return self.compare(oper, vs[0], vs[1])

    # ---- parameter lists
    if cls.startswith('Teuchos::ParameterList'):
        o = self.obj(nd['obj'])
        pl = plist(self, o)
        nm = self.ev(A[0]) if A else None
        if isinstance(nm, Ref):
            nm = self.load(nm)
        nms = nm if isinstance(nm, str) else (nm.name if isinstance(nm, Sstr) else '?')
        key = '%s/%s' % (pl, nms)
        if last in ('isParameter',):
            if self.simplify(boolsym('sublist:' + key)) is True:
                return True
            return boolsym('has:' + key)
        if last in ('isType',):
            t = (nd.get('ta') or ['?'])[0]
            self.ext_calls.append(('isType', nd.get('l'), list(self.calls), key, t))
            return istype(strip_cv(t), key)
        if last == 'isSublist':
            return boolsym('sublist:' + key)
        if last in ('sublist',):
            need_list(self, nd, key, bool(nd.get('mconst')))
            so = Obj(self.nid(), 'Teuchos::ParameterList', key)
            return so
        if last == 'get':
            t = (nd.get('ta') or ['?'])[0]
            tt = strip_cv(t)
            self.ext_calls.append(('get', nd.get('l'), list(self.calls), key, tt, len(A)))
            if tt == 'Teuchos::ParameterList':
                need_list(self, nd, key, len(A) == 1)
                return Obj(self.nid(), tt, key)
            if len(A) > 1:
                d = self.ev(A[1])
                if isinstance(d, Ref):
                    d = self.load(d)
                if tt.startswith('char['):
                    tt = 'std::basic_string'
                v = self.mksym_any(tt, key)
                has = boolsym('has:' + key)
                if isinstance(v, Sstr):
                    return Choice(has, v, d)
                return self.mergeval(has, v, d)
            if key in (self.cfg.get('deck') or {}):
                return self.cfg['deck'][key]
            if tt == 'double' and self.simplify(boolsym('is<int>:' + key)) is True:
                self.record_throw('Teuchos::type', nd)
                raise Throw()
            # no default: absence throws
            has = boolsym('has:' + key)
            c = self.simplify(has)
            ty = istype(tt, key)
            if c is not True and self.simplify(ty) is not True:
                s = State(dict(st.mem), st.pc + (cnot(has),))
                self.throws.append((s.pc, 'Teuchos::missing', s, nd.get('l'), self.calls[-1] if self.calls else None, self.ctx))
                if c is False:
                    raise Throw()
            return self.mksym_any(tt, key)
        if last == 'set':
            v = self.ev(A[1]) if len(A) > 1 else None
            return o
        if last in ('begin', 'end', 'name', 'entry', 'print'):
            return unmodelled(self, nd, tr, 'ParameterList::' + last)
        vals(self, A)
        return unmodelled(self, nd, tr, 'ParameterList::' + last)

    # ---- std::vector / array / Teuchos::Array
    if cls.startswith(SEQ + ('std::array<', 'Teuchos::Array<', 'Teuchos::ArrayView<', 'std::initializer_list<')) and nd.get('obj') is not None:
        o = self.obj(nd['obj'])
        last = {'push': 'push_back', 'emplace': 'emplace_back', 'top': 'back', 'pop': 'pop_front' if cls.startswith('std::queue') else 'pop_back'}.get(last, last) if cls.startswith(('std::stack', 'std::queue')) else last
        if isinstance(o, ViewRef) and o.vid in self.views:
            info = self.views[o.vid]
            if last in ('operator[]', 'at'):
                return self.elem(o, [self.evn(A[0])], nd)
            if last in ('size', 'length'):
                return self.ext(o, 0)
            if last == 'empty':
                return cmp(self.ext(o, 0), '==')
            if last == 'data':
                return Ptr(o)
            if last == 'front':
                return self.elem(o, [ZERO], nd)
            if last == 'back':
                return self.elem(o, [self.ext(o, 0) - 1], nd)
            if last in ('begin', 'cbegin'):
                return Iter(o, ZERO)
            if last in ('end', 'cend'):
                return Iter(o, self.ext(o, 0))
            if last in ('push_back', 'emplace_back'):
                if last == 'emplace_back' and len(A) != 1:
                    el = info.eltype
                    v = Unknown('emplace')
                    vals(self, A)
                else:
                    v = self.rv(A[0])
                n = self.exts(o.vid)[0]
                self.put(st, o.vid, (n,), v)
                st.mem[('ext', o.vid)] = (n + 1,)
                return None
            if last == 'resize':
                n = self.evn(A[0])
                n0, n1 = self.exts(o.vid)[0].iconst(), n.iconst()
                if n0 is not None and n1 is not None and n0 + n1 <= 2048 and (n0 or not isnum(info.eltype)):
                    fillv = self.rv(A[1]) if len(A) > 1 else None
                    for q in range(n0, n1):
                        self.put(self.st, o.vid, (num(q),), self.copyval(self.st, fillv) if fillv is not None else ZERO if isnum(info.eltype) else self.default(self.st, info.eltype, self.tu, 'elem'))
                elif self.exts(o.vid)[0].const() == 0:
                    st.mem[('view', o.vid)] = Content('zero' if len(A) == 1 else ('fill', self.evn(A[1])))
                else:
                    self.havoc_view(st, o.vid)
                st.mem[('ext', o.vid)] = (n,)
                return None
            if last == 'clear':
                st.mem[('ext', o.vid)] = (ZERO,)
                st.mem[('view', o.vid)] = Content('undef')
                return None
            if last == 'erase' and len(A) in (1, 2) or last == 'insert' and len(A) == 2:
                vs = [self.ev(A[0]), self.rv(A[1])] if len(A) == 2 else [self.ev(A[0])]
                vs = [self.load(q) if isinstance(q, Ref) else q for q in vs]
                n = self.exts(o.vid)[0].iconst()
                i = vs[0].i.iconst() if isinstance(vs[0], Iter) and vs[0].v.vid == o.vid else None
                j = i + 1 if i is not None and len(vs) == 1 else vs[1].i.iconst() if last == 'erase' and len(vs) == 2 and isinstance(vs[1], Iter) else None
                if last == 'insert' and isinstance(vs[0], Iter) and vs[0].v.vid == o.vid and not isinstance(vs[1], Iter) and not (vs[0].i - self.exts(o.vid)[0]).n:
                    end_ = self.exts(o.vid)[0]
                    self.put(st, o.vid, (end_,), vs[1])
                    st.mem[('ext', o.vid)] = (end_ + 1,)
                    return Iter(o, end_)
                if n is not None and i is not None and n <= 512 and (last == 'insert' and not isinstance(vs[1], Iter) or j is not None):
                    c = self.content(st, o.vid)
                    old = [self.lookup(c, (num(q),), o.vid) for q in range(n)]
                    new = old[:i] + old[j:] if last == 'erase' else old[:i] + [vs[1]] + old[i:]
                    st.mem[('view', o.vid)] = Content('undef')
                    st.mem[('ext', o.vid)] = (num(len(new)),)
                    for q, e in enumerate(new):
                        self.put(st, o.vid, (num(q),), e)
                    return Iter(o, num(i))
                self.havoc_view(st, o.vid)
                st.mem[('ext', o.vid)] = (self.topv('size'),)
                return Unknown('iterator')
            if last in ('pop_front', 'push_front', 'emplace_front') and len(A) <= 1:
                n = self.exts(o.vid)[0].iconst()
                v = self.rv(A[0]) if A else None
                if n is not None and n <= 512:
                    c = self.content(st, o.vid)
                    old = [self.lookup(c, (num(q),), o.vid) for q in range(n)]
                    new = old[1:] if last == 'pop_front' else [v] + old
                    st.mem[('view', o.vid)] = Content('undef')
                    st.mem[('ext', o.vid)] = (num(len(new)),)
                    for q, e in enumerate(new):
                        self.put(st, o.vid, (num(q),), e)
                else:
                    self.havoc_view(st, o.vid)
                    st.mem[('ext', o.vid)] = (self.topv('size'),)
                return None
            if last == 'pop_back':
                n = self.exts(o.vid)[0]
                st.mem[('ext', o.vid)] = (n - 1,)
                return None
            if last == 'reserve':
                return None
            if last == 'fill':
                st.mem[('view', o.vid)] = Content(('fill', self.evn(A[0])))
                return None
            if last == 'operator=':
                v = self.rv(A[0])
                if isinstance(v, ViewRef):
                    self.assign_arr(o, v)
                else:
                    self.havoc_view(st, o.vid)
                return Ref('x', o)
            if last == 'assign' and len(A) == 2:
                vs = vals(self, A)
                if isinstance(vs[0], Expr):
                    st.mem[('ext', o.vid)] = (vs[0],)
                    st.mem[('view', o.vid)] = Content(('fill', self.n(vs[1])))
                    return None
        self.clobber(nd)
        if isinstance(o, ViewRef):
            self.havoc_view(st, o.vid)
        return unmodelled(self, nd, tr, 'container method ' + last)
    if '__normal_iterator' in cls or '__normal_iterator' in fnm or any('__normal_iterator' in self.tu.ty(x) for x in A if x.get('t') is not None and x['t'] >= 0):
        return iterop(self, nd, last, oper, A, tr)

    # ---- maps
    if cls.startswith(('std::map<', 'std::unordered_map<')):
        o = self.obj(nd['obj'])
        m = st.mem.get(('map', o.oid)) if isinstance(o, Obj) else None
        k = None
        if A:
            k = self.ev(A[0])
            if isinstance(k, Ref):
                k = self.load(k)
        kk = k if isinstance(k, str) else (('k', k.key()) if isinstance(k, Expr) else None)
        vt = (targs(strip_cv(cls)) + ['', ''])[1]
        if last in ('operator[]', 'at', 'find', 'count'):
            self.ext_calls.append(('map.' + last, nd.get('l'), list(self.calls), k if isinstance(k, str) else repr(k), o.symname if isinstance(o, Obj) else None))
        if isinstance(m, dict) and kk is not None:
            slot = ('mapslot', o.oid, kk)
            ent = m.get(kk)
            cond = self.simplify(ent[2]) if ent is not None else False
            if last == 'operator[]':
                if cond is not True:
                    m = dict(m)
                    m[kk] = ('slot', slot, True)
                    st.mem[('map', o.oid)] = m
                    dv = ZERO if isnum(vt) else (False if vt == 'bool' else self.default(st, vt, self.tu, 'mapval'))
                    st.mem[slot] = dv if cond is False else self.mergeval(cond, st.mem.get(ent[1]), dv)
                return Ref('m', slot)
            if last == 'at':
                if cond is not True:
                    self.throws.append((st.pc + (cnot(cond),), 'std::out_of_range', State(dict(st.mem), st.pc + (cnot(cond),)), nd.get('l'), self.calls[-1] if self.calls else None, self.ctx))
                    if cond is False:
                        raise Throw()
                return Ref('m', ent[1])
            if last == 'count':
                return ONE if cond is True else (ZERO if cond is False else ite(cond, ONE, ZERO))
            if last == 'find':
                it = Obj(self.nid(), 'mapiter')
                st.mem[('o', it.oid, '$end')] = cnot(cond)
                if ent is not None:
                    st.mem[('o', it.oid, 'second')] = st.mem.get(ent[1])
                    st.mem[('o', it.oid, 'first')] = k
                return it
            if last in ('insert_or_assign',):
                m = dict(m)
                m[kk] = ('slot', slot, True)
                st.mem[('map', o.oid)] = m
                st.mem[slot] = self.rv(A[1])
                return Unknown('map insert')
            if last == 'erase':
                m = dict(m)
                m.pop(kk, None)
                st.mem[('map', o.oid)] = m
                return ite(cond, ONE, ZERO)
        if isinstance(m, dict) and last in ('insert', 'emplace'):
            prv = k
            if last == 'emplace' and len(A) == 2:
                first, second = k, self.rv(A[1])
            elif isinstance(prv, Obj) and ('o', prv.oid, 'first') in st.mem:
                first, second = st.mem[('o', prv.oid, 'first')], st.mem.get(('o', prv.oid, 'second'))
            else:
                first = None
            kk = first if isinstance(first, str) else (('k', first.key()) if isinstance(first, Expr) else None)
            if kk is not None:
                ent = m.get(kk)
                cond = self.simplify(ent[2]) if ent is not None else False
                if cond is not True:
                    slot = ('mapslot', o.oid, kk)
                    m = dict(m)
                    m[kk] = ('slot', slot, True)
                    st.mem[('map', o.oid)] = m
                    st.mem[slot] = second if cond is False else self.mergeval(cond, st.mem.get(ent[1]), second)
                return Unknown('map insert')
        if isinstance(m, dict) and last in ('size', 'empty') and not (o.symname is not None):
            n_ = ZERO
            for e in m.values():
                c_ = self.simplify(e[2])
                n_ = n_ + (ONE if c_ is True else (ZERO if c_ is False else ite(c_, ONE, ZERO)))
            return n_ if last == 'size' else cmp(n_, '==')
        if last == 'end':
            it = Obj(self.nid(), 'mapiter')
            st.mem[('o', it.oid, '$end')] = True
            return it
        if isinstance(o, Obj) and o.symname is not None:
            nm = '%s[%s]' % (o.symname, k if isinstance(k, str) else (k.name if isinstance(k, Sstr) else repr(k)))
            if last in ('operator[]', 'at', 'find'):
                slot = ('mapslot', o.symname, nm)
                if slot not in st.mem:
                    st.mem[slot] = self.mksym_any(vt, nm)
                if last == 'at':
                    has = boolsym('has:' + nm)
                    if self.simplify(has) is not True:
                        s = State(dict(st.mem), st.pc + (cnot(has),))
                        self.throws.append((s.pc, 'std::out_of_range', s, nd.get('l'), self.calls[-1] if self.calls else None, self.ctx))
                if last == 'find':
                    it = Obj(self.nid(), 'mapiter')
                    st.mem[('o', it.oid, '$end')] = cnot(boolsym('has:' + nm))
                    st.mem[('o', it.oid, 'second')] = st.mem[slot]
                    st.mem[('o', it.oid, 'first')] = k
                    return it
                return Ref('m', slot)
            if last == 'count':
                return ite(boolsym('has:' + nm), ONE, ZERO)
        if last == 'clear' and isinstance(o, Obj):
            st.mem[('map', o.oid)] = {}
            o.symname = None
            return None
        if last == 'operator=' and isinstance(o, Obj):
            v = self.ev(A[0])
            if isinstance(v, Ref):
                v = self.load(v)
            if isinstance(v, Obj):
                o.symname = v.symname
                self.copymap(st, v, o)
            return Ref('x', o)
        return unmodelled(self, nd, tr, 'map method ' + last)
    if '_Rb_tree_' in cls or '_Rb_tree_' in fnm or '_Node_iterator' in cls or (oper in ('==', '!=') and any('_Rb_tree_' in self.tu.ty(x) or '_Node_iterator' in self.tu.ty(x) for x in A)):
        ops = ([nd['obj']] if nd.get('obj') is not None else []) + A
        if oper == '=' and len(ops) == 2:
            v = vals(self, [ops[1]])[0]
            r = self.lval(ops[0])
            self.store(r, v, nd)
            return r
        vs = vals(self, ops)
        if oper in ('==', '!='):
            x = [v for v in vs if isinstance(v, Obj) and v.cls == 'mapiter']
            if len(x) == 2:
                e0, e1 = st.mem[('o', x[0].oid, '$end')], st.mem[('o', x[1].oid, '$end')]
                r = cand(e0, e1) if True else None
                if e1 is True:
                    r = e0
                elif e0 is True:
                    r = e1
                return r if oper == '==' else cnot(r)
        if oper in ('->', '*') and isinstance(vs[0], Obj):
            it = vs[0]
            if it.cls == 'mapiter':
                e = self.simplify(st.mem.get(('o', it.oid, '$end'), False))
                if e is not False:
                    self.ext_calls.append(('deref-end', nd.get('l'), list(self.calls), cstr(e)))
            return Ref('x', it) if oper == '*' else Ptr(it)
        return unmodelled(self, nd, tr, 'map iterator')

    # ---- strings and streams
    if cls.startswith('std::basic_string<') or (oper and any('basic_string<' in self.tu.ty(x) for x in A)):
        ops = ([nd['obj']] if nd.get('obj') is not None else []) + A
        if oper in ('==', '!='):
            vs = vals(self, ops)
            return self.compare(oper, vs[0], vs[1])
        if oper == '+':
            vs = vals(self, ops)
            if all(isinstance(v, str) for v in vs):
                return vs[0] + vs[1]
            return Sstr('+'.join(v if isinstance(v, str) else (v.name if isinstance(v, Sstr) else '?') for v in vs)[:200])
        if (oper == '=' or last == 'operator=') and nd.get('obj') is not None:
            r = self.lval(nd['obj'])
            v = self.ev(A[0])
            if isinstance(v, Ref):
                v = self.load(v)
            v = cstring(self, v)
            self.store(r, v if isinstance(v, (str, Sstr, Choice)) else Sstr('s#%d' % self.nid()), nd) if r.k != 'x' else None
            return r
        if oper == '+=':
            r = self.lval(nd['obj'])
            v = self.ev(A[0])
            c0, v = self.load(r), cstring(self, v)
            if isinstance(c0, str) and isinstance(v, Expr) and v.iconst() is not None and strip_cv(self.tu.ty(A[0])) == 'char':
                v = chr(v.iconst())
            self.store(r, c0 + v if isinstance(c0, str) and isinstance(v, str) else Sstr('s#%d' % self.nid()), nd) if r.k != 'x' else None
            return r
        if last == 'precision' and len(A) == 1 and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            v = self.evn(A[0]).iconst()
            if isinstance(o, Obj) and v is not None:
                st.mem[('o', o.oid, '$prec')] = 'rounded' if v < 6 else 'shown'
                return num(6)
        if oper == '<<':
            return stream_put(self, ops)
        o = self.obj(nd['obj']) if nd.get('obj') is not None else None
        if last in ('begin', 'end') and nd.get('obj') is not None and not A:
            r = self.lval(nd['obj'])
            return StrIter(r, 0 if last == 'begin' else None)
        if last in ('c_str', 'data', 'str'):
            return o if isinstance(o, (str, Sstr, Choice)) else Sstr('s#%d' % self.nid())
        if last in ('size', 'length'):
            if isinstance(o, str) and '\ufffd' in o:
                z = sym('len:%d' % self.nid(), True)
                symb.RANGES[as_atom(z).i] = (num(len(o)), None)
                return z
            return num(len(o)) if isinstance(o, str) else sym('len:%s' % (o.name if isinstance(o, Sstr) else self.nid()), True)
        if last == 'empty':
            if isinstance(o, str):
                return o == ''
            if isinstance(o, Sstr):
                return boolsym('%s==""' % o.name)
            if isinstance(o, Choice):
                return self.compare('==', o, '')
        if isinstance(o, str) and '\ufffd' not in o:
            r = strmethod(self, nd, o, last, A)
            if r is not None:
                return r
        if last == 'compare':
            v = vals(self, A)[0]
            return ite(self.compare('==', o, v), ZERO, ONE)
        vals(self, A)
        return unmodelled(self, nd, tr, 'string method ' + last)
    if any(cls.startswith(s) for s in STREAM) or oper == '<<' or oper == '>>' or 'std::basic_ostream' in tr:
        if last in ('is_open', 'open', 'close') and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            fa = vals(self, A)
            if isinstance(o, Obj) and ('o', o.oid, '$open') in st.mem:
                if last == 'is_open':
                    return st.mem[('o', o.oid, '$open')]
                self.st.mem[('o', o.oid, '$open')] = boolsym('open#%d' % self.nid()) if last == 'open' else False
                if last == 'open' and fa:
                    openfile(self, o, fa[0])
                return None
            return unmodelled(self, nd, tr, 'stream method ' + last)
        if last in ('operator bool', 'good', 'operator!', 'fail', 'eof') and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            if isinstance(o, Obj) and ('o', o.oid, '$ok') in st.mem:
                ok = st.mem[('o', o.oid, '$ok')]
                return cnot(ok) if last in ('operator!', 'fail', 'eof') else ok
        if last == 'str' and not A and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            v = st.mem.get(('o', o.oid, '$str')) if isinstance(o, Obj) else None
            return v if isinstance(v, str) or isinstance(v, Choice) and isinstance(self.cfg.get('tokens'), list) else Sstr('msg#%d' % self.nid())
        if last == 'str' and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            v = vals(self, A)[0]
            if isinstance(o, Obj):
                self.st.mem[('o', o.oid, '$str')] = v if isinstance(v, str) else Unknown('stream text')
            return None
        if last == 'precision' and len(A) == 1 and nd.get('obj') is not None:
            o = self.obj(nd['obj'])
            v = self.evn(A[0]).iconst()
            if isinstance(o, Obj) and v is not None:
                st.mem[('o', o.oid, '$prec')] = 'rounded' if v < 6 else 'shown'
                return num(6)
        if oper == '<<':
            return stream_put(self, ([nd['obj']] if nd.get('obj') is not None else []) + A)
        for x in ([nd['obj']] if nd.get('obj') is not None else []) + A:
            if x['k'] == 'ref' and x.get('dk') == 'func':
                continue
            v = self.ev(x)
        if oper == '>>':
            return unmodelled(self, nd, tr, 'stream extraction')
        return Obj(self.nid(), 'stream')

    if base == 'getline' and len(A) in (2, 3):
        o = self.obj(A[0])
        r = self.lval(A[1])
        if len(A) == 2 and isinstance(o, Obj) and isinstance(st.mem.get(('o', o.oid, '$rest')), Lines) and r.k != 'x':
            rest = st.mem[('o', o.oid, '$rest')].l
            if st.mem[('o', o.oid, '$ok')] is not False:
                st.mem[('o', o.oid, '$ok')] = bool(rest)
                self.store(r, rest[0] if rest else '', nd)
                st.mem[('o', o.oid, '$rest')] = Lines(rest[1:])
            return Ref('x', o)
        self.clobber(nd)
        return unmodelled(self, nd, tr, 'getline')
    if base in CFUNS and nd.get('obj') is None:
        r = cfun(self, base, [self.ev(x) for x in A])
        if r is not None:
            return r
        if base in ('sscanf', 'strtod', 'strtol'):
            self.clobber(nd)
        return unmodelled(self, nd, tr, 'call ' + fnm)
    if fnm == 'Teuchos::reduceAll' and len(A) == 5:
        self.ev(A[0])
        op = self.ev(A[1])
        op = self.load(op) if isinstance(op, Ref) else op
        kind = {0: 'sum', 1: 'min', 2: 'max'}.get(op.iconst()) if isinstance(op, Expr) else None
        n = self.ev(A[2])
        n = self.load(n) if isinstance(n, Ref) else n
        n = n.iconst() if isinstance(n, Expr) else None
        src, dst = cursor(self, self.ev(A[3])), cursor(self, self.ev(A[4]))
        if kind is None or n is None or src is None or dst is None or n > 4096:
            return unmodelled(self, nd, tr, 'reduceAll')
        got = [self.load(at(self, src, q), nd) for q in range(max(n, 0))]
        for q, e in enumerate(got):
            self.store(at(self, dst, q), fn('all_' + kind, self.n(e)), nd)
        return None
    if fnm.startswith('Teuchos::Comm<') and last in ('getSize', 'getRank') or fnm.startswith('Teuchos::MpiComm<') and last in ('getSize', 'getRank'):
        return symb.sym('comm_' + last[3:].lower(), True)
    if fnm in ('__builtin_memcpy', 'memcpy', 'std::memcpy', '__builtin_memmove', 'memmove', 'std::memmove') and len(A) == 3:
        vs = [self.ev(x) for x in A]
        def arr(v):
            for _ in range(4):
                if isinstance(v, Ptr):
                    v = v.to
                elif isinstance(v, Ref) and v.k in ('m', 'o', 'v', 'f', 'x'):
                    v = self.load(v)
                else:
                    break
            return v if isinstance(v, ViewRef) and v.vid in self.views and all(p is None for p in v.pat) else None
        d, s_ = arr(vs[0]), arr(vs[1])
        n = self.n(vs[2]).iconst() if isinstance(vs[2], Expr) else None
        if d is not None and s_ is not None and n is not None:
            sz = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}.get(strip_cv(self.views[d.vid].eltype))
            tot = 1
            for e in self.exts(d.vid):
                tot = tot * e.iconst() if tot is not None and e.iconst() is not None else None
            if sz and tot is not None and sz * tot == n and [e.iconst() for e in self.exts(d.vid)] == [e.iconst() for e in self.exts(s_.vid)]:
                st.mem[('view', d.vid)] = Content(('copy', self.content(st, s_.vid), s_.vid))
                return vs[0]
        if d is not None:
            self.havoc_view(st, d.vid)
        return unmodelled(self, nd, tr, 'memcpy')
    h = self.exthooks.get(fnm) if hasattr(self, 'exthooks') else None
    if h is not None:
        return h(self, nd)
    # ---- unknown
    if nd.get('obj') is not None:
        self.ev(nd['obj'])
    self.clobber(nd)
    return unmodelled(self, nd, tr, 'call ' + fnm)


def choose(v, f):
    return Choice(v.c, choose(v.a, f), choose(v.b, f)) if isinstance(v, Choice) else f(v)


def cursor(self, v):
    """(array, offset) a pointer or an iterator stands at; a single object is an array of one"""
    if isinstance(v, Iter):
        return v.v, v.i
    if isinstance(v, Ptr):
        v = v.to
    if isinstance(v, ViewRef) and v.vid in self.views and len(v.free()) == 1:
        return v, ZERO
    if isinstance(v, Ref) and v.k == 'c' and isinstance(v.a, ViewRef) and v.a.vid in self.views and len(v.b) == 1 and all(q is None for q in v.a.pat):
        return v.a, E(v.b[0])
    if isinstance(v, Ref) and v.k == 'm':
        w = self.load(v)
        if isinstance(w, ViewRef) and len(w.free()) == 1 and w.kind == 'arr':
            return w, ZERO
        return v, ZERO
    return None


def samebase(a, b):
    return isinstance(a, ViewRef) and isinstance(b, ViewRef) and a.vid == b.vid or isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a


def at(self, p, k):
    if isinstance(p[0], ViewRef):
        full, _ = p[0].full([p[1] + k])
        return Ref('c', p[0], full)
    if k:
        raise Undecided('pointer past a single object')
    return p[0]


def shifted(self, v, p, n):
    if isinstance(v, Iter):
        return Iter(v.v, v.i + n)
    return Ptr(at(self, p, n)) if isinstance(p[0], ViewRef) else Unknown('pointer')


def token(self, kind, e):
    """a number inside a text, kept as a symbol"""
    t = self.cfg['tokens']
    t.append((kind, e))
    return '\u27e6%d\u27e7' % (len(t) - 1)


def stream_put(self, ops):
    vs = []
    for x in ops:
        y = x
        while y['k'] == 'cast' or y['k'] == 'un' and y.get('op') == '&':
            y = y['a']
        if y['k'] == 'ref' and y.get('dk') == 'func':
            vs.append(None)
            manip = y.get('n')
            continue
        v = self.ev(x)
        if isinstance(v, Ref):
            v = self.load(v)
        whole = strip_cv(self.tu.ty(x)).replace('&', '').strip() in INTT
        if isinstance(v, Expr) and strip_cv(self.tu.ty(x)).replace('&', '').strip() in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t') and v.iconst() is not None:
            v = str(v.iconst())
        elif isinstance(v, Expr) and v.iconst() is not None and strip_cv(self.tu.ty(x)).replace('&', '').strip() == 'char' and 0 < v.iconst() < 128:
            v = chr(v.iconst())
        vs.append(v)
    o = vs[0] if vs and isinstance(vs[0], Obj) else None
    if o is None:
        return Obj(self.nid(), 'stream')
    k = ('o', o.oid, '$str')
    cur = self.st.mem.get(k)

    def put(cur):
        if isinstance(cur, Choice):
            return Choice(cur.c, put(cur.a), put(cur.b))
        if not isinstance(cur, str):
            return cur
        if isinstance(vs[1], Choice):
            return choose(vs[1], lambda w: cur + w if isinstance(w, str) else cur + '\ufffd')
        if isinstance(vs[1], str):
            return cur + vs[1]
        if isinstance(vs[1], SPtr):
            return cur + vs[1].s[vs[1].i:]
        if vs[1] is None and manip in ('fixed', 'scientific', 'defaultfloat', 'showpoint', 'noshowpoint'):
            if manip != 'showpoint' and manip != 'noshowpoint':
                self.st.mem[('o', o.oid, '$fmt')] = 'fixed' if manip == 'fixed' else 'shown'
            return cur
        if vs[1] is None and manip in ('endl', 'flush', 'ends', None):
            return cur + ('\n' if manip in ('endl', None) else '')
        if isinstance(vs[1], Obj) and isinstance(vs[1].x.get('prec'), int):
            self.st.mem[('o', o.oid, '$prec')] = 'rounded' if vs[1].x['prec'] < 6 else 'shown'
            return cur
        if isinstance(vs[1], Expr) and isinstance(self.cfg.get('tokens'), list):
            return cur + token(self, 'shown' if whole else 'fixed' if self.st.mem.get(('o', o.oid, '$fmt')) == 'fixed' else self.st.mem.get(('o', o.oid, '$prec')) or 'shown', vs[1])
        if cur or isinstance(vs[1], Expr):
            return cur + '\ufffd'
        return Unknown('stream text')
    if isinstance(cur, (str, Choice)) and len(vs) == 2:
        self.st.mem[k] = put(cur)
    return o


class Lines:
    def __init__(self, l):
        self.l = tuple(l)


def openfile(self, o, name):
    """a file whose content the case states: cfg['files'] maps the name (text or symbol) to its lines, or None when it cannot be opened"""
    if isinstance(name, Ref):
        name = self.load(name)
    key = name if isinstance(name, str) else (name.name if isinstance(name, Sstr) else None)
    files = self.cfg.get('files') or {}
    if key in files:
        self.st.mem[('o', o.oid, '$open')] = files[key] is not None
        self.st.mem[('o', o.oid, '$ok')] = files[key] is not None
        self.st.mem[('o', o.oid, '$rest')] = Lines(files[key] or ())


def cstring(self, v):
    """the constant text a character pointer or array holds, if known"""
    if isinstance(v, Ref):
        v = self.load(v)
    if isinstance(v, SPtr):
        return v.s[v.i:] if 0 <= v.i <= len(v.s) else v
    i0 = 0
    a = v
    if isinstance(a, Ptr):
        a = a.to
        if isinstance(a, Ref) and a.k == 'c' and len(a.b) == 1 and a.b[0].iconst() is not None:
            i0, a = a.b[0].iconst(), a.a
    if isinstance(a, ViewRef) and a.vid in self.views and strip_cv(self.views[a.vid].eltype) == 'char':
        c = self.content(self.st, a.vid)
        out = ''
        for i in range(i0, i0 + 4096):
            e = self.lookup(c, (num(i),), a.vid)
            k = e.iconst() if isinstance(e, Expr) else None
            if k is None:
                return v
            if k == 0:
                return out
            out += chr(k)
    return v


CFUNS = ('strlen', 'memcmp', 'strcmp', 'strncmp', 'strtod', 'strtol', 'atof', 'stod', 'stoi', 'atoi', 'sscanf', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'ispunct', 'isxdigit',
         'strchr', 'strrchr', 'strstr', 'memchr', 'strspn', 'strcspn', 'strpbrk')


def cfun(self, base, vs):
    vs = [self.load(v) if isinstance(v, Ref) else v for v in vs]
    while len(vs) > 1 and vs[-1] is None:
        vs.pop()
    def text(k):
        t = cstring(self, vs[k])
        return t if isinstance(t, str) and '\ufffd' not in t else None

    def number(t):
        m = re.match(NUMBER, t)
        return num(Fr(m.group(1))) if m else None
    if base.startswith('is'):
        c = self.n(vs[0]).iconst()
        if c is None or not -1 <= c < 128:
            return None
        c = chr(max(c, 0))
        if base in ('ispunct', 'isxdigit'):
            import string
            return ONE if c in (string.punctuation if base == 'ispunct' else string.hexdigits) else ZERO
        return ONE if getattr(c, base)() or base == 'isspace' and c in '\v\f' else ZERO
    t = text(0)
    if t is None:
        return None
    if base in ('strchr', 'strrchr', 'strstr', 'memchr', 'strspn', 'strcspn', 'strpbrk'):
        s0 = vs[0].s if isinstance(vs[0], SPtr) else vs[0] if isinstance(vs[0], str) else None
        i0 = vs[0].i if isinstance(vs[0], SPtr) else 0
        if base in ('strchr', 'strrchr', 'memchr'):
            c = self.n(vs[1]).iconst()
            if c is None or s0 is None or base == 'memchr' and (self.n(vs[2]).iconst() or 0) > len(t) + 1:
                return None
            h = t + '\0'
            if base == 'memchr':
                h = h[:self.n(vs[2]).iconst()]
            q = h.rfind(chr(c)) if base == 'strrchr' else h.find(chr(c))
            return SPtr(s0, i0 + q) if q >= 0 else Ptr(None)
        u = text(1)
        if u is None:
            return None
        if base == 'strstr':
            q = t.find(u)
            return None if s0 is None else SPtr(s0, i0 + q) if q >= 0 else Ptr(None)
        n = 0
        while n < len(t) and (t[n] in u) == (base == 'strspn'):
            n += 1
        if base == 'strpbrk':
            return None if s0 is None else SPtr(s0, i0 + n) if n < len(t) else Ptr(None)
        return num(n)
    if base == 'strlen':
        return num(len(t))
    if base in ('memcmp', 'strcmp', 'strncmp'):
        u = text(1)
        if u is None:
            return None
        if base != 'strcmp':
            n = self.n(vs[2]).iconst()
            if n is None:
                return None
            t, u = (t + '\0')[:n], (u + '\0')[:n]
        return num((t > u) - (t < u))
    if base in ('strtod', 'atof', 'stod'):
        if len(vs) == 1 or (isinstance(vs[1], Ptr) and vs[1].to is None):
            return number(t) if base == 'stod' else (number(t) or ZERO) if not re.match(r'\s*[+-]?(0[xX]|inf|nan)', t, re.I) else None
        if base == 'strtod' and isinstance(vs[1], Ptr) and isinstance(vs[1].to, Ref) and vs[1].to.k != 'x' and isinstance(vs[0], (SPtr, str)) and not re.match(r'\s*[+-]?(0[xX]|inf|nan)', t, re.I):
            s0, i0 = (vs[0].s, vs[0].i) if isinstance(vs[0], SPtr) else (vs[0], 0)
            m = re.match(NUMBER, t)
            self.store(vs[1].to, SPtr(s0, i0 + (m.end() if m else 0)))
            return number(t) if m else ZERO
        return None
    if base in ('atoi', 'stoi'):
        m = re.match(r'\s*([+-]?\d+)', t)
        return num(int(m.group(1))) if m else ZERO if base == 'atoi' else None
    if base == 'strtol':
        return None
    if base == 'sscanf' and len(vs) == 3 and text(1) in ('%lf', '%lg', '%le') and isinstance(vs[2], Ptr) and isinstance(vs[2].to, Ref):
        x = number(t)
        if x is None:
            return ZERO
        self.store(vs[2].to, x)
        return ONE
    return None


NUMBER = r'\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)'
NPOS = 2 ** 64 - 1


def strmethod(self, nd, o, last, A):
    if last == 'clear' or last in ('push_back', 'append') and len(A) == 1:
        add = ''
        if A:
            add = cstring(self, self.ev(A[0]))
            if isinstance(add, Expr) and add.iconst() is not None and last == 'push_back':
                add = chr(add.iconst())
            if not isinstance(add, str):
                return None
        r = self.lval(nd['obj'])
        if r.k == 'x':
            return None
        self.store(r, '' if last == 'clear' else o + add, nd)
        return r
    if last not in ('find', 'rfind', 'find_last_of', 'find_first_of', 'substr', 'front', 'back', 'at'):
        return None
    vs = [cstring(self, x) for x in vals(self, A)]
    if last in ('front', 'back') and o:
        return num(ord(o[0 if last == 'front' else -1]))
    ints = [v.iconst() if isinstance(v, Expr) else None for v in vs]
    if last == 'at' and ints[0] is not None and 0 <= ints[0] < len(o):
        return num(ord(o[ints[0]]))
    if last == 'substr' and vs and None not in ints:
        if ints[0] > len(o):
            self.record_throw('std::out_of_range', nd)
            raise Throw()
        return o[ints[0]:] if len(ints) == 1 or ints[1] >= NPOS else o[ints[0]:ints[0] + ints[1]]
    if vs and ints[0] is not None and isinstance(vs[0], Expr):
        vs[0] = chr(ints[0])
    if vs and isinstance(vs[0], str) and '\ufffd' not in vs[0] and len(vs) <= 2:
        p = ints[1] if len(vs) == 2 else None
        if len(vs) == 2 and p is None:
            return None
        if last == 'find':
            k = o.find(vs[0], p or 0)
        elif last == 'rfind':
            k = o.rfind(vs[0]) if p is None or p >= len(o) else o.rfind(vs[0], 0, p + len(vs[0]))
        else:
            ks = [j for j, ch in enumerate(o) if ch in vs[0]]
            if p is not None:
                ks = [j for j in ks if (j <= p if last == 'find_last_of' else j >= p)]
            k = (ks[-1] if last == 'find_last_of' else ks[0]) if ks else -1
        return num(k if k >= 0 else NPOS)
    return None


class StrIter:
    __slots__ = ('r', 'i')

    def __init__(self, r, i):
        self.r, self.i = r, i


class Iter:
    __slots__ = ('v', 'i')

    def __init__(self, v, i):
        self.v, self.i = v, i


def iterop(self, nd, last, oper, A, tr):
    ops = ([nd['obj']] if nd.get('obj') is not None else []) + A
    if oper in ('++', '--'):
        r = self.lval(ops[0])
        v = self.load(r)
        if isinstance(v, Iter):
            nv = Iter(v.v, v.i + (1 if oper == '++' else -1))
            self.store(r, nv, nd)
            return v if len(A) else nv
        return Unknown('iterator')
    vs = vals(self, ops)
    if oper in ('==', '!=', '<', '>', '-') and len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter) and vs[0].v.vid == vs[1].v.vid:
        d = vs[0].i - vs[1].i
        return d if oper == '-' else cmp(d, oper)
    if oper == '*' and isinstance(vs[0], Iter):
        return self.elem(vs[0].v, [vs[0].i], nd)
    if oper == '->' and isinstance(vs[0], Iter):
        return Ptr(self.elem(vs[0].v, [vs[0].i], nd))
    if oper in ('+', '-') and isinstance(vs[0], Iter) and isinstance(vs[1], Expr):
        return Iter(vs[0].v, vs[0].i + (vs[1] if oper == '+' else -vs[1]))
    if oper == '[]' and isinstance(vs[0], Iter):
        return self.elem(vs[0].v, [vs[0].i + self.n(vs[1])], nd)
    # algorithms over iterators
    return unmodelled(self, nd, tr, 'iterator call ' + nd['fn'])


def deval(self, nd):
    v = self.ev(nd)
    if isinstance(v, Ref):
        v = self.load(v)
    return v


def sym_finite(v):
    a = as_atom(v)
    return boolsym('finite:%s' % estr(v)[:400])


def mathfn(self, name, A, nd, tr):
    a = [self.evn(x) for x in A]
    try:
        if name in ('fabs', 'abs', '__builtin_fabs'):
            return fn('abs', a[0])
        if name in ('max', 'fmax'):
            return fn('max', a[0], a[1])
        if name in ('min', 'fmin'):
            return fn('min', a[0], a[1])
        if name in ('pow', 'powf'):
            return fn('pow', a[0], a[1])
        if name == 'hypot':
            return fn('sqrt', a[0] * a[0] + a[1] * a[1])
        if name == 'sqrt':
            self.sqrtargs.append((a[0], self.st.pc, nd, self.calls[-1] if self.calls else None))
        if name == 'fma':
            return a[0] * a[1] + a[2]
        if name == 'copysign':
            return ite(cmp(a[1], '>='), fn('abs', a[0]), -fn('abs', a[0]))
        if name == 'sign':
            return self.topv('sign')
        return fn(name, *a)
    except Undecided as u:
        return self.topv(str(u))


def make_obj(self, cls, nd):
    """std::make_shared<T>(args): find the constructor with matching arity"""
    c = strip_cv(cls)
    if c.startswith('Teuchos::') or c.startswith('std::') or c.startswith('Kokkos::View'):
        vs = vals(self, nd['a'])
        return Ptr(Obj(self.nid(), c))
    for t in [self.tu] + [x for x in self.p.tus if x is not self.tu]:
        if c in t.rec:
            ctors = [f for f in t.functions if f.get('kind') == 'ctor' and f.get('cls') == c and not f.get('copyctor') and len(f['ps']) >= len(nd['a']) and not f.get('dep')]
            ctors = [f for f in ctors if all(p.get('i') is not None for p in f['ps'][len(nd['a']):])]
            if len(ctors) > 1:
                ctors = [f for f in ctors if len(f['ps']) == len(nd['a'])] or ctors
            o = Obj(self.nid(), c)
            if ctors:
                f = ctors[0]
                args = self.args_for(f, nd['a'])
                self.run_function(t, f, o, args)
            else:
                self.inclass(t.rec[c], o)
            return Ptr(o)
    vals(self, nd['a'])
    return Unknown('make_shared ' + c[:60])


def scan(self, clo):
    """a scan body: visited once for its accesses, its writes are then unknown"""
    at = as_atom(fresh('i', True))
    hi = fresh('scan_n', True)
    s = self.st
    snap = dict(s.mem)
    k1 = ('v', 0, 'scanu%d' % self.nid())
    s.mem[k1] = top('scan')
    try:
        args = [of_atom(at), Ref('m', k1), boolsym('final%d' % self.nid())]
        self.call_closure(clo, None, args)
    except Throw:
        pass
    for k, v in list(self.st.mem.items()):
        if k in snap and snap[k] is not v:
            self.havoc_key(self.st, k)
        elif k not in snap and k[0] == 'view':
            self.havoc_key(self.st, k)


def install(cls):
    cls.ext_ctor = ext_ctor
    cls.external = external
    cls.subview = subview
    cls.deval = deval
    cls.scan = scan
    cls.exthooks = {}
