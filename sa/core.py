"""Obligations, verdicts, evidence.  A property module declares obligations; this file runs them and reports."""
import os, sys, json, time, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from execu import *
import externs, extract, symb

VERIF = extract.VERIF
REPO = extract.REPO


import signal
CALL_S, EQ_S, TOTAL_S = 90, 60, 690


class Timeout(Exception):
    pass


def _ring(sig, frm):
    raise Timeout()


class limit:
    """stop one evaluation (one comparison) after so many seconds: it is then undecided"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _ring)
        signal.setitimer(signal.ITIMER_REAL, max(self.s, 0.01), 0.5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class Case:
    """the abstract result of one entry point"""

    def __init__(self, x, tu, f, ret, args, threw):
        self.x, self.tu, self.f, self.ret, self.args, self.threw = x, tu, f, ret, args, threw
        self.name = f['n']

    @property
    def st(self):
        return self.x.st

    def val(self, view, *idx):
        """value of one cell after the call"""
        idx = tuple(E(i) for i in idx)
        a = view if isinstance(view, ViewRef) else self.args.get(view)
        if isinstance(a, Ref):
            a = self.x.load(a)
        vid = a.vid if isinstance(a, ViewRef) else view
        if vid not in self.x.views:
            return cell(view, idx)
        return self.x.lookup(self.x.content(self.st, vid), idx, vid)

    def written(self, view):
        a = self.args.get(view)
        vid = a.vid if isinstance(a, ViewRef) else view
        c = self.st.mem.get(('view', vid))
        return list(c.ents) if c is not None else []

    def writes(self, view):
        return [a for a in self.x.acc if a.vid == view and a.kind in 'WA']

    def where(self, view=None, idx=None):
        """source position of the last write to that cell (or of the entry's callee)"""
        best = None
        for a in self.x.acc:
            if a.kind in 'WA' and (view is None or a.vid == view):
                if idx is not None and tup_same(a.idx, tuple(E(i) for i in idx)) == 'ne':
                    continue
                best = a
        if best is not None:
            return '%s line %s' % (best.file, best.line)
        fns = [n for (fl, n) in sorted(self.x.fnseen) if '/drivers/' not in fl]
        return ', '.join(fns[:3]) or self.name


class Ctx:
    def __init__(self, pid, tier='quick', drivers=('cell.cpp',), sources=()):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []          # (id, verdict, detail, where)
        self.prog = extract.load(list(drivers), list(sources))
        if os.environ.get('SA_VERBOSE') and any(e for e, l in self.prog.logs.values()):
            print('PARSE-ERRORS')
        self.fns = {}
        for t in self.prog.tus:
            for f in t.functions:
                if f['n'].startswith('d_') and f.get('body') is not None:
                    self.fns.setdefault(f['n'], (t, f))
        self.fnseen = set()
        self.counts = {}
        self.samples = []
        self.rules = []
        self.notes = {}
        self.case_errors = []
        self.assumed = ()      # conditions documented as misuse
        self.last = None

    # ------------------------------------------------------------ running
    def call(self, name, ext=None, ranges=None, pre=None, hooks=None, args=None, steps=None, cfg=None, consts=None):
        """abstractly evaluate the driver function `name`; returns Case or None (undecided)"""
        if name not in self.fns:
            self.add(name, None, 'entry point does not type-check against the current tree')
            return None
        tu, f = self.fns[name]
        for e in (f.get('bad'),):
            pass
        ext = dict(ext or {})
        for k, v in (consts or {}).items():
            ext.setdefault(k, [len(v)])
        x = Exec(self.prog, dict(cfg or {}, ext=ext))
        if hooks:
            x.hooks.update(hooks)
        x.st = State({}, ())
        if steps:
            x.maxsteps = steps
        for k, (lo, hi) in (ranges or {}).items():
            a = as_atom(symb.sym(k, True))
            symb.RANGES[a.i] = (E(lo), E(hi) if hi is not None else None) if hi is not None else (E(lo), None)
        A = {}
        argv = []
        for q in f['ps']:
            if args and q['n'] in args:
                v = args[q['n']]
                if callable(v):
                    v = v(x)
            else:
                v = x.mksym_any(tu.types[q['t']], q['n'])
            A[q['n']] = v
            argv.append(v)
        for k, v in (consts or {}).items():
            for q, e in enumerate(v):
                if e is not None:
                    x.put(x.st, A[k].vid, (E(q),), E(e))
        if pre:
            pre(x, A)
        threw = False
        r = None
        left = TOTAL_S - (time.time() - self.t0)
        if left <= 0:
            self.add(name, None, 'time of this check used up')
            return None
        try:
            with limit(min(CALL_S, left)):
                r = x.run_function(tu, f, None, argv)
        except Throw:
            threw = True
        except (Timeout, Undecided, Budgeted, RecursionError) as u:
            self.add(name, None, 'evaluation stopped: %s %s' % (type(u).__name__, str(u)[:120]))
            return None
        except Exception as ex:  # an unmodelled construct must not become an alarm
            self.case_errors.append('%s: %s' % (name, traceback.format_exc()[-600:]))
            self.add(name, None, 'internal: %s %s' % (type(ex).__name__, str(ex)[:160]))
            return None
        self.fnseen |= x.fnseen
        for k, v in x.unk.items():
            self.notes[k] = self.notes.get(k, 0) + v
        cs = Case(x, tu, f, r, A, threw)
        self.last = cs
        if not (cfg or {}).get('nobounds'):
            self.bounds(cs)
        return cs

    def bounds(self, cs):
        """an index that leaves its array for some admissible value of the loop variables"""
        seen = set()
        for a in cs.x.acc:
            k = (a.vid, a.line, tuple(i.key() if isinstance(i, Expr) else None for i in a.idx))
            if k in seen or a.ext is None or any(u[0] == 'u' for u in a.ctx):
                continue
            seen.add(k)
            for i, e in zip(a.idx, a.ext):
                if not isinstance(i, Expr) or not isinstance(e, Expr):
                    continue
                self.counts['array_accesses'] = self.counts.get('array_accesses', 0) + 1
                m = outside(i, e, a.pc)
                if m and a.pc:
                    g = ONE
                    for c in a.pc:
                        g = ite(c, g, ZERO)
                    try:
                        with limit(10):
                            m = differ(g, ZERO)[0] is False
                    except Timeout:
                        m = False
                if m:
                    self.add('%s:bounds(%s)' % (cs.name, a.vid.split('#')[0]), False, 'index %s of an array of extent %s is outside it' % (estr(i)[:100], estr(e)[:100]), '%s line %s' % (a.file, a.line))
                    return

    def parallel(self, thunks, n=6):
        """evaluate independent obligations in forked workers and merge what they report"""
        import pickle
        thunks = list(thunks)
        kids = []
        for w in range(n):
            r, q = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.obl, self.counts, self.notes, self.case_errors, self.fnseen = [], {}, {}, [], set()
                    for k in range(w, len(thunks), n):
                        thunks[k]()
                    with os.fdopen(q, 'wb') as f:
                        pickle.dump((self.obl, self.counts, self.notes, self.case_errors, self.fnseen), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(q)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            if not b:
                self.add('worker', None, 'a worker of this check ended early')
                continue
            o, c, m, e, fs = pickle.loads(b)
            self.obl += o
            self.case_errors += e
            self.fnseen |= fs
            for src, dst in ((c, self.counts), (m, self.notes)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v

    # ------------------------------------------------------------ verdicts
    def add(self, oid, verdict, detail='', where='', kid=None):
        self.obl.append((oid, verdict, detail, where, kid))

    def eq(self, oid, got, want, where='', text='', known=None):
        """got and want are equal for all inputs"""
        left = TOTAL_S - (time.time() - self.t0)
        n = len(self.obl)
        try:
            with limit(min(EQ_S, left)):
                self._eq(oid, got, want, where, text, known)
        except Timeout:
            if len(self.obl) == n:
                self.add(oid, None, 'comparison stopped: time', where)

    def _eq(self, oid, got, want, where, text, known):
        if isinstance(got, Ref):
            self.add(oid, None, 'not a value', where)
            return
        if symb_isc(got) and symb_isc(want):
            got, want = ite(got, ONE, ZERO), ite(want, ONE, ZERO)
        if symb_isc(got):
            got = ite(got, ONE, ZERO)
        if not isinstance(got, Expr):
            self.add(oid, None, 'value not tracked (%s)' % type(got).__name__, where)
            return
        v, info = differ(got, want)
        if v is not True and self.last is not None and self.last.st.pc:
            # only inputs on which the call returns count: compare under that condition
            v, info = differ(got, want, self.last.st.pc)
        if v is True:
            self.add(oid, True, text or ('= ' + estr(E(want))[:120]), where)
        elif v is None:
            self.add(oid, None, info, where)
        elif known is not None and differ(got, known[1])[0] is True:
            self.add(oid, False, 'computes %s; required %s' % (estr(got)[:300], estr(E(want))[:300]), where, known[0])
        else:
            self.add(oid, False, 'computes %s; required %s; differ by %s at %s' % (estr(got)[:300], estr(E(want))[:300], info['difference'], json.dumps(info['at'])), where)

    def outputs(self, case, want, frame=True, oid=None, known=None):
        """want: {view: {idx tuple: Expr}}: those cells have those values, and no other cell of any argument array changes"""
        if case is None:
            return
        oid = oid or case.name
        if case.threw:
            self.add(oid, False, 'no input is accepted: every path throws', case.where())
            return
        self.total(case, oid)
        for v, cells in want.items():
            for idx, e in cells.items():
                self.eq('%s:%s(%s)' % (oid, v, ','.join(str(i) if isinstance(i, int) else estr(E(i)) for i in idx)), case.val(v, *idx), e, case.where(v, idx),
                        known=((known or {}).get(v) or {}).get(idx))
        if frame:
            self.frame(case, want, oid)

    def total(self, case, oid):
        """no well-formed input makes the call abort or raise"""
        for t in case.x.throws:
            if t[1] and str(t[1]).startswith('Teuchos') or any(has_top(p) for p in t[0]):
                continue
            if any('finite:' in cstr(p) or cstr(p) in self.assumed for p in t[0]):
                continue
            g = ONE
            for c in t[0]:
                g = ite(c, g, ZERO)
            try:
                with limit(10):
                    v, info = differ(g, ZERO)
            except Timeout:
                continue
            if v is False:
                self.add(oid + ':total', False, 'a well-formed call ends in %s when %s' % (t[1], ' and '.join(cstr(p) for p in t[0])[:300]), '%s line %s' % (t[4], t[3]))
                return

    def rejects(self, oid, name, ext=None, ranges=None, pre=None, text='', args=None, cfg=None):
        """every such call ends in an exception, and no argument array is written before it"""
        cs = self.call(name, ext=ext, ranges=ranges, pre=pre, args=args, cfg=cfg)
        if cs is None:
            return
        if not cs.threw:
            if any(has_top(p) for t in cs.x.throws for p in t[0]) or any(has_top(p) for p in cs.st.pc):
                self.add(oid, None, 'guard not tracked', cs.where())
            else:
                self.add(oid, False, 'accepted without an error: %s' % text, cs.where())
            return
        w = [a for a in cs.x.acc if a.kind in 'WA' and '#' not in a.vid]
        if w:
            self.add(oid, False, '%s is written (%s line %s) before the error is raised: %s' % (w[0].vid, w[0].file, w[0].line, text), '%s line %s' % (w[0].file, w[0].line))
        else:
            self.add(oid, True, 'rejected before any write: ' + text, cs.where())

    def accepts(self, oid, name, ext=None, ranges=None, pre=None, text='', args=None, cfg=None, allow=('finite',)):
        """a well-formed call raises nothing"""
        cs = self.call(name, ext=ext, ranges=ranges, pre=pre, args=args, cfg=cfg)
        if cs is None:
            return
        bad = None
        for t in cs.x.throws:
            txt = ' '.join(cstr(p) for p in t[0])
            if any(has_top(p) for p in t[0]):
                self.add(oid, None, 'guard not tracked', cs.where())
                return
            if not any(a in txt for a in allow):
                bad = t
        if cs.threw or bad is not None:
            self.add(oid, False, 'a well-formed call is refused: %s%s' % (text, (' when ' + ' and '.join(cstr(p) for p in bad[0])[:300]) if bad else ''), '%s line %s' % (bad[4], bad[3]) if bad else cs.where())
        else:
            self.add(oid, True, 'accepted: ' + text, cs.where())

    def frame(self, case, want, oid):
        """writes outside the stated cells"""
        n = 0
        for v in case.x.views:
            if '#' in v:
                continue
            c = case.st.mem.get(('view', v))
            if c is None:
                continue
            if isinstance(c.base, tuple) and c.base[0] == 'top':
                self.add('%s:frame(%s)' % (oid, v), None, 'content not tracked', '')
                continue
            for e in c.ents:
                if v in want and any(tup_same(e.idx, tuple(E(i) for i in w)) == 'eq' for w in want[v]):
                    continue
                old = case.x.basecell(v, c.base, e.idx)
                if e.q or not isinstance(e.val, Expr):
                    if v in want and any(e.q for e in c.ents):
                        continue
                    self.add('%s:frame(%s)' % (oid, v), None, 'quantified write', '')
                    continue
                self.eq('%s:frame(%s)' % (oid, v), e.val, old, case.where(v, e.idx), 'unchanged')
                n += 1
        if n == 0:
            self.add('%s:frame' % oid, True, 'no other cell of an argument array is written', '')

    # ------------------------------------------------------------ finishing
    def finish(self, level='other', explanation='', assumptions=(), mindecided=0.01, technique=None):
        pid = self.pid
        bad = [o for o in self.obl if o[1] is False]
        und = [o for o in self.obl if o[1] is None]
        ok = [o for o in self.obl if o[1] is True]
        known = load_known()
        fresh_bad, listed = [], []
        for o in bad:
            k = match_known(known, pid, o)
            if k:
                listed.append((k, o))
            else:
                fresh_bad.append(o)
        for k in sorted({k['what'] for k, _ in listed}):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        rules = self.rules
        ev = {
            'property': pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
            'coverage': {
                'explanation': explanation,
                'decided': len(ok) + len(bad), 'undecided': len(und),
                'functions_analysed': len({n for f, n in self.fnseen if f.startswith(REPO)}),
                'functions': sorted({'%s (%s)' % (n, f.replace(REPO + '/', '')) for f, n in self.fnseen if f.startswith(REPO)})[:400],
                'rules': rules,
                'counts': self.counts,
                'obligations': len(self.obl), 'discharged': len(ok),
                'discharged_obligations': [o[0] for o in ok][:4000],
                'undecided_obligations': [{'id': o[0], 'why': str(o[2])[:300]} for o in und][:300],
                'untracked_constructs': self.notes,
            },
            'assumptions': list(assumptions),
            'violations': len(fresh_bad),
            'wall_s': round(time.time() - self.t0, 2),
        }
        if self.samples:
            ev['coverage']['samples'] = self.samples[:40]
        if self.case_errors:
            ev['coverage']['internal_errors'] = self.case_errors[:20]
        rc = 0
        rp = None
        if fresh_bad:
            rp = os.path.join(VERIF, 'evidence', '%s.violation.json' % pid)
            viol = [{'id': o[0], 'where': o[3], 'detail': o[2][:1500]} for o in fresh_bad][:400]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s: %d obligations, %d hold, %d violated (%d listed), %d undecided; %d repository functions analysed; %.1fs' % (
            pid, len(self.obl), len(ok), len(bad), len(listed), len(und), ev['coverage']['functions_analysed'], time.time() - self.t0))
        if fresh_bad:
            with open(rp, 'w') as fh:
                json.dump(viol, fh, indent=1)
            for o in fresh_bad[:20]:
                print('  %s at %s: %s' % (o[0], o[3], o[2][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if len(ok) + len(listed) < max(1, mindecided * len(self.obl)):
            print('%s: only %d of %d obligations decided: no answer' % (pid, len(ok) + len(listed), len(self.obl)))
            for o in und[:20]:
                print('  undecided %s: %s' % (o[0], o[2]))
            return 2
        if os.environ.get('SA_VERBOSE'):
            for o in und:
                print('  undecided %s: %s' % (o[0], str(o[2])[:300]))
        return 0


class Defined(Ctx):
    """the same calls once more with every quotient kept as written: where the required value exists, nothing that
    reaches the result divides by zero"""
    def __init__(self, base):
        self.__dict__.update(base.__dict__)
        self.base = base
        self.obl = []
        self.counts, self.notes, self.case_errors, self.fnseen = {}, {}, [], set()
        self.pivots = {}       # obligation prefix -> (known finding, divisors it is about)

    def call(self, *a, **k):
        k['cfg'] = dict(k.get('cfg') or {}, nobounds=True)
        symb.OPAQUE[0] = True
        try:
            return Ctx.call(self, *a, **k)
        finally:
            symb.OPAQUE[0] = False

    def add(self, *a, **k):
        pass

    def rejects(self, *a, **k):
        pass

    accepts = frame = total = rejects

    def eq(self, oid, got, want, where='', text='', known=None):
        try:
            want = E(want)
            if not isinstance(got, Expr) or not any(symb.ATOMS[x].kind == 'fn' and symb.ATOMS[x].d[0] == 'inv' for x in symb.all_atoms(got)):
                return
            left = TOTAL_S - (time.time() - self.t0)
            if left <= 0:
                return
            with limit(min(20, left)):
                kid, listed = None, ()
                for k, v in self.pivots.items():
                    if oid.startswith(k):
                        kid, listed = v
                r = symb.undefined_at(got, want, self.last.st.pc if self.last is not None else (), listed)
        except (Timeout, Undecided, TypeError):
            return
        if r is None:
            self.obl.append((oid + ':defined', True, 'no division by zero where the value exists', where, None))
        else:
            self.obl.append((oid + ':defined', False, 'divides by %s, which is zero at %s, where the required value is %s' % (estr(r[0])[:200], json.dumps(symb.point(r[1])), estr(want)[:200]), where, kid if r[2] else None))


def outside(i, e, pc):
    c, ce = i.const(), e.const()
    if c is not None and ce is not None:
        if 0 <= c < ce:
            return False
        return not any(has_top(p) for p in pc)
    if any(symb.ATOMS[a].kind not in ('sym', 'fn') or symb.ATOMS[a].kind == 'fn' and symb.ATOMS[a].d[0] != 'ext' for a in i.atoms() | e.atoms()):
        return False
    if any(symb.catoms(p) & i.atoms() for p in pc):
        return False

    def extreme(d, top):
        """d with the loop variables of the index at the end of their range that makes it largest (smallest)"""
        for _ in range(8):
            if d.const() is not None:
                return d.const()
            go = None
            for a in sorted(d.atoms(), reverse=True):
                r = symb.RANGES.get(a)
                if r is not None and a not in e.atoms() and r[1] is not None:
                    go = (symb.ATOMS[a], r)
                    break
            if go is None:
                return None
            lin = deriv_lin(d, go[0])
            co = lin[0].const() if lin is not None else None
            if co is None:
                return None
            d = lin[0] * (go[1][1] - 1 if (co > 0) == top else go[1][0]) + lin[1]
        return None
    hi = extreme(i - e, True)
    if hi is not None and hi >= 0:
        return True
    lo = extreme(i, False)
    return lo is not None and lo < 0


def has_top(c):
    return 'top' in repr(c) or 'top(' in cstr(c) if isinstance(c, tuple) else False


def symb_isc(v):
    return v is True or v is False or (isinstance(v, tuple) and len(v) > 0 and v[0] in ('c', 'not', 'and', 'or'))


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def match_known(known, pid, o):
    for k in known:
        if k.get('status') == 'known' and k['property'] == pid and o[4] is not None and k['id'] == o[4]:
            return k
    return None
