"""Oracles of the rocket chamber model, the Newton-Raphson bookkeeping and the deck-selected tensor norms."""
from fractions import Fraction as Fr
from core import *
from spec_cell import V, S, NC, c as CELL, RANGES_DEFAULT

PI = num(Fr('3.14159265358979323846'))
al, pr, dth, pa, cv, ln_, r0, br, rho = (S(k) for k in ('al', 'pr', 'dth', 'pa', 'cv', 'len', 'r0', 'br', 'rho'))


def pw(a, b):
    return fn('pow', a, b)


def burn(nsteps, dt, maxit, tol, sub=None):
    """(times, thrusts, pressures, final radius): the chamber balance  mdot*(p/pr)^al = A*p/cv  by at most maxit+1 Newton corrections"""
    v = {'al': al, 'pr': pr, 'dth': dth, 'pa': pa, 'cv': cv, 'ln_': ln_, 'r0': r0, 'br': br, 'rho': rho}
    v.update(sub or {})
    return burn_(nsteps, dt, maxit, tol, **v)


def burn_(nsteps, dt, maxit, tol, al, pr, dth, pa, cv, ln_, r0, br, rho):
    A = PI * dth * dth / 4
    inv = ONE / pw(pr, al)
    t, F, p, r = ZERO, ZERO, pr, r0
    T, TH, P = [], [], []
    for _ in range(nsteps):
        T.append(t), TH.append(F), P.append(p)
        m = br * rho * 2 * PI * r * ln_

        def corr(q):
            res = m * inv * pw(q, al) - A * q / cv
            jac = m * al * inv * pw(q, al - 1) - A / cv
            return -res / jac
        d = corr(p)
        p = p + d
        if maxit == 1:
            small = cmp(fn('abs', d) - tol, '<')
            p = ite(small, p, p + corr(p))
        F = num(Fr('269.0') * Fr('9.8')) * A * (p - pa) / cv
        r = r + pw(p, al) * inv * br * dt
        t = t + dt
    return T, TH, P, r


def kcase(ctx, name, vals, what):
    for k, v in (vals if vals and isinstance(vals[0], tuple) else enumerate(vals)):
        cs = ctx.call(name, args={'k': num(k)})
        if cs is None:
            continue
        if cs.threw:
            ctx.add('%s[%d]' % (name, k), False, 'throws on every input', cs.where())
        else:
            ctx.eq('%s[%d]' % (name, k), cs.ret, v, cs.where(), what)


def ret(ctx, name, want, args=None, pre=None):
    cs = ctx.call(name, args=args, pre=pre)
    if cs is None:
        return
    if cs.threw:
        ctx.add(name, False, 'throws on every input', cs.where())
    else:
        ctx.eq(name + ':return', cs.ret, want, cs.where())


def rocket(ctx):
    dt, m, dt2, m2, l2, r2, b2, rho2 = (S(k) for k in ('dt', 'm', 'dt2', 'm2', 'l2', 'r2', 'b2', 'rho2'))
    ret(ctx, 'd_cyl_area', 2 * PI * r0 * ln_)
    ret(ctx, 'd_cyl_mass', br * rho * 2 * PI * r0 * ln_)
    ret(ctx, 'd_cyl_rad', r0)
    ret(ctx, 'd_cyl_len', ln_)
    ret(ctx, 'd_cyl_evolve', r0 + m * br * dt)
    ret(ctx, 'd_cyl_evolve2', r0 + m * br * dt + m2 * br * dt2)
    ret(ctx, 'd_cyl_evolvelen', ln_)
    ret(ctx, 'd_cyl_evolvemass', br * rho * 2 * PI * (r0 + m * br * dt) * ln_)
    ret(ctx, 'd_cyl_update', b2 * rho2 * 2 * PI * r2 * l2)
    ret(ctx, 'd_cyl_grad0', 2 * PI * ln_)
    ret(ctx, 'd_cyl_grad1', 2 * PI * r0)
    kcase(ctx, 'd_mock_c', [S('rmax'), ln_, r0, br, ZERO], 'problem parameters in their slots')
    kcase(ctx, 'd_rkd', [num(Fr(v)) for v in ('0.38', '0.1', '3.5e6', '10', '0.04', '1e-8', '101.325', '1554.5', '1000')], 'documented default')
    cases = [('d_rk_%%s_%d' % n, b) for n, b in ((1, (1, ONE, 0, None)), (2, (2, ONE, 0, None)), (3, (3, ONE, 0, None)), (4, (2, ONE, 1, num(Fr('1e-6')))), (5, (1, ONE, 1, num(Fr('1e-6')))))]
    half = num(Fr(1, 2))
    cases += [('d_rks_%s', (2, half, 0, None)), ('d_rkr_%s', (2, half, 0, None))]
    cases += [('d_rkt_%s', (2, num(Fr(1, 4)), 0, None, {k: S(n) for k, n in (('al', 'al2'), ('pr', 'pr2'), ('dth', 'dth2'), ('pa', 'pa2'), ('cv', 'cv2'), ('ln_', 'len2'), ('r0', 'r02'), ('br', 'br2'), ('rho', 'rho2'))}))]
    cases += [('d_rkl_%s', (300, half, 0, None, {'al': ZERO}))]
    for pat, b in cases:
        T, TH, P, r = burn(*b)
        for q in ('n', 'nt', 'np'):
            if pat % q in ctx.fns:
                ret(ctx, pat % q, num(b[0]))
        if len(T) > 9:
            at = (0, 1, 2, 49, 50, 51, 52, 99, 100, 101, 128, 150, 200, 255, 256, 257, 298, 299)
            T, TH, P = ([(k, q[k]) for k in at] for q in (T, TH, P))
        kcase(ctx, pat % 'time', T, 'time entry')
        kcase(ctx, pat % 'thr', TH, 'thrust entry')
        kcase(ctx, pat % 'pres', P, 'pressure entry')
        ret(ctx, pat % 'rad', r)
    ret(ctx, 'd_rks_steps', num(2))
    ret(ctx, 'd_rkl_steps', num(300))


def absx(e):
    return fn('abs', e)


def newton(ctx):
    cur, ref, old = S('cur'), S('ref'), S('old')
    it = symb.sym('it', True)
    symb.RANGES[as_atom(it).i] = (ZERO, None)      # iterations are counted from zero
    a, b, e = S('a'), S('b'), S('e')
    big = num(externs.HUGE)
    for f in ('relative', 'absolute'):
        den = lambda x: absx(x) if f == 'relative' else ONE
        ret(ctx, 'd_nr_%s_measure' % f, ite(cmp(it, '=='), old, absx(ref - cur) / den(cur)))
        ret(ctx, 'd_nr_%s_ref' % f, cur)
        ret(ctx, 'd_nr_%s_cur' % f, cur)
        ret(ctx, 'd_nr_%s_three' % f, absx(b - e) / den(e))
        ret(ctx, 'd_nr_%s_first' % f, big)
        for nm in ('cur', 'ref'):
            def pre(x, A, nm=nm):
                x.st.pc = x.st.pc + (cnot(boolsym('finite:' + nm)),)
            for q in ('measure', 'ref'):
                ctx.rejects('d_nr_%s_%s:rejects:%s' % (f, q, nm), 'd_nr_%s_%s' % (f, q), pre=pre, text='%s norm is not finite' % nm)

        def okpre(x, A):
            x.st.pc = x.st.pc + (boolsym('finite:cur'), boolsym('finite:ref'))
        ctx.accepts('d_nr_%s_measure:accepts' % f, 'd_nr_%s_measure' % f, pre=okpre, text='finite norms', allow=())
    for n, v in (('abs', 1), ('absl', 1), ('rel', 2), ('relu', 2)):
        ret(ctx, 'd_nr_crit_' + n, num(v))
    for n in ['bad'] + ['bad%d' % k for k in range(2, 12)]:
        ctx.rejects('d_nr_crit_%s:rejects' % n, 'd_nr_crit_' + n, text='unknown stopping criterion')
    for f in ('stop', 'diag', 'head'):
        ctx.rejects('d_nr_print_%s:rejects' % f, 'd_nr_print_%s' % f, text='diagnostics requested with the file closed')
        ctx.accepts('d_nr_print_%s_off:accepts' % f, 'd_nr_print_%s_off' % f, text='diagnostics disabled', allow=())


# ---- norms
B = 'pl/Normalize/Barlat/'


def deck(kind):
    def pre(x, A):
        has = [boolsym('has:pl/Exponent')]
        if kind is None:
            cs = [cnot(boolsym('sublist:pl/Normalize'))]
        else:
            cs = [boolsym('sublist:pl/Normalize'), boolsym('has:pl/Normalize/Type'), cnot(boolsym('has:pl/Normalize'))]
            for t in ('Barlat', 'Scalar'):
                k = boolsym('pl/Normalize/Type=="%s"' % t)
                cs.append(k if t == kind else cnot(k))
        x.st.pc = x.st.pc + tuple(cs + has)
    return pre


def sq(n, i):
    t = V('t')
    return sum((t(i, k) * t(i, k) for k in range(n)), ZERO)


def weighted(n, i, p):
    w = ite(boolsym('has:pl/Normalize/Scalar/Scalar Product Weight'), S('pl/Normalize/Scalar/Scalar Product Weight'), ONE)
    r = ite(boolsym('has:pl/Normalize/Scalar/Reference Weight'), S('pl/Normalize/Scalar/Reference Weight'), ONE)
    return pw(fn('sqrt', w * sq(n, i)) / r, p) * V('vol')(i)


def pnorm(n, i, p):
    return pw(sq(n, i), p / 2) * V('vol')(i)


T1 = [[1, 2, 0, 0, 0, 0], [0, 1, 3, 0, 0, 0], [2, 0, 1, 0, 0, 0], [0, 0, 0, 2, 0, 0], [0, 0, 0, 0, 3, 0], [0, 0, 0, 0, 0, 5]]
DIAG = lambda k: [[k if i == j else 0 for j in range(6)] for i in range(6)]
T2 = [[0, 1, 0, 0, 0, 0], [1, 0, 2, 0, 0, 0], [0, 3, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 4, 0], [0, 0, 0, 0, 0, 2]]


def barlat(n, i, p, arr, expo):
    """Yld2004: the two transformed deviators, their principal values, sum over all pairs"""
    slots = {6: range(6), 3: (0, 1, 5), 1: (0,)}[n]
    s = [ZERO] * 6
    for k, q in enumerate(slots):
        s[q] = V('t')(i, k)
    mean = (s[0] + s[1] + s[2]) / 3
    dev = [s[q] - mean if q < 3 else s[q] for q in range(6)]
    prin = []
    for M in arr:
        x = [sum((M(a, b) * dev[b] for b in range(6)), ZERO) for a in range(6)]
        h1 = (x[0] + x[1] + x[2]) / 3
        h2 = (x[3] * x[3] + x[4] * x[4] + x[5] * x[5] - x[1] * x[2] - x[2] * x[0] - x[0] * x[1]) / 3
        h3 = (2 * x[3] * x[4] * x[5] + x[0] * x[1] * x[2] - x[0] * x[3] * x[3] - x[1] * x[4] * x[4] - x[2] * x[5] * x[5]) / 2
        pp = h1 * h1 + h2
        q = (2 * h1 * h1 * h1 + 3 * h1 * h2 + 2 * h3) / 2
        th = fn('acos', q / pw(ite(cmp(pp, '>'), pp, ZERO), num(Fr(3, 2))))
        pi = fn('acos', -ONE)
        prin.append([h1 + 2 * fn('sqrt', pp) * fn('cos', (th + k * pi) / 3) for k in (0, 4, 2)])
    tot = sum((pw(a - b, expo) for a in prin[0] for b in prin[1]), ZERO)
    r = ite(boolsym('has:' + B + 'Reference Weight'), S(B + 'Reference Weight'), ONE)
    return pw(pw(tot / 4, ONE / expo) / r, p) * V('vol')(i)


def norms(ctx):
    ex = S('pl/Exponent')
    p = S('p')
    for n in (1, 3, 6):
        ext = {'out': [NC], 't': [NC, n], 'vol': [NC], 'z': [NC, 4]}
        for kind, f in ((None, pnorm), ('PNorm', pnorm), ('Scalar', weighted)):
            cs = ctx.call('d_norm_eval_%d' % n, ext=ext, ranges=RANGES_DEFAULT, pre=deck(kind))
            oid = 'd_norm_eval_%d:%s' % (n, kind or 'default')
            if cs is not None:
                if cs.threw:
                    ctx.add(oid, False, 'a complete deck is refused', cs.where())
                else:
                    ctx.eq(oid, cs.val('out', CELL), f(n, CELL, ex), cs.where('out'))
                    cs.frame_inputs(ctx, oid, ('t', 'vol', 'z')) if hasattr(cs, 'frame_inputs') else None
        for kind in (None, 'Scalar', 'Barlat'):
            pre = deck(kind)
            if kind == 'Barlat':
                pre = full(pre)
            cs = ctx.call('d_norm_post_%d' % n, pre=pre, ext={B + 'T%d%d' % (a, b): [6] for a in (1, 2) for b in range(6)})
            if cs is not None and cs.threw:
                ctx.add('d_norm_post_%d:%s' % (n, kind), False, 'a complete deck is refused', cs.where())
            elif cs is not None:
                ctx.eq('d_norm_post_%d:%s' % (n, kind), cs.ret, pw(S('v'), ONE / ex), cs.where())
            N = symb.sym('nc', True)
            cs = ctx.call('d_norm_postv_%d' % n, pre=pre, ranges=RANGES_DEFAULT, ext=dict({'g': [NC]}, **{B + 'T%d%d' % (a, b): [6] for a in (1, 2) for b in range(6)}))
            if cs is not None and cs.threw:
                ctx.add('d_norm_postv_%d:%s' % (n, kind), False, 'a complete deck is refused', cs.where())
            elif cs is not None:
                ctx.eq('d_norm_postv_%d:%s' % (n, kind), cs.val('g', CELL), V('g')(CELL) * pw(S('v'), (1 - ex) / ex) / ex, cs.where('g'))
        ctx.rejects('d_norm_eval_%d:no exponent' % n, 'd_norm_eval_%d' % n, ext=ext, pre=lambda x, A: setattr(x.st, 'pc', x.st.pc + (cnot(boolsym('has:pl/Exponent')), cnot(boolsym('sublist:pl/Normalize')))), text='no exponent in the deck')
        for nm, f in (('d_wnorm_%d' % n, weighted), ('d_pnorm_%d' % n, pnorm)):
            cs = ctx.call(nm, ext=ext, ranges=RANGES_DEFAULT)
            if cs is not None:
                ctx.outputs(cs, {'out': {(CELL,): f(n, CELL, p)}}, oid=nm)
        # Barlat: unknown transformation matrices where the expressions stay small, constant ones otherwise
        six = {B + 'T%d%d' % (a, b): [6] for a in (1, 2) for b in range(6)}
        for unknown in ((True, False) if n == 1 else (False,)):
            MM = [T1, T2]

            def pre(x, A):
                x.st.pc = x.st.pc + tuple(boolsym('has:' + k) for k in six)
                if not unknown:
                    for a, M in ((1, MM[0]), (2, MM[1])):
                        for i in range(6):
                            v = x.mksym_any('Teuchos::Array<double>', B + 'T%d%d' % (a, i))
                            for j in range(6):
                                x.put(x.st, v.vid, (num(j),), num(M[i][j]))
            for isint in (True, False):
                def pre2(x, A):
                    pre(x, A)
                    k = boolsym('is<int>:' + B + 'Barlat Exponent')
                    x.st.pc = x.st.pc + (k if isint else cnot(k),)
                if not isint:
                    if n != 1 or unknown:
                        continue
                    MM[:] = [DIAG(1), DIAG(3)]
                expo = symb.sym(B + 'Barlat Exponent', True) if isint else num(6)
                arr = [(lambda i, j, a=a: V(B + 'T%d%d' % (a, i))(j)) if unknown else (lambda i, j, M=M: num(M[i][j])) for a, M in ((1, MM[0]), (2, MM[1]))]
                oid = 'd_barlat_%d:%s:%s' % (n, 'any' if unknown else 'const', 'given' if isint else 'default')
                cs = ctx.call('d_barlat_%d' % n, ext=dict(ext, **six), ranges=RANGES_DEFAULT, pre=pre2)
                if cs is None:
                    continue
                if cs.threw:
                    ctx.add(oid, False, 'a complete deck is refused', cs.where())
                    continue
                ctx.eq(oid, cs.val('out', CELL), barlat(n, CELL, p, arr, expo), cs.where('out'))
                # the same measure as the deck selects it, evaluated over all cells
                if isint:
                    def pre3(x, A):
                        deck('Barlat')(x, A)
                        pre2(x, A)
                    oid = 'd_norm_eval_%d:Barlat:%s' % (n, 'any' if unknown else 'const')
                    cs = ctx.call('d_norm_eval_%d' % n, ext=dict(ext, **six), ranges=RANGES_DEFAULT, pre=pre3)
                    if cs is not None and cs.threw:
                        ctx.add(oid, False, 'a complete deck is refused', cs.where())
                    elif cs is not None:
                        ctx.eq(oid, cs.val('out', CELL), barlat(n, CELL, ex, arr, expo), cs.where('out'))


def full(pre):
    def f(x, A):
        pre(x, A)
        x.st.pc = x.st.pc + tuple(boolsym('has:' + B + 'T%d%d' % (a, b)) for a in (1, 2) for b in range(6))
    return f
