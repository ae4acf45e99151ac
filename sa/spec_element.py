"""Reference element: shape functions, quadrature, principal values."""
import itertools, math
from core import *
from spec_cell import S
NP = symb.sym('NP', True)
PT = symb.sym('pt', True)
RNG = {'NP': (1, None), 'pt': (0, NP), 'NC': (1, None), 'c': (0, symb.sym('NC', True))}
NCUB = {1: {0: 1, 1: 1, 2: 2, 3: 2}, 2: {0: 1, 1: 1, 2: 3, 3: 4}, 3: {0: 1, 1: 1, 2: 4, 3: 5}}


def unset(cs, n, D):
    """a point or weight the rule leaves as the caller's array had it"""
    for v, k in [('w', (num(q),)) for q in range(n)] + [('p', (num(q), num(d))) for q in range(n) for d in range(D)]:
        e = cs.val(v, *k)
        a = as_atom(e) if isinstance(e, Expr) else None
        if a is not None and (a.kind == 'cell' or a.kind == 'sym' and str(a.d).startswith('uninit')):
            return '%s(%s) is never set' % (v, ','.join(estr(x) for x in k))
    return None


def moments(D, deg):
    for e in itertools.product(range(deg + 1), repeat=D):
        if sum(e) <= deg:
            f = 1.0
            for a in e:
                f *= math.factorial(a)
            yield e, f / math.factorial(sum(e) + D)


def number(x):
    """a constant expression as a float, else None"""
    if not isinstance(x, Expr):
        return None
    try:
        s = symb.Sample(1, 0)
        v = s.ex(x)
    except Exception:
        return None
    return v if not symb.all_atoms(x) else None


def p16(ctx):
    for D in (1, 2, 3):
        cs = ctx.call('d_bas_n_%d' % D)
        if cs is not None:
            ctx.eq('d_bas_n_%d:return' % D, cs.ret, num(D + 1), cs.where())
        lam = lambda x, b: cell(x, (PT, num(b))) if b < D else ONE - sum((cell(x, (PT, num(k))) for k in range(D)), ZERO)
        grad = lambda b, d: (ONE if b == d else ZERO) if b < D else -ONE
        ref = lambda b, d: ONE if b == d and b < D else ZERO
        cs = ctx.call('d_bas_ref_%d' % D, ext={'x': [num(D + 1), num(D)]}, ranges=RNG, cfg={'unroll': 'forward'})
        if cs is not None:
            ctx.outputs(cs, {'x': {(num(b), num(d)): ref(b, d) for b in range(D + 1) for d in range(D)}}, frame=False)
        cs = ctx.call('d_bas_val_%d' % D, ext={'x': [NP, num(D)], 'v': [num(D + 1), NP]}, ranges=RNG)
        if cs is not None:
            ctx.outputs(cs, {'v': {(num(b), PT): lam('x', b) for b in range(D + 1)}}, frame=False)
            ctx.add('d_bas_val_%d:input kept' % D, not [a for a in cs.x.acc if a.vid == 'x' and a.kind in 'WA'], 'coordinates are not modified', cs.where())
        cs = ctx.call('d_bas_grad_%d' % D, ext={'x': [NP, num(D)], 'g': [num(D + 1), NP, num(D)]}, ranges=RNG)
        if cs is not None:
            ctx.outputs(cs, {'g': {(num(b), PT, num(d)): grad(b, d) for b in range(D + 1) for d in range(D)}}, frame=False)
            ctx.add('d_bas_grad_%d:input kept' % D, not [a for a in cs.x.acc if a.vid == 'x' and a.kind in 'WA'], 'coordinates are not modified', cs.where())
        cs = ctx.call('d_bas_again_%d' % D, ext={'x': [NP, num(D)], 'y': [NP, num(D)], 'v': [num(D + 1), NP], 'g': [num(D + 1), NP, num(D)]}, ranges=RNG)
        if cs is not None:
            ctx.outputs(cs, {'v': {(num(b), PT): lam('x', b) for b in range(D + 1)}, 'g': {(num(b), PT, num(d)): grad(b, d) for b in range(D + 1) for d in range(D)}}, frame=False)
        # at the vertices the shape functions are the Kronecker delta (constant point count)
        cs = ctx.call('d_bas_node_%d' % D, ext={'x': [num(D + 1), num(D)], 'v': [num(D + 1), num(D + 1)]}, ranges=RNG, cfg={'unroll': 'forward'})
        if cs is not None:
            ctx.outputs(cs, {'v': {(num(b), num(q)): ONE if b == q else ZERO for b in range(D + 1) for q in range(D + 1)}}, frame=False)
        # degree-one rule of the linear simplex
        cs = ctx.call('d_tet_w_%d' % D)
        if cs is not None:
            ctx.eq('d_tet_w_%d:return' % D, cs.ret, ONE / math.factorial(D), cs.where())
        cs = ctx.call('d_tet_n_%d' % D)
        if cs is not None:
            ctx.eq('d_tet_n_%d:return' % D, cs.ret, ONE, cs.where())
        for f, n, e in (('x', D, 'centroid coordinate'), ('b', D + 1, 'shape function at the centroid')):
            cs = ctx.call('d_tet_%s_%d' % (f, D))
            if cs is None:
                continue
            if not isinstance(cs.ret, ViewRef):
                ctx.add('d_tet_%s_%d' % (f, D), None, 'result not tracked', cs.where())
                continue
            ctx.eq('d_tet_%s_%d:length' % (f, D), cs.x.ext(cs.ret, 0), num(n), cs.where())
            for k in range(n):
                ctx.eq('d_tet_%s_%d(%d)' % (f, D, k), cs.val(cs.ret, num(k)), ONE / (D + 1), cs.where(), text=e)
        for deg in range(6):
            nm = 'd_cubn_%d_%d' % (D, deg)
            cs = ctx.call(nm)
            n = NCUB[D].get(deg)
            if cs is not None:
                if n is None:
                    ctx.add(nm, cs.threw, 'degree %d is %s' % (deg, 'refused' if cs.threw else 'accepted although no rule of that degree exists'), cs.where())
                elif cs.threw:
                    ctx.add(nm, False, 'supported degree refused', cs.where())
                else:
                    n = cs.ret.iconst() if isinstance(cs.ret, Expr) else None
                    ctx.add(nm, None if n is None else n > 0, 'number of points %s' % n, cs.where())
            nm = 'd_cub_%d_%d' % (D, deg)
            if NCUB[D].get(deg) is None:
                ctx.rejects(nm + ':rejects', nm, ext={'p': [NP, num(D)], 'w': [NP]}, ranges=RNG, text='degree %d' % deg)
                continue
            if n is None:
                continue
            e = {'p': [num(n), num(D)], 'w': [num(n)]}
            cs = ctx.call(nm, ext=e)
            if cs is None:
                continue
            if cs.threw:
                ctx.add(nm, False, 'supported rule refused for arrays of the announced size', cs.where())
                continue
            w = [number(cs.val('w', num(q))) for q in range(n)]
            x = [[number(cs.val('p', num(q), num(d))) for d in range(D)] for q in range(n)]
            for ex, want in moments(D, deg):
                oid = '%s:moment%s' % (nm, ''.join(map(str, ex)))
                if any(a is None for a in w) or any(a is None for r in x for a in r):
                    un = unset(cs, n, D)
                    ctx.add(oid, False if un else None, un or 'points not constant', cs.where())
                    continue
                got = sum(w[q] * math.prod(x[q][d] ** ex[d] for d in range(D)) for q in range(n))
                ctx.add(oid, abs(got - want) < 1e-13, 'sum of weight * monomial = %.16g; integral over the reference simplex = %.16g' % (got, want), cs.where())
            for what, ee in (('one point too many', {'p': [num(n + 1), num(D)], 'w': [num(n)]}), ('one weight too many', {'p': [num(n), num(D)], 'w': [num(n + 1)]}),
                             ('wrong dimension', {'p': [num(n), num(D + 1)], 'w': [num(n)]}), ('one weight too few', {'p': [num(n), num(D)], 'w': [num(n - 1)]}),
                             ('one point too few', {'p': [num(n - 1), num(D)], 'w': [num(n)]})):
                ctx.rejects('%s:rejects %s' % (nm, what), nm, ext=ee, text=what)
    ctx.rejects('d_cub_4_1:rejects', 'd_cub_4_1', ext={'p': [num(1), num(4)], 'w': [num(1)]}, text='four dimensions')
    cs = ctx.call('d_cubn_4_1')
    if cs is not None:
        ctx.add('d_cubn_4_1', cs.threw, 'four dimensions refused', cs.where())
    pairs = {1: ['00'], 2: ['00', '11', '01'], 3: ['00', '11', '22', '12', '02', '01']}
    for D in (1, 2, 3):
        for k, ij in enumerate(pairs[D]):
            nm = 'd_voigt_%d_%d' % (D, k)
            cs = ctx.call(nm)
            if cs is not None:
                ctx.eq(nm + ':return', cs.ret, num(int(ij)), cs.where(), text='Voigt entry %d is tensor entry %s' % (k, ij))


def principal(ctx):
    """eigenvalues of symmetric 1x1, 2x2 tensors; one Jacobi sweep of a 3x3 tensor"""
    C = symb.sym('c', True)
    NC = symb.sym('NC', True)
    t = lambda k: cell('t', (C, num(k)))
    cs = None
    for st in (True, False):
        h = ONE / 2 if st else ONE
        a = {'st': st}
        tag = 'strain' if st else 'stress'
        cs = ctx.call('d_eig_1', ext={'t': [NC, num(1)], 'e': [NC, num(1)]}, ranges=RNG, args=a)
        if cs is not None:
            ctx.outputs(cs, {'e': {(C, num(0)): t(0)}}, oid='d_eig_1:' + tag)
        x, y, s = t(0), t(1), h * t(2)
        for sg in ('+', '-', '0'):
            for o in ('+', '-', '0'):
                def pre(X, A):
                    c1 = {'+': cmp(s - ZERO, '>'), '-': cmp(s - ZERO, '<'), '0': cmp(s - ZERO, '==')}[sg]
                    c2 = {'+': cmp(x - y, '>'), '-': cmp(x - y, '<'), '0': cmp(x - y, '==')}[o]
                    X.st.pc = X.st.pc + (c1, c2)
                cs = ctx.call('d_eig_2', ext={'t': [NC, num(3)], 'e': [NC, num(2)]}, ranges=RNG, args=a, pre=pre)
                if cs is None:
                    continue
                oid = 'd_eig_2:%s shear%s normal%s' % (tag, sg, o)
                e0, e1 = cs.val('e', C, num(0)), cs.val('e', C, num(1))
                ctx.eq(oid + ' trace', e0 + e1, x + y, cs.where('e'))
                ctx.eq(oid + ' determinant', e0 * e1, x * y - s * s, cs.where('e'))
                ctx.frame(cs, {'e': {(C, num(0)): 0, (C, num(1)): 0}}, oid)
    # one sweep in 3D: the pair of the largest off-diagonal entry is diagonalised, the third diagonal entry stays.
    # The off-diagonal entries are written as signed unknowns of known order so that the ordering and the signs are built in.
    off = {(0, 1): 5, (0, 2): 4, (1, 2): 3}
    G, W = symb.sym('G', True), symb.sym('W', True)
    b0, b1 = S('b0'), S('b1')
    rng = dict(RNG, G=(2, None), W=(1, None))
    u = {'+': ONE, '-': -ONE, '0': ZERO}
    for st in (True, False):
        f = num(2) if st else ONE
        for big in off:
            others = [k for k in off if k != big]
            p, q = big
            r = 3 - p - q
            combos = itertools.product('+-', '+-', '+-', '+-0') if ctx.tier == 'thorough' else [('+', '+', '-', '+'), ('-', '+', '+', '-'), ('-', '-', '+', '+'), ('+', '-', '-', '-'), ('+', '+', '+', '0')]
            small = ONE / 10**12
            combos = [(x, 'd_eig_3_1', ONE) for x in combos] + [((x, '0', '0', y), 'd_eig_3_2', ONE) for x in '+-' for y in '0'] + [(('-', '+', '-', '+'), 'd_eig_3_set', ONE)]
            combos += [(('+', '-', '+', '+'), 'd_eig_3_1', small), (('-', '+', '+', '+'), 'd_eig_3_1', small)]
            for (sb, s1, s2, o), drv, unit in combos:
                m1, m2 = u[s1] * unit, u[s2] * unit
                a = u[sb] * G * unit
                T = {p: b0, q: b0 + u[o] * W * unit, r: b1, off[big]: f * a, off[others[0]]: f * m1, off[others[1]]: f * m2}

                def pre(X, A):
                    for k, v in T.items():
                        X.put(X.st, 't', (C, num(k)), v)
                cs = ctx.call(drv, ext={'t': [NC, num(6)], 'e': [NC, num(3)]}, ranges=rng, args={'st': st}, pre=pre)
                if cs is None:
                    continue
                oid = '%s:%s %d%d %s%s%s%s%s' % ((drv, 'strain' if st else 'stress',) + big + (sb, s1, s2, o, '' if unit == ONE else ' small'))
                e = [cs.val('e', C, num(k)) for k in range(3)]
                ctx.eq(oid + ' kept', e[r], T[r], cs.where('e'))
                ctx.eq(oid + ' trace', e[p] + e[q], T[p] + T[q], cs.where('e'))
                ctx.eq(oid + ' determinant', e[p] * e[q], T[p] * T[q] - a * a, cs.where('e'))
        # an already diagonal tensor is returned as it is, for any number of sweeps
        for n in (0, 1):
            def pre0(X, A):
                for k in off.values():
                    X.put(X.st, 't', (C, num(k)), ZERO)
            cs = ctx.call('d_eig_3_%d' % n, ext={'t': [NC, num(6)], 'e': [NC, num(3)]}, ranges=RNG, args={'st': st}, pre=pre0)
            if cs is not None:
                ctx.outputs(cs, {'e': {(C, num(k)): t(k) for k in range(3)}}, oid='d_eig_3_%d:diagonal' % n, frame=False)
                w_ = [x for x in cs.x.acc if x.vid == 't' and x.kind in 'WA']
                ctx.add('d_eig_3_%d:input kept' % n, not w_, 'the tensor is not modified', cs.where())
