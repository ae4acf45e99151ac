"""Gathering, assembly, sparse structure and element geometry on simplex meshes."""
import itertools
from core import *
from spec_cell import S

V = lambda n: (lambda *i: cell(n, tuple(E(k) for k in i)))
I_ = lambda n: symb.sym(n, True)
# constant meshes: dimension -> [(number of vertices, cells)]
MESHES = {1: [(4, [[0, 1], [1, 2], [3, 2]])],
          2: [(4, [[0, 1, 2], [2, 1, 3]]), (6, [[5, 0, 4], [4, 0, 1], [1, 2, 4]])],
          3: [(5, [[0, 1, 2, 3], [4, 2, 1, 3]])]}
DOMAINS = {2: [[1], [1, 0]], 3: [[2], [2, 0], [1, 2, 0]]}
CFG = {'nobounds': True, 'seeds': True, 'unroll': 4096, 'deck': {'dl/Element Block': 'block', 'dl/Material Model': 'm'}}


def PRE(x, A):
    x.st.pc = x.st.pc + (boolsym('has:dl/Element Block'), boolsym('has:dl/Material Model'))


DOFS = {('Mech', 1): 1, ('Mech', 2): 2, ('Mech', 3): 3, ('Therm', 1): 1, ('Therm', 2): 1, ('Therm', 3): 1, ('Plast', 2): 3, ('Plast', 3): 4}
LOCAL = {2: 10, 3: 14}


def star(nv, cells):
    nb = [sorted({b for c in cells if a in c for b in c} - {a}) for a in range(nv)]
    ga = [0]
    for r in nb:
        ga.append(ga[-1] + len(r))
    return ga, [b for r in nb for b in r], [sorted(r + [a]) for a, r in enumerate(nb)]


def csr(rows):
    rm = [0]
    for r in rows:
        rm.append(rm[-1] + len(r))
    return rm, [c for r in rows for c in r]


def constant(ctx, name, D, nv, cells, oid, lid=None, ext=None, args=None, consts=None):
    ga, gb, rows = star(nv, cells)
    cs = {'ev': [v for c in cells for v in c], 'ga': ga, 'gb': gb}
    if lid is not None:
        cs['lid'] = lid
    cs.update(consts or {})
    c = ctx.call(name, consts=cs, ext=dict({'x': [nv * D], 'sv': [1]}, **(ext or {})), args=dict({'nc': num(len(cells)), 'nv': num(nv)}, **(args or {})), cfg=CFG, pre=PRE)
    if c is not None and c.threw:
        ctx.add(oid, False, 'refuses a well-formed mesh', c.where())
        return None
    return c


def gathers(ctx):
    nc, c = I_('nc'), I_('c')
    rg = {'c': (0, nc - 1), 'nc': (1, None), 'nd': (1, None)}
    u, ev, x, lid = V('u'), V('ev'), V('x'), V('lid')
    def wsname(k):
        return k in ctx.fns
    for (P, D), dofs in sorted(DOFS.items()):
        N = D + 1
        for dom in ('', 'd'):
            cellno = lid(c) if dom else c
            rows = I_('nd') if dom else nc
            rg2 = dict(rg, c=(0, rows - 1))
            node = lambda n: ev(cellno * N + n)
            for f in ('', 'f'):
                seed = (lambda n, k, v: fn('indep', num(n), num(k), v)) if f else (lambda n, k, v: v)
                jobs = [('state', dofs, lambda n, d: u(node(n) * dofs + d)), ('control', 1, lambda n, d: u(node(n)))]
                if P == 'Plast':
                    jobs.append(('node', D, lambda n, d: u(node(n) * D + d)))
                for kind, q, val in jobs:
                    nm = 'd_%s%s%s_%s_%d' % (kind, f, dom, P, D)
                    if not wsname(nm):
                        continue
                    cs = ctx.call(nm, ext={'ws': [rows, q * N], 'lid': [rows]}, ranges=rg2, cfg=CFG, pre=PRE)
                    if cs is None:
                        continue
                    if cs.threw:
                        ctx.add(nm, False, 'refuses a well-formed mesh', cs.where())
                        continue
                    for n in range(N):
                        for d in range(q):
                            ctx.eq('%s:node %d:%d' % (nm, n, d), cs.val('ws', c, n * q + d), seed(q * N, n * q + d, val(n, d)), cs.where('ws'))
                    frame(ctx, cs, nm, {'ws'})
                nm = 'd_config%s%s_%s_%d' % (f, dom, P, D)
                if wsname(nm):
                    cs = ctx.call(nm, ext={'ws': [rows, N, D], 'lid': [rows]}, ranges=rg2, cfg=CFG, pre=PRE)
                    if cs is not None and cs.threw:
                        ctx.add(nm, False, 'refuses a well-formed mesh', cs.where())
                    elif cs is not None:
                        for n in range(N):
                            for d in range(D):
                                ctx.eq('%s:node %d:%d' % (nm, n, d), cs.val('ws', c, n, d), seed(D * N, n * D + d, x(node(n) * D + d)), cs.where('ws'))
                        frame(ctx, cs, nm, {'ws'})
                nm = 'd_local%s%s_%s_%d' % (f, dom, P, D)
                if wsname(nm):
                    L = LOCAL[D]
                    cs = ctx.call(nm, ext={'ws': [rows, L], 'lid': [rows]}, ranges=rg2, cfg=CFG, pre=PRE)
                    if cs is not None and cs.threw:
                        ctx.add(nm, False, 'refuses a well-formed mesh', cs.where())
                    elif cs is not None:
                        for d in range(L):
                            ctx.eq('%s:%d' % (nm, d), cs.val('ws', c, d), seed(L, d, u(cellno * L + d)), cs.where('ws'))
                        frame(ctx, cs, nm, {'ws'})
        for nm, w in (('ncells', nc), ('nnodes', I_('nv'))):
            cs = ctx.call('d_%s_%s_%d' % (nm, P, D), cfg=CFG, pre=PRE)
            if cs is not None and not cs.threw:
                ctx.eq('d_%s_%s_%d' % (nm, P, D), cs.ret, w, cs.where())


def frame(ctx, cs, oid, out):
    """nothing but the named arrays is written"""
    w = [a[0] for a in cs.x.writes] if hasattr(cs.x, 'writes') else None
    import props
    props.frame_views(ctx, cs, oid, out)


def scatter(ctx):
    out0 = V('out')
    for (P, D), dofs in sorted(DOFS.items()):
        N = D + 1
        for mi, (nv, cells) in enumerate(MESHES[D]):
            for kind, q, fad in (('res', dofs, 0), ('resd', dofs, 0), ('gradu', dofs, 0), ('gradx', D, 0), ('gradz', 1, 0), ('graduf', dofs, 1), ('gradxf', D, 1), ('gradzf', 1, 1)):
                nm = 'd_%s_%s_%d' % (kind, P, D)
                if nm not in ctx.fns:
                    continue
                for lid in (DOMAINS[len(cells)] if kind == 'resd' else [None]):
                    oid = '%s:mesh %d%s' % (nm, mi, '' if lid is None else ':cells ' + ','.join(map(str, lid)))
                    order = lid if lid is not None else list(range(len(cells)))
                    cs = constant(ctx, nm, D, nv, cells, oid, lid, {'r': [len(order)] if fad else [len(order), q * N], 'out': [nv * q]})
                    if cs is None:
                        continue
                    want = {v * q + d: out0(v * q + d) for v in range(nv) for d in range(q)}
                    for k, c in enumerate(order):
                        for n in range(N):
                            for d in range(q):
                                want[cells[c][n] * q + d] = want[cells[c][n] * q + d] + (fn('dx', V('r')(k), num(n * q + d)) if fad else V('r')(k, n * q + d))
                    for j, w in want.items():
                        ctx.eq('%s:%d' % (oid, j), cs.val('out', j), w, cs.where('out'))
    # per element block
    for mi, (nv, cells) in enumerate(MESHES[2]):
        for lid in DOMAINS[len(cells)]:
            oid = 'block mesh %d cells %s' % (mi, ','.join(map(str, lid)))
            r, nb, ne = V('r'), len(lid), len(cells)
            def job(nm, rext, oext, want):
                cs = constant(ctx, nm, 2, nv, cells, '%s:%s' % (nm, oid), lid, {'r': rext, 'out': oext})
                if cs is None:
                    return
                for ix in itertools.product(*[range(n) for n in oext]):
                    ctx.eq('%s:%s:%s' % (nm, oid, ','.join(map(str, ix))), cs.val('out', *ix), want.get(ix, out0(*ix)), cs.where('out'))
            dx = lambda v, k: fn('dx', v, num(k))
            for nm, q in (('d_blk_gradu', 2), ('d_blk_gradz', 1)):
                w = {}
                for k, c in enumerate(lid):
                    for n in range(3):
                        for d in range(q):
                            j = (cells[c][n] * q + d,)
                            w[j] = w.get(j, out0(*j)) + dx(r(k), n * q + d)
                job(nm, [nb], [nv * q], w)
            job('d_blk_flat', [nb, 4], [ne * 4], {(c * 4 + d,): r(k, d) for k, c in enumerate(lid) for d in range(4)})
            job('d_blk_rows', [nb, 4], [ne, 4], {(c, d): r(k, d) for k, c in enumerate(lid) for d in range(4)})
            job('d_blk_pod2', [nb], [ne, 6], {(c, d): dx(r(k), d) for k, c in enumerate(lid) for d in range(6)})
            job('d_blk_pod3', [nb, 2], [ne, 2, 6], {(c, i, d): dx(r(k, i), d) for k, c in enumerate(lid) for i in range(2) for d in range(6)})
    c, nc = I_('c'), I_('nc')
    for nm, rext, shape in (('d_all_pod2', [nc], (6,)), ('d_all_pod3', [nc, 2], (2, 6))):
        cs = ctx.call(nm, ext={'r': rext, 'out': [nc] + list(shape)}, ranges={'c': (0, nc - 1), 'nc': (1, None)}, cfg=CFG)
        if cs is not None and cs.threw:
            ctx.add(nm, False, 'refuses a well-formed workset', cs.where())
        elif cs is not None:
            for ix in itertools.product(*[range(n) for n in shape]):
                ctx.eq('%s:%s' % (nm, ','.join(map(str, ix))), cs.val('out', c, *ix), fn('dx', V('r')(c, *ix[:-1]), num(ix[-1])), cs.where('out'))
    # flattening of local worksets
    for D in (2, 3):
        nm, L, c, nc = 'd_flat_Plast_%d' % D, LOCAL[D], I_('c'), I_('nc')
        cs = ctx.call(nm, ext={'ws': [nc, L], 'out': [nc * L]}, ranges={'c': (0, nc - 1), 'nc': (1, None)}, cfg=CFG, pre=PRE)
        if cs is not None and cs.threw:
            ctx.add(nm, False, 'refuses a well-formed workset', cs.where())
        elif cs is not None:
            for d in range(L):
                ctx.eq('%s:%d' % (nm, d), cs.val('out', c * L + d), V('ws')(c, d), cs.where('out'))
    # Jacobians
    for kind, P, D, R, C in [(k,) + z for z in (('Mech', 1, 1, 1), ('Mech', 2, 2, 2), ('Mech', 3, 3, 3), ('Therm', 2, 1, 1), ('Therm', 3, 1, 1), ('Plast', 2, 3, 3)) for k in ('jac', 'jacf', 'jacfd')] + \
            [(k,) + z for z in (('Mech', 1, 1, 1), ('Mech', 2, 2, 2), ('Therm', 2, 1, 2), ('Therm', 3, 1, 1)) for k in ('jact', 'jactd', 'jactp')]:
        nm = 'd_%s_%s_%d' % (kind, P, D)
        N = D + 1
        tr = kind.startswith('jact')
        for mi, (nv, cells) in enumerate(MESHES[D]):
            if D == 3 and R == 3 and kind != 'jacf' and ctx.tier == 'quick':
                continue
            for lid in (DOMAINS[len(cells)][-1:] if kind.endswith('d') else [None]):
                order = lid if lid is not None else list(range(len(cells)))
                rows = star(nv, cells)[2]
                rm, ci = csr(rows)
                oid = '%s:mesh %d%s' % (nm, mi, '' if lid is None else ':cells ' + ','.join(map(str, lid)))
                pod = kind in ('jac', 'jactp')
                cs = constant(ctx, nm, D, nv, cells, oid, lid, {'j': [len(order), R * N] + ([C * N] if pod else []), 'out': [len(ci) * R * C]})
                if cs is None:
                    continue
                want = {k: ZERO for k in range(len(ci) * R * C)}
                for k, c in enumerate(order):
                    for a in range(R * N):
                        for b in range(C * N):
                            x = V('j')(k, a, b) if pod else fn('dx', V('j')(k, a), num(b))
                            i, di, j, dj, BI, BJ = (a // R, a % R, b // C, b % C, R, C) if not tr else (b // C, b % C, a // R, a % R, C, R)
                            e = rm[cells[c][i]] + rows[cells[c][i]].index(cells[c][j])
                            w = e * BI * BJ + di * BJ + dj
                            want[w] = want[w] + x
                for w, x in want.items():
                    ctx.eq('%s:%d' % (oid, w), cs.val('out', w), x, cs.where('out'))


def structure(ctx):
    for mi, (nv, cells) in enumerate(MESHES[2] + [(5, [[4, 2, 0], [2, 4, 3]])]):
        rows = star(nv, cells)[2]
        rm, ci = csr(rows)
        for R, C in ((1, 1), (2, 2), (3, 1), (1, 3)):
            nm = 'd_block_%d_%d' % (R, C)
            oid = '%s:mesh %d' % (nm, mi)
            cs = constant(ctx, nm, 2, nv, cells, oid, ext={'orm': [len(rm)], 'oci': [len(ci)]})
            if cs is not None:
                for k, v in enumerate(rm):
                    ctx.eq('%s:row map %d' % (oid, k), cs.val('orm', k), num(v), cs.where('orm'))
                for k, v in enumerate(ci):
                    ctx.eq('%s:column %d' % (oid, k), cs.val('oci', k), num(v), cs.where('oci'))
            for k, v in enumerate((nv * R, nv * C, R, C, len(ci) * R * C)):
                cs = constant(ctx, 'd_blockn_%d_%d' % (R, C), 2, nv, cells, oid, args={'k': num(k)})
                if cs is not None:
                    ctx.eq('%s:size %d' % (oid, k), cs.ret, num(v), cs.where())
        for R in (1, 2, 3):
            full = [[n * R + e for n in rows[a] for e in range(R)] for a in range(nv) for d in range(R)]
            prm, pci = csr(full)
            nm = 'd_plain_%d' % R
            oid = '%s:mesh %d' % (nm, mi)
            cs = constant(ctx, nm, 2, nv, cells, oid, ext={'orm': [len(prm)], 'oci': [len(pci)]})
            if cs is not None:
                for k, v in enumerate(prm):
                    ctx.eq('%s:row map %d' % (oid, k), cs.val('orm', k), num(v), cs.where('orm'))
                for k, v in enumerate(pci):
                    ctx.eq('%s:column %d' % (oid, k), cs.val('oci', k), num(v), cs.where('oci'))
            cs = constant(ctx, 'd_plainn_%d' % R, 2, nv, cells, oid)
            if cs is not None:
                ctx.eq(oid + ':entries', cs.ret, num(len(pci)), cs.where())
    # lookup of the entry that couples two degrees of freedom of a cell, sorted and unsorted rows, absent couplings
    for D, R, C in ((1, 1, 1), (2, 2, 2), (2, 1, 2), (2, 2, 1), (3, 3, 3)):
        for mi, (nv, cells) in enumerate(MESHES[D][:1]):
            for srt, rows in (('sorted', star(nv, cells)[2]), ('unsorted', [r[1:] + r[:1] for r in star(nv, cells)[2]]), ('missing', [r[:1] for r in star(nv, cells)[2]])):
                rm, ci = csr(rows)
                for c in range(len(cells)):
                    for i in range(0, R * (D + 1), 1 if D < 3 else 4):
                        for j in range(0, C * (D + 1), 1 if D < 3 else 5):
                            oid = 'd_lookup_%d_%d_%d:%s:cell %d:%d,%d' % (D, R, C, srt, c, i, j)
                            a, b = cells[c][i // R], cells[c][j // C]
                            w = (rm[a] + rows[a].index(b)) * R * C + (i % R) * C + j % C if b in rows[a] else -1
                            cs = constant(ctx, 'd_lookup_%d_%d_%d' % (D, R, C), D, nv, cells, oid, args={'c': num(c), 'i': num(i), 'j': num(j)}, consts={'rm': rm, 'ci': ci}, ext={'en': [len(ci) * R * C]})
                            if cs is not None:
                                ctx.eq(oid, cs.ret, num(w), cs.where())
                            if R == C and (D, R) in ((1, 1), (2, 2), (3, 3)):
                                w = (rm[b] + rows[b].index(a)) * R * R + (j % R) * R + i % R if a in rows[b] else -1
                                cs = constant(ctx, 'd_lookupt_%d_%d' % (D, R), D, nv, cells, oid, args={'c': num(c), 'i': num(i), 'j': num(j)}, consts={'rm': rm, 'ci': ci}, ext={'en': [len(ci) * R * R]})
                                if cs is not None:
                                    ctx.eq(oid.replace('lookup', 'lookupt'), cs.ret, num(w), cs.where())
                                if srt == 'sorted':
                                    full = [[n * R + e for n in rows[q] for e in range(R)] for q in range(nv) for d in range(R)]
                                    prm, pci = csr(full)
                                    row = a * R + i % R
                                    w = prm[row] + full[row].index(b * R + j % R)
                                    cs = constant(ctx, 'd_lookupp_%d_%d' % (D, R), D, nv, cells, oid, args={'c': num(c), 'i': num(i), 'j': num(j)})
                                    if cs is not None:
                                        ctx.eq(oid.replace('lookup', 'lookupp'), cs.ret, num(w), cs.where())


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum(((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M))), ZERO)


def inv(M):
    n, d = len(M), det(M)
    if n == 1:
        return [[ONE / d]]
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]) / d for j in range(n)] for i in range(n)]


def fabs(e):
    return fn('abs', e)


def geometry(ctx):
    c, n_, d_ = I_('c'), I_('n'), I_('d')
    x3, ev, x, sv = V('x'), V('ev'), V('x'), V('sv')
    for D in (1, 2, 3):
        def shape(X):
            J = [[X(k, d) - X(D, d) for k in range(D)] for d in range(D)]
            G = inv(J)
            G.append([-sum((G[k][d] for k in range(D)), ZERO) for d in range(D)])
            return fabs(det(J)), G, det(J)
        vol, G, dj = shape(lambda n, d: x3(c, n, d))
        cs = ctx.call('d_geom_%d' % D, ext={'g': [I_('nc'), D + 1, D], 'x': [I_('nc'), D + 1, D], 'vol': [I_('nc')]}, ranges={'c': (0, I_('nc') - 1)}, cfg=CFG, pre=PRE)
        if cs is not None and not cs.threw:
            w = {(c, n, d): G[n][d] for n in range(D + 1) for d in range(D)}
            ctx.outputs(cs, {'g': w, 'vol': {(c,): vol}}, oid='d_geom_%d' % D)
        cs = ctx.call('d_cvol_%d' % D, ext={'x': [I_('nc'), D + 1, D]}, ranges={'c': (0, I_('nc') - 1)}, cfg=CFG, pre=PRE)
        if cs is not None and not cs.threw:
            ctx.eq('d_cvol_%d' % D, cs.ret, vol, cs.where())
        M = lambda n, d: x(ev(c * (D + 1) + n) * D + d)
        vol, G, dj = shape(M)
        def r(nm, want, **a):
            cs = ctx.call(nm, args={k: num(v) for k, v in a.items()}, cfg=CFG, pre=PRE)
            if cs is not None and not cs.threw:
                ctx.eq(nm + ''.join(':%s' % v for v in a.values()), cs.ret, want, cs.where())
        r('d_coord_%d' % D, M(n_, d_))
        r('d_scoord_%d' % D, x(sv(c * D + n_) * D + d_))
        r('d_det_%d' % D, dj)
        r('d_gradv_%d' % D, vol)
        if D > 1:
            r('d_vol_%d' % D, vol / (2 if D == 2 else 6))
        for n in range(D + 1):
            for d in range(D):
                r('d_grad_%d' % D, G[n][d], n=n, d=d)
        voigt = [(d, d) for d in range(D)] + [(i, j) for j in range(D - 1, 0, -1) for i in range(j - 1, -1, -1)]
        for k in range(D * (D + 1)):
            for v, (p, q) in enumerate(voigt):
                n, d = divmod(k, D)
                w = G[n][p] if p == q == d else ZERO if p == q or d not in (p, q) else G[n][p if d == q else q]
                if D < 3 or ctx.tier != 'quick' or k in (0, 4, 8, 9, 11):
                    r('d_bmat_%d' % D, w, i=k, v=v)
    N = [symb.sym('n%d' % k, True) for k in range(3)]
    X = lambda k, d: x3(c, N[k], d)
    a = [X(1, d) - X(0, d) for d in range(3)]
    b = [X(2, d) - X(0, d) for d in range(3)]
    cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    cs = ctx.call('d_area_3', cfg=CFG, pre=PRE)
    if cs is not None and not cs.threw:
        ctx.eq('d_area_3', cs.ret, fn('sqrt', cr[0] ** 2 + cr[1] ** 2 + cr[2] ** 2) / 2, cs.where())
    for nn in (2, 3, 4):
        for nd in (1, 3):
            cs = ctx.call('d_projws', ext={'vol': [I_('nc')], 'b': [nn], 's': [I_('nc'), nd], 'r': [I_('nc'), nn * nd]}, ranges={'c': (0, I_('nc') - 1)}, cfg=CFG, pre=PRE)
            if cs is not None and not cs.threw:
                w = {(c, k * nd + e): V('r')(c, k * nd + e) + S('sc') * V('b')(k) * V('s')(c, e) * V('vol')(c) for k in range(nn) for e in range(nd)}
                ctx.outputs(cs, {'r': w}, oid='d_projws:%d:%d' % (nn, nd))
