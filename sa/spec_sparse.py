"""Oracles of the sparse operations.  Row sums and products are stated for arbitrary (unknown) structure; constraint imposition, block
conversion and matrix-matrix operations on families of constant structures with unknown values."""
from symb import *
import symb
from spec_cell import V, S
n, i, b = sym('n', True), sym('i', True), sym('b', True)
RNG = {'n': (1, None), 'i': (0, n), 'b': (0, n)}
BLK = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 1), (2, 3)]
# adjacency lists (columns per row, deliberately unsorted in places); symmetric structure with full diagonal
SYM = {
    'chain3': [[0, 1], [2, 1, 0], [1, 2]],
    'star4': [[3, 0, 1, 2], [1, 0], [0, 2], [0, 3]],
    'loop4': [[0, 1, 3], [1, 0, 2], [3, 2, 1], [0, 2, 3]],
    'diag3': [[0], [1], [2]],
    'one': [[0]],
    'pair': [[1, 0], [0, 1]],
}
BLK2 = [(4, 4), (6, 6), (6, 1), (1, 6), (4, 5)]
# a hub joined to many leaves: a long row, many rows; leaf numbers deliberately out of order in the hub row
HUB = [[(37 * k) % 71 for k in range(71)]] + [[0, k] if k % 2 else [k, 0] for k in range(1, 71)]
LONG = (150, [[(47 * k + 11) % 150 for k in range(150)], [149, 3, 77], []])
RECT = {
    'r23': (3, [[0, 2], [1]]),
    'r32': (2, [[1, 0], [0], [1]]),
    'r33': (3, [[0, 1], [2, 1, 0], [2]]),
    'r2empty': (2, [[], [1, 0]]),
    'r43': (3, [[0], [1, 2], [], [2, 0, 1]]),
}


def csr(rows):
    rm, ci = [0], []
    for r in rows:
        ci += r
        rm.append(len(ci))
    return rm, ci


def ssum(lo, hi, f):
    q = as_atom(fresh('q', True))
    return mksum(q, lo, hi, f(of_atom(q)))


def symbolic():
    """(driver, ext, out, ranges) with unknown structure"""
    rm, ci, en, x, y = V('rm'), V('ci'), V('en'), V('x'), V('y')
    out, dg, rs, rhs = V('out'), V('dg'), V('rs'), V('rhs')
    for (R, C) in BLK + BLK2:
        lo, hi = rm(i), rm(i + 1)
        w = {}
        for p in range(R):
            w[(R * i + p,)] = y(R * i + p) + sum((ssum(lo, hi, lambda k, q=q, p=p: en(R * C * k + C * p + q) * x(C * ci(k) + q)) for q in range(C)), ZERO)
        yield 'd_spmv_%d_%d' % (R, C), {'rm': [n + 1], 'x': [sym('nc', True)], 'y': [sym('nr', True)]}, {'y': w}
        lo, hi = rm(b), rm(b + 1)
        w = {(R * b + p,): out(R * b + p) + sum((ssum(lo, hi, lambda k, q=q, p=p: en(R * C * k + C * p + q)) for q in range(C)), ZERO) for p in range(R)}
        yield 'd_rowsum_%d_%d' % (R, C), {'rm': [n + 1]}, {'out': w}
        for nm, sc in (('d_invweight', S('sc')), ('d_invweight1', ONE)):
            yield '%s_%d_%d' % (nm, R, C), {}, {'lhs': {(R * b + p,): sc * rhs(R * b + p) / rs(R * b + p) for p in range(R)}}


def dense(rows, nr, nc, R, C, name):
    """dense[r][c] of a block CSR whose k-th block holds name(k*R*C + p*C + q)"""
    v = V(name)
    D = [[ZERO] * (nc * C) for _ in range(nr * R)]
    k = 0
    for r, cols in enumerate(rows):
        for c in cols:
            for p in range(R):
                for q in range(C):
                    D[r * R + p][c * C + q] = D[r * R + p][c * C + q] + v(k * R * C + p * C + q)
            k += 1
    return D


def symentries(rows, N):
    """entries of a symmetric block matrix: one unknown per unordered pair of unknowns"""
    out = []
    for r, cols in enumerate(rows):
        for c in cols:
            for p in range(N):
                for q in range(N):
                    a, bb = r * N + p, c * N + q
                    out.append(sym('K_%d_%d' % (min(a, bb), max(a, bb))))
    return out


def bcsets(m, N):
    """constrained unknowns out of m*N"""
    tot = m * N
    yield [0]
    if tot > 1:
        yield [tot - 1]
        yield [tot - 1, 0]
        yield list(range(tot))
    if tot > 3:
        yield [tot // 2, 1]
        yield [tot - 1, tot // 2, 1]
    if N > 1 and m > 1:
        yield list(range(N))                    # one whole node
        yield [N, N + N - 1, 0]
        yield list(range(tot - N, tot)) + [0]


def constraints(thorough):
    """(id, driver, consts, args, expected entries, expected rhs, order)"""
    cases = [(N, nm, rows, list(bcsets(len(rows), N))) for N in (1, 2, 3) + ((4,) if thorough else ()) for nm, rows in SYM.items()]
    cases += [(4, 'pair', SYM['pair'], [[3], [7, 0, 5]]), (6, 'pair', SYM['pair'], [[5], [11, 4, 0], list(range(6, 12))]), (6, 'chain3', SYM['chain3'], [[17, 10]])]
    cases += [(1, 'hub', HUB, [[0], [70], list(range(1, 41)), [66, 0, 35]]), (2, 'hub', HUB, [[0, 131]])]
    for N, nm, rows, sets in cases:
            m = len(rows)
            rm, ci = csr(rows)
            en = symentries(rows, N)
            for bs, dofs in enumerate(sets):
                for sc in (S('sc'), None):
                    drvs = ['d_bcB%s_%d' % ('' if sc is not None else '1', N)]
                    if N == 1:
                        drvs.append('d_bcP' + ('' if sc is not None else '1'))
                    f = sc if sc is not None else ONE
                    val, rhs = V('val'), V('rhs')
                    pres = {d: f * val(q) for q, d in enumerate(dofs)}
                    we, wr = [], {}
                    acc = {}
                    k = 0
                    for r, cols in enumerate(rows):
                        for c in cols:
                            for p in range(N):
                                for q in range(N):
                                    R_, C_ = r * N + p, c * N + q
                                    if R_ in pres or C_ in pres:
                                        we.append(ONE if R_ == C_ else ZERO)
                                    else:
                                        we.append(en[k])
                                    if C_ in pres and R_ not in pres:
                                        acc[R_] = acc.get(R_, ZERO) + en[k] * pres[C_]
                                    k += 1
                    for r in range(m * N):
                        wr[(r,)] = pres[r] if r in pres else rhs(r) - acc.get(r, ZERO)
                    for d in drvs:
                        yield ('%s:%s:bc%d' % (d, nm, bs), d, {'rm': rm, 'ci': ci, 'en': en, 'dof': dofs}, {'val': [len(dofs)], 'rhs': [m * N]}, {'nr': num(m * N)},
                               {(q,): e for q, e in enumerate(we)}, wr)


def nonblock(rows, nc, R, C, name='en'):
    """scalar CSR of a block CSR, rows in order, columns in block order: (row map, columns, values)"""
    v = V(name)
    rm, ci, va = [0], [], []
    base = 0
    starts = []
    k = 0
    for cols in rows:
        starts.append(k)
        k += len(cols)
    for r, cols in enumerate(rows):
        for p in range(R):
            for j, c in enumerate(cols):
                for q in range(C):
                    ci.append(c * C + q)
                    va.append(v((starts[r] + j) * R * C + p * C + q))
            rm.append(len(ci))
    return rm, ci, va


def densify(rm, ci, vals, ncols):
    """rows as dicts column -> Expr"""
    out = []
    for r in range(len(rm) - 1):
        d = {}
        for k in range(rm[r], rm[r + 1]):
            d[ci[k]] = d.get(ci[k], ZERO) + vals[k]
        out.append(d)
    return out


def product(DA, DB):
    rows = []
    for r in DA:
        d = {}
        for k, x in r.items():
            for j, y in DB[k].items():
                d[j] = d.get(j, ZERO) + x * y
        rows.append(d)
    return rows


def blocked(D, R, C):
    """block CSR with sorted columns of dict rows D (every touched block is complete): rm, ci, {pos: value}"""
    rm, ci, va = [0], [], []
    for r in range(0, len(D), R):
        cols = sorted({c // C for p in range(R) for c in D[r + p]})
        for c in cols:
            ci.append(c)
            for p in range(R):
                for q in range(C):
                    va.append(D[r + p].get(c * C + q, ZERO))
        rm.append(len(ci))
    return rm, ci, va
