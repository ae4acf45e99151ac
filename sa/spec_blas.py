"""Oracles of the dense vector, multivector and cell-matrix operations."""
from symb import *
from spec_cell import V, S, NC, c
n, i, m, j, k, l, r = (sym(x, True) for x in ('n', 'i', 'm', 'j', 'k', 'l', 'r'))
RNG = {'n': (1, None), 'i': (0, n), 'm': (1, None), 'j': (0, m), 'k': (1, None), 'l': (1, None), 'r': (0, l)}


def ssum(hi, f):
    b = as_atom(fresh('q', True))
    return mksum(b, ZERO, hi, f(of_atom(b)))


def concrete(N=2, M=3, K=4, L=2):
    """the same entries with constant extents, every element stated"""
    import itertools
    merged = {}
    for I, J, R in itertools.product(range(N), range(M), range(L)):
        for name, ext, out, ret in entries(*(num(x) for x in (N, I, M, J, K, L, R))):
            if name.startswith(('d_identity_14', 'd_inverse')):
                continue
            if name not in merged:
                merged[name] = (name, ext, {}, ret)
            for v, cells in out.items():
                merged[name][2].setdefault(v, {}).update(cells)
    return list(merged.values())


def long_vectors():
    """vectors much longer than any block size, at the ends and in the middle"""
    N = 4100
    a, b = V('a'), V('b')
    for name, ext, out, ret in entries(n=num(N)):
        if name in ('d_dot', 'd_norm', 'd_sum'):
            yield name, ext, out, ret
    N = 70001
    for I in (0, 511, 1024, 4096, 65536, N - 1):
        for name, ext, out, ret in entries(n=num(N), i=num(I)):
            if name in ('d_fill', 'd_copy', 'd_scale', 'd_axpy', 'd_update', 'd_extract_4_3'):
                yield name, ext, out, ret


def entries(n=n, i=i, m=m, j=j, k=k, l=l, r=r):
    """(driver, extents, {view: {index: value}}, return value)"""
    al, be = S('al'), S('be')
    a, b, out = V('a'), V('b'), V('out')
    N1 = {'a': [n], 'b': [n], 'out': [n]}
    yield 'd_dot', N1, {}, ssum(n, lambda q: a(q) * b(q))
    yield 'd_norm', N1, {}, fn('sqrt', ssum(n, lambda q: a(q) ** 2))
    yield 'd_sum', N1, {}, ssum(n, lambda q: a(q))
    yield 'd_fill', N1, {'out': {(i,): al}}, None
    yield 'd_copy', N1, {'out': {(i,): a(i)}}, None
    yield 'd_scale', N1, {'out': {(i,): al * out(i)}}, None
    yield 'd_axpy', N1, {'out': {(i,): al * a(i) + out(i)}}, None
    yield 'd_update', N1, {'out': {(i,): al * a(i) + be * out(i)}}, None
    for s, o in ((1, 0), (2, 1), (4, 3), (5, 2)):
        yield 'd_extract_%d_%d' % (s, o), {'a': [s * n], 'out': [n]}, {'out': {(i,): a(s * i + o)}}, None
    for s, o in ((1, 0), (2, 1), (4, 3)):
        yield 'd_ext2_%d_%d' % (s, o), {'a': [n, s * m], 'out': [n, m]}, {'out': {(i, j): a(i, s * j + o)}}, None
    for s, d, o in ((1, 1, 0), (3, 2, 0), (4, 3, 1), (2, 1, 1)):
        yield 'd_ext2n_%d_%d_%d' % (s, d, o), {'a': [l, s * n], 'out': [l, d * n]}, {'out': {(r, d * i + q): a(r, s * i + q + o) for q in range(d)}}, None
    N2 = {'a': [n, m], 'out': [n, m]}
    yield 'd_fill2', N2, {'out': {(i, j): al}}, None
    yield 'd_scale2', N2, {'out': {(i, j): al * out(i, j)}}, None
    yield 'd_update2', N2, {'out': {(i, j): al * a(i, j) + be * out(i, j)}}, None
    for s, o in ((1, 0), (3, 2), (4, 3), (5, 0)):
        w = {(i, s * j + q): out(i, s * j + q) for q in range(s) if q != o}
        w[(i, s * j + o)] = al * out(i, s * j + o) + a(i, j)
        yield 'd_axpy2_%d_%d' % (s, o), {'a': [n, m], 'out': [n, s * m]}, {'out': w}, None
    A, x, y = V('A'), V('x'), V('y')
    for t in 'Nn':
        yield 'd_mv' + t, {'A': [n, m, l], 'x': [n, l], 'y': [n, m]}, {'y': {(i, j): be * y(i, j) + al * ssum(l, lambda q: A(i, j, q) * x(i, q))}}, None
    for t in 'Tt':
        yield 'd_mv' + t, {'A': [n, l, m], 'x': [n, l], 'y': [n, m]}, {'y': {(i, j): be * y(i, j) + al * ssum(l, lambda q: A(i, q, j) * x(i, q))}}, None
    for R, C in ((1, 1), (3, 3), (2, 3), (14, 14)):
        yield 'd_identity_%d_%d' % (R, C), {'out': [n, R, C]}, {'out': {(i, p, q): ONE if p == q else ZERO for p in range(R) for q in range(C)}}, None
    for R, C in ((1, 1), (3, 3), (2, 5)):
        yield 'd_fill3_%d_%d' % (R, C), {'out': [n, R, C]}, {'out': {(i, p, q): al for p in range(R) for q in range(C)}}, None
    B, Cm = V('B'), V('C')
    yield 'd_update3', {'A': [n, m, l], 'B': [n, m, l]}, {'B': {(i, j, r): al * A(i, j, r) + be * B(i, j, r)}}, None
    yield 'd_mult3', {'A': [n, m, k], 'B': [n, k, l], 'C': [n, m, l]}, {'C': {(i, j, r): be * Cm(i, j, r) + al * ssum(k, lambda q: A(i, j, q) * B(i, q, r))}}, None
    yield 'd_dotself', {'a': [n]}, {}, ssum(n, lambda q: a(q) ** 2)
    yield 'd_copyself', {'out': [n]}, {'out': {(i,): out(i)}}, None
    yield 'd_axpyself', {'out': [n]}, {'out': {(i,): (al + 1) * out(i)}}, None
    yield 'd_updateself', {'out': [n]}, {'out': {(i,): (al + be) * out(i)}}, None
    yield 'd_update2self', {'out': [n, m]}, {'out': {(i, j): (al + be) * out(i, j)}}, None
    yield 'd_update3self', {'out': [n, m, l]}, {'out': {(i, j, r): (al + be) * out(i, j, r)}}, None
    yield 'd_mult3self', {'A': [n, m, m], 'C': [n, m, m]}, {'C': {(i, j, t): be * Cm(i, j, t) + al * ssum(m, lambda q: A(i, j, q) * A(i, q, t)) for t in (j, ZERO)}}, None
    w = lambda q: al * a(q) + be * (al * a(q) + be * b(q))
    yield 'd_seq1', N1, {'out': {(i,): w(i)}}, ssum(n, lambda q: w(q) * b(q))
    yield 'd_seq2', N1, {'a': {(i,): al * a(i)}}, (1 + al * al) * ssum(n, lambda q: a(q) * b(q))
    yield 'd_seq3', N1, {'a': {(i,): a(i) + al * b(i)}}, al * fn('sqrt', ssum(n, lambda q: a(q) ** 2)) + fn('sqrt', ssum(n, lambda q: (a(q) + al * b(q)) ** 2))
    for D in (2, 3):
        inv = inverse(D, lambda p, q: A(i, p, q))
        yield 'd_inverse_%d_%d' % (D, D), {'A': [n, D, D], 'out': [n, D, D]}, {'out': {(i, p, q): inv[p][q] for p in range(D) for q in range(D)}}, None


def inverse(D, a):
    if D == 2:
        det = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0)
        return [[a(1, 1) / det, -a(0, 1) / det], [-a(1, 0) / det, a(0, 0) / det]]

    def cof(p, q):
        rr = [x for x in range(3) if x != p]
        cc = [x for x in range(3) if x != q]
        return (a(rr[0], cc[0]) * a(rr[1], cc[1]) - a(rr[0], cc[1]) * a(rr[1], cc[0])) * (1 if (p + q) % 2 == 0 else -1)
    det = sum((a(0, q) * cof(0, q) for q in range(3)), ZERO)
    return [[cof(q, p) / det for q in range(3)] for p in range(3)]


# arguments that may be overwritten besides the stated result (the cell matrix is factored in place)
def pivots():
    """the elimination of the inverse does not exchange rows: its pivots are the ratios of leading minors"""
    A = V('A')
    a = lambda p, q: A(i, p, q)
    return {'d_inverse_': ('inverse-zero-pivot', (a(0, 0), a(1, 1) - a(1, 0) * a(0, 1) / a(0, 0)))}


SCRATCH = {'d_inverse_2_2': {'A'}, 'd_inverse_3_3': {'A'}}


def guards():
    """(driver, well-formed extents, extra ranges, [(text, ill-formed extents)], [scalars that must be finite])"""
    up = n + 1 + k
    mu = m + 1 + k
    two = lambda v, w: [('%s longer than %s' % (v, w), {v: [up], w: [n]}), ('%s longer than %s' % (w, v), {v: [n], w: [up]})]
    yield 'd_dot', {'a': [n], 'b': [n]}, two('a', 'b'), []
    yield 'd_norm', {'a': [n]}, [('empty', {'a': [0]})], []
    yield 'd_sum', {'a': [n]}, [('empty', {'a': [0]})], []
    yield 'd_max', {'a': [n]}, [('empty', {'a': [0]})], []
    yield 'd_min', {'a': [n]}, [('empty', {'a': [0]})], []
    yield 'd_fill', {'out': [n]}, [('empty', {'out': [0]})], ['al']
    yield 'd_fillsel', {'ord': [n], 'val': [n], 'out': [m]}, [
        ('empty output', {'ord': [n], 'val': [n], 'out': [0]}), ('no values', {'ord': [0], 'val': [0], 'out': [m]}),
        ('more ordinals than values', {'ord': [up], 'val': [n], 'out': [m]}), ('more values than ordinals', {'ord': [n], 'val': [up], 'out': [m]})], ['al']
    yield 'd_copy', {'a': [n], 'out': [n]}, two('a', 'out'), []
    yield 'd_scale', {'out': [n]}, [('empty', {'out': [0]})], ['al']
    yield 'd_axpy', {'a': [n], 'out': [n]}, two('a', 'out'), []
    yield 'd_update', {'a': [n], 'out': [n]}, two('a', 'out'), ['al', 'be']
    yield 'd_extract_2_1', {'a': [2 * n], 'out': [n]}, [('empty source', {'a': [0], 'out': [n]}), ('empty target', {'a': [2 * n], 'out': [0]})], []
    for d in ('d_fill2', 'd_scale2'):
        yield d, {'out': [n, m]}, [('no rows', {'out': [0, m]}), ('no columns', {'out': [n, 0]})], []
    yield 'd_update2', {'a': [n, m], 'out': [n, m]}, [
        ('more input rows', {'a': [up, m], 'out': [n, m]}), ('more output rows', {'a': [n, m], 'out': [up, m]}),
        ('more input columns', {'a': [n, mu], 'out': [n, m]}), ('more output columns', {'a': [n, m], 'out': [n, mu]})], []
    yield 'd_axpy2_3_2', {'a': [n, m], 'out': [n, 3 * m]}, [
        ('empty input', {'a': [0, m], 'out': [n, 3 * m]}), ('empty output', {'a': [n, m], 'out': [0, 3 * m]}),
        ('more input rows', {'a': [up, m], 'out': [n, 3 * m]}), ('more output rows', {'a': [n, m], 'out': [up, 3 * m]})], []
    for t in 'NTnt':
        A, x, y = ([n, m, l], [n, l], [n, m]) if t in 'Nn' else ([n, l, m], [n, l], [n, m])
        yield 'd_mv' + t, {'A': A, 'x': x, 'y': y}, [
            ('empty matrix', {'A': [0] + A[1:], 'x': x, 'y': y}), ('empty input', {'A': A, 'x': [0] + x[1:], 'y': y}), ('empty output', {'A': A, 'x': x, 'y': [0] + y[1:]}),
            ('more cells in the input', {'A': A, 'x': [up] + x[1:], 'y': y}), ('fewer cells in the input', {'A': [up] + A[1:], 'x': x, 'y': [up] + y[1:]}),
            ('more cells in the output', {'A': A, 'x': x, 'y': [up] + y[1:]}), ('fewer cells in the output', {'A': [up] + A[1:], 'x': [up] + x[1:], 'y': y})], []
    yield 'd_identity_3_3', {'out': [n, 3, 3]}, [('empty', {'out': [0, 3, 3]}), ('fewer cells than stated', {'out': [n - 1, 3, 3]}), ('more cells than stated', {'out': [up, 3, 3]})], []
    yield 'd_fill3_3_3', {'out': [n, 3, 3]}, [('empty', {'out': [0, 3, 3]})], []
    yield 'd_update3', {'A': [n, m, l], 'B': [n, m, l]}, [
        ('empty input', {'A': [0, m, l], 'B': [n, m, l]}), ('empty output', {'A': [n, m, l], 'B': [0, m, l]}),
        ('more input rows', {'A': [n, mu, l], 'B': [n, m, l]}), ('more output rows', {'A': [n, m, l], 'B': [n, mu, l]}),
        ('more input columns', {'A': [n, m, l + 1], 'B': [n, m, l]}), ('more output columns', {'A': [n, m, l], 'B': [n, m, l + 1]})], []
    L1 = l + 1
    yield 'd_mult3', {'A': [n, m, L1], 'B': [n, L1, l], 'C': [n, m, l]}, [
        ('empty A', {'A': [0, m, L1], 'B': [n, L1, l], 'C': [n, m, l]}), ('empty B', {'A': [n, m, L1], 'B': [0, L1, l], 'C': [n, m, l]}),
        ('empty C', {'A': [n, m, L1], 'B': [n, L1, l], 'C': [0, m, l]}),
        ('inner dimension', {'A': [n, m, L1], 'B': [n, l, l], 'C': [n, m, l]}), ('inner dimension', {'A': [n, m, l], 'B': [n, L1, l], 'C': [n, m, l]}),
        ('rows', {'A': [n, mu, L1], 'B': [n, L1, l], 'C': [n, m, l]}), ('rows', {'A': [n, m, L1], 'B': [n, L1, l], 'C': [n, mu, l]}),
        ('columns', {'A': [n, m, L1], 'B': [n, L1, L1], 'C': [n, m, l]}), ('columns', {'A': [n, m, L1], 'B': [n, L1, l], 'C': [n, m, L1]}),
        ('cells of A', {'A': [up, m, L1], 'B': [n, L1, l], 'C': [n, m, l]}), ('cells of B', {'A': [n, m, L1], 'B': [up, L1, l], 'C': [n, m, l]}),
        ('cells of C', {'A': [n, m, L1], 'B': [n, L1, l], 'C': [up, m, l]}),
        ('cell count', {'A': [up, m, L1], 'B': [up, L1, l], 'C': [up, m, l]})], []
    yield 'd_inverse_3_3', {'A': [n, 3, 3], 'out': [n, 3, 3]}, [
        ('empty input', {'A': [0, 3, 3], 'out': [n, 3, 3]}), ('empty output', {'A': [n, 3, 3], 'out': [0, 3, 3]}),
        ('wider input', {'A': [n, 3, 4], 'out': [n, 3, 3]}), ('taller input', {'A': [n, 4, 3], 'out': [n, 3, 3]}), ('smaller input', {'A': [n, 2, 2], 'out': [n, 3, 3]}),
        ('wider output', {'A': [n, 3, 3], 'out': [n, 3, 4]}), ('taller output', {'A': [n, 3, 3], 'out': [n, 4, 3]}),
        ('more cells in the input', {'A': [up, 3, 3], 'out': [n, 3, 3]}), ('more cells in the output', {'A': [n, 3, 3], 'out': [up, 3, 3]})], []
