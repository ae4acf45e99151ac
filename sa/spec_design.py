"""Oracles of penalty functions, projections, weighting and penalising."""
from symb import *
import symb
from spec_cell import V, S, NC, c, RANGES_DEFAULT
from fractions import Fraction as Fr
SPEC = {}


def reg(name, group, ext=None, out=None, ret=None, **kw):
    SPEC[name] = dict(group=group, ext=ext or {}, out=out or {}, ret=ret, **kw)


def deck(key, default, pl='pl'):
    return ite(boolsym('has:%s/%s' % (pl, key)), sym('%s/%s' % (pl, key)), E(default))


def Q(x):
    return num(Fr(x))


PI = num(Fr('3.1415926535897932385'))
# name -> (density -> value) given (exponent, minimum, regularisation length)


def simp(z, p, mn, r=None):
    return mn + (1 - mn) * fn('pow', z, p)


def ramp(z, p, mn, r=None):
    return mn + (1 - mn) * z / (1 + p * (1 - z))


def heavi(z, p, mn, r):
    mid = mn + (1 - mn) * fn('pow', Q('1/2') * (1 + fn('sin', PI * z / (2 * r))), p)
    return ite(cmp(z + r, '<='), mn, ite(cmp(z - r, '>='), ONE, mid))


def cont(p, step, ub):
    """bounded additive continuation"""
    return ite(cmp(p + step - ub, '>='), ub, p + step)


def build():
    z, p, mn, r = S('z'), S('p'), S('mn'), S('r')
    three, tenth, e9 = num(3), Q('1/10'), Q('1/1000000000')
    reg('d_simp', 'pen', ret=simp(z, p, mn))
    reg('d_heavi0', 'pen', ret=heavi(z, ONE, ZERO, ONE))
    reg('d_heavi', 'pen', ret=heavi(z, p, mn, r))
    reg('d_ramp0', 'pen', ret=ramp(z, three, ZERO))
    reg('d_nopen', 'pen', ret=ONE)
    reg('d_nopen_pl', 'pen', ret=ONE)
    D = {'simp': (simp, 3, e9, 3), 'ramp': (ramp, 3, ZERO, 3), 'heavi': (heavi, 1, ZERO, 1)}
    for n, (f, pe, pm, ub) in D.items():
        P, M, A = deck('Exponent', pe), deck('Minimum Value', pm), deck('Additive Continuation', tenth)
        U, R = deck('Penalty Exponent Upper Bound', ub), deck('Regularization Length', 1)
        reg('d_%s_pl' % n, 'pen', ret=f(z, P, M, R))
        P1 = cont(P, A, U)
        reg('d_%s_pl_u1' % n, 'pen', ret=f(z, P1, M, R))
        reg('d_%s_pl_u2' % n, 'pen', ret=f(z, cont(P1, A, U), M, R))
        for a in (0, 1):
            for b in (0, 1):
                for d in (0, 1):
                    for rr in ((0, 1) if n == 'heavi' else (0,)):
                        P2 = S('ve') if a else E(pe)
                        M2 = S('vm') if b else e9
                        A2 = S('va') if d else tenth
                        R2 = S('vr') if rr else ONE
                        reg('d_%s_par_%d%d%d%d' % (n, a, b, d, rr), 'pen', ret=f(z, P2, M2, R2))
                        reg('d_%s_paru_%d%d%d%d' % (n, a, b, d, rr), 'pen', ret=f(z, cont(P2, A2, U), M2, R2))
    reg('d_simp_u1', 'pen', ret=simp(z, cont(p, tenth, three), mn))
    reg('d_heavi_u1', 'pen', ret=heavi(z, cont(p, tenth, three), mn, r))
    reg('d_ramp0_u1', 'pen', ret=ramp(z, three, ZERO))
    reg('d_simp_set', 'pen', ret=simp(z, S('p2'), S('mn2')))
    reg('d_simp_set_u1', 'pen', ret=simp(z, cont(S('p2'), S('ac'), three), S('mn2')))

    # projections
    def hp(z, b):
        return 1 - fn('exp', -b * (1 - z)) + (1 - z) * fn('exp', -b)

    def tp(z, b, e):
        return (fn('tanh', b * e) + fn('tanh', b * (z - e))) / (fn('tanh', b * e) + fn('tanh', b * (1 - e)))
    b, e, b2, e2 = S('b'), S('e'), S('b2'), S('e2')
    reg('d_hproj', 'proj', ret=hp(z, b))
    reg('d_hproj0', 'proj', ret=hp(z, num(10)))
    reg('d_hproj_set', 'proj', ret=hp(z, b2))
    reg('d_tproj', 'proj', ret=tp(z, b, e))
    reg('d_tproj0', 'proj', ret=tp(z, num(10), Q('1/2')))
    reg('d_tproj_pl', 'proj', ret=tp(z, deck('Beta', 10), deck('Eta', Q('1/2'))))
    reg('d_tproj_setb', 'proj', ret=tp(z, b2, e))
    reg('d_tproj_sete', 'proj', ret=tp(z, b, e2))
    reg('d_tproj_setbe', 'proj', ret=tp(z, b2, e2))
    reg('d_tproj_seq', 'proj', ret=tp(z, b2, e2))
    zz = V('z')
    for n in (2, 3, 4):
        rho = sum((zz(c, k) for k in range(n)), ZERO) / n
        reg('d_applyH_%d' % n, 'proj', {'z': [NC, n]}, ret=hp(rho, b))
        reg('d_applyT_%d' % n, 'proj', {'z': [NC, n]}, ret=tp(rho, b, e))
        if n == 4:
            reg('d_applyH0_4', 'proj', {'z': [NC, n]}, ret=hp(rho, num(10)))

    # weighting
    P, M = deck('Exponent', 3), deck('Minimum Value', 0)
    F = {'simp': lambda x: simp(x, p, mn), 'ramp': lambda x: ramp(x, P, M), 'nopen': lambda x: ONE, 'heavi': lambda x: heavi(x, p, mn, r)}
    FU = {'simp': lambda x: simp(x, cont(p, tenth, three), mn),
          'ramp': lambda x: ramp(x, cont(P, deck('Additive Continuation', tenth), deck('Penalty Exponent Upper Bound', 3)), M),
          'nopen': lambda x: ONE, 'heavi': lambda x: heavi(x, cont(p, tenth, three), mn, r)}
    io, inn = V('io'), V('in')
    for (t, d, n) in (('simp', 1, 1), ('simp', 2, 3), ('simp', 3, 6), ('simp', 3, 1), ('ramp', 2, 3), ('ramp', 3, 6), ('nopen', 2, 3), ('nopen', 3, 6), ('heavi', 2, 3), ('heavi', 3, 6)):
        rho = sum((zz(c, k) for k in range(d + 1)), ZERO) / (d + 1)
        w, wu = F[t](rho), FU[t](rho)
        s = '_%s_%d_%d' % (t, d, n)
        zx = [NC, d + 1]
        reg('d_w2' + s, 'weight', {'io': [NC, n], 'z': zx}, {'io': {(c, k): w * io(c, k) for k in range(n)}})
        reg('d_w2u' + s, 'weight', {'io': [NC, n], 'z': zx}, {'io': {(c, k): wu * io(c, k) for k in range(n)}})
        reg('d_w2io' + s, 'weight', {'in': [NC, n], 'out': [NC, n], 'z': zx}, {'out': {(c, k): w * inn(c, k) for k in range(n)}})
        reg('d_w1' + s, 'weight', {'io': [NC], 'z': zx}, {'io': {(c,): w * io(c)}})
        reg('d_w1io' + s, 'weight', {'in': [NC], 'out': [NC], 'z': zx}, {'out': {(c,): w * inn(c)}})
        pr = F[t](S('rho'))
        reg('d_pen2' + s, 'weight', {'io': [NC, n]}, {'io': {(c, k): pr * io(c, k) for k in range(n)}})
        reg('d_pen3' + s, 'weight', {'io': [NC, 2, n]}, {'io': {(c, j, k): pr * io(c, j, k) for j in range(2) for k in range(n)}})
    out = V('out')
    for n in (1, 2, 3, 6):
        reg('d_apply_penalty_%d' % n, 'weight', {'out': [NC, n]}, {'out': {(c, k): S('p') * out(c, k) for k in range(n)}})


build()
