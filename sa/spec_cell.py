"""Oracles of the per-cell kernels, written from the mathematics (continuum mechanics, Voigt notation), not from the code.
Each entry: driver name -> (group, extents, expected cells).  group names the property that owns the value obligation."""
from symb import *
import symb
from fractions import Fraction as Fr

NC = sym('nc', True)
c = sym('c', True)
RANGES_DEFAULT = {'nc': (1, None), 'c': (0, NC)}
VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
SPEC = {}


def V(view):
    return lambda *i: cell(view, tuple(E(x) for x in i))


def S(n):
    return sym(n)


def reg(name, group, ext, out=None, ret=None, **kw):
    SPEC[name] = dict(group=group, ext=ext, out=out or {}, ret=ret, **kw)


def vidx(D, i, j):
    for k, (a, b) in enumerate(VOIGT[D]):
        if (a, b) in ((i, j), (j, i)):
            return k


def strain_of(D, n, off=0, u='u', g='g', stride=1):
    """engineering strain: normal = du_i/dx_i, shear = du_i/dx_j + du_j/dx_i"""
    u, g = V(u), V(g)

    def grad(i, j):
        return sum((u(c, a * n + off + i) * g(c, a, j) for a in range(D + 1)), ZERO)
    return {(c, k): (grad(i, i) if i == j else grad(i, j) + grad(j, i)) for k, (i, j) in enumerate(VOIGT[D])}


def sgrad(D, n, off, u='u', g='g', fac=ONE):
    u, g = V(u), V(g)
    return {(c, j): fac * sum((u(c, a * n + off) * g(c, a, j) for a in range(D + 1)), ZERO) for j in range(D)}


# many dofs per node, large offsets, several dofs in one dimension
WIDE = ((1, 3, 1), (1, 9, 6), (2, 9, 6), (3, 9, 6), (3, 7, 0))


def build():
    el, inn, out = V('el'), V('in'), V('out')
    mc, sc = S('mc'), S('sc')
    for D in (1, 2, 3):
        n = 2 * D
        ex = {'el': [NC, n], 'in': [NC, n], 'out': [NC, n]}
        w = {}
        for k in range(D):
            w[(c, k)] = -(mc * inn(c, D + k) + sc * el(c, D + k))
            w[(c, D + k)] = mc * inn(c, k) + sc * el(c, k)
        reg('d_AdjDamp_%d' % D, 'complex', ex, {'out': w})
        reg('d_CplxDamp_%d' % D, 'complex', ex, {'out': {k: -v for k, v in w.items()}})
        # complex kinematics: dof layout node-major, then real block, then imaginary block
        st = {}
        u, g = V('u'), V('g')
        for r in range(2):
            for (cc, k), v in strain_of(D, 2 * D, r * D).items():
                st[(c, r, k)] = v
        N = D + 1
        nv = len(VOIGT[D])
        reg('d_CplxStrain_%d' % D, 'complex', {'u': [NC, 2 * D * N], 'g': [NC, N, D], 'out': [NC, 2, nv]}, {'out': st}, out_only=True)
        s, vol = V('s'), V('vol')
        f = {}
        for a in range(N):
            for r in range(2):
                for i in range(D):
                    f[(c, a * 2 * D + r * D + i)] = vol(c) * sum((s(c, r, vidx(D, i, j)) * g(c, a, j) for j in range(D)), ZERO)
        reg('d_CplxStressDiv_%d' % D, 'complex', {'vol': [NC], 'g': [NC, N, D], 's': [NC, 2, nv], 'out': [NC, 2 * D * N]}, {'out': f})
        st2 = V('st')
        reg('d_CplxInertia_%d' % D, 'complex', {'vol': [NC], 'st': [NC, 2 * D], 'out': [NC]},
            {'out': {(c,): -S('w') ** 2 * S('rho') * vol(c) * sum((st2(c, k) ** 2 for k in range(2 * D)), ZERO)}})
        a_, b_ = V('a'), V('b')
        reg('d_FreqMisfit_%d_1' % D, 'complex', {'a': [NC, 2 * D * N], 'b': [NC, 2 * D * N], 'out': [NC]},
            {'out': {(c,): num(Fr(1, 2)) * sum(((a_(c, k) - b_(c, k)) ** 2 for k in range(2 * D * N)), ZERO)}})
    a_, b_ = V('a'), V('b')
    for nv in (1, 3, 6):
        reg('d_CplxEnergy_%d' % nv, 'complex', {'a': [NC, 2, nv], 'b': [NC, 2, nv], 'out': [NC]},
            {'out': {(c,): sum((a_(c, r, k) * b_(c, r, k) for r in range(2) for k in range(nv)), ZERO)}})
        reg('d_Dot_%d' % nv, 'tensor', {'a': [NC, nv], 'b': [NC, nv], 'out': [NC]},
            {'out': {(c,): sum((a_(c, k) * b_(c, k) for k in range(nv)), ZERO)}})
    for n in (4, 12):
        e, d, i = V('e'), V('dmp'), V('in')
        reg('d_SDResidual_%d' % n, 'complex', {k: [NC, n] for k in ('e', 'dmp', 'in', 'out')},
            {'out': {(c, k): out(c, k) + e(c, k) + d(c, k) - S('ww') * i(c, k) for k in range(n)}})
    for n in (2, 6, 12):
        st, ma = V('st'), V('ma')
        reg('d_RayDamp_%d' % n, 'complex', {k: [NC, n] for k in ('st', 'ma', 'out')},
            {'out': {(c, k): mc * ma(c, k) + sc * st(c, k) for k in range(n)}})

    # ---------------- kinematics
    for D in (1, 2, 3):
        N, nv = D + 1, len(VOIGT[D])
        n = D + 1
        reg('d_EMKin_%d' % D, 'kin', {'strain': [NC, nv], 'ef': [NC, D], 'u': [NC, n * N], 'g': [NC, N, D]},
            {'strain': strain_of(D, n), 'ef': {k: -v for k, v in sgrad(D, n, D).items()}}, out_only=True)
        reg('d_TMKin_%d' % D, 'kin', {'strain': [NC, nv], 'tg': [NC, D], 'u': [NC, n * N], 'g': [NC, N, D]},
            {'strain': strain_of(D, n), 'tg': sgrad(D, n, D)}, out_only=True)
        reg('d_StabKin_%d' % D, 'kin', {'strain': [NC, nv], 'pg': [NC, D], 'u': [NC, n * N], 'g': [NC, N, D]},
            {'strain': strain_of(D, n), 'pg': sgrad(D, n, D)}, out_only=True)
        n = D + 2
        reg('d_StabTMKin_%d' % D, 'kin', {'strain': [NC, nv], 'pg': [NC, D], 'tg': [NC, D], 'u': [NC, n * N], 'g': [NC, N, D]},
            {'strain': strain_of(D, n), 'pg': sgrad(D, n, D), 'tg': sgrad(D, n, D + 1)}, out_only=True)
        p, g = V('p'), V('g')
        reg('d_PressGrad_%d' % D, 'kin', {'out': [NC, D], 'p': [NC, N], 'g': [NC, N, D]},
            {'out': {(c, j): S('sc') * sum((p(c, a) * g(c, a, j) for a in range(N)), ZERO) for j in range(D)}})
    for (D, n, o) in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (3, 5, 4)) + WIDE:
        reg('d_InterpGrad_%d_%d_%d' % (D, n, o), 'kin', {'g': [NC, D + 1, D], 'u': [NC, n * (D + 1)], 'out': [NC, D]}, {'out': sgrad(D, n, o)})
    # ---------------- residual assembly: adjoint of the kinematics, accumulated
    vol, g, f, s, p, N_ = V('vol'), V('g'), V('f'), V('s'), V('p'), V('N')
    scl = S('sc')
    for (D, n, o) in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (2, 3, 2), (3, 4, 3)) + WIDE:
        w = {(c, a * n + o): out(c, a * n + o) + scl * vol(c) * sum((f(c, j) * g(c, a, j) for j in range(D)), ZERO) for a in range(D + 1)}
        reg('d_FluxDiv_%d_%d_%d' % (D, n, o), 'div', {'out': [NC, n * (D + 1)], 'f': [NC, D], 'g': [NC, D + 1, D], 'vol': [NC]}, {'out': w})
    for (D, n, o) in ((1, 1, 0), (2, 2, 0), (3, 3, 0), (2, 4, 0), (3, 4, 0), (3, 5, 1)) + WIDE:
        w = {}
        for a in range(D + 1):
            for i in range(D):
                k = a * n + o + i
                w[(c, k)] = out(c, k) + scl * vol(c) * sum((s(c, vidx(D, i, j)) * g(c, a, j) for j in range(D)), ZERO)
        reg('d_StressDiv_%d_%d_%d' % (D, n, o), 'div', {'out': [NC, n * (D + 1)], 's': [NC, len(VOIGT[D])], 'g': [NC, D + 1, D], 'vol': [NC]}, {'out': w})
    for (D, n, o) in ((1, 1, 0), (2, 2, 0), (3, 3, 0), (2, 3, 0), (3, 5, 0), (3, 5, 1)) + WIDE:
        w = {}
        for a in range(D + 1):
            for i in range(D):
                k = a * n + o + i
                w[(c, k)] = out(c, k) + scl * vol(c) * p(c) * g(c, a, i)
        reg('d_PressDiv_%d_%d_%d' % (D, n, o), 'div', {'out': [NC, n * (D + 1)], 'p': [NC], 'g': [NC, D + 1, D], 'vol': [NC]}, {'out': w})
    # ---------------- interpolation and projection
    for (D, n, o) in ((1, 1, 0), (2, 2, 0), (3, 3, 0), (2, 3, 0), (3, 5, 1)) + WIDE:
        w = {}
        m = D
        for a in range(D + 1):
            for i in range(m):
                k = a * n + o + i
                w[(c, k)] = out(c, k) + scl * vol(c) * N_(a) * s(c, i)
        reg('d_ProjNode2_%d_%d_%d' % (D, n, o), 'interp', {'vol': [NC], 'N': [D + 1], 's': [NC, m], 'out': [NC, n * (D + 1)]}, {'out': w})
    for (D, n, o) in ((1, 1, 0), (2, 3, 2), (3, 4, 3), (3, 5, 3)) + WIDE:
        w = {(c, a * n + o): out(c, a * n + o) + scl * vol(c) * N_(a) * s(c) for a in range(D + 1)}
        reg('d_ProjNode1_%d_%d_%d' % (D, n, o), 'interp', {'vol': [NC], 'N': [D + 1], 's': [NC], 'out': [NC, n * (D + 1)]}, {'out': w})
    u = V('u')
    for (D, n, o) in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (2, 3, 2), (3, 5, 3)) + WIDE:
        reg('d_Interp1_%d_%d_%d' % (D, n, o), 'interp', {'N': [D + 1], 'u': [NC, n * (D + 1)], 'out': [NC]},
            {'out': {(c,): sum((N_(a) * u(c, a * n + o) for a in range(D + 1)), ZERO)}})
    for (D, n, o, m) in ((1, 1, 0, 1), (2, 2, 0, 2), (3, 3, 0, 3), (2, 4, 0, 2), (3, 5, 1, 3)) + ((1, 9, 6, 1), (2, 9, 6, 2), (3, 9, 6, 3), (3, 7, 0, 7), (1, 9, 5, 4), (2, 9, 2, 7)):
        reg('d_Interp2_%d_%d_%d_%d' % (D, n, o, m), 'interp', {'N': [D + 1], 'u': [NC, n * (D + 1)], 'out': [NC, m]},
            {'out': {(c, i): sum((N_(a) * u(c, a * n + o + i) for a in range(D + 1)), ZERO) for i in range(m)}})
    for nn, nd in ((2, 1), (4, 6), (3, 9), (11, 2)):
        reg('d_Inertial' + ('' if nn == 4 else '@%d' % nn), 'interp', {'vol': [NC], 'N': [nn], 's': [NC, nd], 'out': [NC, nn * nd]},
            {'out': {(c, a * nd + i): S('rho') * vol(c) * N_(a) * s(c, i) for a in range(nn) for i in range(nd)}})
        reg('d_StateValues' + ('' if nn == 4 else '@%d' % nn), 'interp', {'N': [nn], 'u': [NC, nn * nd], 'out': [NC, nd]},
            {'out': {(c, i): sum((N_(a) * u(c, a * nd + i) for a in range(nn)), ZERO) for i in range(nd)}})
    z = V('z')
    for n in (2, 3, 4):
        reg('d_cell_mass_%d' % n, 'interp', {'N': [n], 'z': [NC, n]}, ret=sum((N_(a) for a in range(n)), ZERO) * sum((N_(a) * z(c, a) for a in range(n)), ZERO))
        reg('d_cell_density_%d' % n, 'interp', {'z': [NC, n]}, ret=sum((z(c, a) for a in range(n)), ZERO) / n)
    # ---------------- tensors and constitutive relations
    G, K = S('G'), S('K')
    e = V('e')
    NORM = {1: [0], 2: [0, 1, 3], 3: [0, 1, 2]}   # normal components; plane strain keeps zz in slot 3
    SHEAR = {1: [], 2: [2], 3: [3, 4, 5]}
    LEN = {1: 1, 2: 4, 3: 6}
    for D in (1, 2, 3):
        L = LEN[D]
        tr = sum((e(c, k) for k in NORM[D]), ZERO)
        dev = {(c, k): e(c, k) - tr / 3 for k in NORM[D]}
        dev.update({(c, k): e(c, k) for k in SHEAR[D]})
        reg('d_DevStrain_%d' % D, 'tensor', {'e': [NC, L], 'out': [NC, L]}, {'out': dev})
        ds = {(c, k): 2 * G * (e(c, k) - tr / 3) for k in NORM[D]}
        ds.update({(c, k): G * e(c, k) for k in SHEAR[D]})
        reg('d_DevStress_%d' % D, 'tensor', {'e': [NC, L], 'out': [NC, L]}, {'out': ds})
        cs = {k: (v + K * tr if k[1] in NORM[D] else v) for k, v in ds.items()}
        known = {}
        if D == 1:
            known = {(c, 0): ('CauchyStress-1D', ds[(c, 0)] + K * tr / 3)}
        if D == 3:
            bt = e(c, 0) + e(c, 1) + e(c, 3)
            known = {(c, k): ('CauchyStress-3D', 2 * G * (e(c, k) - bt / 3) + K * bt) for k in NORM[D]}
        reg('d_CauchyStress_%d' % D, 'tensor', {'e': [NC, L], 'out': [NC, L]}, {'out': cs}, known={'out': known})
        s_ = V('s')
        reg('d_ElasticWork_%d' % D, 'tensor', {'e': [NC, L], 's': [NC, L], 'out': [NC]},
            {'out': {(c,): G * (sum((s_(c, k) ** 2 for k in NORM[D]), ZERO) + 2 * sum((s_(c, k) ** 2 for k in SHEAR[D]), ZERO)) + K * tr ** 2 / 2}})
        reg('d_StrainDiv_%d' % D, 'tensor', {'e': [NC, len(VOIGT[D])], 'out': [NC]}, {'out': {(c,): sum((e(c, k) for k in range(D)), ZERO)}})
        gp, pg, vv = V('gp'), V('pg'), V('vol')
        tau = fn('pow', vv(c), num(Fr(2, 3))) / (2 * G)
        reg('d_Stabilize_%d' % D, 'tensor', {'vol': [NC], 'gp': [NC, D], 'pg': [NC, D], 'out': [NC, D]},
            {'out': {(c, k): S('sc') * tau * (S('sc') * gp(c, k) - pg(c, k)) for k in range(D)}})
    a_, b_ = V('a'), V('b')
    for D in (1, 2, 3):
        L = LEN[D]
        reg('d_DDot_%d' % D, 'tensor', {'a': [NC, L], 'b': [NC, L], 'out': [NC]},
            {'out': {(c,): sum((a_(c, k) * b_(c, k) for k in NORM[D]), ZERO) + 2 * sum((a_(c, k) * b_(c, k) for k in SHEAR[D]), ZERO)}})
    s = V('s')
    vm3 = ((s(c, 0) - s(c, 1)) ** 2 + (s(c, 1) - s(c, 2)) ** 2 + (s(c, 2) - s(c, 0)) ** 2) / 2 + 3 * (s(c, 3) ** 2 + s(c, 4) ** 2 + s(c, 5) ** 2)
    reg('d_VonMises_3', 'tensor', {'s': [NC, 6], 'out': [NC]}, {'out': {(c,): fn('sqrt', vm3)}})
    reg('d_VonMises_2', 'tensor', {'s': [NC, 3], 'out': [NC]}, {'out': {(c,): fn('sqrt', s(c, 0) ** 2 - s(c, 0) * s(c, 1) + s(c, 1) ** 2 + 3 * s(c, 2) ** 2)}})
    reg('d_VonMises_1', 'tensor', {'s': [NC, 1], 'out': [NC]}, {'out': {(c,): s(c, 0)}})
    for D in (1, 2, 3):
        lam, mu = S('lam'), S('mu')
        pos = lambda x: ite(cmp(x, '>='), x, ZERO)
        tr = sum((e(c, k) for k in range(D)), ZERO)
        reg('d_Tensile_%d' % D, 'tensor', {'e': [NC, D], 'out': [NC]},
            {'out': {(c,): ite(cmp(tr, '>='), lam * tr ** 2 / 2, ZERO) + mu * sum((ite(cmp(e(c, k), '>='), e(c, k) ** 2, ZERO) for k in range(D)), ZERO)}})
        reg('d_VecPNorm_%d' % D, 'norm', {'out': [NC], 'a': [NC, D], 'vol': [NC]},
            {'out': {(c,): V('vol')(c) * fn('pow', sum((a_(c, k) ** 2 for k in range(D)), ZERO), S('p') / 2)}})
    for L in (1, 3, 6):
        reg('d_TensPNorm_%d' % L, 'norm', {'out': [NC], 'a': [NC, L], 'vol': [NC]},
            {'out': {(c,): V('vol')(c) * fn('pow', sum((a_(c, k) ** 2 for k in range(L)), ZERO), sym('p', True) / 2)}})
    # ---------------- J2 plasticity; history layout: 0 accumulated plastic strain, 1 multiplier increment, then plastic strain, back stress
    q, prev, nrm = V('q'), V('prev'), V('nrm')
    r32 = fn('sqrt', num(Fr(3, 2)))
    H = S('H')
    for D in (2, 3):
        L = 4 if D == 2 else 6
        sh = [2] if D == 2 else [3, 4, 5]
        ps, bs = 2, 2 + L
        tot = 2 + 2 * L
        two = lambda k: 2 if k in sh else 1
        # the update: eps_p = eps_p_old + dgamma n (engineering shear: twice), beta = beta_old + 2/3 H dgamma n
        dg = r32 * out(c, 1)
        w = {(c, ps + k): prev(c, ps + k) + two(k) * dg * nrm(c, k) for k in range(L)}
        w.update({(c, bs + k): prev(c, bs + k) + num(Fr(2, 3)) * H * dg * nrm(c, k) for k in range(L)})
        reg('d_J2_updP_%d' % D, 'j2', {'prev': [NC, tot], 'nrm': [NC, L], 'out': [NC, tot]}, {'out': w})
        reg('d_J2_updE_%d' % D, 'j2', {'prev': [NC, tot], 'out': [NC, tot]}, {'out': {(c, ps + k): prev(c, ps + k) for k in range(2 * L)}})
        eta = [s(c, k) - q(c, bs + k) for k in range(L)]
        nn = fn('sqrt', sum((two(k) * eta[k] ** 2 for k in range(L)), ZERO))
        reg('d_J2_norm_%d' % D, 'j2', {'s': [NC, L], 'q': [NC, tot], 'out': [NC, L], 'nrm': [NC]},
            {'out': {(c, k): eta[k] / nn for k in range(L)}, 'nrm': {(c,): nn}})
        reg('d_J2_misfit_%d' % D, 'j2', {'a': [NC, tot], 'b': [NC, tot], 'out': [NC, L]}, {'out': {(c, k): a_(c, ps + k) - b_(c, ps + k) for k in range(L)}})
        dg = r32 * q(c, 1)
        reg('d_J2_resPsP_%d' % D, 'j2', {'q': [NC, tot], 'prev': [NC, tot], 'nrm': [NC, L], 'out': [NC, tot]},
            {'out': {(c, ps + k): q(c, ps + k) - prev(c, ps + k) - two(k) * dg * nrm(c, k) for k in range(L)}})
        reg('d_J2_resBsP_%d' % D, 'j2', {'q': [NC, tot], 'prev': [NC, tot], 'nrm': [NC, L], 'out': [NC, tot]},
            {'out': {(c, bs + k): q(c, bs + k) - prev(c, bs + k) - num(Fr(2, 3)) * H * dg * nrm(c, k) for k in range(L)}})
        reg('d_J2_resPsE_%d' % D, 'j2', {'q': [NC, tot], 'prev': [NC, tot], 'out': [NC, tot]},
            {'out': {(c, ps + k): q(c, ps + k) - prev(c, ps + k) for k in range(L)}})
        reg('d_J2_resBsE_%d' % D, 'j2', {'q': [NC, tot], 'prev': [NC, tot], 'out': [NC, tot]},
            {'out': {(c, bs + k): q(c, bs + k) - prev(c, bs + k) for k in range(L)}})
        reg('d_J2_getA_%d' % D, 'j2', {'q': [NC, tot], 'out': [NC]}, {'out': {(c,): q(c, 0)}})
        reg('d_J2_getM_%d' % D, 'j2', {'q': [NC, tot], 'out': [NC]}, {'out': {(c,): q(c, 1)}})
        reg('d_J2_getP_%d' % D, 'j2', {'q': [NC, tot], 'out': [NC, L]}, {'out': {(c, k): q(c, ps + k) for k in range(L)}})
        reg('d_J2_getB_%d' % D, 'j2', {'q': [NC, tot], 'out': [NC, L]}, {'out': {(c, k): q(c, bs + k) for k in range(L)}})
        # elastic strain: total - plastic (plane strain: zz = -plastic zz), minus thermal expansion of the normal components
        tl = L
        N = D + 1
        base = {(c, k): (e(c, k) if k < tl else ZERO) - q(c, ps + k) for k in range(L)}
        nd = D + 1 if False else None
        for tag, n in (('P', None), ('T', None)):
            dofs = {'P': D + 1, 'T': D + 2}[tag]
            w = dict(base)
            if tag == 'T':
                T = sum((N_(a) * u(c, a * dofs + TEMP[D]) for a in range(N)), ZERO)
                th = S('al') * (S('ts') * T - S('T0'))
                for k in ([0, 1, 3] if D == 2 else [0, 1, 2]):
                    w[(c, k)] = w[(c, k)] - th
            reg('d_ElStrain%s_%d' % (tag, D), 'j2', {'u': [NC, dofs * N], 'q': [NC, tot], 'N': [N], 'g': [NC, N, D], 'e': [NC, tl], 'out': [NC, L]}, {'out': w})


TEMP = {2: 2, 3: 3}
build()


def variant(name, base, **sub):
    """the same operation with some arguments fixed"""
    b = SPEC[base]

    def f(e):
        for k, v in sub.items():
            e = subst_atom(e, as_atom(S(k)), E(v))
        return e
    reg(name, b['group'], b['ext'], {v: {i: f(e) for i, e in cells.items()} for v, cells in b['out'].items()})


for nm, base in (('FluxDiv0_2_3_2', 'FluxDiv_2_3_2'), ('StressDiv0_2_2_0', 'StressDiv_2_2_0'), ('PressDiv0_2_3_0', 'PressDiv_2_3_0'),
                 ('PressGrad0_2', 'PressGrad_2'), ('ProjNode20_2_3_0', 'ProjNode2_2_3_0'), ('ProjNode10_2_3_2', 'ProjNode1_2_3_2')):
    variant('d_' + nm, 'd_' + base, sc=1)
_mc = ite(boolsym('has:pl/Rayleigh Mass Damping'), S('pl/Rayleigh Mass Damping'), ZERO)
_sc = ite(boolsym('has:pl/Rayleigh Stiffness Damping'), S('pl/Rayleigh Stiffness Damping'), ZERO)
for nm in ('AdjDamp%s_2', 'CplxDamp%s_2', 'RayDamp%s_6'):
    variant('d_' + nm % '0', 'd_' + nm % '', mc=Fr(25, 1000), sc=Fr(23, 1000))
    variant('d_' + nm % 'PL', 'd_' + nm % '', mc=_mc, sc=_sc)
variant('d_ElStrainT0_2', 'd_ElStrainT_2', al=0, T0=0, ts=1)
