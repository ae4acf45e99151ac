"""Oracles of the material models: coefficient functions, deck keys, isotropic stiffness, moduli, thermal kernels."""
from symb import *
from spec_cell import V, S, NC, c as C0
T = S('T')


def pre(has=(), absent=(), lists=(), nolists=(), true=(), false=()):
    def f(x, A):
        cs = [boolsym('has:pl/' + k) for k in has] + [cnot(boolsym('has:pl/' + k)) for k in absent]
        cs += [boolsym('sublist:pl/' + k) for k in lists] + [cnot(boolsym('sublist:pl/' + k)) for k in nolists]
        for k in lists:
            cs.append(cnot(boolsym('has:pl/' + k)))
        for k in true:
            cs += [boolsym('has:pl/' + k), boolsym('pl/' + k)]
        for k in false:
            cs += [boolsym('has:pl/' + k), cnot(boolsym('pl/' + k))]
        x.st.pc = x.st.pc + tuple(cs)
    return f


def key(base, k, default=None):
    v = S('%s/%s' % (base, k))
    return v if default is None else ite(boolsym('has:%s/%s' % (base, k)), v, default)


def poly(f):
    return f(0) + f(1) * T + f(2) * T * T


def tensor_coef(base, D, pref=''):
    """deck keys -> symmetric DxD matrix; pref is the power of the temperature ('' for constants)"""
    c11 = key(base, 'c%s11' % pref) if pref in ('', '0') else key(base, 'c%s11' % pref, ZERO)
    M = [[None] * D for _ in range(D)]
    for i in range(D):
        M[i][i] = c11 if i == 0 else key(base, 'c%s%d%d' % (pref, i + 1, i + 1), c11)
        for j in range(i + 1, D):
            M[i][j] = M[j][i] = key(base, 'c%s%d%d' % (pref, i + 1, j + 1), ZERO)
    return M


def r4_coef(base, D, pref=''):
    n = {1: 1, 2: 3, 3: 6}[D]
    req = pref in ('', '0')
    M = [[ZERO] * n for _ in range(n)]
    k = lambda a, b, d: key(base, 'c%s%d%d' % (pref, a, b), d)
    c11 = k(1, 1, None if req else ZERO)
    for i in range(D):
        M[i][i] = c11 if i == 0 else k(i + 1, i + 1, c11)
    if D > 1:
        c12 = k(1, 2, ZERO)
        M[0][1] = M[1][0] = c12
        sh = k(D + 1, D + 1, None if req else ZERO)
        M[D][D] = sh
        if D == 3:
            M[0][2] = M[2][0] = k(1, 3, c12)
            M[1][2] = M[2][1] = k(2, 3, c12)
            M[4][4], M[5][5] = k(5, 5, sh), k(6, 6, sh)
    return M


def iso(Em, v, D):
    n = {1: 1, 2: 3, 3: 6}[D]
    lam = Em * v / ((1 + v) * (1 - 2 * v))
    mu = Em / (2 * (1 + v))
    M = [[ZERO] * n for _ in range(n)]
    for i in range(D):
        for j in range(D):
            M[i][j] = lam + (2 * mu if i == j else ZERO)
    for i in range(D, n):
        M[i][i] = mu
    return M


def fun(f, base, D):
    Ms = [f(base, D, q) for q in '012']
    n = len(Ms[0])
    return [[Ms[0][i][j] + Ms[1][i][j] * T + Ms[2][i][j] * T * T for j in range(n)] for i in range(n)]


def diag(v, D):
    return [[v if i == j else ZERO for j in range(D)] for i in range(D)]


def out(M):
    return {'out': {(i, j): M[i][j] for i in range(len(M)) for j in range(len(M))}}


def sfun(base):
    return key(base, 'c0') + key(base, 'c1', ZERO) * T + key(base, 'c2', ZERO) * T * T


TD = 'Temperature Dependent'
LIN = (dict(absent=[TD]), dict(false=[TD]))
NON = dict(true=[TD])


def mix(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = list(r.get(k, [])) + list(v)
    return r


def entries():
    """(driver, deck case, outputs, returned value)"""
    yield 'd_sf_pl', dict(has=['c0']), {}, sfun('pl')
    yield 'd_sf_val', {}, {}, S('v')
    yield 'd_sf_zero', {}, {}, ZERO
    YM, PR = 'Youngs Modulus', 'Poissons Ratio'
    for D in (1, 2, 3):
        req = lambda q: ['c%s11' % q] + (['c%s%d%d' % (q, D + 1, D + 1)] if D > 1 else [])
        yield 'd_tf_pl_%d' % D, dict(has=['c011']), out(fun(tensor_coef, 'pl', D)), None
        yield 'd_tf_val_%d' % D, {}, out(diag(S('v'), D)), None
        yield 'd_tf_zero_%d' % D, {}, out(diag(ZERO, D)), None
        yield 'd_tc_pl_%d' % D, dict(has=['c11']), out(tensor_coef('pl', D)), None
        yield 'd_tc_val_%d' % D, {}, out(diag(S('v'), D)), None
        yield 'd_tc_zero_%d' % D, {}, out(diag(ZERO, D)), None
        yield 'd_r4f_pl_%d' % D, dict(has=req('0')), out(fun(r4_coef, 'pl', D)), None
        yield 'd_r4c_pl_%d' % D, dict(has=req('')), out(r4_coef('pl', D)), None
        n = {1: 1, 2: 3, 3: 6}[D]
        yield 'd_r4f_zero_%d' % D, {}, out(diag(ZERO, n)), None
        yield 'd_r4c_zero_%d' % D, {}, out(diag(ZERO, n)), None
        v = S('pl/' + PR)
        ET = sfun('pl/' + YM)
        yield 'd_isof_pl_%d' % D, dict(has=[PR, YM + '/c0'], lists=[YM]), out(iso(ET, v, D)), None
        yield 'd_isoc_pl_%d' % D, dict(has=[PR, YM], nolists=[YM]), out(iso(S('pl/' + YM), v, D)), None
        K = S('pl/K')
        scal, lst = dict(has=['K'], nolists=['K']), dict(lists=['K'])
        for L in LIN:
            yield 'd_mm_scalar_lin_%d' % D, mix(L, scal), {}, K
            yield 'd_mm_tensor_lin_%d' % D, mix(L, scal), out(diag(K, D)), None
            yield 'd_mm_tensor_lin_%d' % D, mix(L, lst, dict(has=['K/c11'])), out(tensor_coef('pl/K', D)), None
            yield 'd_mm_r4_lin_%d' % D, mix(L, lst, dict(has=['K/' + k for k in req('')])), out(r4_coef('pl/K', D)), None
            yield 'd_mm_type_%d' % D, L, {}, False
        yield 'd_mm_type_%d' % D, NON, {}, True
        yield 'd_mm_type0_%d' % D, {}, {}, False
        yield 'd_mm_scalar_fun_%d' % D, mix(NON, scal), {}, K
        yield 'd_mm_scalar_fun_%d' % D, mix(NON, lst, dict(has=['K/c0'])), {}, sfun('pl/K')
        yield 'd_mm_tensor_fun_%d' % D, mix(NON, scal), out(diag(K, D)), None
        yield 'd_mm_tensor_fun_%d' % D, mix(NON, lst, dict(has=['K/c011'])), out(fun(tensor_coef, 'pl/K', D)), None
        yield 'd_mm_r4_fun_%d' % D, mix(NON, lst, dict(has=['K/' + k for k in req('0')])), out(fun(r4_coef, 'pl/K', D)), None
        for m in (NON,) + LIN:
            yield 'd_mm_sc_%d' % D, mix(m, scal), {}, K
            yield 'd_mm_scd_%d' % D, mix(m, scal), {}, K
            yield 'd_mm_scd_%d' % D, mix(m, dict(absent=['K'], nolists=['K'])), {}, S('d')
        yield 'd_mm_two_%d' % D, {}, {}, S('a')
        yield 'd_mm_over_%d' % D, {}, {}, S('b')
        yield 'd_mm_fun2_%d' % D, {}, {}, S('a')
        # thermoelastic model
        ES, TE, TC = 'Elastic Stiffness', 'Thermal Expansivity', 'Thermal Conductivity'
        rest = dict(has=[TE, TC], nolists=[TE, TC])
        e = 'pl/' + ES
        isoL = dict(lists=[ES], has=[ES + '/' + YM, ES + '/' + PR], nolists=[ES + '/' + YM])
        isoN = dict(lists=[ES, ES + '/' + YM], has=[ES + '/' + YM + '/c0', ES + '/' + PR])
        gen = lambda q: dict(lists=[ES], absent=[ES + '/' + YM], nolists=[ES + '/' + YM, ES + '/' + ES], has=[ES + '/' + k for k in req(q)])
        vv = S('%s/%s' % (e, PR))
        for L in LIN:
            yield 'd_te_stiff_lin_%d' % D, mix(L, isoL, rest), out(iso(S('%s/%s' % (e, YM)), vv, D)), None
            yield 'd_te_stiff_lin_%d' % D, mix(L, gen(''), rest), out(r4_coef(e, D)), None
            yield 'd_te_expan_lin_%d' % D, mix(L, isoL, rest), out(diag(S('pl/' + TE), D)), None
            yield 'd_te_cond_lin_%d' % D, mix(L, isoL, rest), out(diag(S('pl/' + TC), D)), None
            t2 = dict(lists=[TE, TC], has=[TE + '/c11', TC + '/c11'])
            yield 'd_te_expan_lin_%d' % D, mix(L, isoL, t2), out(tensor_coef('pl/' + TE, D)), None
            yield 'd_te_cond_lin_%d' % D, mix(L, isoL, t2), out(tensor_coef('pl/' + TC, D)), None
        yield 'd_te_stiff_fun_%d' % D, mix(NON, isoN, rest), out(iso(sfun('%s/%s' % (e, YM)), vv, D)), None
        yield 'd_te_stiff_fun_%d' % D, mix(NON, isoL, rest), out(iso(S('%s/%s' % (e, YM)), vv, D)), None
        yield 'd_te_stiff_fun_%d' % D, mix(NON, gen('0'), rest), out(fun(r4_coef, e, D)), None
        yield 'd_te_expan_fun_%d' % D, mix(NON, isoN, rest), out(diag(S('pl/' + TE), D)), None
        yield 'd_te_cond_fun_%d' % D, mix(NON, isoN, rest), out(diag(S('pl/' + TC), D)), None
        t2 = dict(lists=[TE, TC], has=[TE + '/c011', TC + '/c011'])
        yield 'd_te_expan_fun_%d' % D, mix(NON, isoN, t2), out(fun(tensor_coef, 'pl/' + TE, D)), None
        yield 'd_te_cond_fun_%d' % D, mix(NON, isoN, t2), out(fun(tensor_coef, 'pl/' + TC, D)), None
        for m, i in [(L, isoL) for L in LIN] + [(NON, isoN)]:
            for nm, k, d in (('tref', 'Reference Temperature', 23), ('tscale', 'Temperature Scaling', 1)):
                yield 'd_te_%s_%d' % (nm, D), mix(m, i, rest, dict(has=[k])), {}, S('pl/' + k)
                yield 'd_te_%s_%d' % (nm, D), mix(m, i, rest, dict(absent=[k])), {}, num(d)
        # thermal kernels fed through the factories
        base = 'Material Models/M/Thermal Conduction'
        ok = dict(lists=['Material Models', 'Material Models/M', base])
        gr, te, ra = V('gr'), V('te'), V('ra')
        kk = base + '/' + TC
        cb = 'pl/' + base
        for L in (dict(absent=[base + '/' + TD]), dict(false=[base + '/' + TD])):
            for case, M in ((dict(has=[kk], nolists=[kk]), diag(S('pl/' + kk), D)), (dict(lists=[kk], has=[kk + '/c11']), tensor_coef('pl/' + kk, D))):
                w = {'fl': {(C0, i): -sum((M[i][j] * gr(C0, j) for j in range(D)), ZERO) for i in range(D)}}
                yield 'd_flux_%d' % D, mix(ok, L, case), w, None
                yield 'd_fluxc_%d' % D, mix(ok, L, case), w, None
        N = dict(true=[base + '/' + TD])
        for case, M in ((dict(has=[kk], nolists=[kk]), diag(S('pl/' + kk), D)), (dict(lists=[kk], has=[kk + '/c011']), fun(tensor_coef, 'pl/' + kk, D))):
            at = lambda x: subst_atom(x, as_atom(T), te(C0))
            w = {'fl': {(C0, i): -sum((at(M[i][j]) * gr(C0, j) for j in range(D)), ZERO) for i in range(D)}}
            yield 'd_flux_%d' % D, mix(ok, N, case), w, None
        base = 'Material Models/M/Thermal Mass'
        ok = dict(lists=['Material Models', 'Material Models/M', base])
        ro, ch = base + '/Mass Density', base + '/Specific Heat'
        both = dict(has=[ro, ch], nolists=[ro, ch])
        lin = ra(C0) * S('pl/' + ro) * S('pl/' + ch)
        for L in (dict(absent=[base + '/' + TD]), dict(false=[base + '/' + TD])):
            yield 'd_content_%d' % D, mix(ok, L, both), {'co': {(C0,): lin}}, None
            yield 'd_contentc_%d' % D, mix(ok, L, both), {'co': {(C0,): lin}}, None
        N = dict(true=[base + '/' + TD])
        yield 'd_content_%d' % D, mix(ok, N, both), {'co': {(C0,): lin}}, None
        f = lambda k: subst_atom(sfun('pl/' + k), as_atom(T), te(C0))
        yield 'd_content_%d' % D, mix(ok, N, dict(lists=[ro, ch], has=[ro + '/c0', ch + '/c0'])), {'co': {(C0,): ra(C0) * f(ro) * f(ch)}}, None
        yield 'd_content_%d' % D, mix(ok, N, dict(lists=[ro], has=[ro + '/c0', ch], nolists=[ch])), {'co': {(C0,): ra(C0) * f(ro) * S('pl/' + ch)}}, None
        base = 'Material Models/M/Thermoelastic'
        pfx = lambda d: {k: [base + '/' + x for x in v] for k, v in d.items()}
        yield 'd_tefac_%d' % D, mix(dict(lists=['Material Models', 'Material Models/M', base]), pfx(mix(LIN[0], isoL, rest, dict(has=['Reference Temperature'])))), {}, S('pl/' + base + '/Reference Temperature')
    e, v = S('e'), S('v')
    yield 'd_shear', {}, {}, e / (2 * (1 + v))
    yield 'd_bulk', {}, {}, e / (3 * (1 - 2 * v))
    b = 'Material Model/Isotropic Linear Elastic'
    ok = dict(lists=['Material Model', b], has=[b + '/' + YM, b + '/' + PR])
    e, v = S('pl/%s/%s' % (b, YM)), S('pl/%s/%s' % (b, PR))
    yield 'd_shear_pl', ok, {}, e / (2 * (1 + v))
    yield 'd_bulk_pl', ok, {}, e / (3 * (1 - 2 * v))
    yield 'd_pem', dict(has=[YM]), {}, S('pl/' + YM)
    yield 'd_ppr', dict(has=[PR]), {}, S('pl/' + PR)
    yield 'd_getparam', dict(has=['K']), {}, S('pl/K')
    yield 'd_getparam_d', dict(has=['K']), {}, S('pl/K')
    yield 'd_getparam_d', dict(absent=['K']), {}, S('d')
    yield 'd_getsub', dict(lists=['L'], has=['L/K']), {}, S('pl/L/K')
    yield 'd_getsub', dict(lists=['L'], absent=['L/K']), {}, S('d')
    yield 'd_getsub', dict(nolists=['L']), {}, S('d')


def refusals():
    """(driver, deck case, what is wrong)"""
    YM, PR = 'Youngs Modulus', 'Poissons Ratio'
    yield 'd_sf_pl', dict(absent=['c0']), 'c0 absent'
    yield 'd_getparam', dict(absent=['K']), 'required parameter absent'
    yield 'd_pem', dict(absent=[YM]), 'Youngs Modulus absent'
    yield 'd_ppr', dict(absent=[PR]), 'Poissons Ratio absent'
    b = 'Material Model/Isotropic Linear Elastic'
    for d in ('d_shear_pl', 'd_bulk_pl'):
        yield d, dict(lists=['Material Model', b], has=[b + '/' + PR], absent=[b + '/' + YM]), 'Youngs Modulus absent'
        yield d, dict(lists=['Material Model', b], has=[b + '/' + YM], absent=[b + '/' + PR]), 'Poissons Ratio absent'
        yield d, dict(lists=['Material Model'], nolists=[b], absent=[b]), 'elastic model absent'
        yield d, dict(nolists=['Material Model'], absent=['Material Model']), 'material model absent'
    for D in (1, 2, 3):
        sh = '%d%d' % (D + 1, D + 1)
        yield 'd_tf_pl_%d' % D, dict(absent=['c011']), 'c011 absent'
        yield 'd_tc_pl_%d' % D, dict(absent=['c11']), 'c11 absent'
        yield 'd_r4f_pl_%d' % D, dict(absent=['c011']), 'c011 absent'
        yield 'd_r4c_pl_%d' % D, dict(absent=['c11']), 'c11 absent'
        if D > 1:
            yield 'd_r4f_pl_%d' % D, dict(has=['c011'], absent=['c0' + sh]), 'shear entry absent'
            yield 'd_r4c_pl_%d' % D, dict(has=['c11'], absent=['c' + sh]), 'shear entry absent'
        yield 'd_isof_pl_%d' % D, dict(lists=[YM], has=[YM + '/c0'], absent=[PR]), 'Poissons Ratio absent'
        yield 'd_isof_pl_%d' % D, dict(lists=[YM], has=[PR], absent=[YM + '/c0']), 'constant coefficient absent'
        yield 'd_isoc_pl_%d' % D, dict(has=[PR], absent=[YM], nolists=[YM]), 'Youngs Modulus absent'
        yield 'd_isoc_pl_%d' % D, dict(has=[YM], nolists=[YM], absent=[PR]), 'Poissons Ratio absent'
        none = dict(absent=['K'], nolists=['K'])
        for m in LIN + (NON,):
            for d in ('d_mm_scalar_lin', 'd_mm_tensor_lin', 'd_mm_r4_lin', 'd_mm_sc'):
                yield '%s_%d' % (d, D), mix(m, none), 'quantity absent'
        for m in LIN:
            yield 'd_mm_scalar_lin_%d' % D, mix(m, dict(lists=['K'], has=['K/c0'])), 'temperature dependent coefficient in a linear model'
        yield 'd_mm_scalar_fun_%d' % D, mix(NON, dict(lists=['K'], absent=['K/c0'])), 'constant coefficient absent'
        ES, TE, TC = 'Elastic Stiffness', 'Thermal Expansivity', 'Thermal Conductivity'
        rest = dict(has=[TE, TC], nolists=[TE, TC])
        isoL = dict(lists=[ES], has=[ES + '/' + YM, ES + '/' + PR], nolists=[ES + '/' + YM])
        d = 'd_te_stiff_lin_%d' % D
        yield d, mix(LIN[0], rest, dict(absent=[ES], nolists=[ES])), 'elastic stiffness absent'
        yield d, mix(LIN[0], isoL, dict(has=[TC], nolists=[TC, TE], absent=[TE])), 'thermal expansivity absent'
        yield d, mix(LIN[0], isoL, dict(has=[TE], nolists=[TC, TE], absent=[TC])), 'thermal conductivity absent'
        for L in LIN:
            yield d, mix(L, rest, dict(lists=[ES, ES + '/' + YM], has=[ES + '/' + YM + '/c0', ES + '/' + PR])), 'temperature dependent stiffness in a linear model'
        for f, sub in (('c', 'Thermal Conduction'), ('m', 'Thermal Mass'), ('t', 'Thermoelastic')):
            yield 'd_nofac_%s_%d' % (f, D), dict(lists=['Material Models'], nolists=['Material Models/M'], absent=['Material Models/M']), 'unknown material model'
            yield 'd_nofac_%s_%d' % (f, D), dict(lists=['Material Models', 'Material Models/M'], nolists=['Material Models/M/' + sub], absent=['Material Models/M/' + sub]), 'no %s section' % sub
