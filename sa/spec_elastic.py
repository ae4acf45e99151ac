"""Elastic materials: stiffness against compliance, defaults, refusals."""
from core import *
from spec_expr import knows

V = {1: 1, 2: 3, 3: 6}
Y = lambda n: symb.sym(n)
ORT = {1: ('Youngs Modulus', 'Poissons Ratio'),
       2: ('Youngs Modulus X', 'Youngs Modulus Y', 'Shear Modulus XY', 'Poissons Ratio XY'),
       3: ('Youngs Modulus X', 'Youngs Modulus Y', 'Youngs Modulus Z', 'Shear Modulus XY', 'Shear Modulus XZ', 'Shear Modulus YZ', 'Poissons Ratio XY', 'Poissons Ratio XZ', 'Poissons Ratio YZ')}
OPT = ('Mass Density', 'Pressure Scaling', 'RayleighA', 'RayleighB', 'e11', 'e22', 'e33', 'e23', 'e13', 'e12')
REF = {1: ['e11'], 2: ['e11', 'e22', 'e12'], 3: ['e11', 'e22', 'e33', 'e23', 'e13', 'e12']}


def iso(E_, n, D):
    k = E_ / ((1 + n) * (1 - 2 * n))
    N = V[D]
    return [[k * (1 - n) if i == j and i < D else (k * n if i < D and j < D else (k * (1 - 2 * n) / 2 if i == j else num(0))) for j in range(N)] for i in range(N)]


def cubic(D):
    N = V[D]
    return [[Y('C11') if i == j and i < D else (Y('C12') if i < D and j < D else (Y('C44') if i == j else num(0))) for j in range(N)] for i in range(N)]


def compliance(D):
    ax = 'XYZ'[:D]
    ym = lambda a: Y('Youngs Modulus ' + a)
    s = [[1 / ym(a) if a == b else -Y('Poissons Ratio ' + min(a, b) + max(a, b)) / ym(min(a, b)) for b in ax] for a in ax]
    return s


def materials(ctx):
    def deck(names, opt=()):
        d = {'pl/' + n: Y(n) for n in tuple(names) + tuple(opt)}
        no = [n for n in OPT if n not in opt]
        return {'cfg': {'nobounds': True, 'deck': d}, 'pre': knows(*['has:pl/' + n for n in tuple(names) + tuple(opt)], no=['has:pl/' + n for n in no])}

    def val(nm, oid, want, args, kw):
        cs = ctx.call(nm, args={k: num(v) for k, v in args.items()}, **kw)
        if cs is None:
            return None
        if cs.threw:
            ctx.add(oid, False, 'refuses a complete deck', cs.where())
            return None
        if want is not None:
            ctx.eq(oid, cs.ret, want, cs.where())
        return cs

    for D in (1, 2, 3):
        N = V[D]
        need = {'iso': ('Youngs Modulus', 'Poissons Ratio'), 'cub': ('C11', 'C12', 'C44')[:1 if D == 1 else 3], 'ort': ORT[D]}
        c1, cc = iso(Y('Youngs Modulus'), Y('Poissons Ratio'), D), cubic(D)
        for i in range(N):
            for j in range(N):
                val('d_iso_%d' % D, 'isotropic %dD (%d,%d)' % (D, i, j), c1[i][j], {'i': i, 'j': j}, deck(need['iso']))
                val('d_isov_%d' % D, 'isotropic %dD from values (%d,%d)' % (D, i, j), iso(Y('e'), Y('n'), D)[i][j], {'i': i, 'j': j}, {'cfg': {'nobounds': True}})
                val('d_cub_%d' % D, 'cubic %dD (%d,%d)' % (D, i, j), cc[i][j], {'i': i, 'j': j}, deck(need['cub']))
        # orthotropic: the normal block is the inverse of the compliance
        if D == 1:
            val('d_ort_1', 'orthotropic 1D', c1[0][0], {'i': 0, 'j': 0}, deck(need['ort']))
        else:
            s = compliance(D)
            inv = inverse(s)
            sh = {2: ['XY'], 3: ['YZ', 'XZ', 'XY']}[D]
            for i in range(N):
                for j in range(N):
                    w = inv[i][j] if i < D and j < D else (Y('Shear Modulus ' + sh[i - D]) if i == j else num(0))
                    val('d_ort_%d' % D, 'orthotropic %dD (%d,%d)' % (D, i, j), w, {'i': i, 'j': j}, deck(need['ort']))
        for m in ('iso', 'cub', 'ort'):
            # reference strains, given or not
            for i, n in enumerate(REF[D]):
                val('d_%sr_%d' % (m, D), '%s %dD reference strain %s given' % (m, D, n), Y(n), {'i': i}, deck(need[m], [n]))
                val('d_%sr_%d' % (m, D), '%s %dD reference strain %s not given' % (m, D, n), num(0), {'i': i}, deck(need[m], [x for x in REF[D] if x != n]))
            for k, n in ((2, 'RayleighA'), (3, 'RayleighB')):
                val('d_%ss_%d' % (m, D), '%s %dD %s given' % (m, D, n), Y(n), {'k': k}, deck(need[m], [n]))
                val('d_%ss_%d' % (m, D), '%s %dD %s not given' % (m, D, n), num(0), {'k': k}, deck(need[m], ['RayleighB' if n == 'RayleighA' else 'RayleighA']))
            if m != 'cub':
                val('d_%ss_%d' % (m, D), '%s %dD density given' % (m, D), Y('Mass Density'), {'k': 0}, deck(need[m], ['Mass Density']))
            val('d_%ss_%d' % (m, D), '%s %dD density not given' % (m, D), num(1), {'k': 0}, deck(need[m]))
        val('d_isos_%d' % D, 'isotropic %dD pressure scaling not given' % D, Y('Youngs Modulus') / (3 * (1 - 2 * Y('Poissons Ratio'))), {'k': 1}, deck(need['iso']))
        val('d_isos_%d' % D, 'isotropic %dD pressure scaling given' % D, Y('Pressure Scaling'), {'k': 1}, deck(need['iso'], ['Pressure Scaling']))
        # required entries, and moduli of the wrong sign
        for n in ORT[D]:
            left = [x for x in ORT[D] if x != n]
            k = deck(left)
            k['pre'] = knows(*['has:pl/' + x for x in left], no=['has:pl/' + x for x in OPT] + ['has:pl/' + n])
            cs = ctx.call('d_ort_%d' % D, args={'i': num(0), 'j': num(0)}, **k)
            if cs is not None:
                ctx.add('orthotropic %dD without %s is refused' % (D, n), bool(cs.threw), 'a deck without a required entry', cs.where())
            if D > 1 and 'Modulus' in n:
                k = deck(ORT[D])
                k['cfg']['deck'].update({'pl/' + x: num(1) if 'Modulus' in x else num(0) for x in ORT[D]})
                k['cfg']['deck']['pl/' + n] = num(-1)
                cs = ctx.call('d_ort_%d' % D, args={'i': num(0), 'j': num(0)}, **k)
                if cs is not None:
                    ctx.add('orthotropic %dD with negative %s is refused' % (D, n), bool(cs.threw), 'a negative modulus', cs.where())
        if D > 1:
            k = deck(ORT[D])
            k['cfg']['deck'].update({'pl/' + x: num(2) if 'Modulus' in x else num(0) for x in ORT[D]})
            val('d_ort_%d' % D, 'orthotropic %dD accepts uncoupled positive moduli' % D, num(2), {'i': 0, 'j': 0}, k)
            for n in [x for x in ORT[D] if 'Poisson' in x]:
                k = deck(ORT[D])
                k['cfg']['deck'].update({'pl/' + x: num(2) if 'Modulus' in x else num(0) for x in ORT[D]})
                k['cfg']['deck']['pl/' + n] = num(3) / 2
                cs = ctx.call('d_ort_%d' % D, args={'i': num(0), 'j': num(0)}, **k)
                if cs is not None:
                    ctx.add('orthotropic %dD with %s beyond its bound is refused' % (D, n), bool(cs.threw), 'an unstable ratio', cs.where())


def inverse(s):
    if len(s) == 2:
        d = s[0][0] * s[1][1] - s[0][1] * s[1][0]
        return [[s[1][1] / d, -s[0][1] / d], [-s[1][0] / d, s[0][0] / d]]
    c = lambda i, j: s[(i + 1) % 3][(j + 1) % 3] * s[(i + 2) % 3][(j + 2) % 3] - s[(i + 1) % 3][(j + 2) % 3] * s[(i + 2) % 3][(j + 1) % 3]
    d = s[0][0] * c(0, 0) + s[0][1] * c(0, 1) + s[0][2] * c(0, 2)
    return [[c(j, i) / d for j in range(3)] for i in range(3)]
