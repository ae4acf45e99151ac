"""Layout constants of the physics and the derivative types of the evaluations."""
import subprocess, re
from core import *
import extract

VT = {1: 1, 2: 3, 3: 6}
ST = {1: 1, 2: 4, 3: 6}


def layout(P, D):
    """required constants, from the fields each physics has per node and per cell"""
    N = D + 1
    u, p, t, e = D, 1, 1, 1
    per = {'SimplexMechanics': u, 'SimplexElectromechanics': u + e, 'SimplexThermal': t, 'SimplexThermomechanics': u + t, 'SimplexStabilizedMechanics': u + p,
           'SimplexStabilizedThermomechanics': u + p + t, 'SimplexStructuralDynamics': 2 * u, 'SimplexPlasticity': u + p, 'SimplexThermoPlasticity': u + t + p,
           'SimplexProjection': u}[P]
    ns = D if P in ('SimplexStabilizedMechanics', 'SimplexStabilizedThermomechanics', 'SimplexPlasticity', 'SimplexThermoPlasticity') else 1 if P == 'SimplexProjection' else 0
    # local unknowns of J2 plasticity: accumulated plastic strain, plastic multiplier, plastic strain tensor, backstress tensor
    loc = 2 + 2 * ST[D] if P in ('SimplexPlasticity', 'SimplexThermoPlasticity') else 0
    w = {'mNumSpatialDims': D, 'mNumNodesPerCell': N, 'mNumDofsPerNode': per, 'mNumDofsPerCell': per * N, 'mNumControl': 1, 'mNumVoigtTerms': VT[D],
         'mNumNodeStatePerNode': ns, 'mNumNodeStatePerCell': ns * N, 'mNumLocalDofsPerCell': loc, 'mComplexSpaceDim': 2, 'mNumStressTerms': ST[D],
         'mDisplacementDofOffset': 0, 'mProjectionDof': 0, 'mTotalDofs': D}
    w['mTDofOffset'] = {'SimplexThermomechanics': D, 'SimplexStabilizedThermomechanics': D + 1}.get(P)
    w['mPressureDofOffset'] = {'SimplexThermoPlasticity': D + 1}.get(P, D)
    w['mTemperatureDofOffset'] = {'SimplexPlasticity': -1, 'SimplexThermoPlasticity': D}.get(P)
    return w


def want(name):
    k = name.split('_')
    if k[1] == 'lay':
        P, D, M = k[2], int(k[3]), k[4]
        if P == 'SimplexProjectionB':
            return {'mNumNodeStatePerNode': 2, 'mProjectionDof': 3, 'mTotalDofs': 5, 'mNumControl': 7}[M]
        if P == 'MaterialModel':
            return VT[D]
        if P.endswith('C') and M == 'mNumControl':
            return 4
        return layout(P, D)[M]
    if k[1] == 'fad':
        P, D, T = k[2], int(k[3]), k[4].replace('Geo', '')
        w = layout(P, D)
        return {'StateFad': w['mNumDofsPerCell'], 'LocalStateFad': w['mNumLocalDofsPerCell'], 'ControlFad': D + 1, 'ConfigFad': D * (D + 1), 'NodeStateFad': w['mNumNodeStatePerCell']}[T]
    if k[1] in ('ev', 'evc'):
        kind, ev, fld, P, D = k[2:7]
        D = int(D)
        if k[1] == 'evc':
            return {'nodes': D + 1, 'controls': 1, 'dims': D}[fld]
        act = {'Residual': None, 'Jacobian': 'State', 'GradientU': 'State', 'GradientV': 'StateDot', 'GradientA': 'StateDotDot', 'GradientZ': 'Control', 'GradientX': 'Config'}[ev]
        n = {None: 0, 'Control': D + 1, 'Config': D * (D + 1)}.get(act, layout(P, D)['mNumDofsPerCell'])
        return n if fld in ('Result', act) else 0
    if k[1] == 'pick':
        return 1
    return None


def types(ctx):
    for name in sorted(ctx.fns):
        w = want(name)
        if w is None:
            continue
        cs = ctx.call(name)
        if cs is not None:
            ctx.eq(name, cs.ret, num(w), cs.where())
    # the witness unit must be refused, at every one of its typedefs
    u = os.path.join(VERIF, 'drivers', 'twofads.cpp')
    r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0'] + extract.flags() + [u], capture_output=True, text=True, timeout=600)
    errs = [l for l in r.stderr.split('\n') if ': error:' in l]
    if any('static assertion' not in l and 'static_assert' not in l for l in errs):
        ctx.add('two derivative types', None, 'the unit does not parse: ' + [l for l in errs if 'static' not in l][0][:200])
        return
    at = {int(x) for x in re.findall(r'twofads\.cpp:(\d+):', r.stderr)}
    for q, l in enumerate(open(u).read().split('\n')):
        m = re.search(r'(Bad_\w+);', l)
        if m:
            ok = q + 1 in at
            ctx.add('refused:' + m.group(1), ok, 'refused by the compiler' if ok else 'a type with derivatives in two fields builds: %s' % l.strip(), 'src/SimplexFadTypes.hpp')
