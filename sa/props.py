"""One function per property."""
from core import *
import spec_cell, spec_design

PROPS = {}
ASSUME = ['Exact real arithmetic: rounding, overflow and the order of floating-point additions are not part of the property.',
          'Kokkos, Teuchos, the C++ library and Sacado behave as documented; clang 18 parses the code as the build compiler does.']


def prop(pid, drivers, sources=(), rules=(), explanation='', assume=()):
    def deco(f):
        PROPS[pid] = (f, drivers, sources, rules, explanation, assume)
        return f
    return deco


DIVIDES = {'P01', 'P03', 'P04', 'P05', 'P06', 'P07', 'P10', 'P13', 'P14', 'P16', 'P19', 'P24', 'P26', 'P27'}


def run(pid, tier):
    f, drivers, sources, rules, explanation, assume = PROPS[pid]
    ctx = Ctx(pid, tier, drivers, sources)
    ctx.rules = list(rules)
    try:
        f(ctx)
    except Exception as e:  # a defect of the analysis is not evidence against the code
        ctx.case_errors.append(traceback.format_exc()[-1500:])
        ctx.add(pid + ':analysis', None, 'internal: %s %s' % (type(e).__name__, str(e)[:200]))
        if os.environ.get('SA_VERBOSE'):
            traceback.print_exc()
    if pid in DIVIDES and not ctx.case_errors:
        d = Defined(ctx)
        if pid == 'P01':
            d.pivots = spec_blas.pivots()
        try:
            f(d)
        except Exception as e:
            if os.environ.get('SA_VERBOSE'):
                traceback.print_exc()
        ctx.obl += d.obl
        if d.obl:
            ctx.rules.append('no result divides by zero where the required value exists')
    return ctx.finish('other', explanation, ASSUME + list(assume))


def table(ctx, spec, groups, ranges=None):
    n = 0
    for name, s in spec.items():
        if s['group'] not in groups:
            continue
        n += 1
        cs = ctx.call(name.split('@')[0], ext=s['ext'], ranges=dict(spec_cell.RANGES_DEFAULT, **(ranges or {})))
        if cs is None:
            continue
        ctx.outputs(cs, s['out'], oid=name, known=s.get('known'))
        if s['ret'] is not None:
            if cs.threw:
                ctx.add(name + ':return', False, 'throws on every input', cs.where())
            else:
                ctx.eq(name + ':return', cs.ret, s['ret'], cs.where())
    ctx.counts['entry points'] = ctx.counts.get('entry points', 0) + n
    ctx.samples += list(spec)[:3]


EXPL = ('Gated value numbering over the type-checked syntax tree: starting from call sites with unknown arguments and unknown array contents, every '
        'assignment is propagated as a rational normal form over the inputs (conditions become gates, loops become index-quantified summaries); '
        'each obligation compares one resulting cell with the required expression in normal form. Nothing is executed and no path is enumerated.')


@prop('P03', ['cell.cpp'], rules=['strain = symmetric gradient of the nodal field', 'gradient = sum over nodes of value times shape gradient', 'no dependence on previous content of the result'], explanation=EXPL)
def p03(ctx):
    table(ctx, spec_cell.SPEC, {'kin'})


@prop('P04', ['cell.cpp'], rules=['divergence kernels add scale*volume*(B^T s) per node and dof'], explanation=EXPL)
def p04(ctx):
    table(ctx, spec_cell.SPEC, {'div'})


@prop('P05', ['cell.cpp'], explanation=EXPL)
def p05(ctx):
    table(ctx, spec_cell.SPEC, {'interp'})


@prop('P06', ['cell.cpp'], ['TensileEnergyDensity.cpp'], explanation=EXPL)
def p06(ctx):
    table(ctx, spec_cell.SPEC, {'tensor'})


@prop('P07', ['cell.cpp'], explanation=EXPL)
def p07(ctx):
    table(ctx, spec_cell.SPEC, {'j2'})


@prop('P13', ['design.cpp'], explanation=EXPL)
def p13(ctx):
    table(ctx, spec_design.SPEC, {'pen', 'proj'})


@prop('P14', ['design.cpp'], explanation=EXPL)
def p14(ctx):
    table(ctx, spec_design.SPEC, {'weight'})


@prop('P19', ['cell.cpp'], explanation=EXPL)
def p19(ctx):
    ctx.assumed = ('!(ww >= 0)',)
    table(ctx, spec_cell.SPEC, {'complex'})


@prop('P24', ['cell.cpp', 'misc.cpp'], rules=['cell measure = volume times the power of the stated norm', 'the deck selects the norm; its exponent is used unrounded', 'the value is rooted and the gradient scaled by the derivative of that root'], explanation=EXPL)
def p24(ctx):
    import spec_misc
    table(ctx, spec_cell.SPEC, {'norm'})
    spec_misc.norms(ctx)


@prop('P18', ['misc.cpp'], rules=['cylinder geometry, its gradient and evolution', 'every history entry equals the chamber balance recursion', 'setters and defaults take effect; solving again repeats the history'], explanation=EXPL)
def p18(ctx):
    import spec_misc
    spec_misc.rocket(ctx)


@prop('P26', ['misc.cpp'], rules=['norm measure and reference after each iteration', 'non-finite norms, unknown criteria and closed diagnostics files are refused'], explanation=EXPL)
def p26(ctx):
    import spec_misc
    spec_misc.newton(ctx)


import spec_blas


def frame_views(ctx, cs, oid, allowed):
    w = sorted({a.vid for a in cs.x.acc if a.kind in 'WA' and '#' not in a.vid and a.vid not in allowed})
    for v in w:
        a = [a for a in cs.x.acc if a.kind in 'WA' and a.vid == v][0]
        ctx.add('%s:frame(%s)' % (oid, v), False, 'input array %s is modified' % v, '%s line %s' % (a.file, a.line))
    if not w:
        ctx.add('%s:frame' % oid, True, 'only the result is written')


@prop('P01', ['blas.cpp'], rules=['every entry of the result equals the defining formula over the old contents', 'only the result array is written'], explanation=EXPL)
def p01(ctx):
    sizes = [(2, 3, 4, 2), (1, 1, 1, 1)] + ([(3, 2, 1, 3)] if ctx.tier == 'thorough' else [])
    for tag, es in [('', spec_blas.entries())] + [(':%dx%dx%dx%d' % z, spec_blas.concrete(*z)) for z in sizes]:
        for name, ext, out, ret in es:
            nn = num(int(tag[1:].split('x')[0])) if tag else spec_blas.n
            cs = ctx.call(name, ext=ext, ranges=spec_blas.RNG, args={'n': nn})
            if cs is None:
                continue
            ctx.outputs(cs, out, frame=False, oid=name + tag)
            if ret is not None and not cs.threw:
                ctx.eq(name + tag + ':return', cs.ret, ret, cs.where())
            frame_views(ctx, cs, name + tag, set(out) | spec_blas.SCRATCH.get(name, set()))
    calls = {}
    for name, ext, out, ret in spec_blas.long_vectors():
        cs = calls[name] if name in calls else calls.setdefault(name, ctx.call(name, ext=ext, args={'n': ext['out'][0]}))
        if cs is None:
            continue
        ctx.last = cs
        for v, cells in out.items():
            for idx, want in cells.items():
                ctx.eq('%s:long:%s' % (name, estr(idx[0])), cs.val(v, *idx), want, cs.where(v))
        if ret is not None and not cs.threw:
            ctx.eq(name + ':long:return', cs.ret, ret, cs.where())
    for name, kind in (('d_max', 'redmax'), ('d_min', 'redmin')):
        cs = ctx.call(name, ext={'a': [spec_blas.n]}, ranges=spec_blas.RNG)
        if cs is not None:
            reduction(ctx, name + ':return', cs, kind, spec_blas.n, 'a')
            frame_views(ctx, cs, name, set())
        for N in (1, 2, 3):
            cs = ctx.call(name, ext={'a': [N]}, cfg={'unroll': 'forward'})
            if cs is not None:
                reduction(ctx, '%s:return:length %d' % (name, N), cs, kind, num(N), 'a')
    n, i, al = spec_blas.n, spec_blas.i, sym('al')
    cs = ctx.call('d_fillsel', ext={'ord': [n], 'val': [n], 'out': [spec_blas.m]}, ranges=spec_blas.RNG, cfg={'injective': ('ord',)})
    if cs is not None:
        ctx.outputs(cs, {'out': {(cell('ord', (i,)),): al * cell('val', (i,))}}, frame=False)
        frame_views(ctx, cs, 'd_fillsel', {'out'})
    for q, (m, ords) in enumerate(((1, [0]), (4, [2]), (4, [3, 0]), (3, [0, 1, 2]), (2, [1, 0]), (5, [4, 1, 2]))):
        w = {(k,): (al * cell('val', (E(ords.index(k)),)) if k in ords else cell('out', (E(k),))) for k in range(m)}
        cs = ctx.call('d_fillsel', consts={'ord': ords}, ext={'val': [len(ords)], 'out': [m]}, cfg={'unroll': 'forward'})
        ctx.outputs(cs, {'out': w}, frame=False, oid='d_fillsel:%d' % q)
    cs = ctx.call('d_random', ext={'out': [n]}, ranges=spec_blas.RNG)
    if cs is not None and not cs.threw:
        v = cs.val('out', i)
        ra = [symb.ATOMS[x] for x in symb.all_atoms(v) if symb.ATOMS[x].kind == 'sym' and 'rand' in str(symb.ATOMS[x].d)] if isinstance(v, Expr) else []
        if len(ra) == 1:
            lo, hi, t = sym('lo'), sym('hi'), symb.of_atom(ra[0])
            ctx.eq('d_random:range', v, lo + (hi - lo) * t / 2147483647, cs.where('out'), 'between the bounds for every draw')
        else:
            ctx.add('d_random:range', None, 'draw not recognised')
        frame_views(ctx, cs, 'd_random', {'out'})


def reduction(ctx, oid, cs, kind, n, view):
    if cs.threw:
        ctx.add(oid, False, 'throws on every input', cs.where())
        return
    v = cs.ret
    a = as_atom(v) if isinstance(v, Expr) else None
    if n.iconst() == 1 and isinstance(v, Expr) and differ(v, cell(view, (ZERO,)))[0] is True:
        ctx.add(oid, True, 'the single entry')
        return
    if a is not None and a.kind == 'fn' and a.d[0] in ('redmax', 'redmin'):
        lo, hi, term = a.d[1][0], a.d[1][1], a.d[1][2]
        ta = as_atom(term)
        good = a.d[0] == kind and not lo.n and differ(hi, n)[0] is True and ta is not None and ta.kind == 'cell' and ta.d[0] == view and as_atom(ta.d[1][0]) is not None and as_atom(ta.d[1][0]).kind != 'cell'
        shape = ta is not None and ta.kind == 'cell' and ta.d[0] == view
        if good:
            ctx.add(oid, True, '%s over all entries' % kind)
        elif shape and (a.d[0] != kind or (lo.const() is not None and lo.const() != 0) or differ(hi, n)[0] is False):
            ctx.add(oid, False, 'reduces with %s over [%s,%s) instead of all entries' % (a.d[0], estr(lo), estr(hi)), cs.where())
        else:
            v2, info = ('', '')
            ctx.add(oid, None, 'reduction shape %s' % estr(v)[:200], cs.where())
        return
    if isinstance(v, Expr) and n.iconst() is not None:
        want = -externs.REDUCER_IDENTITY if kind == 'redmax' else externs.REDUCER_IDENTITY
        for k in range(n.iconst()):
            want = fn('max' if kind == 'redmax' else 'min', want, cell(view, (E(k),)))
        ctx.eq(oid, v, want, cs.where())
        return
    if isinstance(v, Expr) and not any(symb.ATOMS[x].kind == 'top' for x in symb.all_atoms(v)) and not any(symb.ATOMS[x].kind == 'fn' for x in symb.all_atoms(v)):
        ctx.add(oid, False, 'returns %s, which is not the extremum of the entries' % estr(v)[:200], cs.where())
        return
    ctx.add(oid, None, 'reduction not recognised: %s' % (estr(v)[:200] if isinstance(v, Expr) else v), cs.where())


@prop('P02', ['blas.cpp'], rules=['ill-formed operands: every path ends in an exception and the access log holds no write to an argument array before it', 'well-formed operands: no reachable throw'], explanation=EXPL)
def p02(ctx):
    for name, good, bads, fins in spec_blas.guards():
        ctx.accepts(name + ':accepts', name, ext=good, ranges=spec_blas.RNG, text='well-formed operands')
        for q, (text, ext) in enumerate(bads):
            ctx.rejects('%s:rejects:%s:%d' % (name, text, q), name, ext=ext, ranges=spec_blas.RNG, text=text)
        for f in fins:
            def pre(x, A, f=f):
                x.st.pc = x.st.pc + (cnot(externs.sym_finite(A[f])),)
            ctx.rejects('%s:rejects:%s not finite' % (name, f), name, ext=good, ranges=spec_blas.RNG, pre=pre, text='multiplier not finite')
    B = spec_blas
    for name, ext in (('d_fill3_3_3', {'out': [B.n, 3, 3]}), ('d_update3', {'A': [B.n, B.m, B.l], 'B': [B.n, B.m, B.l]})):
        for z in (0, -1):
            ctx.rejects('%s:rejects:%d cells' % (name, z), name, ext=ext, ranges=B.RNG, args={'n': num(z)}, text='%d cells' % z)
    for name, ext in (('d_identity_3_3', {'out': [B.n, 3, 3]}), ('d_mult3', {'A': [B.n, 2, 3], 'B': [B.n, 3, 2], 'C': [B.n, 2, 2]})):
        ctx.rejects(name + ':rejects:0 cells', name, ext=ext, ranges=B.RNG, args={'n': ZERO}, text='0 cells')
    ctx.rejects('d_mvbad:rejects', 'd_mvbad', ext={'A': [spec_blas.n, 2, 2], 'x': [spec_blas.n, 2], 'y': [spec_blas.n, 2]}, ranges=spec_blas.RNG, text='unknown transpose flag')


import spec_sparse


@prop('P08', ['sparse.cpp'], rules=['constrained row and column become the identity', 'eliminated column moves to the right-hand side', 'prescribed value lands in the right-hand side', 'other entries unchanged', 'same result for both ends of the iteration order'], explanation=EXPL)
def p08(ctx):
    def one(oid, drv, consts, ext, args, we, wr):
        for order in ('forward', 'reverse'):
            cs = ctx.call(drv, consts=consts, ext=ext, args=args, cfg={'unroll': order})
            if cs is None:
                continue
            ctx.outputs(cs, {'en': we, 'rhs': wr}, frame=False, oid='%s:%s' % (oid, order))
            frame_views(ctx, cs, '%s:%s' % (oid, order), {'en', 'rhs'})
    ctx.parallel([lambda c=c: one(*c) for c in spec_sparse.constraints(ctx.tier == 'thorough')])
    ctx.counts['structures'] = len(spec_sparse.SYM)


UN = {'unroll': 'forward'}


def cellmap(vs):
    return {(k,): E(v) for k, v in enumerate(vs)}


@prop('P09', ['sparse.cpp'], rules=['matrix-vector product and row sums over an arbitrary row structure', 'block/scalar conversion, product, difference and condensation equal their dense counterparts on each structure of the family',
                                    'dimension mismatch raises before any write'], explanation=EXPL)
def p09(ctx):
    sp = spec_sparse
    from spec_sparse import csr, dense, nonblock, densify, product, blocked, SYM, RECT, BLK
    rng = dict(sp.RNG, nr=(1, None), nc=(1, None))
    for name, ext, out in sp.symbolic():
        cs = ctx.call(name, ext=ext, ranges=rng)
        if cs is None:
            continue
        ctx.outputs(cs, out, frame=False)
        frame_views(ctx, cs, name, set(out))
    for (R, C) in BLK:
        d = 'd_spmv_%d_%d' % (R, C)
        x, y = sym('nc', True), sym('nr', True)
        up = sym('k', True)
        for t, e in (('input longer', {'x': [x + 1 + up], 'y': [y]}), ('input shorter', {'x': [x - 1], 'y': [y]}), ('output longer', {'x': [x], 'y': [y + 1 + up]}), ('output shorter', {'x': [x], 'y': [y - 1]})):
            ctx.rejects('%s:rejects:%s' % (d, t), d, ext=dict(e, rm=[sp.n + 1]), ranges=dict(rng, k=(0, None)), text=t)
    S_ = lambda k: sym(k)
    ctx.outputs(ctx.call('d_condexpr'), {}, oid='d_condexpr')
    cs = ctx.call('d_condexpr')
    if cs is not None:
        ctx.eq('d_condexpr:return', cs.ret, ite(cmp(S_('x') - S_('y'), '>'), S_('b'), S_('a')), cs.where())
    # containers
    for nm, want in (('rows', 'a'), ('cols', 'b'), ('rpb', 'r'), ('cpb', 'c')):
        cs = ctx.call('d_crs_' + nm, ranges={'a': (0, None), 'b': (0, None), 'r': (1, None), 'c': (1, None)})
        if cs is not None:
            ctx.eq('d_crs_%s:return' % nm, cs.ret, sym(want, True), cs.where())
    cs = ctx.call('d_crs_blk', ranges={'r': (1, None), 'c': (1, None)})
    if cs is not None:
        ctx.eq('d_crs_blk:return', cs.ret, cmp(sym('r', True) * sym('c', True) - 1, '>'), cs.where())
    for nm in ('unset_rows', 'unset_cols', 'dflt_rows'):
        ctx.rejects('d_crs_' + nm, 'd_crs_' + nm, text='dimension requested that was never set')
    cs = ctx.call('d_crs_set', ext={'rm': [sp.n], 'ci': [sp.n], 'en': [sp.n], 'orm': [sp.n], 'oci': [sp.n], 'oen': [sp.n]}, ranges=sp.RNG)
    if cs is not None:
        ctx.outputs(cs, {'o' + v: {(sp.i,): cell(v, (sp.i,))} for v in ('rm', 'ci', 'en')}, frame=False)
    # constant structures
    # a long row, wide column numbers
    for (nm, (nc, rows)), R, C in [(('long', sp.LONG), R, C) for R, C in ((1, 1), (2, 2))] + [(('hub', (71, sp.HUB)), 1, 1)]:
        rm, ci = csr(rows)
        nr = len(rows)
        x, y, o = V_('x'), V_('y'), V_('out')
        D = dense(rows, nr, nc, R, C, 'en')
        A = {'nr': num(nr * R), 'nc': num(nc * C)}
        ex = {'en': [len(ci) * R * C], 'x': [nc * C], 'y': [nr * R], 'out': [nr * R]}
        cs = ctx.call('d_spmv_%d_%d' % (R, C), consts={'rm': rm, 'ci': ci}, ext=ex, args=A, cfg=UN)
        ctx.outputs(cs, {'y': {(r,): y(r) + sum((e * x(j) for j, e in enumerate(D[r]) if e.n), ZERO) for r in range(nr * R)}}, frame=False, oid='d_spmv_%d_%d:%s' % (R, C, nm))
        for b in (0, 1, nr - 1):
            cs = ctx.call('d_rowsum_%d_%d' % (R, C), consts={'rm': rm, 'ci': ci}, ext=ex, args=dict(A, b=num(b)), cfg=UN)
            ctx.outputs(cs, {'out': {(r,): o(r) + sum(D[r], ZERO) for r in range(b * R, (b + 1) * R)}}, frame=False, oid='d_rowsum_%d_%d:%s:%d' % (R, C, nm, b))
    fam = dict({k: (len(v), v) for k, v in SYM.items()}, **RECT)
    def structure(nm, nc, rows):
        nr = len(rows)
        rm, ci = csr(rows)
        for (R, C) in BLK + (sp.BLK2 if nm in ('pair', 'r2empty', 'r43') else []):
            ctx.counts['structures'] = ctx.counts.get('structures', 0) + 1
            grm, gci, gva = nonblock(rows, nc, R, C)
            A = {'nr': num(nr * R), 'nc': num(nc * C)}
            ex = {'en': [len(ci) * R * C], 'orm': [len(grm)], 'oci': [len(gci)], 'oen': [len(gva)]}
            o = 'd_nonblock_%d_%d' % (R, C)
            cs = ctx.call(o, consts={'rm': rm, 'ci': ci}, ext=ex, args=A, cfg=UN)
            ctx.outputs(cs, {'orm': cellmap(grm), 'oci': cellmap(gci), 'oen': cellmap(gva)}, frame=False, oid='%s:%s' % (o, nm))
            # and back, from shuffled columns; the block matrix comes out with sorted columns
            v = V_('en')
            k = 0
            cols2, D = [], []
            for r in range(nr * R):
                cs_ = [c * C + q for c in rows[r // R] for q in range(C)]
                cs_ = cs_[::-1] if r % 2 else cs_[1:] + cs_[:1]
                D.append({c: v(k + t) for t, c in enumerate(cs_)})
                cols2 += cs_
                k += len(cs_)
            brm, bci, bva = blocked(D, R, C)
            o = 'd_fromnonblock_%d_%d' % (R, C)
            cs = ctx.call(o, consts={'rm': grm, 'ci': cols2}, ext={'en': [len(cols2)], 'orm': [len(brm)], 'oci': [len(bci)], 'oen': [len(bva)]}, args=A, cfg=UN)
            ctx.outputs(cs, {'orm': cellmap(brm), 'oci': cellmap(bci), 'oen': cellmap(bva)}, frame=False, oid='%s:%s' % (o, nm))
            # scaling rows by the row sums of another matrix
            if nm in SYM:
                arows = rows
                arm, aci = csr(arows)
                en, en2 = V_('en'), V_('en2')
                Da = dense(arows, nr, nr, R, R, 'en')
                rs = [sum(r, ZERO) for r in Da]
                w = {}
                k = 0
                for r, cols in enumerate(rows):
                    for c in cols:
                        for p in range(R):
                            for q in range(C):
                                w[(k,)] = en2(k) / rs[r * R + p]
                                k += 1
                o = 'd_rsim_%d_%d' % (R, C)
                cs = ctx.call(o, consts={'rm': arm, 'ci': aci, 'rm2': rm, 'ci2': ci}, ext={'en': [len(aci) * R * R], 'en2': [len(ci) * R * C]}, args=A, cfg=UN)
                ctx.outputs(cs, {'en2': w}, frame=False, oid='%s:%s' % (o, nm))
                if cs is not None:
                    frame_views(ctx, cs, '%s:%s' % (o, nm), {'en2'})
                if R == C:
                    o = 'd_rsolve_%d' % R
                    bb = V_('b')
                    cs = ctx.call(o, consts={'rm': arm, 'ci': aci}, ext={'en': [len(aci) * R * R], 'x': [nr * R], 'b': [nr * R]}, args={'nr': num(nr * R)}, cfg=UN)
                    ctx.outputs(cs, {'x': {(r,): bb(r) / rs[r] for r in range(nr * R)}}, frame=False, oid='%s:%s' % (o, nm))
                    if cs is not None:
                        frame_views(ctx, cs, '%s:%s' % (o, nm), {'x'})
        # one-row blocks spread over strided rows
        for C in (1, 2, 3) + ((6,) if nm == 'pair' else ()):
            for stride in (2, 3) + ((4, 6, 7) if nm in ('pair', 'r43', 'chain3') else ()):
                for off in range(stride):
                    en = V_('en')
                    grm, gci, gva = [0], [], []
                    for r, cols in enumerate(rows):
                        for p in range(stride):
                            for j, c in enumerate(cols):
                                for q in range(C):
                                    gci.append(c * C + q)
                                    gva.append(en((rm[r] + j) * C + q) if p == off else ZERO)
                            grm.append(len(gci))
                    o = 'd_nonblocks_%d' % C
                    cs = ctx.call(o, consts={'rm': rm, 'ci': ci}, ext={'en': [len(ci) * C], 'orm': [len(grm)], 'oci': [len(gci)], 'oen': [len(gva)]},
                                  args={'nr': num(nr), 'nc': num(nc * C), 'stride': num(stride), 'off': num(off)}, cfg=UN)
                    ctx.outputs(cs, {'orm': cellmap(grm), 'oci': cellmap(gci), 'oen': cellmap(gva)}, frame=False, oid='%s:%s:%d:%d' % (o, nm, stride, off))
    ctx.parallel([lambda a=a: structure(*a) for a in sorted(((nm, nc, rows) for nm, (nc, rows) in fam.items()), key=lambda t: -sum(len(r) for r in t[2]))], 8)
    # sorting
    for q, (srm, sci) in enumerate((([0, 3, 3, 5], [2, 0, 1, 4, 3]), ([0, 4], [3, 2, 1, 0]), ([0, 5, 6], [1, 4, 0, 3, 2, 0]), ([0, 6], [2000, 31, 70000, 3, 32, 129]), ([0, 40], [(17 * k + 5) % 40 * 3 for k in range(40)]),
                                   ([0, 1, 1, 1, 13], [9] + [(7 * k) % 12 for k in range(12)]))):
        wi, wv = [], []
        en = V_('en')
        for r in range(len(srm) - 1):
            for k in sorted(range(srm[r], srm[r + 1]), key=lambda k: sci[k]):
                wi.append(sci[k])
                wv.append(en(k))
        cs = ctx.call('d_sortcols', consts={'rm': srm, 'ci': sci}, ext={'en': [len(sci)]}, cfg=UN)
        ctx.outputs(cs, {'ci': cellmap(wi), 'en': cellmap(wv)}, frame=False, oid='d_sortcols:%d' % q)
    # products
    for (R, K, C) in ((1, 1, 1), (2, 2, 2), (1, 2, 2), (1, 2, 1), (2, 1, 2), (3, 3, 1)):
        for na, nb in (('chain3', 'loop3'), ('r23', 'r33'), ('r32', 'r23'), ('r33', 'r32'), ('star4', 'r43'), ('pair', 'r2empty'), ('one', 'one')):
            get = lambda z: (3, [[0, 1, 2], [1, 2], [2, 0]]) if z == 'loop3' else fam[z]
            (ka, ra), (cb, rb) = get(na), get(nb)
            if ka != len(rb):
                continue
            arm, aci = csr(ra)
            brm, bci = csr(rb)
            ga, gb = nonblock(ra, ka, R, K, 'en'), nonblock(rb, cb, K, C, 'en2')
            D = product(densify(ga[0], ga[1], ga[2], 0), densify(gb[0], gb[1], gb[2], 0))
            orm, oci, ova = blocked(D, R, C)
            o = 'd_mmult_%d_%d_%d' % (R, K, C)
            ex = {'en': [len(aci) * R * K], 'en2': [len(bci) * K * C], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}
            A = {'nr': num(len(ra) * R), 'nk': num(ka * K), 'nc': num(cb * C)}
            cs = ctx.call(o, consts={'rm': arm, 'ci': aci, 'rm2': brm, 'ci2': bci}, ext=ex, args=A, cfg=UN)
            ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='%s:%s*%s' % (o, na, nb))
            if cs is not None:
                frame_views(ctx, cs, '%s:%s*%s' % (o, na, nb), {'orm', 'oci', 'oen'})
    # the product replaces what the result matrix held, also when the product has no entries
    for na, (ra, rb) in {'empty': ([[0], []], [[], [1, 0]]), 'part': ([[0], [1]], [[1], [0, 1]])}.items():
        (arm, aci), (brm, bci) = csr(ra), csr(rb)
        ga, gb = nonblock(ra, 2, 1, 1, 'en'), nonblock(rb, 2, 1, 1, 'en2')
        orm, oci, ova = blocked(product(densify(ga[0], ga[1], ga[2], 0), densify(gb[0], gb[1], gb[2], 0)), 1, 1)
        cs = ctx.call('d_mmultpre', consts={'rm': arm, 'ci': aci, 'rm2': brm, 'ci2': bci, 'prm': [0, 2, 4], 'pci': [0, 1, 0, 1]},
                      ext={'en': [len(aci)], 'en2': [len(bci)], 'pen': [4], 'orm': [3], 'oci': [len(oci)], 'oen': [len(ova)]}, args={'nr': num(2), 'nk': num(2), 'nc': num(2)}, cfg=UN)
        ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='d_mmultpre:' + na)
    # the same matrix in two roles; a second product into the same result; repeated differences
    for nm in ('chain3', 'r33', 'one'):
        ca, ra = fam[nm]
        arm, aci = csr(ra)
        ga = nonblock(ra, ca, 1, 1, 'en')
        da = densify(ga[0], ga[1], ga[2], 0)
        orm, oci, ova = blocked(product(da, da), 1, 1)
        cs = ctx.call('d_mmultself', consts={'rm': arm, 'ci': aci}, ext={'en': [len(aci)], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}, args={'nr': num(ca)}, cfg=UN)
        ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='d_mmultself:' + nm)
        rb = [list(reversed(x))[:2] for x in ra]
        brm, bci = csr(rb)
        gb = nonblock(rb, ca, 1, 1, 'en2')
        orm, oci, ova = blocked(product(da, densify(gb[0], gb[1], gb[2], 0)), 1, 1)
        cs = ctx.call('d_mmulttwice', consts={'rm': arm, 'ci': aci, 'rm2': brm, 'ci2': bci}, ext={'en': [len(aci)], 'en2': [len(bci)], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}, args={'nr': num(ca)}, cfg=UN)
        ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='d_mmulttwice:' + nm)
        ga, gb = nonblock(ra, ca, 2, 2, 'en'), nonblock(rb, ca, 1, 2, 'en2')
        D, B = densify(ga[0], ga[1], ga[2], 0), densify(gb[0], gb[1], gb[2], 0)
        for off in (0, 1, 0):
            for r, d in enumerate(B):
                for j, x in d.items():
                    for p in range(2):
                        D[r * 2 + p].setdefault(j, ZERO)
                    D[r * 2 + off][j] = D[r * 2 + off][j] - x
        orm, oci, ova = blocked(D, 2, 2)
        cs = ctx.call('d_mminustwice', consts={'rm': arm, 'ci': aci, 'rm2': brm, 'ci2': bci}, ext={'en': [len(aci) * 4], 'en2': [len(bci) * 2], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}, args={'nr': num(ca), 'nc': num(ca)}, cfg=UN)
        ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='d_mminustwice:' + nm)
    # differences: rows of a one-row-block matrix subtracted at an offset
    def difference(R, C, na, nb, off):
                (ca, ra), (cb, rb) = fam[na], fam[nb]
                arm, aci = csr(ra)
                brm, bci = csr(rb)
                ga, gb = nonblock(ra, ca, R, C, 'en'), nonblock(rb, cb, 1, C, 'en2')
                D, B = densify(ga[0], ga[1], ga[2], 0), densify(gb[0], gb[1], gb[2], 0)
                for r, d in enumerate(B):
                    for j, x in d.items():
                        for p in range(R):
                            D[r * R + p].setdefault(j, ZERO)
                        D[r * R + off][j] = D[r * R + off][j] - x
                orm, oci, ova = blocked(D, R, C)
                o = 'd_mminus_%d_%d' % (R, C)
                ex = {'en': [len(aci) * R * C], 'en2': [len(bci) * C], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}
                A = {'nr': num(len(ra) * R), 'nr2': num(len(rb)), 'nc': num(ca * C), 'off': num(off)}
                cs = ctx.call(o, consts={'rm': arm, 'ci': aci, 'rm2': brm, 'ci2': bci}, ext=ex, args=A, cfg=UN)
                ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='%s:%s-%s:%d' % (o, na, nb, off))
    jobs = [lambda a=(R, C, na, nb, off): difference(*a) for (R, C) in ((6, 6), (3, 3), (4, 4), (2, 2), (2, 1), (1, 1))
            for na, nb in (('chain3', 'chain3'), ('loop4', 'star4'), ('diag3', 'chain3'), ('pair', 'pair'), ('r33', 'r33'))[3 if R > 3 else 0:4 if R > 3 else 5] for off in range(R)]
    # condensation A - B C^-1 D (C lumped), placed at the row offset
    def condensed(R, K, nm, off):
                nn = len(SYM[nm])
                rows = SYM[nm]
                rm, ci = csr(rows)
                ga, gb, gd = nonblock(rows, nn, R, R, 'en'), nonblock(rows, nn, 1, K, 'enB'), nonblock(rows, nn, K, R, 'enD')
                rs = [sym('C_%d' % r) for r in range(nn * K)]   # row sums of general matrices: see the row scaling above
                enC = [(rs[r * K + p] if (r, p) == (c, q) else ZERO) for r, cols in enumerate(rows) for c in cols for p in range(K) for q in range(K)]
                Dd = densify(gd[0], gd[1], gd[2], 0)
                Dd = [{j: x / rs[r] for j, x in d.items()} for r, d in enumerate(Dd)]
                BD = product(densify(gb[0], gb[1], gb[2], 0), Dd)
                D = densify(ga[0], ga[1], ga[2], 0)
                for r, d in enumerate(BD):
                    for j, x in d.items():
                        for p in range(R):
                            D[r * R + p].setdefault(j, ZERO)
                        D[r * R + off][j] = D[r * R + off][j] - x
                orm, oci, ova = blocked(D, R, R)
                o = 'd_condense_%d_%d' % (R, K)
                L = len(ci)
                ex = {'en': [L * R * R], 'enB': [L * K], 'enC': [L * K * K], 'enD': [L * K * R], 'orm': [len(orm)], 'oci': [len(oci)], 'oen': [len(ova)]}
                st = {'enC': enC}
                for q in ('', 'B', 'C', 'D'):
                    st['rm' + q], st['ci' + q] = rm, ci
                cs = ctx.call(o, consts=st, ext=ex, args={'nn': num(nn), 'off': num(off)}, cfg=UN)
                ctx.outputs(cs, {'orm': cellmap(orm), 'oci': cellmap(oci), 'oen': cellmap(ova)}, frame=False, oid='%s:%s:%d' % (o, nm, off))
    jobs += [lambda a=(R, K, nm, off): condensed(*a) for (R, K) in ((6, 1), (3, 2), (4, 3), (2, 1)) for nm in (('chain3', 'pair', 'diag3') if R < 4 else ('pair',)) for off in range(R)]
    ctx.parallel(jobs, 8)
    # shapes that do not match
    z = {x: sym(x, True) for x in ('r1', 'c1', 'r2', 'c2', 'r3', 'c3', 'k')}
    rg = {x: (1, None) for x in z}
    for t, A in (('inner dimension', {'c1': z['r2'] + z['k'], 'r3': z['r1'], 'c3': z['c2']}), ('inner dimension', {'r2': z['c1'] + z['k'], 'r3': z['r1'], 'c3': z['c2']}),
                 ('result rows', {'r2': z['c1'], 'r3': z['r1'] + z['k'], 'c3': z['c2']}), ('result rows', {'r2': z['c1'], 'r1': z['r3'] + z['k'], 'c3': z['c2']}),
                 ('result columns', {'r2': z['c1'], 'r3': z['r1'], 'c3': z['c2'] + z['k']}), ('result columns', {'r2': z['c1'], 'r3': z['r1'], 'c2': z['c3'] + z['k']})):
        ctx.rejects('d_mmshape:rejects:%s:%s' % (t, '/'.join(sorted(A))), 'd_mmshape', args=A, ranges=rg, text=t)
    for t, A in (('columns', {'c1': z['c2'] + z['k']}), ('columns', {'c2': z['c1'] + z['k']})):
        ctx.rejects('d_mishape:rejects:%s:%s' % (t, '/'.join(sorted(A))), 'd_mishape', args=A, ranges=rg, text=t)


def V_(view):
    return lambda *i: cell(view, tuple(E(x) for x in i))


import spec_time


@prop('P10', ['time.cpp'], rules=['residual value equals the time-stepping formula for every entry', 'each gradient is the derivative of the corresponding residual', 'no dependence on earlier calls; no input modified', 'missing required parameter raises'], explanation=EXPL)
def p10(ctx):
    st = spec_time
    vs = ('u', 'up', 'v', 'vp', 'a', 'ap')
    for name, want in st.VALUE.items():
        cs = ctx.call(name, ext={k: [st.n] for k in vs if k in 'u up v vp' or name.startswith('d_nm')}, ranges=st.RNG)
        if cs is None:
            continue
        if cs.threw or not isinstance(cs.ret, ViewRef):
            ctx.add(name, False if cs.threw else None, 'throws on every input' if cs.threw else 'result not tracked', cs.where())
            continue
        ctx.eq(name + ':return(i)', cs.val(cs.ret, st.i), want, cs.where(cs.ret.vid))
        cs = ctx.call(name, ext={k: [num(3)] for k in vs if k in 'u up v vp' or name.startswith('d_nm')})
        for q in range(3) if cs is not None and isinstance(cs.ret, ViewRef) else ():
            ctx.eq(name + ':return(%d)' % q, cs.val(cs.ret, num(q)), subst_atom(want, as_atom(st.i), num(q)), cs.where(cs.ret.vid))
        if cs is None or not isinstance(cs.ret, ViewRef):
            continue
        ctx.eq(name + ':length', cs.x.ext(cs.ret, 0), num(3), cs.where())
        frame_views(ctx, cs, name, set())
    for name, (r, x) in st.GRAD.items():
        cs = ctx.call(name)
        if cs is not None:
            if cs.threw:
                ctx.add(name, False, 'throws on every input', cs.where())
            else:
                ctx.eq(name + ':return', cs.ret, st.deriv(r, x), cs.where())
    for key in ('Newmark Gamma', 'Newmark Beta'):
        for name in ('d_nm_v_grad_u', 'd_nm_a_grad_u'):
            def pre(x, A, key=key):
                x.st.pc = x.st.pc + (cnot(boolsym('has:pl/' + key)),)
            ctx.rejects('%s:rejects:%s absent' % (name, key), name, pre=pre, text='%s absent' % key)


import spec_material
MAT = ['MaterialModel.cpp', 'IsotropicStiffness.cpp', 'Rank4Voigt.cpp']


@prop('P11', ['material.cpp'], MAT, rules=['each coefficient slot holds the value of its deck key or the documented default, symmetrically', 'isotropic stiffness and moduli follow from Young modulus and Poisson ratio', 'thermal flux and heat content use the model quantities',
                                           'linear models serve constants, temperature dependent models serve functions'], explanation=EXPL)
def p11(ctx):
    sm = spec_material
    seen = {}
    for name, deck, out, ret in sm.entries():
        q = seen[name] = seen.get(name, -1) + 1
        oid = '%s#%d' % (name, q)
        ext = {}
        if 'out' in out:
            n = int(len(out['out']) ** 0.5)
            ext = {'out': [n, n]}
        cs = ctx.call(name, ext=ext, pre=sm.pre(**deck), ranges=spec_cell.RANGES_DEFAULT)
        if cs is None:
            continue
        txt = 'deck: ' + ', '.join('%s %s' % (k, '/'.join(v)) for k, v in deck.items())
        if cs.threw:
            ctx.add(oid, False, 'a well-formed deck is refused (%s)' % txt[:300], cs.where())
            continue
        ctx.outputs(cs, out, oid=oid)
        if ret is not None:
            ctx.eq(oid + ':return', cs.ret, ret, cs.where())
    ctx.counts['deck cases'] = sum(v + 1 for v in seen.values())


@prop('P12', ['material.cpp'], MAT, rules=['a deck that lacks a required quantity, model or section raises on every path, before any result is written'], explanation=EXPL)
def p12(ctx):
    sm = spec_material
    seen = {}
    for name, deck, text in sm.refusals():
        q = seen[name] = seen.get(name, -1) + 1
        ctx.rejects('%s:rejects#%d' % (name, q), name, pre=sm.pre(**deck), text=text)


import spec_element


@prop('P16', ['element.cpp'], ['alg/Basis.cpp', 'alg/Cubature.cpp'], rules=['shape functions are the barycentric coordinates and their gradients', 'each rule integrates every monomial up to its degree over the reference simplex (constants compared to 1e-13)', 'unsupported degrees, dimensions and array shapes are refused before a write'], explanation=EXPL)
def p16(ctx):
    spec_element.p16(ctx)


@prop('P27', ['element.cpp'], [], rules=['eigenvalues of a symmetric 2x2 tensor: sum equals the trace and product equals the determinant, per sign of the shear', 'a 3D sweep is an orthogonal similarity annihilating the largest off-diagonal entry'], explanation=EXPL)
def p27(ctx):
    spec_element.principal(ctx)


@prop('P15', ['expr.cpp'], sources=['ExpressionEvaluator.cpp', 'CustomMaterial.cpp'], rules=['value of every generated expression shape for all variable values', 'malformed texts are refused', 're-use of one evaluator'], explanation=EXPL)
def p15(ctx):
    import spec_expr
    spec_expr.histories(ctx)
    spec_expr.expressions(ctx)


@prop('P17', ['types.cpp'], rules=['per-node, per-cell, Voigt and local counts of every physics', 'only the differentiated field and the result carry derivatives, one component per unknown of that field in a cell', 'the single derivative type is found in any position; two are refused by the compiler'], explanation='Constants and types as the compiler computes them (constant folding of the type-checked program), compared with counts derived from the fields of each physics; a compile-fail witness for combinations that must not build.')
def p17(ctx):
    import spec_types
    spec_types.types(ctx)


@prop('P23', ['fad.cpp'], rules=['a call with derivatives in any one argument type-checks', 'each result equals its defining formula with no derivative dropped'], explanation=EXPL + ' Values with derivatives are kept apart from bare values, so a dropped derivative is a different normal form.')
def p23(ctx):
    import spec_fad
    spec_fad.derivatives(ctx)


@prop('P28', ['state.cpp'], ['alg/ParallelComm.cpp'], rules=['each reduction hands its own operation, the local value and the whole count to the communicator and returns what it delivers'], explanation=EXPL)
def p28(ctx):
    import spec_state
    spec_state.reductions(ctx)


@prop('P29', ['state.cpp'], rules=['state k is what the maps held at the k-th save', 'states carry no history and are copies', 'states that do not exist are refused', 'solution slots'], explanation=EXPL)
def p29(ctx):
    import spec_state
    spec_state.states(ctx)


@prop('P30', ['state.cpp'], ['alg/AmgXConfigs.cpp'], rules=['the text of every named configuration is well-formed and carries the requested tolerance, iteration limit and convergence type', 'names of no configuration are refused'], explanation=EXPL + ' Numbers written to a text stream are kept as symbols inside the text.')
def p30(ctx):
    import spec_state
    spec_state.config(ctx)


@prop('P20', ['assembly.cpp'], rules=['a gathered entry is the value of the degree of freedom the mesh names', 'an assembled entry is its old value plus every contribution of the cells that touch it, once', 'independent variables are numbered by their place in the cell', 'nothing but the result is written'], explanation=EXPL)
def p20(ctx):
    import spec_mesh
    spec_mesh.gathers(ctx)
    spec_mesh.scatter(ctx)


@prop('P21', ['assembly.cpp'], rules=['gradients are those of the linear basis and volumes the absolute Jacobian determinant, for any vertex positions', 'nothing but the result is written'], explanation=EXPL)
def p21(ctx):
    import spec_mesh
    spec_mesh.geometry(ctx)


@prop('P25', ['assembly.cpp'], rules=['rows and columns are the vertices that share a cell, sorted, with the diagonal', 'the entry found couples the two degrees of freedom'], explanation=EXPL)
def p25(ctx):
    import spec_mesh
    spec_mesh.structure(ctx)


@prop('P22', ['materials.cpp'], sources=['LinearElasticMaterial.cpp', 'IsotropicLinearElasticMaterial.cpp', 'CubicLinearElasticMaterial.cpp', 'OrthotropicLinearElasticMaterial.cpp'], rules=['stiffness entries as functions of the constants of the deck, orthotropic ones as the inverse of the compliance', 'optional entries and their defaults', 'incomplete and unstable decks are refused'], explanation=EXPL)
def p22(ctx):
    import spec_elastic
    spec_elastic.materials(ctx)
