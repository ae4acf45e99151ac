"""Saved states, process reductions and solver configurations."""
import json
from fractions import Fraction as Fr
from core import *
from spec_cell import S


def ci(n, *i):
    return cell(n, tuple(E(k) for k in i))


def ret(ctx, name, want, oid=None, args=None, **kw):
    cs = ctx.call(name, args=args, **kw)
    if cs is None:
        return
    if cs.threw:
        ctx.add(oid or name, False, 'throws on every input', cs.where())
    else:
        ctx.eq((oid or name) + ':return', cs.ret, want, cs.where())


def states(ctx):
    i, j, l = (symb.sym(k, True) for k in 'ijl')
    ij = {'': (), 'v': (i,), 'w': (i, j), 'u': (i, j, l)}
    for k in range(3):
        a = {'k': num(k)}
        ret(ctx, 'd_dm_s', S('s%d' % k), 'state %d scalar' % k, a)
        for c in 'vwu':
            ret(ctx, 'd_dm_' + c, ci('%s%d' % (c, k), *ij[c]), 'state %d %s' % (k, c), a, cfg={'nobounds': 1})
        ret(ctx, 'd_dm_nested', ZERO, 'state %d carries no history' % k, a)
    ret(ctx, 'd_dm_now_s', S('s3'))
    ret(ctx, 'd_dm_live_s', S('s3'))
    for c in 'vwu':
        ret(ctx, 'd_dm_now_' + c, ci(c + '3', *ij[c]), cfg={'nobounds': 1})
    ret(ctx, 'd_dm_kept_s', S('s0'))
    for c in 'vwu':
        ret(ctx, 'd_dm_kept_' + c, ci(c + '0', *ij[c]), cfg={'nobounds': 1})
    ret(ctx, 'd_dm_count', num(3))
    ret(ctx, 'd_dm_nested_now', ZERO)
    for k in (-1, 3, 4, -2, 1000):
        ctx.rejects('state %d of 3 is refused' % k, 'd_dm_bad', args={'k': num(k)}, text='index %d' % k)
    for k in (-1, 0, 1, 7):
        ret(ctx, 'd_dm_none_s', S('s0'), 'nothing saved, index %d' % k, {'k': num(k)})
        ret(ctx, 'd_dm_none_v', ci('v0', i), 'nothing saved, vector, index %d' % k, {'k': num(k)}, cfg={'nobounds': 1})
        ret(ctx, 'd_dm_none_count', ZERO, 'nothing saved, history, index %d' % k, {'k': num(k)})
    for k in (0, 1, 7, 8, 9, 15, 16, 31, 32, 38, 39):
        ret(ctx, 'd_dm_long', S('a') + k, 'forty saves, state %d' % k, {'k': num(k)})
    ret(ctx, 'd_dm_long_count', num(40))
    ret(ctx, 'd_dm_clear_count', ZERO)
    ret(ctx, 'd_dm_clear_live', S('s3'))
    ret(ctx, 'd_dm_clear_v', ci('v3', i), cfg={'nobounds': 1})
    ret(ctx, 'd_dm_clear_again', S('s4'))
    ret(ctx, 'd_dm_clear_again_count', ONE)
    ret(ctx, 'd_dm_copy', S('s1'))
    ret(ctx, 'd_dm_copy_now', S('s3'))
    ret(ctx, 'd_dm_late_count', ZERO)
    ret(ctx, 'd_dm_late_now', ONE)
    ret(ctx, 'd_dm_gone_count', ONE)
    for n in ('1_u', '2_u', '2_v', '3_u', '3_v', '3_a'):
        ret(ctx, 'd_sol' + n, ci(n[2], i, j), cfg={'nobounds': 1})
    ret(ctx, 'd_sol1_size', ZERO)
    ret(ctx, 'd_sol2_size', ZERO)
    ret(ctx, 'd_prob_map', S('x'))
    ret(ctx, 'd_prob_map2', S('x'))
    ret(ctx, 'd_prob_linear', ZERO)
    ctx.rejects('local state of a problem without one', 'd_prob_getlocal', text='getLocalState')
    ctx.rejects('local state set on a problem without one', 'd_prob_setlocal', text='setLocalState')


def reductions(ctx):
    R = lambda k, e: fn('all_' + k, e)
    for k in ('max', 'min', 'sum'):
        ret(ctx, 'd_comm_' + k, R(k, S('x')))
    ret(ctx, 'd_comm_twice', R('sum', S('x')) - R('max', S('y')))
    ret(ctx, 'd_comm_size', symb.sym('comm_size', True))
    ret(ctx, 'd_comm_rank', symb.sym('comm_rank', True))
    v = [S(k) for k in 'abcde'] + [num(7)]
    for n in (0, 1, 2, 5):
        for k in range(6):
            ret(ctx, 'd_comm_all_%d' % n, R('sum', v[k]) if k < n else num(k + 1), 'allReduce of %d, entry %d' % (n, k), {'k': num(k)})
            ret(ctx, 'd_comm_allin_%d' % n, v[k], 'allReduce of %d, source entry %d' % (n, k), {'k': num(k)})


    cs = ctx.call('d_comm_big', ext={'x': [1203], 'y': [1203]})
    if cs is not None and not cs.threw:
        for k in BIG:
            ctx.eq('allReduce of 1200, entry %d' % k, cs.val('y', k), R('sum', ci('x', k)), cs.where())
        for k in (1200, 1201, 1202):
            ctx.eq('allReduce of 1200, entry %d is left alone' % k, cs.val('y', k), ci('y', k), cs.where())


# what each name stands for: solver, (path, value) pairs of the method
NAMES = {'eaf': [('solver', 'PCG'), ('preconditioner.solver', 'AMG'), ('preconditioner.cycle', 'CGF')],
         'default': [('solver', 'PBICGSTAB'), ('preconditioner.solver', 'AMG'), ('preconditioner.cycle', 'W')],
         'pcg_noprec': [('solver', 'PCG'), ('preconditioner.solver', 'NOSOLVER')],
         'pcg_v': [('solver', 'PCG'), ('preconditioner.solver', 'AMG'), ('preconditioner.cycle', 'V')],
         'pcg_w': [('solver', 'PCG'), ('preconditioner.solver', 'AMG'), ('preconditioner.cycle', 'W')],
         'pcg_f': [('solver', 'PCG'), ('preconditioner.solver', 'AMG'), ('preconditioner.cycle', 'F')],
         'agg_cheb4': [('solver', 'AMG'), ('algorithm', 'AGGREGATION'), ('smoother.solver', 'CHEBYSHEV'), ('smoother.chebyshev_polynomial_order', 4), ('cycle', 'V')]}


class Dup(Exception):
    pass


def nodup(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Dup(k)
        d[k] = v
    return d


BIG = (0, 1, 7, 8, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 1198, 1199)


def leaves(v, c=True):
    """the texts a gated value can be, each with its condition"""
    if type(v).__name__ == 'Choice':
        return leaves(v.a, cand(c, v.c)) + leaves(v.b, cand(c, cnot(v.c)))
    return [(c, v)]


def reachable(c):
    if c is True or c is False:
        return c
    try:
        with limit(10):
            return differ(ite(c, ONE, ZERO), ZERO)[0] is False
    except Timeout:
        return False


def one(ctx, cs, oid, f, name, ab, method, cond, text):
    W = 'src/alg/AmgXConfigs.cpp'
    if not isinstance(text, str) or '\ufffd' in text:
        ctx.add(oid, None, 'text not tracked', cs.where())
        return
    tok = cs.x.cfg['tokens']
    txt = text
    for k in range(len(tok)):
        txt = txt.replace('\u27e6%d\u27e7' % k, '{"$":%d}' % k)
    try:
        d = json.loads(txt, object_pairs_hook=nodup, strict=False)
    except Dup as e:
        ctx.add(oid, False, 'setting %s is given twice in one section' % e, W)
        return
    except ValueError as e:
        ctx.add(oid, False, 'not well-formed: %s near %r' % (e.msg, txt[max(0, e.pos - 40):e.pos + 20]), W)
        return

    def at(path):
        v = d.get('solver') if isinstance(d, dict) else None
        for k in path.split('.'):
            v = v.get(k) if isinstance(v, dict) else None
        return v

    def value(path, want, what):
        v = at(path)
        if isinstance(v, dict) and '$' in v:
            kind, e = tok[v['$']]
            if kind == 'fixed':
                ctx.add('%s:%s' % (oid, path), False, '%s is written with six decimals: a small value becomes zero' % what, W)
                return
            if kind == 'rounded':
                ctx.add('%s:%s' % (oid, path), False, '%s is rounded to fewer than six digits' % what, W)
                return
            v = e
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = num(Fr(repr(v)))
        if not isinstance(v, Expr):
            ctx.add('%s:%s' % (oid, path), False, '%s is %r' % (what, v), W)
            return
        ctx.eq('%s:%s' % (oid, path), ite(cond, v, want), want, W, what)
    when = '' if cond is True else ' when ' + cstr(cond)[:200]
    ctx.add(oid + ':version', isinstance(d, dict) and d.get('config_version') == 2, 'configuration version 2', W)
    c = at('convergence')
    want = 'RELATIVE_INI_CORE' if ab is False else 'ABSOLUTE'
    ctx.add(oid + ':convergence', c == want, 'convergence %r, required %r%s' % (c, want, when), W)
    tol, it = (num(Fr('1e-10')), num(10000)) if f == 'd_amgx_1' else (S('tol'), symb.sym('it', True))
    if name == 'default':
        tol, it = num(Fr('5e-8')), num(1000)
    value('tolerance', tol, 'tolerance')
    value('max_iters', it, 'iteration limit')
    for path, w in method:
        ctx.add('%s:%s' % (oid, path), at(path) == w, '%s is %r, required %r%s' % (path, at(path), w, when), W)


def config(ctx):
    for name, method in NAMES.items():
        for f, ab in (('d_amgx', True), ('d_amgx', False), ('d_amgx_3', None), ('d_amgx_1', None)):
            oid = '%s(%s%s)' % (f, name, '' if ab is None else ', absolute' if ab else ', relative')
            args = {'name': name}
            if ab is not None:
                args['ab'] = ab
            cs = ctx.call(f, args=args, cfg={'tokens': []})
            if cs is None:
                continue
            if cs.threw:
                ctx.add(oid, False, 'the configuration is refused', cs.where())
                continue
            for q, (cond, text) in enumerate(leaves(cs.ret)):
                if reachable(cond):
                    one(ctx, cs, oid if not q else '%s#%d' % (oid, q), f, name, ab, method, cond, text)
    for bad in ('', 'Default', 'DEFAULT', 'pcg', 'pcg_', 'pcg_x', 'pcg_v ', ' pcg_v', 'pcg_vw', 'PCG_V', 'pcg-v', 'eafx', 'ea', 'agg_cheb', 'agg_cheb5', 'agg_cheb44', 'noprec', 'pcg_noprecond', 'amgx.json', 'none'):
        ctx.rejects('refused:%r' % bad, 'd_amgx', args={'name': bad, 'ab': True}, cfg={'tokens': []}, text='configuration %r' % bad)
