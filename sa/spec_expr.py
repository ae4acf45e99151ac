"""Oracle of the expression evaluator: expressions are generated as trees, printed with the fewest parentheses the
documented precedences allow, and the value the source computes for that text is compared with the value of the tree,
for all values of the variables at once."""
import itertools
from fractions import Fraction as Fr
from core import *

PREC = {'+': 2, '-': 2, '*': 3, '/': 3, '^': 4}
FUN = ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'abs')


def V_(n):
    return symb.sym('pl/' + n)


def value(t):
    k = t[0]
    if k == 'v':
        return V_(t[1])
    if k == 'n':
        return num(Fr(t[1]))
    if k == 'pi':
        return num(Fr('3.14159265358979323846'))
    if k == 'neg':
        return -value(t[1])
    if k == 'pos':
        return value(t[1])
    if k in FUN:
        return fn(k, value(t[1]))
    if k == 'bar':
        return fn('abs', value(t[1]))
    if k == 'pow':
        return fn('pow', value(t[1]), value(t[2]))
    if k == 'par':
        return value(t[1])
    if k == 'imp':
        return value(t[1]) * value(t[2])
    if k == 'fact':
        r = 1
        for i in range(1, int(t[1]) + 1):
            r *= i
        return num(r)
    a, b = value(t[1]), value(t[2])
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    if k == '^':
        return fn('pow', a, b)
    if k == '/':
        return ite(cmp(b, '=='), ZERO, a / b) if b.const() is None else a / b
    raise KeyError(k)


def text(t, sp=''):
    k = t[0]
    if k in ('v', 'n'):
        return t[1]
    if k == 'pi':
        return 'PI'
    if k in ('neg', 'pos'):
        s = text(t[1], sp)
        return ('-' if k == 'neg' else '+') + ('(%s)' % s if t[1][0] in PREC else s)
    if k in FUN:
        return '%s(%s%s%s)' % (k, sp, text(t[1], sp), sp)
    if k == 'bar':
        return '|%s|' % text(t[1], sp)
    if k == 'pow':
        return 'pow(%s,%s%s)' % (text(t[1], sp), sp, text(t[2], sp))
    if k == 'par':
        return '(%s)' % text(t[1], sp)
    if k == 'imp':
        return '(%s)%s(%s)' % (text(t[1], sp), sp, text(t[2], sp))
    if k == 'fact':
        return t[1] + '!'
    a, b = text(t[1], sp), text(t[2], sp)
    p = PREC[k]
    q = lambda u: PREC.get(u[0], 9)
    if q(t[1]) < p or (q(t[1]) == p and k == '^') or t[1][0] in ('neg', 'pos') and k == '^':
        a = '(%s)' % a
    if q(t[2]) < p or (q(t[2]) == p and k != '^'):
        b = '(%s)' % b
    return a + sp + k + sp + b


def shapes(leaves, ops):
    """all binary trees over the leaves in order, with every choice of operators"""
    if len(leaves) == 1:
        yield leaves[0]
        return
    for i in range(1, len(leaves)):
        for l in shapes(leaves[:i], ops):
            for r in shapes(leaves[i:], ops):
                for o in ops:
                    yield (o, l, r)


def trees(tier):
    a, b, c, d, e = (('v', n) for n in ('a', 'b', 'c', 'd', 'e'))
    ops = '+-*/^'
    for n in (1, 2, 3, 4):
        yield from shapes([a, b, c, d][:n], ops)
    if tier == 'thorough':
        yield from shapes([a, b, c, d, e], ops)
    for o1 in ops:
        for o2 in ops:
            for u in ('neg', 'pos'):
                if o2 != '^':
                    yield (o1, a, (o2, (u, b), c)) if PREC[o2] > PREC[o1] else (o2, (o1, a, (u, b)), c)
                    yield (o2, (u, a), (o1, b, c)) if PREC[o1] > PREC[o2] else (o1, (o2, (u, a), b), c)
                yield (o2, (o1, a, b), (u, c)) if PREC[o1] >= PREC[o2] and o1 != '^' else (o2, ('par', (o1, a, b)), (u, c))
            yield ('neg', (o1, a, ('par', (o2, b, c))))
            for f in FUN + ('bar',):
                yield (o2, (o1, a, (f, b)), c) if PREC[o1] >= PREC[o2] and o1 != '^' else (o1, a, (o2, (f, b), c))
                yield (f, (o2, (o1, a, b), c))
            yield (o2, ('pow', (o1, a, b), c), d)
            yield (o2, d, ('pow', a, (o1, b, c)))
            yield ('pow', (o1, a, b), (o2, c, d))
    for f in FUN:
        for g in FUN:
            yield (f, (g, a))
        yield ('neg', (f, a))
        yield (f, ('neg', a))
        yield ('pow', (f, a), ('bar', b))
        yield ('bar', ('*', a, ('par', ('-', b, (f, c)))))
    yield ('pow', ('pow', a, b), c)
    yield ('pow', a, ('pow', b, c))
    yield ('pow', ('neg', a), ('neg', b))
    yield ('-', ('bar', a), ('bar', b))
    yield ('*', ('bar', ('-', a, b)), ('bar', c))
    yield ('bar', ('*', a, ('par', ('-', b, ('bar', c)))))
    yield ('bar', ('par', ('-', ('bar', a), b)))
    yield ('par', ('par', ('par', a)))
    yield ('imp', a, b)
    yield ('imp', ('+', a, b), ('-', c, d))
    yield ('+', ('imp', a, b), c)
    yield ('+', c, ('imp', a, b))
    for n in ('2', '10', '2.5', '0.125', '1e3', '1.5e-3', '25e+2', '3.', '12345678', '9876543210', '0.98765432109876543210', '3.14159265358979323846264338327950288', '1' + '0' * 60, '7.0125e-12', '6e0', '0.000000000000000000000000001', '1e15', '4e+08'):
        yield ('n', n)
        yield ('*', ('n', n), a)
        yield ('^', a, ('n', n))
        yield ('-', ('n', n), ('n', '1'))
        yield ('pow', a, ('n', n))
    for n in ('0', '1', '3', '5', '10', '13', '17', '20'):
        yield ('fact', n)
        yield ('*', a, ('fact', n))
        yield ('+', ('fact', n), a)
    for n in ('x_1', '_a', 'B2', 'Temp', 'longname_with_3_parts', 'z' * 60, 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'zyxwvutsrqponmlkjihgfedcba', 'X_0123456789', 'k' + '0' * 40, 'E', 'e9', 'e', 'x__9_Z0'):
        yield ('v', n)
        yield ('+', ('v', n), ('v', n + 'q'))
    yield from long()
    yield ('pi',)
    yield ('*', ('pi',), a)
    yield ('sin', ('*', ('n', '2'), ('pi',)))


def long():
    """chains and nestings much longer than any written by hand"""
    v = [('v', 'abcdfghijklmnoqrstuvwxyz'[i] + ('' if i < 24 else '1')) for i in range(24)]
    for o in '+-*':
        t = v[0]
        for u in v[1:]:
            t = (o, t, u)
        yield t
        t = v[-1]
        for u in reversed(v[:12]):
            t = (o, u, t)
        yield t
    for n in (6, 9, 14):
        t = v[n - 1]
        for u in reversed(v[:n - 1]):
            t = ('^', u, t)
        for o in '+-*':
            yield (o, t, v[n])
            yield ('-', (o, t, v[n]), v[n + 1])
        t = v[0]
        for k in range(n):
            t = (FUN[k % 3], t)
        yield t
        yield ('-', ('*', t, v[1]), v[2])
        t = v[0]
        for k in range(n):
            t = ('-', v[k + 1], ('bar', ('par', t)) if k % 2 else ('par', t))
        yield t
        t = v[0]
        for k in range(n):
            t = ('neg', ('par', ('*', t, v[k + 1])))
        yield ('+', t, v[-1])
        t = v[0]
        for k in range(n):
            t = ('par', t)
        yield ('-', v[1], t)
        yield ('-', t, v[1])
    t = v[0]
    for k in range(20):
        t = ('+-*'[k % 3], t, v[k + 1]) if k % 3 < 2 else ('+', t, ('*', v[k + 1], ('^', v[k + 2], v[k + 3])))
    yield t


def openbar(t):
    """a bar not protected by a parenthesis: another bar around it would read differently"""
    k = t[0]
    if k == 'bar':
        return True
    if k in ('v', 'n', 'pi', 'fact', 'par', 'imp', 'pow') or k in FUN:
        return False
    if k in ('neg', 'pos'):
        return t[1][0] not in PREC and openbar(t[1])
    return any(openbar(u) for u in t[1:])


def nestings(tier):
    """delimiters inside delimiters: every sequence of three enclosures, with every neighbour that has delimiters itself"""
    y, z = ('v', 'y'), ('v', 'z')
    wraps = [lambda t: ('par', t), lambda t: ('bar', ('par', t) if openbar(t) else t), lambda t: ('sin', t), lambda t: ('pow', z, t)]
    if tier == 'thorough':
        wraps += [lambda t: ('pow', t, z), lambda t: ('imp', t, z)]
    near = [lambda t: t, lambda t: ('-', t, y), lambda t: ('-', y, t), lambda t: ('-', ('par', y), t), lambda t: ('-', t, ('par', y)), lambda t: ('-', ('bar', y), t), lambda t: ('-', t, ('bar', y))]
    for w1 in wraps:
        for n1 in near:
            for w2 in wraps:
                for n2 in near:
                    for w3 in wraps if tier == 'thorough' else wraps[:2]:
                        yield w3(n2(w2(n1(w1(('v', 'x'))))))


MALFORMED = ['', '   ', '(', ')', '()', 'a+', '*a', 'a*', '/a', 'a/', '^a', 'a^', '(a', 'a)', '((a)', '(a))', ')a(', '|a', 'a|', '|a+b', '(|a)', '|(a|', '|(a|)', 'a b',
             'a 2', '2 a', '2a', 'a(b)', '(a)b', '2(a)', '3!2', 'a**b', 'a//b', 'a+*b', 'a*/b', '++a', '--a', '+-a', '-+a', 'a,b', '(a,b)', 'pow(a)', 'pow(a,)', 'pow(,a)',
             'pow', 'sin', 'sin()', 'cos', 'tan', 'exp', 'log', 'sqrt', 'abs', 'exp()', 'a sin(b)', '(a)sin(b)', 'a#b', 'a&b', '[a]', '{a}', 'a=b', 'a%b', '$', 'a;', '!', '!a', '||', 'a+()', 'a-', '-', '+',
             '1' * 200, 'v' * 200, '|a||b|', '|a|b', 'a|b|', '|a|(b)', '(a)|b|', 'pow(a,b,c)', '9' * 128]


def expressions(ctx):
    nt = 0
    seen = set()
    jobs = []
    for t in itertools.chain(trees(ctx.tier), nestings(ctx.tier)):
        s = text(t)
        if s in seen:
            continue
        seen.add(s)
        nt += 1
        jobs.append(lambda s=s, t=t: one(ctx, s, value(t)))
        if nt % 7 == 0:
            jobs.append(lambda t=t: one(ctx, text(t, ' '), value(t)))
    a, b = V_('a'), V_('b')
    for s in ('\ta\r+\nb ', '  a  +  b  '):
        jobs.append(lambda s=s: one(ctx, s, a + b))
    for s in MALFORMED:
        jobs.append(lambda s=s: refuse(ctx, s))
    ctx.parallel(jobs)
    ctx.counts['expression_shapes'] = nt
    ctx.counts['malformed_texts'] = len(MALFORMED)


def one(ctx, s, want, name='d_ex_eval'):
    cs = ctx.call(name, args={'s': s})
    if cs is None:
        return
    oid = 'value of "%s"' % s
    if cs.threw:
        ctx.add(oid, False, 'a well-formed expression is refused', 'src/ExpressionEvaluator.cpp')
        return
    for t in cs.x.throws:
        tx = ' '.join(cstr(p) for p in t[0])
        if 'has:pl/' not in tx and not any(has_top(p) for p in t[0]):
            ctx.add(oid, False, 'a well-formed expression is refused when ' + tx[:200], 'src/ExpressionEvaluator.cpp')
    ctx.eq(oid, cs.ret, want, 'src/ExpressionEvaluator.cpp')


def refuse(ctx, s, name='d_ex_check'):
    ctx.rejects('refuses "%s"' % (s if len(s) < 40 else s[:3] + '...'), name, args={'s': s}, text='malformed expression')


def knows(*facts, no=()):
    def pre(x, A):
        x.st.pc = x.st.pc + tuple(boolsym(f) for f in facts) + tuple(cnot(boolsym(f)) for f in no)
    return pre


def histories(ctx):
    a, b, c = V_('a'), V_('b'), V_('c')

    def val(name, oid, want, **kw):
        cs = ctx.call(name, **kw)
        if cs is None:
            return
        if cs.threw:
            ctx.add(oid, False, 'refused', 'src/ExpressionEvaluator.cpp')
        else:
            ctx.eq(oid, cs.ret, want, 'src/ExpressionEvaluator.cpp')
    S2 = [('a', a), ('a-b-c', a - b - c), ('sin(a)*b', fn('sin', a) * b), ('|a|', fn('abs', a)), ('(a+b)*c', (a + b) * c)]
    for s, v in S2:
        for q, _ in S2:
            val('d_ex_again', 'value of "%s" after "%s"' % (s, q), v, args={'s': s, 'q': q})
        for q in ('(', 'a b', 'pow(a', '|a', 'a,b', '#'):
            val('d_ex_afterbad', 'value of "%s" after refused "%s"' % (s, q), v, args={'s': s, 'q': q})
        val('d_ex_deleted', 'nothing is evaluated after deleting "%s"' % s, ZERO, args={'s': s})
    val('d_ex_null', 'no expression evaluates to zero', ZERO)
    # custom materials: the expression stated under the name, else the requested equation of the file
    W = 'src/CustomMaterial.cpp'
    HEAD = 'FITNESS, COMPLEXITY, EQUATION'
    FILES = {'F': [HEAD, '1,2, a+b', '3, 4,a*b', '5,6,a-b*c'], 'G': ['some title', '', HEAD, '0.5,1,b'], 'H': ['a+b', '1,2,a'], 'B': [HEAD, 'a+b'], 'N': None, 'E': [HEAD]}
    EQ = [a + b, a * b, a - b * c]
    has, hasnt = 'has:pl/E', 'has:pl/BingoFile'
    for s, v in S2:
        val('d_cm_named', 'custom expression "%s"' % s, v, cfg={'deck': {'pl/E': s}}, pre=knows(has))
        val('d_cm_named', 'custom expression "%s" wins over a file' % s, v, cfg={'deck': {'pl/E': s, 'pl/BingoFile': 'F'}, 'files': FILES}, pre=knows(has, hasnt))
    f = lambda name, extra={}: dict({'pl/BingoFile': name}, **extra)
    idx = 'is<int>:pl/BingoEquation'
    val('d_cm_named', 'first equation of the file by default', EQ[0], cfg={'deck': f('F'), 'files': FILES}, pre=knows(hasnt, no=(has, idx)))
    val('d_cm_named', 'lines before the header are skipped', b, cfg={'deck': f('G'), 'files': FILES}, pre=knows(hasnt, no=(has, idx)))
    for k in range(3):
        val('d_cm_named', 'equation %d of the file' % k, EQ[k], cfg={'deck': f('F', {'pl/BingoEquation': num(k)}), 'files': FILES}, pre=knows(hasnt, idx, no=(has,)))
        val('d_cm_index', 'requested equation %d of the file' % k, EQ[k], args={'k': num(k)}, cfg={'deck': f('F', {'pl/BingoEquation': num(0)}), 'files': FILES}, pre=knows(hasnt, idx, no=(has,)))
    rej = lambda oid, text, cfg, pre, name='d_cm_named', args=None: ctx.rejects(oid, name, args=args, cfg=cfg, pre=pre, text=text)
    rej('refuses: no expression and no file', 'no equation in the deck', {}, knows(no=(has, hasnt)))
    rej('refuses: empty expression', 'empty expression', {'deck': {'pl/E': ''}}, knows(has, no=(hasnt,)))
    for s in ('(a', 'a+', 'a b', 'pow(a)'):
        rej('refuses: custom expression "%s"' % s, 'malformed expression', {'deck': {'pl/E': s}}, knows(has))
    for k, t in (('N', 'file cannot be opened'), ('H', 'no header line'), ('B', 'equation line without a comma'), ('E', 'no equation after the header')):
        rej('refuses: file %s' % k, t, {'deck': f(k), 'files': FILES}, knows(hasnt, no=(has, idx)))
    rej('refuses: equation beyond the file', 'equation index beyond the file', {'deck': f('F', {'pl/BingoEquation': num(3)}), 'files': FILES}, knows(hasnt, idx, no=(has,)))
    rej('refuses: requested equation beyond the file', 'equation index beyond the file', {'deck': f('F'), 'files': FILES}, knows(hasnt, no=(has, idx)), 'd_cm_index', {'k': num(7)})
