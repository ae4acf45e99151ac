"""Derivatives: the kernels are evaluated with one argument (and the results) holding values with derivatives.  Arithmetic
on such values carries the derivatives along; reading the bare value drops them, and is kept apart in the normal form as
val(.), so that a result agrees with its defining formula only if every derivative arrived."""
import os, re, subprocess
from core import *
from execu import bare, isval
import extract
import spec_cell, spec_design

SPEC = dict(spec_design.SPEC, **spec_cell.SPEC)


def failing(unit):
    """entry points of the unit that the compiler front end refuses, with the first error of each"""
    u = os.path.join(extract.VERIF, 'drivers', unit)
    r = subprocess.run(['clang++', '-fsyntax-only', '-ferror-limit=0', '-w', '-ftemplate-backtrace-limit=0'] + extract.flags() + [u], capture_output=True, text=True, timeout=600)
    lines = open(u).read().split('\n')
    bad = {}
    err = ''
    for l in r.stderr.split('\n'):
        if ' error: ' in l:
            err = l.replace(extract.REPO + '/', '')
        for n in re.findall(re.escape(unit) + r':(\d+):', l):
            for f in re.findall(r'\b(d_\w+)(?:##|\()', lines[int(n) - 1]):
                bad.setdefault(f, err)
    return bad


def derivatives(ctx):
    bad = base = None
    if any(e for e, l in ctx.prog.logs.values()):
        bad = failing('fad.cpp')
        if bad:
            base = dict(failing('cell.cpp'), **failing('design.cpp'))
    names = sorted(n for n in ctx.fns if '__' in n)
    ctx.counts['entry points'] = len(names)

    def one(name):
        b, arg = name.split('__')
        s = SPEC[b]
        if bad and name in bad:
            pre = re.sub(r'(_\d+)+$', '', b)
            if any(k.startswith(pre) for k in base):
                ctx.add(name, None, 'the plain call does not type-check either')
            else:
                ctx.add(name, False, 'with derivatives in %s the call no longer type-checks: %s' % ('all arguments' if arg == 'all' else "'%s'" % arg, bad[name][:240]), bad[name].split(': error')[0])
            return
        cs = ctx.call(name, ext=s['ext'], ranges=spec_cell.RANGES_DEFAULT, cfg={'ad': True, 'nobounds': True})
        if cs is None or cs.threw:
            return
        for v, cells in s['out'].items():
            for idx, e in cells.items():
                carried(name + ':%s(%s)' % (v, ','.join(str(i) if isinstance(i, int) else estr(E(i)) for i in idx)), cs.val(v, *idx), e, cs.where(v, idx))
        if s['ret'] is not None:
            carried(name + ':return', cs.ret, s['ret'], cs.where())

    def carried(oid, got, want, where):
        if isinstance(got, Expr):
            if has_top(got):
                ctx.add(oid, None, 'value not tracked', where)
                return
            if not any(isval(ATOMS[a]) for a in all_atoms(got)):
                ctx.add(oid, True, 'every value that enters the result enters with its derivatives', where)
                return
            want = bare(got)
        ctx.eq(oid, got, want, where)
    ctx.parallel([lambda n=n: one(n) for n in names])
