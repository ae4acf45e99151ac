#!/usr/bin/env python3
"""Writes drivers/fad.cpp from drivers/cell.cpp: every kernel call site once per argument array, with that array and the
results holding values with derivatives and everything else plain.  Run by hand; the result is committed.
  genfad.py    all variants to stdout
  genfad.py --keep tool/fad_plain.txt > drivers/fad.cpp    without the variants named there: constants the interface declares plain"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import spec_cell, spec_design
SPEC = dict(spec_cell.SPEC)
SPEC.update({k: v for k, v in spec_design.SPEC.items() if not re.search('_par|_set|_pl_u|_seq', k)})
src = ''.join(open(os.path.join(V, 'drivers', f)).read() for f in ('cell.cpp', 'design.cpp'))
src = '\n'.join(l for l in src.splitlines() if not l.startswith(('#include', 'typedef')))
src = src.replace('PLd', 'PL')
txt = subprocess.run(['clang++', '-E', '-P', '-x', 'c++', '-'], input=src, capture_output=True, text=True).stdout
# declared plain by the interface: shape function values, measured data, the stored history of an update
plain = lambda n, p: p == 'N' or SPEC[n]['group'] == 'proj' and p in ('b', 'e') or SPEC[n]['group'] in ('pen', 'weight') and p in ('p', 'mn', 'r', 'unused') and not n.startswith('d_apply_penalty') or n.startswith('d_FreqMisfit') and p == 'a'
skip = lambda n: n.startswith('d_J2_upd')
# these share one type between arguments and are only used with derivatives in all of them
shared = lambda n, p: n.startswith('d_SDResidual') or n.startswith('d_J2_norm') and p == 'q'
drop = set(open(sys.argv[2]).read().split()) if len(sys.argv) > 2 else set()
done = set()
out = ['// Generated by tool/genfad.py: kernel call sites with derivatives in one argument and in the results.', '#include "common.hpp"',
       'typedef Sacado::Fad::SFad<double,4> A0;', 'typedef Plato::ScalarVectorT<A0> A1;', 'typedef Plato::ScalarMultiVectorT<A0> A2;', 'typedef Plato::ScalarArray3DT<A0> A3;', 'typedef Teuchos::ParameterList PL;']
for m in re.finditer(r'(void|S) (d_\w+)\(([^)]*)\)(\{.*?\})(?=\s*(?:void|S) d_|\s*$)', txt, re.S):
    ret, name, params, body = m.groups()
    sp = SPEC.get(name)
    if sp is None or skip(name):
        continue
    ps = [p.strip().rsplit(' ', 1) for p in params.split(',')]
    outs = set(sp['out'])
    for t, p in ps + [['V0', 'all']]:
        if plain(name, p) or p != 'all' and shared(name, p):
            continue
        if p == 'all':
            v = name + '__all'
            if v not in drop:
                q = ', '.join('%s %s' % (('A' + x[1]) if x[0] == 'V' and not plain(name, y) else x, y) for x, y in ps)
                out.append('%s %s(%s)%s' % ('A0' if ret == 'S' else ret, v, q, ' '.join(body.split())))
            continue
        if t not in ('V1', 'V2', 'V3', 'S') or p in outs:
            continue
        v = '%s__%s' % (name, p)
        if v in drop:
            continue
        q = ', '.join('%s %s' % (('A' + x[1]) if (y == p or y in outs) and x[0] == 'V' else 'A0' if y == p else x, y) for x, y in ps)
        out.append('%s %s(%s)%s' % ('A0' if ret == 'S' else ret, v, q, ' '.join(body.split())))
print('\n'.join(out))
