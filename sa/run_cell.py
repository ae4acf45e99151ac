import sys
from core import *
import spec_cell
def go(ctx, groups, only=None):
    for name, s in spec_cell.SPEC.items():
        if groups and s['group'] not in groups: continue
        if only and only not in name: continue
        cs = ctx.call(name.split('@')[0], ext=s['ext'], ranges=spec_cell.RANGES_DEFAULT)
        if cs is None: continue
        ctx.outputs(cs, s['out'], oid=name, known=s.get('known'))
        if s['ret'] is not None:
            ctx.eq(name+':return', cs.ret, s['ret'], cs.where())
if __name__=='__main__':
    ctx=Ctx('X00')
    go(ctx, sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1] else None, sys.argv[2] if len(sys.argv)>2 else None)
    W=int(os.environ.get('W','90'))
    for o in ctx.obl:
        if o[1] is not True: print(o[1],o[0],'|',o[3],'|',str(o[2])[:W])
    import collections; print(collections.Counter(o[1] for o in ctx.obl), ctx.notes, round(time.time()-ctx.t0,1))
    for e in ctx.case_errors[:3]: print(e)
