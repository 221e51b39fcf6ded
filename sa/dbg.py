import sys, front, engine, time
from terms import pp, pplits
t=time.time()
mods,dig,files=front.load()
e=engine.Engine(mods,dig)
print('loaded',round(time.time()-t,1), list(e.modenv))
import collections
def show(q, limit=40):
    f=e.require(q)
    t=time.time()
    import terms
    info=e.funcs[f[1]] if f[0]=='func' else e.funcs[(f[1])[1]] if f[0] in('cm','sm','prop') else None
    if f[0]!='func': f=f[1]
    args=[('s',n) for p in info.node.args.args for n in engine.target_names(p)]
    if info.cls and args:
        try:
            cid=e.cid(q.rsplit('.',1)[0]); e.types[args[0]]=cid
        except Exception: pass
    if info.node.args.vararg: args.append(('star',('s','args')))
    kw=[('**',('s','kw'))] if info.node.args.kwarg else []
    try:
        ps=e.run(f,args,kw,consume=True)
    except engine.Blowup as x:
        print('BLOWUP',q,x); return
    print('==',q,len(ps),'paths',round(time.time()-t,2))
    if limit:
        for p in ps[:limit]:
            print('  ',pplits(p.lits),'->',p.kind,pp(p.value))
            for ev in p.ev:
                if ev.kind in('loop',):
                    print('      loop',pp(ev.args[0].key))
                    for l,evs,c,u in ev.args[0].paths:
                        print('         ',pplits(l),'ctl',c and c[0], [ (x.kind,pp(x.fn) if x.fn else '',[pp(a) for a in (x.kw if x.kind in('yield',) else x.args) if isinstance(a,tuple)]) for x in evs])
                else:
                    print('      ',ev.kind,ev.fn and pp(ev.fn),[pp(a) if isinstance(a,tuple) else a for a in (ev.kw if ev.kind in ('yield','setattr') and ev.kw else ev.args)], ev.fq)
if len(sys.argv)>1:
    for q in sys.argv[1:]:
        if q=='ALL':
            for k,i in sorted(e.funcs.items(),key=lambda x:x[1].qual):
                if i.qual.startswith("prelude") or e.find(i.qual) is None: continue
                try: show(i.qual,0)
                except Exception as x:
                    import traceback
                    print('EXC',i.qual,repr(x)[:200]); traceback.print_exc(limit=-2)
        else: show(q)
