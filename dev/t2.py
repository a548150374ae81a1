import sys, time; sys.path.insert(0,'/verif/sa')
import fe, engine, spec, own, contracts
from multiprocessing import Pool
def go(rel):
    import io
    out=[]
    g=fe.Gen()
    try:
        t0=time.time()
        tu=fe.TU(rel,g)
        sp=contracts.spec_for(rel)
        d=contracts.PER_TU.get(rel,{})
        for f in tu.functions.values():
            if f.file!=('parse.tab.c' if 0 else rel) and 'parse.y' not in rel: continue
            if sys.argv[2:] and f.name not in sys.argv[2:]: continue
            if not f.body: continue
            h=sp.handler(f.name)
            if f.static and not h and f.name not in d.get('modes',{}) and not sys.argv[2:]:
                e=engine.Engine(tu,sp)
                continue
            if f.name in d.get('skip',()): continue
            m=contracts.modes_for(rel,f,sp)
            if m is None:
                out.append('  -- %s: no modes'%f.name); continue
            t=time.time()
            try:
                e=own.run(tu,sp,f.name,m[1],m[0],[own.Tags()])
            except engine.Budget:
                out.append('%s BUDGET'%f.name); continue
            except Exception as x:
                import traceback
                out.append('%s EXC %s'%(f.name,traceback.format_exc()[-400:])); continue
            out.append('%s%s: %d viol, %.2fs, %s'%(f.name,m,len(e.violations),time.time()-t,{k:v for k,v in e.stats.items() if k in('stmts','capped','unknown') and v}))
            for v in e.violations.values():
                out.append('   %s %s:%s %s [%s]\n        %s'%(v['rule'],v['file'],v['line'],v['msg'],v['function'],v['path'][-170:]))
    finally: g.close()
    return rel,out
if __name__=='__main__':
    rels=fe.sources() if sys.argv[1]=='all' else sys.argv[1].split(',')
    with Pool(8) as p:
        for rel,out in p.imap_unordered(go,rels):
            print('##',rel); print('\n'.join(out))
