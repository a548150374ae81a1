import sys; sys.path.insert(0,'/verif/sa')
import fe, core, lint, time
rels=sys.argv[2].split(',') if len(sys.argv)>2 else fe.sources()
core.load_all(rels)
t0=time.time()
rs=getattr(lint,sys.argv[1])({r:core.tu(r) for r in rels})
for r in rs:
    for v in r['violations']: print(v['rule'],v['file'],v['line'],v['function'],v['msg'])
print(len(rs), sum(r['stats'].get('obligations',0) for r in rs),'%.1f'%(time.time()-t0))
core.close()
