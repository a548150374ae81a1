"""dev/mon.py hook rels [funcs]: run one monitor and print its findings only"""
import sys; sys.path.insert(0,'/verif/sa')
import fe, core, mon, own
hook=sys.argv[1]; rels=sys.argv[2].split(','); fs=set(sys.argv[3:])
core.load_all(rels)
rs,non=core.ownership(rels,(hook,),(lambda r,f:f in fs) if fs else None)
LIFE={'leak','unowned','over-release','double-release','use-after-release','dangling','gc-edge','tag','uninit-field','uninit-read','null-use','null-return'}
for r in rs:
    print(r['rel'],r['func'],r['status'],r.get('why',''),'%.1f'%r.get('wall',0),{k:v for k,v in r['stats'].items() if k in('obligations','stagecalls','stmts','capped')}, 'sampled' if r.get('sampled') else '')
    for v in r['violations']: print('    ','(life)' if v['rule'] in LIFE else '***',v['rule'],v['file'],v['line'],v['msg'],'\n           ',v['path'][-300:])
core.close()
