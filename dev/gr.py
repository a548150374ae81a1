import sys; sys.path.insert(0,'/verif/sa')
import fe,engine,own,contracts,grammar
g=fe.Gen(); tu=fe.TU('lib/parse.y',g); sp=contracts.spec_for('lib/parse.y')
fs,miss,rules,acts=grammar.analyse(tu,sp,g,lambda:[own.Tags()])
print(len(fs),miss,len(rules),len(acts))
for x in fs:
    try: e=x()
    except Exception:
        import traceback; print(traceback.format_exc()[-600:]); continue
    print(e.cur_name,len(e.violations), {k:v for k,v in e.stats.items() if k in('stmts','capped','unknown') and v})
    for v in e.violations.values():
                print('   %s %s:%s %s [%s]\n        %s'%(v['rule'],v['file'],v['line'],v['msg'],v['function'],v['path'][-170:]))
g.close()
