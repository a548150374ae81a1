import sys; sys.path.insert(0,'/verif/sa')
import fe,contracts
from fe import walk
g=fe.Gen()
for rel in fe.sources():
    tu=fe.TU(rel,g); sp=contracts.spec_for(rel); d=contracts.PER_TU.get(rel,{})
    called=set(); addr=set()
    for f in tu.functions.values():
        if not f.body: continue
        cal=set()
        for n in walk(f.body):
            if n.k=='CallExpr':
                c=fe.callee(n)
                if c: called.add(c)
                x=n.c[0]
                while x.k!='DeclRefExpr' and x.c: x=x.c[0]
                cal.add(id(x))
            if n.k=='DeclRefExpr' and n.val=='FunctionDecl' and id(n) not in cal: addr.add(n.name)
    for f in tu.functions.values():
        if f.file!=rel or not f.body: continue
        h=sp.handler(f.name)
        if f.static and not h and f.name not in d.get('modes',{}) :
            print(rel,f.name,'inlined' if f.name in called else 'UNCALLED','addr' if f.name in addr else '')
        elif f.name in d.get('skip',()): print(rel,f.name,'SKIP')
        elif contracts.modes_for(rel,f,sp) is None: print(rel,f.name,'NOMODES')
g.close()
