"""Freeze the signatures the contracts were written for."""
import sys, json; sys.path.insert(0,'/verif/sa')
import fe, contracts
from spec import HANDLERS
g=fe.Gen(); out={}
for rel in fe.sources():
    tu=fe.TU(rel,g); d=contracts.PER_TU.get(rel,{})
    names=set(HANDLERS)|set(contracts.GLOBAL)|set(d.get('contracts',{}))|set(d.get('modes',{}))
    for f in tu.protos.values():
        if f.name in names and f.file and not f.file.startswith('/usr'):
            out.setdefault(f.name,set()).add(f.type)
g.close()
json.dump({k:sorted(v) for k,v in sorted(out.items())}, open('/verif/sa/signatures.json','w'), indent=0)
print(len(out))
