import sys; sys.path.insert(0,'/verif/sa')
import fe,engine,own,contracts,collections
g=fe.Gen(); tu=fe.TU(sys.argv[1],g); sp=contracts.spec_for(sys.argv[1])
line=int(sys.argv[4]); keys=[]; tot=collections.Counter()
o=engine.Engine.widen
def wd(self,st,head,node=None):
    o(self,st,head,node)
    tot[node.line]+=1
    if node.line==line:
        keys.append(self.canon(st.copy()))
engine.Engine.widen=wd
try: own.run(tu,sp,sys.argv[2],contracts.modes_for(sys.argv[1],tu.functions[sys.argv[2]],sp)[1], '',[],maxsteps=int(sys.argv[3]))
except engine.Budget: print('budget')
g.close()
print(tot.most_common(20))
print(len(keys),len(set(keys)))
ks=list(dict.fromkeys(keys))
c=collections.Counter()
for k in ks:
    for x in set(map(repr,k[0])): c[x]+=1
for x,v in sorted(c.items(), key=lambda t:-t[1]):
    if v<len(ks): print(v,x[:300])
