import sys; sys.path.insert(0,'/verif/sa')
import fe,engine,own,contracts,collections
# dump differing keys at a line
g=fe.Gen(); tu=fe.TU(sys.argv[1],g); sp=contracts.spec_for(sys.argv[1])
line=int(sys.argv[4]); keys=[]
o=engine.Engine.loop
def lp(self,n,states,*a):
    if n.line==line:
        for s in states: keys.append(self.canon(s))
    return o(self,n,states,*a)
engine.Engine.loop=lp
try: own.run(tu,sp,sys.argv[2],contracts.modes_for(sys.argv[1],tu.functions[sys.argv[2]],sp)[1], '',[],maxsteps=int(sys.argv[3]))
except engine.Budget: print('budget')
g.close()
print(len(keys),len(set(keys)))
ks=list(dict.fromkeys(keys))
def flat(k): return set(map(repr,k[0]))
c=collections.Counter()
for k in ks:
    for x in flat(k): c[x]+=1
for x,v in sorted(c.items(), key=lambda t:-t[1]):
    if v<len(ks): print(v,x[:300])
