import sys; sys.path.insert(0,'/verif/sa')
import fe,engine,own,contracts,cProfile,pstats
rel,fn=sys.argv[1:3]
if len(sys.argv)>3: engine.Engine.MAXSTATES=int(sys.argv[3])
g=fe.Gen(); tu=fe.TU(rel,g); sp=contracts.spec_for(rel,tu)
m=contracts.modes_for(rel,tu.functions[fn],sp)
p=cProfile.Profile(); p.enable()
try:
    e=own.run(tu,sp,fn,m[1],m[0],[own.Tags()])
    print(e.stats, len(e.violations))
except engine.Budget: print('budget')
p.disable()
pstats.Stats(p).sort_stats('tottime').print_stats(25)
g.close()
