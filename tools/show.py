import sys; sys.path.insert(0,'/verif')
from sa.repo import *; from sa.vf import *
import os
r=Repo(os.environ.get("VERIF_REPO","/repo"))
q=[x for x in r.funcs if x.endswith(sys.argv[1])][0]
g=analyse(r,q,inline=sys.argv[2:])
for e in g.events:
    print(e.i,e.kind,e.where(),'' if e.node is None else show(e.node)[:300], '' if e.kind not in('store_attr','store_sub') else str(show(e.x[0]))+'.'+str(e.x[1])[:60],' PC:', [(show(c)[:60],p,t) for c,p,t in e.pc], [c[:2] for c in e.ctx if c[0]!='inline'])
print('RET',show(g.ret()))
