import sys; sys.path.insert(0,'/verif')
from gk.interp import Program
from gk import oblig
p=Program('/verif/.build/dump/obs.lib.json')
for n,k in oblig.names(p, sys.argv[1]):
    if len(sys.argv)>2 and sys.argv[2] not in n: continue
    r=oblig.run_one(p,n,k)
    print(r.status, n, r.detail[:260], r.where or "", "%.1fs"%r.time, r.stats)
