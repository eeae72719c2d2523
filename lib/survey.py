import sys,time; sys.path.insert(0,'/verif/lib')
from vp import *
import pickle
N=[int(x) for x in sys.argv[1].split(',')]; modes=[int(x) for x in sys.argv[2].split(',')]; T=float(sys.argv[3]); langs=sys.argv[4].split(',') if len(sys.argv)>4 else None
t=Tree(); bc=t.ir("parse_count.c")
jobs=[(l,n,m) for l in t.languages if not langs or l in langs for n in N for m in modes]
def job(j):
    l,n,m=j
    return osym(bc,"h_count",(t.languages.index(l),n,m),T,merge="parse_,@parser.c",prio="ts,p")
t1=time.time()
with concurrent.futures.ThreadPoolExecutor(8) as ex: res=list(ex.map(job,jobs))
for j,r in zip(jobs,res):
    s="%-22s n=%d m=%d %5.1fs %s%s"%(j[0],j[1],j[2],r['seconds'],'' if not r['incomplete'] else 'INCOMPLETE ',r['fatal'][:100])
    v=r['violations']
    if v or r['fatal'] or r['incomplete'] or r['seconds']>20 or len(jobs)<30:
        print(s, ' | '.join("%s:%s [%s]"%(x['kind'],x['msg'][:40],repr(bytes(x['inputs'].get('b.%d'%i,0) for i in range(j[1])))) for x in v[:2]))
print("total",time.time()-t1)
t.clean()
