import sys,json,collections; sys.path.insert(0,'/verif')
from pa import engine, isa as I, suite, spec
from concurrent.futures import ProcessPoolExecutor
def go(a):
    n,part,parts=a
    D=engine.Dump(json.load(open('/tmp/core/work/%s.json'%n))); isa=I.get(D)
    s=collections.Counter()
    ts=suite.tasks(D)[part::parts]
    ex={}
    for t in ts:
        try: c=suite.run_task(D,isa,t)
        except Exception as e:
            k=('EXC',repr(e)[:200]); s[k]+=1; ex.setdefault(k,t.name); continue
        for v in c.viol:
            k=(v[0],v[1][:150],v[2][-60:]); s[k]+=1; ex.setdefault(k,t.name)
        for k,x in c.obl.items(): s[('obl',k)]+=x
    return n,s,ex
jobs=[(n,p,8) for n in sys.argv[1:] for p in range(8)]
R=collections.defaultdict(collections.Counter); EX={}
with ProcessPoolExecutor(8) as p:
    for n,s,ex in p.map(go,jobs):
        R[n].update(s); EX.update({(n,)+k:v for k,v in ex.items()})
for n in R:
    print(n,{k[1]:v for k,v in R[n].items() if k[0]=='obl'})
    for k,v in sorted(R[n].items(),key=str):
        if k[0]!='obl': print('   ',v,k,EX[(n,)+k])
