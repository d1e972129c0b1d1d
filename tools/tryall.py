import sys; sys.path.insert(0,'/verif')
from pa import build, configs
import concurrent.futures as cf, tempfile, time, os
work='/tmp/core/work'; os.makedirs(work,exist_ok=True)
build.driver(); build.build_script(work)
def go(c):
    t=time.time()
    try:
        o,e=build.dump(c,work)
        return c['name'], (os.path.getsize(o) if o else None), e[-600:], time.time()-t
    except Exception as ex:
        return c['name'],None,str(ex)[-900:],time.time()-t
names=sys.argv[1:]
cs=[c for c in configs.ALL if not names or c['name'] in names]
with cf.ThreadPoolExecutor(8) as ex:
    for n,s,e,t in ex.map(go,cs):
        print(n,s,round(t,1)); 
        if s is None or names: print('   ',e)
