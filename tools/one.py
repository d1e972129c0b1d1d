import sys, os, json, tempfile, shutil, io, contextlib
sys.path.insert(0, '/verif')
from pa import build, configs, checks, engine, suite, spec, isa as I
from pa.engine import Unsupported
names = sys.argv[1].split(',')
work = tempfile.mkdtemp(prefix='mc-')
def main():
    build.driver()
    try: build.build_script(work)
    except Exception as e: return 'NOBUILD bs'
    paths = {}
    for n in names:
        try: p, e = build.dump(configs.BY[n], work)
        except build.BuildError as e: p, e = None, str(e)
        if p is None: return 'NOBUILD ' + str(e)[:80].replace('\n', ' ')
        paths[n] = p
    hits = []
    topic = {}
    for k, c in checks.REG.items():
        if type(c).__name__ == 'Ops':
            for t in c.cats: topic.setdefault(t, k)
    # all topics of the operations at once
    for n in names:
        D = engine.Dump(json.load(open(paths[n]))); isa = I.get(D)
        ts = suite.tasks(D)
        ts = [t for t in ts if spec.TyInfo(D, t.root['ty']).size <= configs.BY[n].get('maxsize', 16)]
        for t in ts:
            try: c = suite.run_task(D, isa, t)
            except Unsupported as e: return 'CAUGHT ops undecided %s' % str(e)[:80]
            except Exception as e: return 'CAUGHT ops exc %r' % (str(e)[:80])
            for v in c.viol:
                if v[0] in topic: return 'CAUGHT %s %s' % (topic[v[0]], v[1][:80])
    for k, c in checks.REG.items():
        tn = type(c).__name__
        if tn in ('Ops', 'Combos'): continue
        try: allowed = set(c.configs('thorough')) | set(c.configs('quick'))
        except Exception: allowed = set(names)
        res = []
        for n in names:
            if n not in allowed: continue
            try: r = c.analyse(configs.BY[n], paths[n], 0, 1)
            except Exception as e: return 'CAUGHT %s exc %r' % (k, str(e)[:80])
            r['cfg'] = n; res.append(r)
            if r['viol']: return 'CAUGHT %s %s' % (k, r['viol'][0]['msg'][:80])
        if res:
            more, obl = c.finish(res)
            if more: return 'CAUGHT %s %s' % (k, more[0]['msg'][:80])
    return 'SURVIVED'
try:
    r = main()
finally:
    shutil.rmtree(work, ignore_errors=True)
print(r.replace('\n', ' '))
