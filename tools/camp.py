"""mutation campaign: camp.py FILE CFG[,CFG..] [count] [seed]"""
import sys, os, re, random, subprocess, json, shutil, time
sys.path.insert(0, '/verif')
import concurrent.futures as cf
SRC = '/repo'
def mutants(path):
    lines = open(os.path.join(SRC, path)).read().split('\n')
    out = []
    intest = False
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r'mod tests', s) : break
        if s.startswith('//') or s.startswith('#') or not s: continue
        if 'debug_assert' in s or 'static_assert' in s: continue
        code = l.split(' // ')[0]
        def add(new, what):
            if new != l: out.append((i, new, what))
        for a, bs in (('Ordering::SeqCst', ['Ordering::AcqRel' , 'Ordering::Relaxed']), ('Ordering::AcqRel', ['Ordering::Acquire', 'Ordering::Release']), ('Ordering::Acquire', ['Ordering::Relaxed']), ('Ordering::Release', ['Ordering::Relaxed'])):
            for b in bs:
                for m in re.finditer(re.escape(a) + r'\b', code): add(l[:m.start()] + b + l[m.end():], '%s->%s' % (a, b))
        for a, b in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' >= ', ' > '), (' > ', ' >= '), (' <= ', ' < '), (' && ', ' || '), (' || ', ' && '), ('wrapping_add', 'wrapping_sub'), ('wrapping_sub', 'wrapping_add'), (' + ', ' - '), (' - ', ' + '), (' & ', ' | '), (' | ', ' & '), (' ^ ', ' | '), (' << ', ' >> '), (' >> ', ' << '), ('true', 'false'), ('false', 'true'), ('is_some', 'is_none'), ('.lo', '.hi'), ('.hi', '.lo'), ('_lo', '_hi'), ('_hi', '_lo'), ('success', 'failure'), ('failure', 'success'), ('current', 'new'), ('new', 'current'), ('Ok(', 'Err('), ('Err(', 'Ok('), ('acquire', 'release'), ('release', 'acquire'), ('nostack, preserves_flags', 'nostack, nomem, preserves_flags'), ('inout(', 'in('), ('inlateout(', 'in('), ('lateout(', 'in('), ('out(', 'lateout('), ('inout(', 'inlateout('), ('=> _', ''), ('max', 'min'), ('min', 'max'), ('add', 'sub'), ('and', 'or'), ('not(', '('), ('"a"', '""'), ('"l"', '""'), ('aq', ''), ('rl', ''), ('ne ', 'eq '), ('eq ', 'ne '), ('lo16', 'hi16')):
            for m in re.finditer(re.escape(a), code): add(l[:m.start()] + b + l[m.end():], '%s->%s' % (a, b))
        for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', code):
            add(l[:m.start()] + str(int(m.group()) + 1) + l[m.end():], 'const+1')
        for m in re.finditer(r'0x[0-9a-fA-F_]+', code):
            add(l[:m.start()] + hex(int(m.group().replace('_', ''), 16) ^ 1) + l[m.end():], 'const^1')
        if re.search(r'!(\w)', code) and 'macro' not in code:
            for m in re.finditer(r'(?<!\w)!(?=\w)', code): add(l[:m.start()] + l[m.end():], 'drop !')
        if s.endswith(';') and not re.match(r'(let|use|pub|return|static|const|type|unsafe impl|impl|mod|extern|fn|unsafe fn)\b', s): add('', 'delete stmt')
        if re.match(r'^(concat!\()?".*",?$', s) or re.match(r'^concat!\(.*\),$', s): add('', 'delete asm line')
        if re.match(r'^(in|out|inout|lateout|inlateout)\(.*\).*,$', s) and ' _' in s: add('', 'delete operand')
    seen, r = set(), []
    for i, new, w in out:
        if (i, new) not in seen:
            seen.add((i, new)); r.append((i, new, w))
    return lines, r
WORK = '/tmp/mutc'
def run(job):
    idx, path, cfgs, i, new, what, old = job
    d = '%s/w%d' % (WORK, idx)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', SRC, d], check=True)
    p = os.path.join(d, path)
    ls = open(p).read().split('\n'); ls[i] = new
    open(p, 'w').write('\n'.join(ls))
    env = dict(os.environ, PA_REPO=d)
    try:
        r = subprocess.run([sys.executable, '-B', '/tmp/mutc/one.py', ','.join(cfgs)], env=env, capture_output=True, text=True, timeout=900)
        o = (r.stdout.strip().split('\n') or [''])[-1]
        if not o: o = 'CRASH ' + r.stderr[-200:].replace('\n', ' ')
    except subprocess.TimeoutExpired:
        o = 'TIMEOUT'
    shutil.rmtree(d, ignore_errors=True)
    return (path, i + 1, what, old.strip()[:90], new.strip()[:90], o)
if __name__ == '__main__':
    path, cfgs = sys.argv[1], sys.argv[2].split(',')
    cnt = int(sys.argv[3]) if len(sys.argv) > 3 else 40
    random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    rng = tuple(map(int, sys.argv[5].split('-'))) if len(sys.argv) > 5 else None
    lines, ms = mutants(path)
    if rng: ms = [m for m in ms if rng[0] <= m[0] + 1 <= rng[1]]
    random.shuffle(ms)
    jobs = [(os.getpid() * 1000 + k, path, cfgs, i, new, w, lines[i]) for k, (i, new, w) in enumerate(ms[:cnt])]
    log = open('/tmp/mutc/log', 'a')
    t = time.time(); st = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for r in ex.map(run, jobs):
            k = r[5].split()[0]; st[k] = st.get(k, 0) + 1
            log.write('\t'.join(map(str, r)) + '\n'); log.flush()
            if k in ('SURVIVED', 'CRASH', 'TIMEOUT'): print(r[0].split('/')[-1], r[1], r[2], '|', r[3], '|', r[4], '|', r[5][:150] if k != 'SURVIVED' else '', flush=True)
    print(path, len(ms), 'possible', st, round(time.time() - t), 's', flush=True)
