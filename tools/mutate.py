#!/usr/bin/env python3
"""tools/mutate.py OUT.tsv [--procs N] [--files lace.c,lace.sh] [--secs S] [--only REGEX] [--stride K,R]
Development aid: systematic small mutations of src/lace.c and src/lace.sh, each tried in a scratch copy under /tmp/mut
against the simulator only.  Survivors (equivalent, or missed) are listed for manual analysis."""
import os, re, subprocess, sys, shutil, json, time, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(n, d): return args[args.index(n)+1] if n in args else d
OUT = args[0]; PROCS = int(opt('--procs', '4')); FILES = opt('--files', 'lace.c,lace.sh').split(','); SECS = float(opt('--secs', '4')); ONLY = opt('--only', None)
LO, HI = map(int, opt('--lines', '0,99999').split(','))
SK, SR = map(int, opt('--stride', '1,0').split(','))
SRC = '/repo/src'
BASE = '/tmp/mut'
def muts(text):
    """yields (line number, description, new text)"""
    L = text.split('\n'); skip = 0; incomment = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('/*'): incomment = True
        c = incomment
        if '*/' in s: incomment = False
        if c or not s or s.startswith(('//', '*', '#', 'echo', 'fi', 'done')): continue
        code = l.split('//')[0]
        tail = l[len(code):]
        def out(d, new): return (i+1, d, '\n'.join(L[:i] + [new + tail] + L[i+1:]))
        bs = code.rstrip().endswith('\\'); body = code.rstrip()[:-1].rstrip() if bs else code.rstrip(); end = ' \\' if bs else ''
        ind = re.match(r'\s*', code)[0]
        # statement deletion
        if body.endswith(';') and not re.match(r'\s*(static|extern|typedef|struct|return|const|int|void|uint32_t|uint64_t|size_t|Task|TD_|WorkerP|Worker|hwloc_\w+_t|unsigned|char|double|\}|TailSplit\w*)\b', body) and '=' not in body.split('(')[0].replace('==','') or re.match(r'\s*[\w>\-\.\[\]\*]+\s*(\+|-|\|)?=[^=].*;$', body) and not re.match(r'\s*(int|Task|size_t)\b', body):
            yield out('delete', ind + ';' + end)
        # one statement of several on a line is left alone
        for a, b in (('memory_order_release','memory_order_relaxed'),('memory_order_acquire','memory_order_relaxed'),('memory_order_acq_rel','memory_order_relaxed'),('memory_order_seq_cst','memory_order_relaxed'),('memory_order_seq_cst','memory_order_release')):
            for m in re.finditer(a, code): yield out('%s->%s' % (a[13:], b[13:]), code[:m.start()] + b + code[m.end():])
        for m in re.finditer(r'(?<![<>=!\-])(==|!=|<=|>=|<|>)(?![<>=])', code):
            if '#include' in code or code[max(0,m.start()-1)] == '-': continue
            o = m[1]
            if o in '<>' and (not re.search(r'[\w\)\]] $', code[:m.start()]+'') and not code[m.start()-1].isalnum()): continue
            for n in {'==':['!='],'!=':['=='],'<':['<='],'<=':['<'],'>':['>='],'>=':['>']}[o]: yield out('%s->%s' % (o, n), code[:m.start()] + n + code[m.end():])
        for m in re.finditer(r'&&|\|\|', code): yield out(m[0] + ' flipped', code[:m.start()] + ('||' if m[0] == '&&' else '&&') + code[m.end():])
        for m in re.finditer(r'\b(if|while) \((.+)\)( \{|\s|$)', code):
            yield out('%s(0)' % m[1], code[:m.start(2)] + '0 && (' + m[2] + ')' + code[m.end(2):])
            if m[1] == 'if': yield out('if(1)', code[:m.start(2)] + '1 || (' + m[2] + ')' + code[m.end(2):])
        for m in re.finditer(r'(?<![\w.])(0|1|2)(?![\w.])', code):
            if re.search(r'(LINE_SIZE|char|uint|pad|\[)', code[:m.start()][-14:]): continue
            for n in {'0':['1'],'1':['0','2'],'2':['1']}[m[1]]: yield out('%s->%s' % (m[1], n), code[:m.start()] + n + code[m.end():])
        for m in re.finditer(r'(?<=[\w\)]) ?([+\-]) ?(?=[\w\(])', code):
            if code[m.end(1):m.end(1)+1] == '>' : continue
            yield out('%s flipped' % m[1], code[:m.start(1)] + ('-' if m[1] == '+' else '+') + code[m.end(1):])
        for m in re.finditer(r'\+\+|--', code): yield out(m[0] + ' flipped', code[:m.start()] + ('--' if m[0] == '++' else '++') + code[m.end():])
        # swap with the next line
        if i+1 < len(L):
            n = L[i+1]; nb = n.split('//')[0].rstrip(); nb = nb[:-1].rstrip() if nb.endswith('\\') else nb
            if body.endswith(';') and nb.endswith(';') and nb.strip() and not re.match(r'\s*(return|#|break|continue)', nb) and not re.match(r'\s*(return|break|continue|int|Task|size_t|WorkerP|static|typedef|uint)', body):
                yield (i+1, 'swap with next', '\n'.join(L[:i] + [L[i+1], L[i]] + L[i+2:]))
PLANS = [('c', p) for p in ('C01','C09','C20','C12','C04','C07','C08','C10','C06','C05','C11','C17','C18','C15','C16','C14','C13','C03','C02','C24','C25')] + [('pie','C19'),('cnt','C19'),('hwloc14','C23'),('mmap','C12')]
sys.path.insert(0, V + '/tools')
def trial(job):
    fn, ln, d, text = job
    h = hashlib.sha256((fn+text).encode()).hexdigest()[:12]; W = '%s/%s' % (BASE, h)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + '/build')
    try:
        shutil.copytree('/repo/src', W + '/src')
        open('%s/src/%s' % (W, fn), 'w').write(text)
        r = subprocess.run(['bash', 'gen.sh'], cwd=W + '/src', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if all(open('%s/src/%s' % (W, f)).read() == open('/repo/src/' + f).read() for f in ('lace.h', 'lace.c')): return (fn, ln, d, 'nochange', '', '', 0)
        for x in os.listdir(V + '/build'):
            if x.startswith('rt-'): os.symlink(V + '/build/' + x, W + '/build/' + x)
        env = dict(os.environ, SIM_REPO=W, SIM_BUILD=W + '/build'); exe = {}
        t0 = time.time(); best = None
        for v, p in PLANS:
            if v not in exe:
                r = subprocess.run([sys.executable, V + '/tools/build.py', v], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode: return (fn, ln, d, 'nobuild', '', (r.stderr[-200:]).replace('\n', ' ').replace('\t', ' '), time.time()-t0)
                exe[v] = r.stdout.split()[1]
            try: r = subprocess.run([exe[v], 'explore', '--prop', p, '--seed', '1', '--time', str(SECS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=SECS+60)
            except subprocess.TimeoutExpired: return (fn, ln, d, 'TIMEOUT', v + ' ' + p, '', time.time()-t0)
            try: j = json.loads(r.stdout)
            except Exception: return (fn, ln, d, 'HARNESS', v + ' ' + p, r.stderr[-150:].replace('\n', ' '), time.time()-t0)
            if j['violations']:
                return (fn, ln, d, 'killed', '%s %s' % (v, p), '%d runs %s' % (j['runs'], j['class']), time.time()-t0)
            if j['errors'] * 20 > j['runs']: return (fn, ln, d, 'ERRORS', v + ' ' + p, j['first_error'][:150], time.time()-t0)
        return (fn, ln, d, 'SURVIVED', '', '', time.time()-t0)
    finally: shutil.rmtree(W, ignore_errors=True)
def main():
    jobs = []
    for fn in FILES:
        t = open('/repo/src/' + fn).read(); ls = t.split('\n')
        for ln, d, new in muts(t):
            if ONLY and not re.search(ONLY, ls[ln-1]): continue
            if not LO <= ln <= HI: continue
            jobs.append((fn, ln, d, new))
    seen = set(); u = []
    for j in jobs:
        if (j[0], j[3]) not in seen: seen.add((j[0], j[3])); u.append(j)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            c = l.rstrip('\n').split('\t'); done.add(tuple(c[:2] + [c[2]]))
    todo = [j for k, j in enumerate(u) if k % SK == SR and (j[0], str(j[1]), j[2]) not in done]
    print(len(u), 'mutants,', len(todo), 'to do', flush=True)
    if '--list' in args: return
    src = {f: open('/repo/src/' + f).read().split('\n') for f in FILES}
    with open(OUT, 'a') as f, ThreadPoolExecutor(PROCS) as ex:
        for r in ex.map(trial, todo):
            f.write('\t'.join([r[0], str(r[1]), r[2], r[3], r[4], r[5], '%.0f' % r[6], src[r[0]][r[1]-1].strip()]) + '\n'); f.flush()
main()
