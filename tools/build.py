#!/usr/bin/env python3
"""Builds simulator variants from /repo's working tree.  Results are cached by content hash under /verif/build."""
import hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', V + '/build')
SIM = V + '/sim'

#           name    lib       lang  opt    cfg (pie,tasks,steals,splits)  extra
VARIANTS = {
    'c':     ('lace',   'c',   '-O2', (0,0,0,0), []),
    'c14':   ('lace14', 'c',   '-O2', (0,0,0,0), []),
    'cxx':   ('lace',   'c++', '-O2', (0,0,0,0), []),
    'cxx14': ('lace14', 'c++', '-O2', (0,0,0,0), []),
    'c-O0':  ('lace',   'c',   '-O0', (0,0,0,0), []),
    'c14-O0':('lace14', 'c',   '-O0', (0,0,0,0), []),
    'cnt':   ('lace',   'c',   '-O2', (0,1,1,1), []),
    'cnt14': ('lace14', 'c',   '-O2', (0,1,1,1), []),
    'pie':   ('lace',   'c',   '-O2', (1,1,1,1), []),
    'pie14': ('lace14', 'c',   '-O2', (1,1,1,1), []),
    'mmap':  ('lace',   'c',   '-O2', (0,0,0,0), ['-DLACE_USE_MMAP=1']),
    'noleap':('lace',   'c',   '-O2', (0,0,0,0), ['-DLACE_LEAP_RANDOM=0']),
    'hwloc': ('lace',   'c',   '-O2', (0,0,0,0), ['-DLACE_USE_HWLOC=1', '-I' + SIM + '/hwloc']),
    'hwloc14':('lace14', 'c',   '-O2', (0,0,0,0), ['-DLACE_USE_HWLOC=1', '-DLACE_USE_MMAP=1', '-I' + SIM + '/hwloc']),
    'key':   ('lace',   'c',   '-O2', (0,0,0,0), ['-U__linux__']),
    'key14': ('lace14', 'c',   '-O2', (0,0,0,0), ['-U__linux__', '-DLACE_USE_MMAP=1']),
    'big':   ('lace',   'c',   '-O2', (0,0,0,0), ['-DLACE_TASKSIZE=240']),
    'bigcxx':('lace14', 'c++', '-O2', (0,0,0,0), ['-DLACE_TASKSIZE=176']),
    'mmap14':('lace14', 'c',   '-O2', (0,0,0,0), ['-DLACE_USE_MMAP=1']),
}
#           name       lib     lang   source file          BENCH   more sources
BENCHES = {
    'fib':      ('lace',   'c',   'fib/fib-lace.c',           1),
    'fibcpp':   ('lace',   'c++', 'fib/fib-lace.cpp',         1),
    'queens':   ('lace',   'c',   'queens/queens-lace.c',     2),
    'matmul':   ('lace14', 'c',   'matmul/matmul-lace.c',     3),
    'cilksort': ('lace',   'c',   'cilksort/cilksort-lace.c', 4),
    'strassen': ('lace14', 'c',   'strassen/strassen-lace.c', 5),
    'uts':      ('lace',   'c',   'uts/uts-lace.c',           6),
    'uts2':     ('lace',   'c',   'uts/uts2-lace.c',          6),
    'dfs':      ('lace',   'c',   'dfs/dfs-lace.c',           7),
    'knapsack': ('lace',   'c',   'knapsack/knapsack-lace.c', 8),
    'pi':       ('lace',   'c',   'pi/pi-lace.c',             9),
}
for b, x in BENCHES.items(): VARIANTS[b] = (x[0], x[1], '-O2', (0,0,0,0), [])
INSTR = ('-w -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 '
         '-fno-stack-protector -fcf-protection=none -fno-pie -no-pie -fno-omit-frame-pointer -pthread').split()
REN = {}
for s in 'malloc calloc realloc free aligned_alloc memalign posix_memalign mmap munmap memset memcpy memmove'.split(): REN[s] = 'sim_' + s
for s in 'create join detach self equal'.split(): REN['pthread_' + s] = 'sim_pthread_' + s
REN['pthread_exit'] = 'sim_thread_exit'
for s in 'init destroy lock trylock unlock'.split(): REN['pthread_mutex_' + s] = 'sim_mutex_' + s
for s in 'init destroy wait timedwait signal broadcast'.split(): REN['pthread_cond_' + s] = 'sim_cond_' + s
for s in 'init destroy wait'.split(): REN['pthread_barrier_' + s] = 'sim_barrier_' + s
for s in 'init destroy post wait trywait timedwait getvalue'.split(): REN['sem_' + s] = 'sim_sem_' + s
REN.update({'pthread_key_create': 'sim_key_create', 'pthread_key_delete': 'sim_key_delete', 'pthread_getspecific': 'sim_getspecific',
            'pthread_setspecific': 'sim_setspecific', 'pthread_once': 'sim_once', 'pthread_yield': 'sim_pthread_yield'})
for s in 'sched_yield usleep sleep nanosleep clock_gettime gettimeofday time clock srand random sysconf sched_getaffinity getrlimit'.split(): REN[s] = 'sim_' + s
REN['rand'] = 'sim_rand_c'; REN['strdup'] = 'sim_strdup'
for s in 'init destroy lock trylock unlock'.split(): REN['pthread_spin_' + s] = 'sim_spin_' + s
for s in 'init destroy rdlock wrlock tryrdlock trywrlock unlock'.split(): REN['pthread_rwlock_' + s] = 'sim_rwlock_' + s
for s in 'setname_np setaffinity_np getaffinity_np'.split(): REN['pthread_' + s] = 'sim_' + s
for s in 'sched_setaffinity sched_getcpu'.split(): REN[s] = 'sim_' + s
for s in 'printf fprintf vfprintf sprintf snprintf fopen fclose fread fscanf qsort puts fputs putchar fputc fwrite fflush perror exit abort'.split(): REN[s] = 'sim_' + s
REN.update({'__isoc99_fscanf': 'sim_fscanf99', '__isoc23_fscanf': 'sim_fscanf23', 'putc': 'sim_putc', '_exit': 'sim__exit', '_Exit': 'sim__Exit', '__assert_fail': 'sim_assert_fail', 'quick_exit': 'sim_quick_exit', 'get_nprocs': 'sim_get_nprocs', 'get_nprocs_conf': 'sim_get_nprocs_conf'})

for s in 'vprintf dprintf write vsnprintf vasprintf asprintf strndup reallocarray bzero explicit_bzero mempcpy thrd_yield thrd_sleep clock_nanosleep sem_clockwait'.split(): REN[s] = 'sim_' + s
REN['pthread_cond_clockwait'] = 'sim_cond_clockwait'; REN['pthread_mutex_timedlock'] = 'sim_mutex_timedlock'

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def bench_files(name):
    d = os.path.dirname('%s/benchmarks/%s' % (REPO, BENCHES[name][2])); return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
def src_files(): return [os.path.join(REPO, 'src', f) for f in sorted(os.listdir(REPO + '/src')) if os.path.isfile(os.path.join(REPO, 'src', f))]
def sim_files(): return [SIM + '/hwloc/hwloc.h'] + [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(('.c', '.h', '.cc'))] + [os.path.abspath(__file__), V + '/tools/mktasks.py']

def write_once(path, text):
    tmp = '%s.%d' % (path, os.getpid())
    with open(tmp, 'w') as f: f.write(text)
    os.replace(tmp, path)

def config_h(cfg):
    names = ('LACE_PIE_TIMES', 'LACE_COUNT_TASKS', 'LACE_COUNT_STEALS', 'LACE_COUNT_SPLITS')
    src = open(REPO + '/src/lace_config.h.in').read()
    out = []
    for line in src.splitlines():
        w = line.split()
        if len(w) >= 2 and w[0].startswith('#cmakedefine'):
            n = w[1]; v = dict(zip(names, cfg)).get(n, 0)
            if w[0] == '#cmakedefine01': out.append('#define %s %d' % (n, v))
            else: out.append('#define %s 1' % n if v else '/* #undef %s */' % n)
        else: out.append(line)
    return '\n'.join(out) + '\n'

def runtime_objs():
    """the simulator itself, not instrumented and independent of /repo"""
    d = '%s/rt-%s' % (BUILD, digest([f for f in sim_files() if not f.endswith(('work.c', 'bench.c'))]))
    objs = []
    os.makedirs(d, exist_ok=True)
    def one(f):
        o = '%s/%s.o' % (d, f)
        if not os.path.exists(o):
            t = '%s.%d' % (o, os.getpid())
            run(['gcc', '-O2', '-g', '-w', '-fno-pie', '-fno-strict-aliasing', '-c', '%s/%s.c' % (SIM, f), '-o', t]); os.replace(t, o)
        return o
    with ThreadPoolExecutor(3) as ex: objs = list(ex.map(one, ['sim', 'oracle', 'runner', 'hwstub']))
    return objs

def instrumented(d, cmdline, out):
    """compile with the thread-sanitizer hooks and route library calls to the simulator"""
    run(cmdline + ['-o', out])
    run(['objcopy', '--redefine-syms=' + d + '/ren', out])

def build_variant(name):
    lib, lang, opt, cfg, extra = VARIANTS[name]
    key = digest(src_files() + (bench_files(name) if name in BENCHES else []) + sim_files(), name + REPO)
    d = '%s/v-%s-%s' % (BUILD, name, key)
    exe = d + '/run'
    if os.path.exists(exe): return exe
    rt = runtime_objs()
    tmp = '%s.%d.tmp' % (d, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    K = 14 if lib == 'lace14' else 6
    with open(tmp + '/lace_config.h', 'w') as f: f.write(config_h(cfg))
    with open(tmp + '/tasks.inc', 'w') as f: f.write(run([sys.executable, V + '/tools/mktasks.py', str(K)]))
    with open(tmp + '/ren', 'w') as f: f.write(''.join('%s %s\n' % kv for kv in REN.items()))
    inc = ['-I' + tmp, '-I' + REPO + '/src', '-I' + SIM]
    cc = ['gcc', '-std=gnu11'] if lang == 'c' else ['g++', '-x', 'c++', '-std=c++17']
    work = (cc + [opt] + INSTR + extra + inc + ['-DLACE_H=<%s.h>' % lib, '-DTASKS_INC="tasks.inc"', '-DMAXAR=%d' % K, '-DVARIANT="%s"' % name, '-c', SIM + '/work.c'], tmp + '/work.o')
    more = []
    if name in BENCHES:
        b = BENCHES[name]; bd = REPO + '/benchmarks/'
        defs = ['-I' + bd + os.path.dirname(b[2]), '-DBRG_C99_TYPES', '-DBRG_RNG', '-DVARIANT="%s"' % name, '-DBENCH=%d' % b[3], '-DBENCH_SRC="%s"' % (bd + b[2])]
        work = (cc + [opt] + INSTR + inc + defs + ['-c', SIM + '/bench.c'], tmp + '/work.o')
        if b[3] == 6: more = [(['gcc', '-std=gnu11', opt] + INSTR + inc + defs + ['-c', bd + 'uts/' + f], tmp + '/m%d.o' % k) for k, f in enumerate(['uts.c', 'rng/brg_sha1.c'])]
    jobs = more + [
        work,
        (['gcc', '-std=gnu11', opt] + INSTR + extra + inc + ['-c', REPO + '/src/' + lib + '.c'], tmp + '/lace.o'),
    ]
    with ThreadPoolExecutor(2) as ex: list(ex.map(lambda j: instrumented(tmp, *j), jobs))
    run(['gcc' if lang == 'c' else 'g++', '-no-pie', '-o', tmp + '/run', tmp + '/lace.o', tmp + '/work.o'] + [m[1] for m in more] + rt + ['-lpthread', '-lm'])
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build(names, jobs=8):
    os.makedirs(BUILD, exist_ok=True)
    runtime_objs()
    with ThreadPoolExecutor(jobs) as ex: return dict(zip(names, ex.map(build_variant, names)))

def prune(keep=60):
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('v-')] if os.path.isdir(BUILD) else []
    ds.sort(key=os.path.getmtime)
    for x in ds[:-keep] if len(ds) > keep else []: shutil.rmtree(x, ignore_errors=True)

if __name__ == '__main__':
    names = sys.argv[1:] or list(VARIANTS)
    for k, v in build(names).items(): print(k, v)
    prune()
