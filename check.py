#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--time SECONDS]

Decides one property by seeded search over simulated executions of the real Lace code (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1: VIOLATION line with a replay file.  Exit 2: the check itself failed.
check.py --replay FILE   re-executes a replay file on the current tree.
"""
import json, os, re, struct, subprocess, sys, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools')
import build

# eight simulator processes per check; each explores its own residue class of seed indices on one build variant
DEF = 'c c c-O0 c14 c14 c14-O0 cxx cxx14'
PLAN = {
    'C03': 'c c14 big cxx cxx14 bigcxx c14-O0 c14',
    'C15': 'c big c-O0 c14 c14 c14-O0 cxx bigcxx',
    'C18': 'c key c-O0 c14 c14 c14-O0 key14 cxx14',
    'C16': 'c c14 mmap mmap14 cxx c14-O0 pie cnt14',
    'C19': 'cnt cnt cnt14 cnt14 pie pie14 pie pie14',
    'C20': 'c key14 mmap mmap14 big c14-O0 cnt pie14',
    'C21': 'fib fibcpp queens matmul cilksort strassen uts uts2 dfs knapsack pi',
    'C09': 'c c c-O0 c14 c14 c14-O0 cxx14 noleap',
    'C12': 'c c14 mmap key14 c-O0 pie14 hwloc hwloc14',
    'C23': 'hwloc hwloc hwloc hwloc hwloc14 hwloc14 hwloc14 hwloc14',
    'C25': 'c c14 mmap mmap14 hwloc c14-O0 hwloc14 pie14',
}
def thorough_extra(prop):
    if prop in ('C21', 'C23'): return []
    return [v for v in build.VARIANTS if v not in build.BENCHES and v[:5] != 'hwloc' and (v != 'noleap' or prop not in ('C13', 'C14')) and (prop != 'C19' or v[:3] in ('cnt', 'pie'))]
QUICK_S, THOROUGH_S = 50, 1200

REAL = ['src/lace.c, src/lace14.c', 'src/lace.h, src/lace14.h (all generated task macros), in C and in C++', 'a generated task program that uses the public macros and functions only']
STUB = ['the machine: one simulated CPU per thread with an x86-TSO store buffer; every load, store and atomic operation of the code above is a scheduling point',
        'pthreads, semaphores, mutexes, condition variables', 'malloc, aligned_alloc, mmap (bounds, liveness and initialisation are tracked)',
        'clocks and rdtsc', 'sched_getaffinity, sysconf, getrlimit, rand', 'stdio, exit and abort', 'hwloc (compiled out, except in the hwloc variants: an imaginary topology)']
ASSUME = ['interleavings are sequences of the memory accesses in the compiled (GCC 13, -O0 and -O2) code under x86-TSO; executions possible only on weaker memory models are not run (C02, C10 and C24 also check that the C11 happens-before relation orders the accesses of every explored execution)',
          'programs respect the documented contract of the API (tasks are synced or dropped in LIFO order, lace_stop is not called while a RUN is in flight, ...)',
          'seeded sampling: a clean run is evidence, not proof']

def known():
    out = []
    p = V + '/known-findings.txt'
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', line)
        if m: out.append(dict(prop=m[1], cls=m[2], sub=m[3], text=m[4], seen=0))
    return out

def parse_replay(path):
    d = {}
    for line in open(path, errors='replace'):
        k, _, v = line.rstrip('\n').partition(' ')
        if k in ('property', 'variant', 'class', 'message', 'hash', 'seed') and k not in d: d[k] = v
        if k == 'trace': break
    return d

def do_replay(exe, path, verbose=False):
    r = subprocess.run([exe, 'replay', path] + (['-v'] if verbose else []), stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL, text=True, errors='replace')
    m = re.search(r'^status (\d+) class (\S+) hash (\S+) steps (\d+) message (.*)', r.stdout, re.M)
    if verbose: print(r.stdout)
    return (int(m[1]), m[2], m[3], m[5]) if m else (3, '-', '-', 'no result')

def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        d = parse_replay(args[1]); exe = build.build([d['variant']])[d['variant']]
        st, cls, h, msg = do_replay(exe, args[1], verbose=True)
        if st == 2: print('VIOLATION property=%s replay=%s' % (d['property'], os.path.abspath(args[1])))
        sys.exit({1: 0, 4: 0, 2: 1}.get(st, 2))
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier')+1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    budget = float(args[args.index('--time')+1]) if '--time' in args else QUICK_S if tier == 'quick' else THOROUGH_S
    t0 = time.time()
    plan = PLAN.get(prop, DEF).split()
    if tier == 'thorough': plan = plan + [v for v in thorough_extra(prop) if v not in plan]
    exes = build.build(sorted(set(plan)))
    t_build = time.time() - t0
    work = '%s/out/%s.%d' % (V, prop, os.getpid()); os.makedirs(work, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    ncpu = os.cpu_count() or 8
    kn = [k for k in known() if k['prop'] == prop]
    n = len(plan); per = budget * min(1.0, ncpu / n)   # thorough plans have more variants than CPUs: they take turns
    pending = list(range(n)); running = {}; results = []; viol = None; slot = {}
    def start(i, first, tl):
        f = '%s/%d-%d' % (work, i, first)
        p = subprocess.Popen([exes[plan[i]], 'explore', '--prop', prop, '--seed', str(seed), '--start', str(first), '--step', str(n), '--time', '%.1f' % tl,
                              '--twice', '50', '--out', f + '.json', '--viol', f + '.viol', '--hashes', f + '.hash'] + [x for k in kn for x in ('--known', k['cls'] + ':' + k['sub'])], stdout=subprocess.DEVNULL, stderr=open(f + '.err', 'w'))
        running[p] = (i, f, time.time() + tl)
    err = None
    while (pending or running) and not err:
        while pending and len(running) < ncpu: start(pending[0], pending[0], per); pending.pop(0)
        time.sleep(0.05)
        for p in list(running):
            i, f, end = running[p]
            if p.poll() is None:
                if time.time() > end + 150: p.kill(); err = 'simulator process did not finish'
                continue
            del running[p]
            try: d = json.load(open(f + '.json'))
            except Exception as e: err = 'simulator process failed (%s): %s' % (p.returncode, open(f + '.err').read()[-500:]); break
            d['file'] = f; results.append(d)
            for k, c in zip(kn, d['known_seen']): k['seen'] += c
            if d['violations']:
                if viol is None:
                    viol = (plan[i], f + '.viol')
                    pending = []
                    for x in running: x.terminate()
    for x in running: x.kill()
    if err: print('ERROR: ' + err); sys.exit(2)
    errors = sum(d['errors'] for d in results)
    nondet = sum(d['nondeterministic'] for d in results)

    replay = None
    if viol:
        variant, raw = viol; exe = exes[variant]
        want = parse_replay(raw)
        final = '%s/out/%s-seed%d.replay' % (V, prop, seed)
        print('violation on variant %s: %s: %s' % (variant, want['class'], want['message']))
        ok = False
        try: subprocess.run([exe, 'shrink', raw, work + '/min', '--time', '45' if tier == 'quick' else '240'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150 if tier == 'quick' else 600)
        except subprocess.TimeoutExpired: pass
        for cand in (work + '/min', raw):
            if not os.path.exists(cand): continue
            q = parse_replay(cand)
            a = do_replay(exe, cand); b = do_replay(exe, cand)
            if a == b and a[0] == 2 and a[1] == q['class'] and a[2].lstrip('0') == q['hash'].lstrip('0'):
                shutil.copy(cand, final); ok = True
                print('minimised and replayed twice in fresh processes, same execution: %s: %s' % (a[1], a[3])); break
        if not ok:
            a = do_replay(exe, raw)
            if a[0] != 2: print('ERROR: the violation does not replay (%s)' % (a,)); sys.exit(2)
            shutil.copy(raw, final); print('WARNING: the replay violates the property but is not the identical execution')
        replay = final

    hashes = set(); per_variant = {}
    tot = dict(runs=0, steps=0, sim_ns=0, switches=0, run_twice=0, expected_exits=0, runs_reaching_fair_phase=0, threads=0)
    faults, probes, strat, emap, samples, cpu = {}, {}, {}, 0, [], 0.0
    for d in results:
        for k in tot: tot[k] += d[k]
        for src, dst in (('faults', faults), ('strategies', strat)):
            for k, v in d[src].items(): dst[k] = dst.get(k, 0) + v
        for k, v in d['probes'].items(): probes[k] = max(probes.get(k, 0), v) if k == 'maxlive' else probes.get(k, 0) + v
        per_variant[d['variant']] = per_variant.get(d['variant'], 0) + d['runs']
        emap |= int(d['edgemap'], 16); cpu += d['wall']
        if os.path.exists(d['file'] + '.hash'):
            b = open(d['file'] + '.hash', 'rb').read()
            hashes.update((d['variant'], h) for h in struct.unpack('<%dQ' % (len(b)//8), b))
        for s in d['samples'][:1]: s = dict(s); s['variant'] = d['variant']; samples.append(s)
    wall = time.time() - t0; expl = max(0.001, wall - t_build)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if viol else 0, assumptions=ASSUME,
        coverage=dict(
            evaluations=tot['runs'], distinct_nontrivial=len(hashes),
            rule='one evaluation is one simulated execution: a generated task program, worker count, queue sizes, external threads, schedule and faults, all from one seed derived from (VERIF_SEED, index). '
                 'It is counted as distinct and non-trivial if at least two threads ran, there were more than two context switches, and the hash of its interleaving (the sequence of switch points and threads) was not seen before on that build variant.',
            samples=samples, runs_per_hour=round(tot['runs']/expl*3600), seeds_per_hour=round(tot['runs']/expl*3600), executed_per_variant=per_variant,
            simulated_time_s=tot['sim_ns']/1e9, simulated_steps=tot['steps'], context_switches=tot['switches'], simulated_threads=tot['threads'], simulator_cpu_s=round(cpu, 1),
            faults_injected=faults, reached=probes, strategies=strat, communication_edges=bin(emap).count('1'),
            communication_edges_rule='distinct hashed pairs (store site, load site of another thread that read the value) over all runs',
            runs_with_expected_process_exit=tot['expected_exits'], runs_reaching_fair_phase=tot['runs_reaching_fair_phase'],
            determinism=dict(executed_again_and_replayed=tot['run_twice'], differing=nondet, harness_errors=errors),
            build_s=round(t_build, 1), real_components=REAL, stubbed_components=STUB, known_findings_seen={k['text']: k['seen'] for k in kn}))
    if replay: ev['coverage']['replay'] = replay
    tmp = '%s/evidence/%s.json.%d' % (V, prop, os.getpid())
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (V, prop))
    shutil.rmtree(work, ignore_errors=True)
    print('%s: %d simulated executions (%d distinct non-trivial), %d steps, %d per hour, faults %s' % (prop, tot['runs'], len(hashes), tot['steps'], tot['runs']/expl*3600, {k: v for k, v in faults.items() if v}))
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if nondet: print('WARNING: %d of %d repeated executions differed' % (nondet, tot['run_twice']))
    if viol: print('VIOLATION property=%s replay=%s' % (prop, replay)); sys.exit(1)
    if errors and errors * 20 > tot['runs']: print('ERROR: %d harness errors: %s' % (errors, next(d['first_error'] for d in results if d['errors']))); sys.exit(2)
    if tot['runs'] == 0: print('ERROR: nothing explored'); sys.exit(2)
    sys.exit(0)

main()
