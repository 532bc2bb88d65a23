"""mkseed.py: helper to create /verif/seeded/<id> from edits (list of (file, old, new, count))."""
import os, sys, subprocess, json, shutil
def mk(id, prop, needs, breaks, edits, demo, cflags='', ldflags='', noise=False, lib='lace', timeout=120, regen=False, defs=''):
    W = '/tmp/seedwork'
    subprocess.run(['rm', '-rf', '/tmp/seedwork'], check=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    for f, a, b, n in edits:
        p = W + '/' + f; s = open(p).read()
        if s.count(a) != n: raise SystemExit('%s: %s occurs %d times, not %d:\n%s' % (id, f, s.count(a), n, a))
        open(p, 'w').write(s.replace(a, b))
    if regen: subprocess.run(['bash', 'gen.sh'], cwd=W + '/src', check=True)
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE, check=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.c', 'w').write(demo)
    ts = '-fsanitize=thread --param tsan-instrument-func-entry-exit=0' if noise else ''
    if noise: shutil.copy('/verif/tools/seed/noise.c', d + '/noise.c')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the library behaves, non-zero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 0
trap 'find "$T" -delete' EXIT
CF="-std=gnu11 -w -pthread %s -I src -I _build/Release"
{ gcc $CF %s -c src/%s.c -o "$T/lace.o" && gcc $CF %s -c "$D/demo.c" -o "$T/demo.o" %s && gcc -pthread %s -o "$T/demo" "$T"/*.o -lm %s; } || { echo "demo does not build"; exit 0; }
timeout -s KILL %d "$T/demo"
r=$?
[ $r -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($r)"
exit $r
''' % (cflags or '-O2', ts, lib, ts, ('&& gcc -O2 -w -c "$D/noise.c" -o "$T/noise.o" %s' % defs) if noise else '', cflags or '-O2', ldflags, timeout))
    os.chmod(d + '/demo.sh', 0o755)
    print(id, 'created,', diff.count(b'\n'), 'diff lines')
