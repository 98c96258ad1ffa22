"""mkseed.py ID PROP 'needs' 'breaks' demo.c|- FILE OLD NEW [FILE OLD NEW ...]  -> /verif/seeded/ID, verified on /repo"""
import sys, os, subprocess, json, shutil
sid, prop, needs, breaks, demo = sys.argv[1:6]
ed = sys.argv[6:]
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(), 'dirty'
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
shutil.copy('/verif/tools/common.h', d)
dc = open(demo).read()
open(d + '/demo.c', 'w').write(dc)
first = dc.splitlines()[0]
flags = first[len('// flags:'):].strip() if first.startswith('// flags:') else '-lcrypto'
open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
gcc -g -w -I"$here" -I"$PWD" -I"$PWD/dstulib" -I"$PWD/engine" -I"$PWD/keylib" -o "$w/demo" "$here/demo.c" %s || exit 3
cd "$w" && R=%s timeout 200 ./demo "$OLDPWD/_build/engine/dstu.so"
''' % (flags.replace('@R', '"$PWD"'), '"$OLDPWD"'))
try:
    for i in range(0, len(ed), 3):
        p = '/repo/' + ed[i]; s = open(p).read()
        assert s.count(ed[i+1]) == 1, (ed[i], s.count(ed[i+1]))
        open(p, 'w').write(s.replace(ed[i+1], ed[i+2]))
    df = sh('git', '-C', '/repo', 'diff').stdout
    open(d + '/patch.diff', 'w').write(df)
    r = sh('bash', '/opt/vp/test.sh', '/tmp/seed.json'); 
    js = json.load(open('/tmp/seed.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    print('tests', len(js['passed']), 'failed', js['failed'])
    x = sh('bash', d + '/demo.sh', cwd='/repo')
    print('mutated demo rc', x.returncode, (x.stdout + x.stderr)[-200:])
finally:
    sh('git', '-C', '/repo', 'checkout', '--', '.')
sh('bash', '/opt/vp/build.sh')
y = sh('bash', d + '/demo.sh', cwd='/repo')
print('clean demo rc', y.returncode, (y.stdout + y.stderr)[-200:])
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
ok = x.returncode != 0 and y.returncode == 0 and not js['failed']
print('SEED', sid, 'OK' if ok else 'BAD')
if not ok: shutil.rmtree(d)
