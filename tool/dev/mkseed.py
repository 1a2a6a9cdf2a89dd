"""mkseed.py seedfile.py ...: each defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO"""
import sys, os, subprocess, json, runpy
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for f in sys.argv[1:]:
    if f.startswith('-'): continue
    d = runpy.run_path(f)
    out = '/verif/seeded/' + d['ID']
    os.makedirs(out, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    try:
        for fn, a, b in d['EDITS']:
            p = '/repo/src/' + fn
            s = open(p).read()
            assert s.count(a) == 1, (fn, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cpp', 'w').write(d['DEMO'])
        open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
g++ -std=c++14 -w -O1 -pthread -I src "$here/demo.cpp" -o "$t/demo" || { rm -rf "$t"; exit 3; }
(cd "$t" && timeout 120 ./demo); rc=$?
rm -rf "$t"
exit $rc
''')
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/o.json')
        tl = b.stdout.strip().splitlines()[-1:]
        dm = sh(f'bash {out}/demo.sh', cwd='/repo')
        ck = sh(f'python3-vt /verif/check.py {d["PROP"]}', cwd='/verif') if '-n' not in sys.argv else None
    finally:
        sh('git -C /repo checkout -- .')
    dc = sh(f'bash {out}/demo.sh', cwd='/repo')
    print(d['ID'], 'tests', tl, 'demo patched', dm.returncode, (dm.stdout+dm.stderr)[-150:].strip(), '| demo clean', dc.returncode, (dc.stdout+dc.stderr)[-200:].strip() if dc.returncode else '')
    if ck: print('   check rc', ck.returncode, '\n   '.join(x[:260] for x in ck.stdout.strip().splitlines()[:6]))
sh('bash /opt/vp/build.sh')
