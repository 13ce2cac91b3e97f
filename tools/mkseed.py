"""Development tool: builds /verif/seeded/<id>/ from the entries of a seed list and confirms each in a scratch copy of /repo.
usage: mkseed.py LIST.py [id ...]   LIST.py defines SEEDS=[dict(id,prop,file,sub=[(old,new)],demo,needs,breaks,flags='')]"""
import sys, os, json, subprocess, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('l', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = '/tmp/seed/wt'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=c++17 -O1 -w %s -I include "$d/demo.cpp" -o "$t/demo" -lpthread || { rm -rf "$t"; exit 2; }
timeout 120 "$t/demo"; rc=$?
rm -rf "$t"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json')); return set(b['passed'] if isinstance(b, dict) and 'passed' in b else b.get('stable', b))
for s in m.SEEDS:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh('git -C /repo archive HEAD | tar x -C ' + W); sh('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b' % W)
    d = V + '/seeded/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=W)
    ok = True
    for f, old, new in s['sub']:
        p = W + '/include/ktl/' + f; t = open(p).read()
        crlf = '\r\n' in t
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        if t.count(old) < 1: print(s['id'], 'OLD TEXT NOT FOUND in', f); ok = False; continue
        t = t.replace(old, new, 1) if not s.get('all') else t.replace(old, new); open(p, 'w', newline='').write(t)
    if not ok: continue
    df = sh('git -C %s diff --binary' % W).stdout; open(d + '/patch.diff', 'w').write(df)
    chk = sh('git -C /repo apply --check %s/patch.diff' % d)
    r1 = sh('bash %s/demo.sh' % d, cwd=W)
    # existing tests with the patch: the upstream test sources against the patched headers (one configuration)
    tst = ''
    if os.environ.get('TESTS') and chk.returncode == 0:
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            sh('bash /opt/vp/test.sh /tmp/seed/o.json'); o = json.load(open('/tmp/seed/o.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); bad = st - set(o['passed'])
            tst = 'tests %d/%d %s' % (len(st) - len(bad), len(st), sorted(bad)[:2])
        finally: sh('git -C /repo checkout -- .')
    print('%-6s %s apply=%s clean demo=%d patched demo=%d %s' % (s['id'], s['prop'], chk.returncode == 0, r0.returncode, r1.returncode, tst), (r0.stderr[:300] if r0.returncode else ''), chk.stderr[:200])
