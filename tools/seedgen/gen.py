#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the definitions in seeds.py: python3 gen.py [id ...]
Each definition: id, prop, edits [(file, old, new)], demo (Go body), needs, breaks, flags."""
import json, os, subprocess, shutil, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
W = '/tmp/seedwt'
from seeds import SEEDS
def sh(c, cwd=W, t=300):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
only = sys.argv[1:]
base = json.load(open('/opt/vp/BASELINE.json'))
for s in SEEDS:
    if only and s['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    out = V + '/seeded/' + s['id']; os.makedirs(out, exist_ok=True)
    shutil.copy(H + '/lib.go.txt', out + '/lib.go.txt')
    imps = ''.join('\t"%s"\n' % i for i in s.get('imports', []))
    open(out + '/demo.go.txt', 'w').write('package main\n\n' + ('import (\n' + imps + ')\n\n' if imps else '') + s.get('decl', '') + '\nfunc main() {\n' + s['demo'].strip('\n') + '\n\texit()\n}\n')
    open(out + '/demo.sh', 'w').write(open(H + '/demo.sh.txt').read().replace('@FLAGS@', s.get('flags', ''))); os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    r0 = sh(out + '/demo.sh')
    ok = True; orig = False
    for f, old, new in s['edits']:
        p = W + '/' + f; t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'EDIT MATCHES', t.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    fm = sh('gofmt -l models evaluation').stdout
    d = sh('git diff').stdout
    open(out + '/patch.diff', 'w').write(d)
    bl = {}
    cur = None
    for l in sh('git diff -U0').stdout.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            a = l.split()[1][1:].split(','); n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh('git blame -s -L %s,+%d HEAD -- %s' % (a[0], n, cur)).stdout
                orig |= any(x.startswith('^') for x in b.splitlines())
    v = sh('. /verif/tools/env.sh; unset GOFLAGS; go vet ./models ./evaluation 2>&1 | grep -v "^#" | head -3; go test -json ./... 2>/dev/null | grep -c \'"Action":"pass".*"Test"\'; go test ./... 2>&1 | grep -E "^(--- )?FAIL" | head -3')
    r1 = sh(out + '/demo.sh')
    print(s['id'], s['prop'], 'clean', r0.returncode, 'patched', r1.returncode, 'orig' if orig else 'NOT-ORIGINAL', '|', v.stdout.replace('\n', ' ; '), '|', (r1.stdout + r1.stderr).strip()[:150], '' if r0.returncode == 0 else '!! ' + (r0.stdout + r0.stderr)[:300])
shutil.rmtree(W, ignore_errors=True)
