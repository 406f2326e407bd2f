#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a planted-bug description and confirms it in a scratch copy of /repo:
builds, passes the stable tests, demo passes without and fails with the change; then runs the property's check.
usage: plant.py FILE.py [id...]   FILE.py: bug(id, prop, edits=[(file, old, new)...], demo=C++ text, needs=, breaks=[, args])"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant/repo'
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, flags='', files=None): BUGS.append(dict(files=files or {}, id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build; exit 0 when the property held on this input
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -iquote . -iquote _build/gen %s "$here/demo.cc" -o "$tmp/demo"
"$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    g = {'bug': bug}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['tests'] if 'tests' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
    os.makedirs('/tmp/plant/vp', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        if os.path.isfile('/opt/vp/' + f) and f.endswith(('.py', '.sh')):
            t = open('/opt/vp/' + f).read().replace('/repo', S).replace('/opt/vp/', '/tmp/plant/vp/')
            open('/tmp/plant/vp/' + f, 'w').write(t)
    if not os.path.isdir(S):
        sh('cp -a /repo ' + S)
        print(sh('bash /tmp/plant/vp/build.sh').stdout[-300:])
    for b in BUGS:
        if only and b['id'] not in only: continue
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        sh('git -C %s checkout -- mbo/digest mbo/types mbo/container mbo/strings mbo/file mbo/diff mbo/json mbo/mope mbo/log mbo/status mbo/config $(git -C %s ls-files mbo/hash | grep -v measurements | sed s,^,:/,)' % (S, S))
        demo = DEMO_SH % b['flags']
        open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cc', 'w').write(b['demo'])
        for fn, t in b['files'].items():
            os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True); open(os.path.join(d, fn), 'w').write(t)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        clean = subprocess.run([d + '/demo.sh'], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = True
        for f, o, n in b['edits']:
            p = os.path.join(S, f); t = open(p).read()
            if t.count(o) != 1: print(b['id'], 'EDIT does not match exactly once', f, t.count(o)); ok = False; continue
            open(p, 'w').write(t.replace(o, n))
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff -- %s' % (S, ' '.join(sorted(set(e[0] for e in b['edits']))))).stdout)
        r = sh('bash /tmp/plant/vp/test.sh /tmp/plant/out.json')
        res = json.load(open('/tmp/plant/out.json'))
        missing = sorted(base - set(res['passed']))
        bad = subprocess.run([d + '/demo.sh'], cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        verdict = clean.returncode == 0 and bad.returncode not in (0,) and not missing and res['passed']
        print('%s: clean demo %d, patched demo %d, passed %d, stable missing %d -> %s' % (b['id'], clean.returncode, bad.returncode, len(res['passed']), len(missing), 'OK' if verdict else 'NOT A VALID PLANT'))
        if not verdict: print(clean.stdout[-500:], bad.stdout[-500:], missing[:5], r.stdout[-800:] if not res['passed'] else '')
        if verdict and os.environ.get('CHECK', '1') == '1':
            e = dict(os.environ, VERIF_REPO=S)
            c = subprocess.run(['bin/check', b['prop']], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('   check %s: exit %d; %s' % (b['prop'], c.returncode, '\n   '.join(l[:400] for l in c.stdout.splitlines() if not l.startswith('FAILED'))))
        sh('git -C %s checkout -- mbo/digest mbo/types mbo/container mbo/strings mbo/file mbo/diff mbo/json mbo/mope mbo/log mbo/status mbo/config $(git -C %s ls-files mbo/hash | grep -v measurements | sed s,^,:/,)' % (S, S))
main()
