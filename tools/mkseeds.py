#!/usr/bin/env python3
"""write /verif/seeded/<id> from tools/seeds_*.py; with --check build, test and demonstrate each on /repo (restored afterwards)"""
import os, sys, subprocess, shutil, tempfile, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#include "include/wisardpkg.hpp"
#include <set>
#include <cstring>
#include <new>
namespace wp = wisardpkg;
using namespace std;
typedef vector<int> V; typedef vector<vector<int>> VV; typedef vector<string> VS;
static int bad = 0;
static void ok(bool c, const char* what){ if(!c){ bad = 1; fprintf(stderr, "FAILED: %s\\n", what); } }
template<typename F> bool throws(F f){ try{ f(); } catch(const exception&){ return true; } return false; }
int main(){
'''
SH_CC = '''#!/bin/bash
# exit 0 when the property holds; run with the repository as working directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r -- "$t"' EXIT
g++ -std=c++11 -w -O0 -I"$PWD" "$d/demo.cc" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''
SH_PY = '''#!/bin/bash
# exit 0 when the property holds; run with the repository as working directory
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD/test" timeout 60 /usr/bin/python3 "$d/demo.py"
'''
PY = '''import json, sys
import wisardpkg as wp
bad = 0
def ok(c, what):
    global bad
    if not c: bad = 1; print("FAILED:", what, file=sys.stderr)
'''
def load():
    out = {}
    for f in sorted(glob.glob(V + '/tools/seeds_*.py')):
        g = {}; exec(open(f).read(), g); out.update(g['seeds'])
    return out
def write(name, prop, needs, what, edits, kind, body):
    w = tempfile.mkdtemp(prefix='mk')
    try:
        subprocess.run('mkdir -p %s/a %s/b && for s in a b; do cp -a /repo/src /repo/include %s/$s/; done' % (w, w, w), shell=True, check=True)
        for f, old, new in edits:
            fs = [f] if f.startswith('include') else ['src/' + f] + ([] if f.startswith('wrappers') or f == 'wisard_bind.cc' else ['include/wisardpkg.hpp'])
            for x in fs:
                p = w + '/b/' + x; t = open(p).read()
                if old not in t: print('NOT FOUND', name, x, repr(old[:60])); return False
                open(p, 'w').write(t.replace(old, new, 1))
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=w, capture_output=True, text=True)
        d = V + '/seeded/' + name; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write('\n'.join(l.split('\t')[0] if l.startswith(('---', '+++')) else l for l in r.stdout.splitlines() if not l.startswith('diff ')) + '\n')
        if kind == 'cc': open(d + '/demo.cc', 'w').write(PRE + body.strip('\n') + '\n  return bad;\n}\n'); open(d + '/demo.sh', 'w').write(SH_CC)
        else: open(d + '/demo.py', 'w').write(PY + body.strip('\n') + '\nsys.exit(bad)\n'); open(d + '/demo.sh', 'w').write(SH_PY)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        return True
    finally: shutil.rmtree(w)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def original(name):
    """a removed line of the patch is one of the original repository"""
    base = {}; f = None; hit = 0
    for l in open(V + '/seeded/%s/patch.diff' % name):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('-') and not l.startswith('---'):
            if f not in base: base[f] = set(sh('git -C /repo show 4a2f45d:' + f).stdout.splitlines())
            if l[1:].rstrip('\n') in base[f] and len(l.strip()) > 4: hit += 1
    return hit
if __name__ == '__main__':
    a = sys.argv[1:]; check = '--check' in a; a = [x for x in a if x != '--check']
    S = load(); names = [n for n in S if not a or n in a]
    names = [n for n in names if write(n, *S[n])]
    if not check: sys.exit()
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if True else None
    sh('bash /opt/vp/build.sh')
    for n in names:
        d = V + '/seeded/' + n; msg = []
        if not original(n): msg.append('NO ORIGINAL LINE')
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode: msg.append('DEMO FAILS ON HEAD %s %s' % (r.returncode, r.stderr[-300:]))
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: msg.append('NO APPLY ' + r.stderr[:200])
        else:
            try:
                r = sh('bash /opt/vp/test.sh /tmp/seedout.json')
                o = json.load(open('/tmp/seedout.json'))
                txt = json.dumps(o)
                failed = sorted(stable - set(o['passed']))
                if failed or r.returncode: msg.append('TESTS %s %s' % (r.returncode, str(failed)[:200] + r.stdout[-200:] + r.stderr[-200:]))
                r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
                if r.returncode == 0: msg.append('DEMO PASSES WITH PATCH')
                if r.returncode == 3: msg.append('DEMO DOES NOT COMPILE ' + r.stderr[-300:])
            finally: sh('git -C /repo checkout -- .')
        print('%-24s %s' % (n, '; '.join(msg) or 'ok')); sys.stdout.flush()
    sh('bash /opt/vp/build.sh')
