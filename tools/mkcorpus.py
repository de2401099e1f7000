#!/usr/bin/env python3
"""development corpus: edits of the sources as diffs in /verif/corpus/{ok,bug}.  entry: name, file, (old, new)..."""
import os, sys, subprocess, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def emit(kind, name, edits):
    w = tempfile.mkdtemp(prefix='mk')
    try:
        os.makedirs(w + '/a'); os.makedirs(w + '/b')
        for s in ('a', 'b'):
            shutil.copytree('/repo/src', '%s/%s/src' % (w, s), symlinks=True); shutil.copytree('/repo/include', '%s/%s/include' % (w, s))
        for f, old, new in edits:
            p = w + '/b/' + (f if f.startswith('include') else 'src/' + f)
            t = open(p).read()
            if old not in t: print('NOT FOUND', name, repr(old[:60])); return
            open(p, 'w').write(t.replace(old, new, 1))
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=w, capture_output=True, text=True)
        os.makedirs('%s/corpus/%s' % (V, kind), exist_ok=True)
        out = '\n'.join(l.split('\t')[0] if l.startswith(('---', '+++')) else l for l in r.stdout.splitlines() if not l.startswith('diff ')) + '\n'
        open('%s/corpus/%s/%s.diff' % (V, kind, name), 'w').write(out)
    finally: shutil.rmtree(w)
if __name__ == '__main__':
    want = sys.argv[1:]
    for f in sorted(glob.glob(V + '/corpus/*.py')):
        g = {}
        exec(open(f).read(), g)
        for kind in ('ok', 'bug'):
            for name, edits in g.get(kind, {}).items():
                if want and name not in want: continue
                emit(kind, name, edits)
