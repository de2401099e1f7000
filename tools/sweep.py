#!/usr/bin/env python3
"""development: what every check says about changed trees.  sweep.py [-p C01,C02] [-v] diff...  (an empty name is the tree itself)"""
import os, sys, subprocess, shutil, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(diff, props, verbose):
    w = tempfile.mkdtemp(prefix='sw')
    try:
        subprocess.run('cd %s && mkdir -p r b && cp -a /repo/src /repo/include r/ && cp %s/build/wpextract b/' % (w, V), shell=True, check=True)
        if diff:
            r = subprocess.run(['git', 'apply', '--include=src/*', '--include=include/*', '--directory=', os.path.abspath(diff)], cwd=w + '/r', capture_output=True, text=True)
            if r.returncode: print(diff, 'DOES NOT APPLY', r.stderr[:300]); return
        env = dict(os.environ, WP_REPO=w + '/r', WP_BUILD=w + '/b', WP_FAST='/tmp/wpbase.json')
        subprocess.run([sys.executable, os.path.abspath(__file__), '--inner', props, '1' if verbose else '0', diff], env=env, cwd=V)
    finally: shutil.rmtree(w)
def inner(props, verbose, diff):
    sys.path.insert(0, V)
    from wp import main, rules, props as pp, ir, run
    t = time.time()
    try: P = main.programs()
    except main.Broken as e: print(diff, 'BROKEN', str(e)[:500]); return
    allp = sorted(set(pp.TABLE) | set(rules.CHECKED))
    kn = {(p, k) for p, k, t2 in main.known()}
    want = props.split(',') if props != '-' else allp
    out = []; det = []
    shared = main.contrast_all(P, want)
    for p in want:
        R = run.Result()
        tasks = rules.tasks(p, P, 'quick')
        if tasks: R.merge(run.run_tasks(tasks, deadline=420))
        main.attribute(P, p, shared, R)
        fs = [f for f in R.findings if (p, f.fixedkey) not in kn]
        if fs: out.append('%s(%d)' % (p, len(fs)))
        seen = set()
        for f in fs:
            k = f.func + f.text
            if k in seen: continue
            seen.add(k); det.append((p, f.func, f.where + ' [' + f.rule + '] ' + f.text, *f.witness))
        if verbose:
            for u in sorted(set(R.und))[:6]: det.append((p, 'undecided', u))
    name = os.path.basename(os.path.dirname(diff)) if diff.endswith('patch.diff') else os.path.basename(diff)
    print('%-40s %5.1fs  %s' % (name or 'HEAD', time.time() - t, ' '.join(out) or 'quiet'))
    if verbose:
        for d in det[:int(os.environ.get('SWN', '25'))]: print('     ', ' | '.join(str(x)[:400] for x in d)[:1600])
    sys.stdout.flush()
if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--inner': inner(a[1], a[2] == '1', a[3])
    else:
        props = '-'; v = False
        while a and a[0].startswith('-') and len(a[0]) > 1:
            o = a.pop(0)
            if o == '-p': props = a.pop(0)
            elif o == '-v': v = True
        sys.path.insert(0, V)
        from wp import ir
        ir.baseline('/tmp/wpbase.json')
        for d in a: one(d if d != 'HEAD' else '', props, v)
