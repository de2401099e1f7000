"""Driver of the checks: extraction, tasks, report, evidence."""
import os, sys, time, json, hashlib, multiprocessing, re
from . import ir, api, run, contrast, props, model
from .contrast import *

VERIF = ir.VERIF
class Broken(Exception): pass

def _ex(w):
    try: ir.extract(w); return None
    except Exception as e: return '%s: %s' % (w, e)
def programs():
    with multiprocessing.get_context('fork').Pool(3) as p: errs = [e for e in p.map(_ex, ('src', 'hdr', 'ref'), 1) if e]
    if errs: raise Broken('the sources can not be analysed: ' + '; '.join(errs)[:1500])
    P = {w: ir.extract(w) for w in ('src', 'hdr', 'ref')}
    known = ir.literals(P['ref'])
    for w in ('src', 'hdr'):
        ir.align(P[w], P['ref'])
        mine = ir.literals(P[w])
        P[w].newlits = (tuple(sorted(i for i in mine[0] - known[0] if 3 < i <= 1 << 62))[:6], tuple(sorted(x for x in mine[1] - known[1] if x))[:6])
    return P

def public(f): return f.get('acc', 'public') == 'public'
def reference_index(ref):
    ix = {}
    for rec, f in methods(ref):
        if f.get('copy') or f.get('move') or not public(f): continue
        n = rec['short'] if f.get('ctor') else f['n'].split('<')[0]
        ix.setdefault((rec['short'], n, nparams(ref, f)), (rec, f))
    return ix
def find_current(cur, rec, n, types):
    """the same public operation in the current program"""
    best = None
    for r, f in methods(cur):
        if r['short'] != rec['short'] or f.get('copy') or f.get('move') or not public(f): continue
        m = r['short'] if f.get('ctor') else f['n'].split('<')[0]
        if m == n and nparams(cur, f) == types: return r, f
    return None

def contrast_tasks(P, prop, names):
    """value graph of every operation the property speaks about, against the reviewed reference"""
    ref = P['ref']
    for w in ('src', 'hdr'): link_tables(ref, P[w])
    tasks = []
    for (cls, n, types), (rrec, rf) in sorted(reference_index(ref).items(), key=lambda x: str(x[0])):
        op = props.opname(api, ref, rf)
        fc = props.facets(prop, op)
        if fc is None: continue
        for tu in ('src', 'hdr'):
            cur = P[tu]
            if tu == 'hdr' and cls.endswith('Wrapper'): continue
            c = find_current(cur, rrec, n, types)
            names.append((tu, op, c is not None))
            if c is None: continue
            if ir.unchanged(cur, tu, c[1]): continue
            def task(r, rrec=rrec, rf=rf, c=c, cur=cur, tu=tu, op=op, fc=fc):
                a = outcome(ref, rrec, rf); b = outcome(cur, *c, names=a.names)
                d, st = compare(a, b, *fc)
                r.obl += st['leaves']; r.dis += st['same']; r.tried += st['tried']
                for i in range(st['undecided']): r.und.append('%s %s: a leaf whose value differs in form and that no interpretation separates%s' % (tu, op, ' (' + '; '.join(b.unknown[:2]) + ')' if b.unknown else ''))
                for x in d:
                    where = cur.loc(c[1]['l'])
                    txt = '%s %s: %s' % (x.what, '.'.join(x.path), x.msg) if x.what != 'exit' else x.msg
                    w = list(x.vals or ())
                    w = ['required: ' + w[0], 'found:    ' + w[1]] if len(w) == 2 else ['condition: ' + y for y in w]
                    if x.m is not None: w.append('interpretation: ' + x.m.show())
                    r.find('value-graph', where, op, txt, w)
            tasks.append(('%s %s' % (tu, op), task, 240))
    return tasks

def contrast_all(P, want):
    """development: one comparison per operation, attributed to the properties afterwards"""
    ref = P['ref']; out = {}; tasks = []
    for w in ('src', 'hdr'): link_tables(ref, P[w])
    for (cls, n, types), (rrec, rf) in sorted(reference_index(ref).items(), key=lambda x: str(x[0])):
        op = props.opname(api, ref, rf)
        fcs = [fc for fc in (props.facets(p, op) for p in want) if fc]
        if not fcs: continue
        kinds = set().union(*[k for k, w in fcs])
        for tu in ('src', 'hdr'):
            cur = P[tu]
            c = find_current(cur, rrec, n, types)
            if c is None or tu == 'hdr' and cls.endswith('Wrapper') or ir.unchanged(cur, tu, c[1]): continue
            def task(r, rrec=rrec, rf=rf, c=c, cur=cur, tu=tu, op=op, kinds=kinds, ws=[w for k, w in fcs]):
                a = outcome(ref, rrec, rf); b = outcome(cur, *c, names=a.names)
                d, st = compare(a, b, kinds, lambda o, p: any(w(o, p) for w in ws))
                r.notes.append((tu, op, cur.loc(c[1]['l']), [(x.what, x.path, x.msg, x.vals, x.m.show() if x.m is not None else '') for x in d], st['undecided'], b.unknown[:2]))
            tasks.append(('%s %s' % (tu, op), task, 240))
    R = run.run_tasks(tasks, deadline=600) if tasks else run.Result()
    return R
def attribute(P, prop, R0, r):
    for tu, op, where, ds, und, unk in R0.notes:
        fc = props.facets(prop, op)
        if not fc: continue
        kinds, want = fc
        if und: r.und.append('%s %s: %d leaves undecided %s' % (tu, op, und, unk))
        for what, path, msg, vals, m in ds:
            if what in ('exit', 'file'):
                if what not in kinds: continue
            elif 'value' not in kinds or not want(what, path): continue
            r.find('value-graph', where, op, '%s %s: %s' % (what, '.'.join(path), msg), list(vals or ()) + [m])
    if prop == 'C04': r.und += R0.und

def known():
    """[(property, key)] of the recorded findings that are not repaired"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

def analyse(P, prop, tier):
    """(result, names) of a property's check"""
    from . import rules
    names = []
    model.BOOST[0] = 4 if tier == 'thorough' else 1
    tasks = contrast_tasks(P, prop, names)
    extra = rules.tasks(prop, P, tier)
    if not tasks and not extra and not ir.FAST: raise Broken('no task for ' + prop)
    R = run.run_tasks(tasks + extra, deadline=420)
    miss = [n for n in names if not n[2]]
    if names and len(miss) * 2 > len(names): raise Broken('most operations of the property are gone: ' + ', '.join(n[1] for n in miss[:5]))
    for tu, op, ok in miss: R.und.append('%s %s: the operation is not there any more' % (tu, op))
    return R, names

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        P = programs()
        from . import rules
        R, names = analyse(P, prop, tier)
        if R.obl == 0: raise Broken('nothing was analysed')
        low = rules.MINIMUM.get(prop, 0)
        if R.obl < low: raise Broken('only %d obligations, %d expected at least' % (R.obl, low))
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); return 2
    kn = {k: t for p, k, t in known() if p == prop}
    seen = set(); viol = []
    for f in sorted(R.findings, key=lambda f: (f.where, f.rule, f.func, f.text)):
        k = hashlib.sha256(f.key().encode()).hexdigest()[:12]
        k = f.fixedkey or k
        if k in seen: continue
        seen.add(k)
        if k in kn: print('KNOWN-FINDING: property=%s %s' % (prop, kn[k])); continue
        viol.append((k, f))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'build', 'replay-%s.txt' % prop)
    if viol:
        with open(replay, 'w') as h:
            for k, f in viol:
                h.write('property %s\nrule %s\nfinding %s\nat %s in %s\n%s\n' % (prop, f.rule, k, f.where, f.func, f.text))
                for w in f.witness: h.write('  %s\n' % str(w)[:3000])
                h.write('\n')
        for k, f in viol[:12]:
            print('%s: %s: [%s] %s' % (f.where, f.func, f.rule, f.text))
            for w in f.witness[:3]: print('    ' + str(w)[:240])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, VERIF)))
    elif os.path.exists(replay): os.unlink(replay)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': rules.LEVEL.get(prop, 'other'),
          'coverage': {
              'explanation': rules.EXPLAIN.get(prop, '') or 'see DESIGN.md',
              'translation_units': {w: {'functions': sum(1 for x in methods(P[w])), 'hash': ir.source_hash(w)} for w in ('src', 'hdr', 'ref')},
              'operations': len(set(n[1] for n in names) | set(R.functions)), 'obligations': R.obl, 'discharged': R.dis,
              'undecided': len(R.und), 'undecided_samples': sorted(set(R.und))[:12], 'interpretations_tried': R.tried,
              'rules': sorted(R.notes)[:60], 'samples': (R.samples or [n[1] for n in names])[:12],
              'checker_cmd': 'python3 check.py ' + prop,
              'trusted_base': ['clang 18 front end (types, overloads, templates)', 'the abstract semantics in wp/', 'the rule tables in wp/props.py and wp/rules.py', 'spec/reference (reviewed copy of the sources)']},
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.replace(p + '.tmp', p)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (prop, R.obl, R.dis, len(R.und), len(viol), time.time() - t0))
    return 1 if viol else 0
