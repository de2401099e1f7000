"""Comparison of two versions of an operation by their value graphs."""
import random, time
from .term import *
from . import term as tm
from . import ir, api, model
from .driver import *
from .facts import decide

def nparams(prog, f): return tuple(api.tysig(prog, p['t']) for p in f['params'])
def methods(prog, cls=None):
    """[(record, function)] of the library's own code with a body"""
    out = []
    for r in sorted(prog.records.values(), key=lambda r: r['short']):
        if cls and r['short'] != cls: continue
        for f in prog.methods(r):
            if f.get('body') is None or not f['repo'] or f.get('implicit') or f.get('defaulted'): continue
            out.append((r, f))
    return out
def index(prog):
    r = getattr(prog, '_index', None)
    if r is None:
        r = prog._index = {}
        for rec, f in methods(prog):
            if f.get('copy') or f.get('move'): continue
            n = rec['short'] if f.get('ctor') else f['n'].split('<')[0]
            r.setdefault((rec['short'], n), []).append((rec, f))
    return r
def lookup(prog, cls, name, types=None):
    fs = index(prog).get((cls, name), [])
    if types is None: return fs
    ex = [x for x in fs if nparams(prog, x[1]) == types]
    if ex: return ex[:1]
    ex = [x for x in fs if len(x[1]['params']) == len(types)]
    return ex if len(ex) == 1 else []

class Outcome: pass
def outcome(prog, rec, f, names=None, opts=None, this='this'):
    """one abstract run from symbolic object and arguments; arguments are named after `names`"""
    it = Interp(prog, dict(api.OPTS if opts is None else opts))
    nm = names or [p['n'] or 'arg%d' % i for i, p in enumerate(f['params'])]
    def argfun(it, i, p):
        root = 'A:' + nm[i]
        x = prog.ty(p['t'])
        if x['k'] == 'ptr':
            it.symroot(root, x['e'])
            return mk('ptr', (root, ()), 'o')
        it.symroot(root, p['t'])
        return Place(root)
    run_function(it, f, rec, this, argfun)
    o = Outcome()
    o.it = it; o.prog = prog; o.f = f; o.rec = rec; o.names = nm
    o.alive = it.st is not None
    o.lits = list(it.st.pc.lits()) if o.alive else [FALSE]
    o.objs = {}
    if o.alive:
        if rec is not None and not f.get('static') and it.thisplace is not None:
            o.objs['this'] = whole(it, it.thisplace)
        for i, p in enumerate(f['params']):
            x = prog.types[p['t']]
            if x['k'] in ('ref', 'ptr'):
                o.objs['A:' + nm[i]] = whole(it, Place('A:' + nm[i]))
        v = it.ret
        if isinstance(v, Agg): o.objs['ret'] = dict(v.leaves)
        elif isinstance(v, T) and v.op != 'null': o.objs['ret'] = {(): v}
        elif v is not None and not isinstance(v, T):
            try:
                w = it.load(v)
                o.objs['ret'] = dict(w.leaves) if isinstance(w, Agg) else {(): w}
            except Exception: pass
    o.files = []
    for e in it.expanded():
        if e.kind == 'streamend' and e.d['q'] != 'std::basic_ifstream': o.files.append((e, list(e.pc.lits()), e.d['vals']))
    o.unknown = sorted({w for w, l in it.unknown})
    return o
def whole(it, pl):
    out = {}
    for p, s, ix, lt in it.p.leaves(it.ptype(pl)):
        out[p] = it.cell(pl.root, pl.path + p)
    return out
def leaftype(it):
    def f(root, path):
        if root not in it.roottype: return None
        try: c = it.cellinfo(root, path)
        except KeyError: return None
        return it.p.types[it.p.strip(c[2])] if c and c[2] is not None else None
    return f
def allfields(prog):
    s = getattr(prog, '_fieldnames', None)
    if s is None:
        s = prog._fieldnames = {f['n'] for r in prog.records.values() for f in r.get('fields', [])}
    return s

class Linker:
    """value graphs of the operations by signature"""
    def __init__(self, prog): self.prog = prog; self.cache = {}; self.table = None
    def outcome(self, sig):
        if sig in self.cache: return self.cache[sig]
        if self.table is None:
            self.table = {}
            for rec, f in methods(self.prog):
                if not (f.get('copy') or f.get('move')): self.table.setdefault(api.fsig(self.prog, f), (rec, f))
        o = None
        if sig in self.table:
            from . import interp
            cur = interp._CUR[0]
            o = outcome(self.prog, *self.table[sig])
            interp._CUR[0] = cur
            if not o.alive: o = None
        self.cache[sig] = o
        return o
def linker(prog):
    if not hasattr(prog, '_linker'): prog._linker = Linker(prog)
    return prog._linker

def prefixes(p):
    """structural leaves that say where leaf p exists"""
    out = []
    for i, c in enumerate(p):
        if c == '*': out.append(p[:i] + ('#',))
        elif c == '{}': out.append(p[:i] + ('{?}',))
    return out
def aggterm(leaves, paths):
    ns = tuple(sorted(paths))
    return mk('agg', (ns, tuple(leaves[n] for n in ns)), 'o')

def closed_conditions(ts, lim=14):
    out = []; seen = set()
    for t in ts:
        for x in walk(t, seen):
            if x.op == 'ite' and not x.args[0].free: out.append(x.args[0])
            elif x.op in ('and', 'or') and not x.free:
                out.extend(y for y in x.args if not y.free)
    out = sorted(set(out), key=lambda x: x.id)
    return out[:lim]

ROUNDS = {'fold': 1, 'sum': 0, 'exists': 0, 'maxof': 0, 'jtab': 1}
def round_conditions(a, b, lim=3):
    """loops of which one side treats rounds differently that the other does not: so many rounds that the difference shows"""
    A, B = set(walk(a)), set(walk(b))
    out = []
    for mine, other in ((B, A), (A, B)):
        for x in mine:
            if x in other or x.op not in ROUNDS: continue
            n = x.args[ROUNDS[x.op]]
            if n.free or n.op == 'num': continue
            cs = set()
            for y in walk(x):
                if y.op == 'ite' and y not in other and y.args[0] not in other: cs |= {c for c in model.mined([y.args[0]])[0] if 0 < c <= 16}
            if cs: out.append(le(num(max(cs) + 2), n))
    return sorted(set(out), key=lambda x: x.id)[:lim]

def split_values(ctx, a, b, lits, n=40, budget=20, mctx=None):
    """a separating interpretation or None; looks at every branch named in the terms"""
    t0 = time.time()
    r, d = model.separate(lits, a, b, n=n, budget=budget * .5, more=200, **ctx)
    tried = d
    if r: return r, tried
    if mctx:
        # states built around the numbers and texts only the current graph mentions
        r, d = model.separate(lits, a, b, n=240, base=57, budget=max(16, budget * .8), **mctx)
        tried += d
        if r: return r, tried
    for l in round_conditions(a, b):
        fit = model.natural((l,), 12, base=23, budget=budget * .1, limit=400, **ctx)
        if not fit: continue
        r, d = model.separate(lits, a, b, base=23, budget=budget * .15, seeds=fit, **ctx)
        tried += d
        if r: return r, tried
    for c in closed_conditions([a, b]):
        for l in (c, not_(c)):
            if time.time() - t0 > budget: return None, tried
            fit = model.natural((l,), 8, base=17, budget=budget * .05, **ctx)
            r, d = model.separate(lits, a, b, n=4, extra=(l,), budget=budget * .1, base=17, seeds=fit or None, **ctx)
            tried += d
            if r: return r, tried
    return None, tried

def split_conditions(ctx, la, lb, n=6, budget=20, mctx=None):
    """an interpretation under which one side returns normally and the other does not"""
    t0 = time.time()
    A, B = set(la), set(lb)
    model.HARD[0] = t0 + budget
    tried = 0
    for x, y, who in ((la, lb, 'spec'), (lb, la, 'code')):
        base = [l for l in x]
        for l in y:
            if l in (A if who == 'spec' else B): continue
            if decide_all(base, l): continue
            # who returns but the other side's condition l fails
            fit = model.natural((not_(l),), n, base=31, budget=budget * .1, **ctx)
            for s in fit + [x for x in range(n) if x not in fit]:
                if time.time() - t0 > budget: return None, tried
                ints, strs = model.mined(base + [l])
                m = model.Model(31000 + s, ctx.get('leaftype'), ints, strs, ctx.get('fields'), ctx.get('linker'))
                m.known = ctx.get('known')
                if ctx.get('maker'): ctx['maker'](m, 31000 + s)
                rnd = random.Random(s)
                try:
                    if not model.satisfy(m, base + [not_(l)], rnd, 40): continue
                    m.reset()
                    v = all(m.truth(m.run(z)) for z in base); w = m.truth(m.run(l))
                except (model.Err, model.Out, RecursionError): continue
                except model.Unk: break
                tried += 1
                if v and not w: return (m, who, l), tried
    if mctx:
        t0 = time.time(); model.HARD[0] = t0 + max(10, budget * .5)
        ints, strs = model.mined(list(la) + list(lb))
        for s in range(200):
            if time.time() > model.HARD[0]: break
            m = model.Model(57000 + s, mctx.get('leaftype'), ints, strs, mctx.get('fields'), mctx.get('linker')); m.known = mctx.get('known')
            mctx['maker'](m, 57000 + s)
            try:
                m.reset()
                va = next((l for l in la if not m.truth(m.run(l))), None)
                m.reset()
                vb = next((l for l in lb if not m.truth(m.run(l))), None)
            except (model.Err, model.Out, RecursionError): continue
            except model.Unk: break
            tried += 1
            if (va is None) != (vb is None): return (m, 'code' if vb is None else 'spec', va if vb is None else vb), tried
    return None, tried
def decide_all(lits, l):
    from .facts import ROOT, extend
    pc = ROOT
    for x in lits: pc = extend(pc, x, 'branch')
    try: return decide(pc, l) is True
    except Exception: return False

def tables(prog):
    """content of the constant tables of the program, from the value graph of their initialisers: root -> value"""
    if not hasattr(prog, '_tables'):
        prog._tables = {}
        for g in prog.globals.values():
            if not g.get('const') or not g.get('init') or prog.sort(g['t']) in 'sibf': continue
            f = {'n': '__init', 'q': '__init', 'params': [], 'ret': prog.strip(g['t']), 'static': True, 'id': -1, 'l': g['l'], 'repo': True, 'file': '', 'acc': 'public',
                 'body': {'k': 'block', 'l': g['l'], 'b': [{'k': 'ret', 'l': g['l'], 'x': g['init']}]}}
            try:
                o = outcome(prog, None, f)
                if not o.alive or o.unknown: continue
                m = model.Model(1, leaftype(o.it), (), (), allfields(prog), None)
                v = m.run(aggterm(o.objs['ret'], list(o.objs['ret'])))
                prog._tables['G:' + g['q'].split('::')[-1]] = v[1]
            except (model.Err, model.Out, model.Unk, RecursionError, KeyError, TypeError): continue
    return prog._tables
def link_tables(ref, cur):
    """tables of both programs by root; a table of the same name with another content is another root"""
    out = dict(tables(ref))
    for k, v in tables(cur).items():
        if k in out and out[k] != v: cur.gtag = getattr(cur, 'gtag', {}); cur.gtag[k] = k + '~'; k += '~'
        out[k] = v
    return out

def maker(prog, rec, f, names, glob=None, magic=None):
    """well-formed object and fitting arguments for the interpretations of an operation"""
    from . import states, props
    def ty(t): return props.pname(api.tysig(prog, t)).replace('const', '').rstrip('&*')
    cls = rec['short'] if rec is not None else ''
    isctor = bool(f.get('ctor'))
    name = f['n'].split('<')[0]
    params = [(names[i], p['t']) for i, p in enumerate(f['params'])]
    kwargs = any(ty(t) == 'kwargs' for n, t in params)
    classargs = {'A:' + n for n, t in params if ty(t) in states.CLASSARGS}
    isobj = not isctor and not f.get('static') and cls in states.World.OBJ
    if glob is None: glob = tables(prog)
    def make(m, seed):
        m.objs = dict(glob)
        w = states.World(seed, magic and magic + (cls,))
        if magic: m.big = True
        if kwargs: m.kw = w.keywords(cls)
        objs = w.arguments(cls, name, params, ty, isctor or not isobj)
        if not isobj and not classargs and seed % 3 == 2: return
        for r in list(objs):
            if r != 'this' and r not in classargs and w.p(.12): del objs[r]
        m.objs.update(objs); m.pre = w.dumps; m.files = w.files
        m.free = states.adjustable(objs, classargs)
    return make

def novel(ref, cur):
    """numbers and texts the current value graphs mention and the reference's do not"""
    def terms(o): return list(o.lits) + [t for x in o.objs.values() for t in x.values()] + [t for e, l, v in o.files for t in v]
    a, b = model.mined(terms(ref)), model.mined(terms(cur))
    ints = [i for i in b[0] if i not in a[0] and 3 < i <= 1 << 62]
    near = [i for i in ints if not (i - 1 in ints and i - 1 > 3)]
    return tuple(near[:6]), tuple(x for x in b[1] if x not in a[1] and x)[:6]
class Diff:
    def __init__(self, what, path, msg, m=None, vals=None): self.what, self.path, self.msg, self.m, self.vals = what, path, msg, m, vals
def compare(ref, cur, what=None, want=None, budget=20, total=60):
    """differences between two outcomes.  want: function(obj, path) -> bool selects the leaves judged;
    what: set of kinds among 'exit', 'value'.  Returns (diffs, stats)"""
    ctx = {'leaftype': leaftype(ref.it), 'fields': allfields(ref.prog), 'linker': linker(ref.prog)}
    ctx['known'] = model.opset(list(ref.lits) + [t for o in ref.objs.values() for t in o.values()] + [t for e, l, v in ref.files for t in v])
    ctx['maker'] = maker(ref.prog, ref.rec, ref.f, ref.names, link_tables(ref.prog, cur.prog))
    nv = novel(ref, cur)
    mctx = dict(ctx, maker=maker(ref.prog, ref.rec, ref.f, ref.names, link_tables(ref.prog, cur.prog), nv)) if nv[0] or nv[1] else None
    st = {'leaves': 0, 'same': 0, 'tried': 0, 'undecided': 0}
    out = []
    kinds = what or {'exit', 'value'}
    t0 = time.time()
    def left(): return max(0.5, min(budget, total - (time.time() - t0)))
    if not ref.alive or not cur.alive:
        if ref.alive != cur.alive and 'exit' in kinds and not cur.unknown: out.append(Diff('exit', (), 'never returns normally' if ref.alive else 'returns where it must not'))
        return out, st
    if 'exit' in kinds:
        st['leaves'] += 1
        if set(ref.lits) == set(cur.lits): st['same'] += 1
        else:
            r, d = split_conditions(ctx, ref.lits, cur.lits, budget=left(), mctx=mctx)
            st['tried'] += d
            if r:
                m, who, l = r
                out.append(Diff('exit', (), 'the call %s' % ('throws or fails where it has to return' if who == 'spec' else 'returns where it has to throw'), m, (show(l)[:300],)))
            else: st['undecided'] += 1
    if 'file' in kinds:
        st['leaves'] += 1
        if len(ref.files) != len(cur.files):
            if not cur.unknown and not cur.files and ref.alive: out.append(Diff('file', (), 'writes no file'))
            else: st['undecided'] += 1
        else:
            ok = True
            for (e1, l1, v1), (e2, l2, v2) in zip(ref.files, cur.files):
                v1 = tuple(x.args[1] if x.op == 'lam' and x.args[0] == 0 else x for x in v1)
                for i, nm in enumerate(('file name', 'open mode', 'content')):
                    if v1[i] is v2[i]: continue
                    ok = False
                    if i == 1: continue
                    r, d = split_values(ctx, v1[i], v2[i], l1 + [l for l in l2 if l not in l1], budget=left(), mctx=mctx)
                    st['tried'] += d
                    if r: out.append(Diff('file', (), '%s differs' % nm, r[0], (repr(r[1])[:400], repr(r[2])[:400])))
            if ok: st['same'] += 1
            elif not out: st['undecided'] += 1
    if 'value' in kinds:
        lits = [l for l in ref.lits]
        both = lits + [l for l in cur.lits if l not in lits]
        for obj in ref.objs:
            if obj not in cur.objs:
                st['undecided'] += 1; continue
            a, b = ref.objs[obj], cur.objs[obj]
            names = [p for p in a if p in b and (want is None or want(obj, p))]
            st['leaves'] += len(names)
            bad = [p for p in names if a[p] is not b[p]]
            st['same'] += len(names) - len(bad)
            for p in bad:
                ps = [p] + [q for q in prefixes(p) if q in a and q in b]
                ta, tb = aggterm(a, ps), aggterm(b, ps)
                r, d = split_values(ctx, ta, tb, both, budget=left(), mctx=mctx)
                st['tried'] += d
                if r: out.append(Diff(obj, p, 'value differs', r[0], (repr(r[1])[:400], repr(r[2])[:400])))
                else: st['undecided'] += 1
    return out, st
