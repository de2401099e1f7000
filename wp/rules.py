"""The rules of the properties that are decided on the program itself, not by comparison."""
import os, re, random, time
from fractions import Fraction
from .term import *
from . import term as tm
from . import ir, api, props, model, sites
from .contrast import *
from .facts import decide
from .model import Err, Out, Unk, Model

from .meta import LEVEL, EXPLAIN, MINIMUM, TECHNIQUE, NOTE
RULES = {}                       # property -> [function(P, tier) -> tasks]
def rule(*ps):
    def w(fn):
        for p in ps: RULES.setdefault(p, []).append(fn)
        return fn
    return w
def tasks(prop, P, tier):
    out = []
    for fn in RULES.get(prop, ()): out += fn(P, tier, prop)
    return out

TUS = ('src', 'hdr')
def public(f): return f.get('acc', 'public') == 'public'
def known_ops(P):
    from .main import reference_index
    return set(reference_index(P['ref']))
def operations(P, want=None):
    """[(tu, program, operation name, record, function)]: the public operations of the library in both texts"""
    ks = known_ops(P); out = []
    for tu in TUS:
        cur = P[tu]
        for rec, f in methods(cur):
            if f.get('copy') or f.get('move') or not public(f): continue
            if tu == 'hdr' and rec['short'].endswith('Wrapper'): continue
            n = rec['short'] if f.get('ctor') else f['n'].split('<')[0]
            if (rec['short'], n, nparams(cur, f)) not in ks: continue
            op = props.opname(api, cur, f)
            if want is not None and not want(op): continue
            if ir.unchanged(cur, tu, f): continue
            out.append((tu, cur, op, rec, f))
    return out
def optasks(P, fn, want=None, limit=120):
    """one task per public operation: fn(r, tu, prog, op, rec, f, outcome)"""
    link_all(P)
    ts = []
    for tu, cur, op, rec, f in operations(P, want):
        def task(r, tu=tu, cur=cur, op=op, rec=rec, f=f):
            o = outcome(cur, rec, f)
            r.functions.add((tu, op))
            fn(r, tu, cur, op, rec, f, o)
        ts.append(('%s %s' % (tu, op), task, limit))
    return ts
def link_all(P):
    for w in TUS: link_tables(P['ref'], P[w])
def where(prog, e): return prog.loc(e.loc)

# ---------------------------------------------------------------- obligations at program points
def safe_access(e):
    d = e.d
    if e.kind in ('index', 'deref', 'strwrite'): return and_(le(ZERO, d['idx']), lt(d['idx'], d['size']))
    if e.kind == 'strindex': return and_(le(ZERO, d['idx']), le(d['idx'], d['size']))
    if e.kind == 'range': return and_(le(ZERO, d['first']), le(d['first'], d['last']), le(d['last'], d['size']))
    if e.kind == 'nonempty': return lt(ZERO, d['size'])
def safe_div(e):
    return not_(eq(e.d['b'], ZERO))
def point_rule(kinds, cond, text, name):
    def fn(r, tu, prog, op, rec, f, o):
        done = {}
        for s in sites.sites(o, kinds):
            c = cond(s.e)
            if c is None or c is TRUE:
                if c is TRUE: r.obligation(True)
                continue
            if decide(s.e.pc, c) is True: r.obligation(True, '%s %s at %s' % (op, s.kind, where(prog, s.e))); continue
            k = (s.e.loc and tuple(s.e.loc), s.kind)
            if k in done and done[k]: continue                 # one report per construct
            hit, tried = sites.reach(o, s, not_(c))
            r.tried += tried; done[k] = bool(hit)
            if hit:
                m, ks = hit
                w = ['requires: ' + show(c)[:400]]
                if ks: w.append('round of the enclosing loops: ' + ', '.join(map(str, ks)))
                w.append('interpretation: ' + m.show())
                r.obl += 1
                r.find(name, where(prog, s.e), op, text(s.e), w)
            else: r.obligation(False, None, '%s %s: %s, not entailed by the facts that lead there; no interpretation makes it false' % (tu, op, text(s.e)))
    return fn
ACC = {'strwrite': 'character write', 'index': 'element access', 'deref': 'iterator dereference', 'strindex': 'character access', 'range': 'iterator range', 'nonempty': 'access to an end of a container'}
@rule('C16')
def r_access(P, tier, prop):
    return optasks(P, point_rule(('index', 'deref', 'strindex', 'strwrite', 'range', 'nonempty'), safe_access, lambda e: '%s outside the container it belongs to' % ACC[e.kind], 'bounds'))
STORED = {'C10': r'(Base64|RAMDataHandle|BinInput|DataSet)::.*', 'C11': r'BinInput::.*', 'C24': r'(RAM::RAM|Discriminator(Wrapper)?::Discriminator(Wrapper)?)', 'C25': r'KernelCanvas::.*', 'C26': r'Synthesizer::.*'}
@rule('C10', 'C11', 'C24', 'C25', 'C26')
def r_stored(P, tier, prop):
    return optasks(P, point_rule(('index', 'strindex', 'strwrite', 'range', 'nonempty'), safe_access, lambda e: '%s outside what is there: the result is not determined by what was given' % ACC[e.kind], 'bounds'), lambda op: re.fullmatch(STORED[prop], op.split('(')[0]))
@rule('C17')
def r_div(P, tier, prop):
    return optasks(P, point_rule(('div',), safe_div, lambda e: '%s by a divisor that can be zero' % ('floating division' if e.d['fl'] else 'integer division'), 'zero-divisor'))

# ---------------------------------------------------------------- what an operation leaves as it was
# operations whose purpose is to change their object, and the arguments an operation is there to fill in
CHANGES = r'.*::(train|untrain|trainUnsupervised|leaveOneOut|leaveMoreOut|set|add|operator=)'
FILLS = {'RAM::setMapping': {'mapping'}, 'WisardWrapper::setClassifyOutput': {'labels', 'candidates'}, 'ClusWisardWrapper::setClassifyOutput': {'labels', 'candidates'}}
def judge_same(r, tu, prog, op, rec, f, o, objs, name, text, loc=None):
    """the leaves of these objects have their initial value at the normal exit"""
    if not o.alive: r.obligation(True); return
    ctx = {'leaftype': leaftype(o.it), 'fields': allfields(prog), 'linker': linker(prog), 'maker': maker(prog, rec, f, o.names)}
    nv = sites.magic(o, list(o.lits) + [t for x in o.objs.values() for t in x.values()])
    mctx = dict(ctx, maker=maker(prog, rec, f, o.names, magic=nv)) if nv else None
    t0 = time.time()
    for ob in objs:
        pl = o.it.thisplace if ob == 'this' else None
        root = pl.root if pl is not None else ob
        init = {p: o.it.initcell(root, p) for p in o.objs[ob]}
        told = set()
        for p, v in o.objs[ob].items():
            if p[:1] in told: continue
            if v is init[p]: r.obligation(True, '%s %s.%s' % (op, ob, '.'.join(p))); continue
            if time.time() - t0 > 40: r.obligation(False, None, '%s %s: %s.%s not judged in time' % (tu, op, ob, '.'.join(p))); continue
            ps = [p] + [q for q in prefixes(p) if q in init]
            h, tried = split_values(ctx, aggterm(init, ps), aggterm(o.objs[ob], ps), list(o.lits), budget=12, mctx=mctx)
            r.tried += tried
            if h:
                r.obl += 1; told.add(p[:1])
                r.find(name, writer(prog, o, root, p) or loc or prog.loc(f['l']), op, text % (ob if ob == 'this' else 'argument ' + ob[2:], '.'.join(p)),
                       ['before: ' + repr(h[1])[:300], 'after:  ' + repr(h[2])[:300], 'interpretation: ' + h[0].show()])
            else: r.obligation(False, None, '%s %s: %s.%s may change, no interpretation shows it' % (tu, op, ob, '.'.join(p)))
def writer(prog, o, root, path):
    """place of the first statement that writes there"""
    ev = getattr(o, 'evs', None)
    if ev is None: ev = o.evs = o.it.expanded()
    for e in ev:
        pl = e.d.get('place')
        if e.kind in ('write', 'mapinsert', 'sort', 'shuffle') and getattr(pl, 'root', None) == root and (path[:len(pl.path)] == pl.path or pl.path[:len(path)] == path): return prog.loc(e.loc)
def fills(op): return {'A:' + a for a in FILLS.get(op.split('(')[0], ())}
@rule('C01')
def r_query(P, tier, prop):
    def want(op): n = op.split('(')[0]; return not re.fullmatch(CHANGES, n) and n.split('::')[0] != n.split('::')[-1].lstrip('~')
    def fn(r, tu, prog, op, rec, f, o):
        judge_same(r, tu, prog, op, rec, f, o, [ob for ob in o.objs if ob != 'ret' and ob not in fills(op)], 'query-writes', 'a query leaves %s.%s changed')
    return optasks(P, fn, want)
@rule('C02')
def r_args(P, tier, prop):
    def fn(r, tu, prog, op, rec, f, o):
        judge_same(r, tu, prog, op, rec, f, o, [ob for ob in o.objs if ob[:2] == 'A:' and ob not in fills(op)], 'argument-written', 'the caller\'s %s.%s is changed')
    return optasks(P, fn, lambda op: '~' not in op)

# ---------------------------------------------------------------- shared mutable state, ownership
def irwalk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values(): yield from irwalk(v)
    elif isinstance(x, list):
        for v in x: yield from irwalk(v)
def mutable_globals(prog):
    """storage that outlives a call and can change: {id: (name, place)}"""
    out = {}
    for g in prog.globals.values():
        n = prog.types[g['t']]['n']
        if n.startswith('PyModuleDef') or 'pybind11' in n: continue
        if not g.get('const'): out[g['id']] = (g['q'], prog.loc(g['l'])); continue
        # a constant that takes its value from the call that comes first
        if g.get('static_local') and g.get('init'):
            for e in irwalk(g['init']):
                if e.get('k') == 'this' or e.get('k') == 'var' and 'g' not in e: out[g['id']] = (g['q'], prog.loc(g['l'])); break
    return out
def lib_functions(prog): return [f for f in prog.f.values() if f.get('repo') and f.get('body') is not None]
def refs_out(prog, t, seen=None):
    """a type through which another object's data can be reached"""
    seen = seen or set()
    x = prog.types[t]
    if t in seen: return None
    seen.add(t)
    if x['k'] == 'ref': return 'reference'
    if x['k'] == 'ptr':
        e = prog.types[x['e']]
        return None if e['k'] == 'fn' else 'pointer'
    if x['k'] == 'rec':
        q = x['q']
        if q in ('std::shared_ptr', 'std::weak_ptr', 'std::reference_wrapper', 'std::basic_string_view', 'std::span') : return q
        if 'iterator' in q.lower() and q.startswith(('std::', '__gnu_cxx')): return 'iterator'
        if q.startswith('std::'):
            for a in x.get('a', []):
                if isinstance(a, int):
                    r = refs_out(prog, a, seen)
                    if r: return r
    if x['k'] == 'arr': return refs_out(prog, x['e'], seen)
    return None
@rule('C02')
def r_shared(P, tier, prop):
    ts = []
    ref = P['ref']
    for tu in TUS:
        cur = P[tu]
        def task(r, tu=tu, cur=cur):
            mg = mutable_globals(cur)
            for f in lib_functions(cur):
                hit = set()
                for e in irwalk(f['body']):
                    if e.get('k') == 'var' and e.get('id') in mg and 'g' in e or e.get('static') and e.get('id') in mg: hit.add(e['id'])
                r.obligation(not hit, None)
                for i in hit: r.find('shared-state', cur.loc(f['l']), api.fname(f), 'uses storage that all objects of the process share and that can change: %s' % mg[i][0], ['declared at ' + mg[i][1]])
            old = {x['short']: {g['n'] for g in x['fields']} for x in ref.records.values()}
            for q, x in cur.records.items():
                if x['short'] == 'Exception' or not is_lib(cur, x): continue
                for fl in x['fields']:
                    k = refs_out(cur, fl['t'])
                    r.obligation(not k, '%s::%s' % (x['short'], fl['n']))
                    if k: r.find('aliasing-field', cur.loc(fl['l']), x['short'], 'field %s keeps a %s to data outside the object' % (fl['n'], k))
            for rec, f in methods(cur):
                if not public(f) or f.get('copy') or f.get('move') or f['n'].startswith('operator=') or f.get('static') or f.get('ctor'): continue
                x = cur.types[f['ret']]
                bad = x['k'] in ('ref', 'ptr') and not cur.types[x['e']]['n'].startswith('const ')
                r.obligation(not bad, None)
                if bad: r.find('storage-handed-out', cur.loc(f['l']), api.fname(f), 'returns a %s through which the caller can change the object' % ('reference' if x['k'] == 'ref' else 'pointer'))
        ts.append((tu + ' ownership', task, 60))
    return ts
def is_lib(prog, x): return any(m in prog.f and prog.f[m].get('repo') for m in x['methods'])

@rule('C02')
def r_copies(P, tier, prop):
    """a copy made by a user-defined copy operation has every field of its source"""
    link_all(P); ts = []
    for tu in TUS:
        cur = P[tu]
        for rec, f in methods(cur):
            if not (f.get('copy') or f.get('move')) or f.get('implicit') or f.get('defaulted') or rec['short'] == 'Exception': continue
            def task(r, tu=tu, cur=cur, rec=rec, f=f):
                o = outcome(cur, rec, f)
                if not o.alive: return
                src = [ob for ob in o.objs if ob[:2] == 'A:']
                if len(src) != 1 or 'this' not in o.objs: return
                ctx = {'leaftype': leaftype(o.it), 'fields': allfields(cur), 'linker': linker(cur), 'maker': maker(cur, rec, f, o.names)}
                init = {p: o.it.initcell(src[0], p) for p in o.objs[src[0]]}
                for p, v in o.objs['this'].items():
                    if p not in init: continue
                    if v is init[p]: r.obligation(True, '%s copy of %s' % (rec['short'], '.'.join(p))); continue
                    ps = [p] + [q for q in prefixes(p) if q in init]
                    h, tried = split_values(ctx, aggterm(init, ps), aggterm(o.objs['this'], ps), list(o.lits), budget=10)
                    r.tried += tried
                    if h: r.obl += 1; r.find('copy', cur.loc(f['l']), rec['short'], 'a copy does not have the %s of its source' % '.'.join(p), [repr(h[1])[:200], repr(h[2])[:200]])
                    else: r.obligation(False, None, '%s copy of %s' % (rec['short'], '.'.join(p)))
            ts.append(('%s copy %s' % (tu, rec['short']), task, 60))
    return ts

# ---------------------------------------------------------------- values nothing determines
def salts(m, t, kinds, n=3):
    """values of a term under several choices of what nothing determines"""
    out = []
    for s in range(n):
        m.resalt(s + 1, kinds)
        out.append(m.run(t))
    m.resalt(0, ())
    return out
def has_op(ts, ops, seen=None):
    seen = set() if seen is None else seen
    return any(x.op in ops for t in ts for x in walk(t, seen))
def calls_in(ts):
    seen = set()
    return any(x.op in ('call', 'res') or x.sort == 'o' and x.op.startswith('call') for t in ts for x in walk(t, seen))
def judge_salt(r, tu, prog, op, rec, f, o, kinds, obs, name, text, budget=14, n=24):
    if not o.alive: return
    mut = frozenset('G:' + q.split('::')[-1] for q, l in mutable_globals(prog).values())
    t0 = time.time()
    for ob in obs:
        if ob not in o.objs: continue
        told = set()
        for p, v in o.objs[ob].items():
            if p[:1] in told: continue
            ps = [p] + [q for q in prefixes(p) if q in o.objs[ob]]
            t = aggterm(o.objs[ob], ps)
            if not touches(prog, o, t, kinds, mut): r.obligation(True, '%s %s.%s' % (op, ob, '.'.join(p))); continue
            if time.time() - t0 > 3 * budget: r.obligation(False, None, '%s %s: %s.%s not judged in time' % (tu, op, ob, '.'.join(p))); continue
            hit = None
            for m in sites.interpretations(o, n, 5, list(o.lits), budget=budget):
                m.mutable = mut
                try:
                    # the same arguments must be accepted under every choice
                    vs = []
                    for k in (1, 2, 3):
                        m.resalt(k, kinds)
                        if not all(m.truth(m.run(l)) for l in o.lits): raise Err()
                        vs.append(m.run(t))
                except (Err, Out, RecursionError): continue
                except Unk: break
                r.tried += 1
                if any(x != vs[0] for x in vs[1:]): hit = (m, vs); break
            if hit:
                r.obl += 1; told.add(p[:1])
                m, vs = hit; m.resalt(0, ())
                d = next(x for x in vs[1:] if x != vs[0])
                r.find(name, prog.loc(f['l']), op, text % (ob if ob in ('this', 'ret') else 'argument ' + ob[2:], '.'.join(p)),
                       ['once:  ' + repr(vs[0])[:250], 'again: ' + repr(d)[:250], 'interpretation: ' + m.show()])
            else: r.obligation(False, None, '%s %s: %s.%s mentions a value nothing determines, no interpretation shows that it matters' % (tu, op, ob, '.'.join(p)))
def touches(prog, o, t, kinds, mut):
    """the value graph reaches something nothing determines, also through the operations it calls"""
    memo = prog.__dict__.setdefault('_touch', {})
    ops = set()
    if 'rand' in kinds: ops |= {'rand', 'perm'}
    if 'undef' in kinds: ops.add('undef')
    def term(t):
        for x in walk(t, set()):
            if x.op in ops: return True
            if 'global' in kinds and x.op == 'init' and x.args[0] in mut: return True
            if x.op == 'res' and isinstance(x.args[0], str) and callee(x.args[0]): return True
        return False
    def callee(sig):
        k = (sig, tuple(sorted(kinds)))
        if k in memo: return memo[k]
        memo[k] = False
        c = linker(prog).outcome(sig)
        memo[k] = c is not None and any(term(v) for d in c.objs.values() for v in d.values())
        return memo[k]
    return term(t)
ANSWERS = r'(RAM::getVote|Discriminator::classify|Wisard(Wrapper)?::(classify|pyClassify)|ClusWisard(Wrapper)?::(classify|classifyUnsupervised|pyClassify)|Cluster::(classify|getScore)|Bleaching::.*|BBleaching::make|(RAM|Discriminator|Wisard|ClusWisard|Cluster)::(getMentalImage|getMentalImages))'
@rule('C03')
def r_chance(P, tier, prop):
    def fn(r, tu, prog, op, rec, f, o):
        judge_salt(r, tu, prog, op, rec, f, o, ('rand', 'undef', 'global'), ('ret',), 'undetermined-answer', 'the answer (%s%s) depends on something other than the model and the input')
    return optasks(P, fn, lambda op: re.fullmatch(ANSWERS, op.split('(')[0]))
def batchrows(v):
    """(rows, function putting other rows in their place) of an argument that is a batch of inputs"""
    if isinstance(v, tuple) and v[:1] == ('rec',):
        d = dict(v[1:])
        if isinstance(d.get('data'), tuple) and d['data'][:1] not in (('rec',), ('map',)): return d['data'], lambda rows: ('rec',) + tuple((k, rows if k == 'data' else x) for k, x in v[1:])
        return None
    if isinstance(v, tuple) and v and all(isinstance(x, tuple) and all(type(y) is int for y in x) for x in v): return v, lambda rows: rows
def otherrows(rows, j):
    x = rows[j]; out = [r for i, r in enumerate(rows) if i != j and r != x]
    if x[:1] == ('rec',):
        s = dict(x[1:]).get('input')
        if isinstance(s, str):
            for t in (''.join('\0' for _ in s), ''.join(chr(255 - ord(c)) for c in s)): out.append(('rec',) + tuple((k, t if k == 'input' else y) for k, y in x[1:]))
    else:
        out.append(tuple(0 for _ in x)); out.append(tuple(1 for _ in x)); out.append(tuple(1 - y if y in (0, 1) else 0 for y in x))
        if len(x) > 1: out.append(x[1:] + x[:1])
    return [y for k, y in enumerate(out) if y != x and y not in out[:k]]
@rule('C03')
def r_batch(P, tier, prop):
    """the answer to one input of a batch is the same whatever the other inputs are"""
    n = 160 if tier == 'quick' else 1500; budget = 25 if tier == 'quick' else 200
    def fn(r, tu, prog, op, rec, f, o):
        if not o.alive or 'ret' not in o.objs: return
        ps = list(o.objs['ret']); t = aggterm(o.objs['ret'], ps)
        done = 0; t0 = time.time()
        for m in sites.interpretations(o, n, 11, list(o.lits), budget=budget):
            if time.time() - t0 > budget: break
            for k in [k for k in m.objs if k.startswith('A:')]:
                b = batchrows(m.objs[k])
                if b is None or len(b[0]) < 2: continue
                rows, put = b
                try: v0 = seq(m.run(t))
                except (Err, Out, Unk, RecursionError): continue
                if v0 is None or len(v0) != len(rows): continue
                for j in range(len(rows)):
                    for y in otherrows(rows, j):
                        m2 = m.with_linker(m.linker); m2.objs = dict(m.objs); m2.objs[k] = put(rows[:j] + (y,) + rows[j + 1:])
                        try:
                            if not all(m2.truth(m2.run(l)) for l in o.lits): continue
                            v1 = seq(m2.run(t))
                        except (Err, Out, Unk, RecursionError): continue
                        r.tried += 1; done += 1
                        if v1 is None or len(v1) != len(v0): continue
                        bad = [i for i in range(len(v0)) if i != j and v0[i] != v1[i]]
                        if bad:
                            r.obl += 1
                            r.find('batch', prog.loc(f['l']), op, 'the answer to input %d of a batch changes when input %d is another one' % (bad[0], j),
                                   ['with %s: %s' % (rows[j], repr(v0[bad[0]])[:600]), 'with %s: %s' % (y, repr(v1[bad[0]])[:600]), 'interpretation: ' + m.show()])
                            return
        if isbatch(prog, f): r.obligation(False, None, '%s %s: each answer rests on its own input in all of %d exchanged batches' % (tu, op, done)) if not pointwise(o.objs['ret']) else r.obligation(True, '%s: each answer is a term over its own input' % op)
    return optasks(P, fn, lambda op: re.fullmatch(r'.*(Wisard|ClusWisard)(Wrapper)?::(classify|classifyUnsupervised|pyClassify)', op.split('(')[0]))
def seq(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg': v = v[1]
    if isinstance(v, tuple) and v[:1] in (('pylist',), ('pyput',)):
        put = {}
        while v[:1] == ('pyput',):
            put.setdefault(v[3], v[4]); v = v[2]
        if v[:1] != ('pylist',) or not isinstance(v[1], int): return None
        return tuple(put.get(i) for i in range(v[1]))
    if isinstance(v, tuple) and v[:1] not in (('rec',), ('map',), ('v',), ('jo',)): return v[1] if v[:1] in (('ja',), ('pl',)) else v
def pointwise(d):
    """every mention of an input in the answer at one place is of the input at that place"""
    for p, t in d.items():
        if p == ('#',): continue
        if p[:1] != ('*',) or t.op != 'lam': return False
        ks = [fresh('at') for _ in range(t.args[0])]
        b = app(t, *ks)
        for x in walk(b, set()):
            if x.op != 'init' or not str(x.args[0]).startswith('A:'): continue
            pl = x.args[1]
            if pl and pl[-1] == '#' and len(pl) == 1: continue
            if '*' not in pl: continue
            if x.args[2] is not ks[0]: return False
    return True
@rule('C18')
def r_unset(P, tier, prop):
    def fn(r, tu, prog, op, rec, f, o):
        judge_salt(r, tu, prog, op, rec, f, o, ('undef',), list(o.objs), 'unset-value', '%s.%s takes a value that was never set')
    return optasks(P, fn, lambda op: '~' not in op)

# ---------------------------------------------------------------- termination
FAR = list(range(0, 100)) + [300, 1000, 10**5, (1 << 33) + 5, 1 << 70]
def endless(o, s):
    """interpretation under which the loop is entered and no exit is taken in any of the rounds looked at"""
    syms = s.syms + (s.e.d['ctx'].lv,)
    E = lam(len(syms), s.e.d['E'], syms); d = len(s.syms)
    inner = [t for t in sites.throwsites(o) if len(t.syms) > d and t.syms[d] is syms[-1]]
    for m in sites.interpretations(o, 24, 3, budget=12):
        try:
            for key, ks in sites.rounds(m, s)[:6]:
                f = sites.first_throw(m, o)
                if f is not None and f[0] < key: break
                if any(len(t.syms) > d + 1 for t in inner): return None
                for k in FAR:
                    if m.truth(m.apply(E, ks + (k,), {})): break
                    out = False
                    for t in inner:
                        try:
                            if not all(m.truth(m.apply(l, ks + (k,), {})) for l in t.pc()): continue
                        except Err: return None
                        if t.kind == 'throw': out = True; break
                        c = sites.callee(m, t, ks + (k,))
                        if c is None: out = True; break
                        if sites.first_throw(*c) is not None: out = True; break
                    if out: break
                else: return m, ks
        except (Err, Out, RecursionError): continue
        except Unk: return None
    return None
def exits(o):
    out = set()
    for s in sites.sites(o, ('loop',)):
        if s.e.d['infinite']: out.add(lam(1, s.e.d['E'], (s.e.d['ctx'].lv,)))
    return out
@rule('C23')
def r_ends(P, tier, prop):
    from .main import reference_index
    ri = {(rec['short'], n, ty): (rec, f) for (c, n, ty), (rec, f) in reference_index(P['ref']).items()}
    def fn(r, tu, prog, op, rec, f, o):
        known = None
        for s in sites.sites(o, ('loop',)):
            if not s.e.d['infinite']: r.obligation(True, '%s: loop at %s has the trip count %s' % (op, where(prog, s.e), show(s.e.d['n'])[:60] if isinstance(s.e.d.get('n'), T) else '')); continue
            if known is None:
                n = rec['short'] if f.get('ctor') else f['n'].split('<')[0]
                x = ri.get((rec['short'], n, nparams(prog, f)))
                known = exits(outcome(P['ref'], *x)) if x else set()
            if lam(1, s.e.d['E'], (s.e.d['ctx'].lv,)) in known: r.obligation(True, '%s: loop at %s leaves under the reviewed condition' % (op, where(prog, s.e))); continue
            h = endless(o, s)
            if h:
                r.obl += 1
                r.find('endless-loop', where(prog, s.e), op, 'this loop is never left', ['no exit condition holds in any of the rounds looked at (up to 2^70): ' + show(s.e.d['E'])[:300], 'interpretation: ' + h[0].show()])
            else: r.obligation(False, None, '%s %s: no trip count found for the loop at %s' % (tu, op, where(prog, s.e)))
    return optasks(P, fn)
def surely(body):
    """calls made on every path through the start of a body"""
    def expr(e):
        if not isinstance(e, dict): return
        k = e.get('k')
        if k in ('lambda', 'cond') : yield from expr(e.get('c')); return
        if k == 'bin' and e.get('op') in ('&&', '||'): yield from expr(e.get('a')); return
        if 'f' in e and k in ('call', 'mcall', 'ctor', 'new', 'construct'): yield e['f']
        for n, v in e.items():
            if isinstance(v, dict): yield from expr(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict): yield from expr(y)
    out = []
    def stmt(s):
        """False when the statement may leave the function"""
        k = s.get('k')
        if k in ('block', 'decls'):
            for x in s.get('b', s.get('d', [])):
                if not stmt(x): return False
            return True
        if k in ('if', 'switch', 'while', 'for', 'rfor', 'do', 'try'):
            out.extend(expr(s.get('c') if k != 'do' else None))
            for x in irwalk(s):
                if x.get('k') in ('ret', 'throw', 'break', 'continue', 'goto'): return False
            return True
        out.extend(expr(s))
        return k not in ('ret', 'throw', 'break', 'continue', 'goto')
    if body: stmt(body)
    return out
@rule('C23')
def r_recursion(P, tier, prop):
    ts = []
    for tu in TUS:
        cur = P[tu]
        def task(r, tu=tu, cur=cur):
            fs = {f['id']: f for f in lib_functions(cur)}
            edge = {i: {g for g in surely(f['body']) if g in fs} for i, f in fs.items()}
            for i, f in fs.items():
                seen = set(); todo = list(edge[i])
                while todo:
                    g = todo.pop()
                    if g not in seen: seen.add(g); todo += edge[g]
                r.obligation(i not in seen)
                if i in seen: r.find('endless-recursion', cur.loc(f['l']), api.fname(f), 'every execution calls this function again')
        ts.append((tu + ' recursion', task, 60))
    return ts

# ---------------------------------------------------------------- files
def modeflags(t):
    return {str(x.args[0]).split('::')[-1] for x in walk(t) if x.op in ('extvar', 'openmode')}
@rule('C19')
def r_files(P, tier, prop):
    """a save under a given name replaces the file; an export takes a name no file has, and says which"""
    def fn(r, tu, prog, op, rec, f, o):
        for st in sites.sites(o, ('stream',)):
            e = st.e
            if e.d['op'] != 'open' or e.d['ty'] == 'std::basic_ifstream' or st.syms: continue
            name, mode, lits = e.d['file'], e.d['mode'], st.pc()
            if op.split('::')[1].startswith('save'):
                fl = modeflags(mode)
                bad = fl & {'app', 'ate'} or 'in' in fl and 'trunc' not in fl
                r.obligation(not bad, '%s opens its file anew' % op)
                if bad: r.find('file-mode', where(prog, e), op, 'the file named is not replaced: opened with mode ' + '|'.join(sorted(fl)))
                continue
            probe = mk('openok', (name, mk('extvar', ('std::ios_base::in',), 'o')), 'b')
            n = hit = 0
            for m in sites.interpretations(o, 30, 11, lits, budget=12):
                try:
                    m.resalt(7, ('rand',))
                    if not all(m.truth(m.run(l)) for l in lits): continue
                    n += 1; r.tried += 1
                    if m.truth(m.run(probe)): hit = m; break
                    if op.startswith('Discriminator::getJSON') and o.alive and 'ret' in o.objs:
                        t = aggterm(o.objs['ret'], list(o.objs['ret']))
                        nm = m.run(name)
                        if isinstance(nm, str) and nm not in str(m.run(t)).replace("\\'", "'"): hit = (m, nm); break
                except (Err, Out, RecursionError): continue
                except Unk: break
            if hit:
                r.obl += 1
                if isinstance(hit, tuple): r.find('file-name', where(prog, e), op, 'the export does not name the file its RAM data was written to', ['file: ' + hit[1], 'interpretation: ' + hit[0].show()])
                else: r.find('file-name', where(prog, e), op, 'RAM data is written under a name another file may already have', ['interpretation: ' + hit.show()])
            else: r.obligation(n > 0, '%s: the name written to was free (%d interpretations)' % (op, n), None if n else '%s %s: no interpretation writes the file' % (tu, op))
    return optasks(P, fn, lambda op: re.match(r'(RAMDataHandle|DataSet)::save|.*::(json|getJSON|getJson)\(bool,S\)', op))

# ---------------------------------------------------------------- random layouts
def evalagg(m, o, ob, paths=None):
    """{first path component: value} of an object under an interpretation"""
    ps = [p for p in o.objs[ob] if paths is None or p[:1] in paths or p in paths]
    v = m.run(aggterm({p: o.objs[ob][p] for p in ps}, ps))
    return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg' else v
def getk(v, k):
    for x in v[1:]:
        if x[0] == k: return x[1]
    raise Err('field')
RAND = ('rand',)
@rule('C24')
def r_layout(P, tier, prop):
    from .main import reference_index
    ri = {props.opname(api, P['ref'], f): (rec, f) for k, (rec, f) in reference_index(P['ref']).items()}
    def fn(r, tu, prog, op, rec, f, o):
        if not o.alive or op not in ri or ('rams', '*', 'addresses', '#') not in o.objs.get('this', {}): return
        q = outcome(P['ref'], *ri[op], names=o.names)
        want = [('rams', '#'), ('rams', '*', 'addresses', '#'), ('rams', '*', 'addresses', '*')]
        want = [p for p in want if p in o.objs['this'] and p in q.objs['this']]
        n = 0; told = False
        for m in sites.interpretations(o, 60 if tier == 'quick' else 240, 13, o.lits, budget=25):
            try:
                if not all(m.truth(m.run(l)) for l in q.lits): continue
                A = []; B = []
                for k in range(1, 5):
                    m.resalt(k, RAND)
                    A.append(rams(evalagg(m, q, 'this', want))); B.append(rams(evalagg(m, o, 'this', want)))
                m.resalt(0, ())
                N = m.run(o.objs['this'][('entrySize',)]); w = None
                given = all(a == A[0] for a in A) and max([len(x) for x in A[0]] + [0]) > 0 and N > 3
            except (Err, Out, RecursionError): continue
            except Unk: return
            n += 1; r.tried += 1
            for a, b in zip(A, B):
                flat = [x for y in b for x in y]
                if a == b: continue
                if any(not 0 <= x < N for x in flat): w = 'a RAM addresses a position outside the entry'
                elif [len(x) for x in a] != [len(x) for x in b]: w = 'the RAMs do not address the configured number of positions each'
                elif len({x for y in a for x in y}) == N and len(set(flat)) < N and full(a, N): w = 'a position of the entry is left out by a complete layout'
                elif distinct(A) and len(set(flat)) < len(flat): w = 'a position is used twice by a layout without completion'
                elif given and all(x == B[0] for x in B): w = 'the RAMs do not address the positions given'
                if w: r.obl += 1; r.find('layout', prog.loc(f['l']), op, w, ['required for instance: %s' % (a,), 'found: %s' % (b,), 'interpretation: ' + m.show()]); return
        r.obligation(n > 3, '%s: %d interpretations, 4 random streams each' % (op, n), None if n > 3 else '%s %s: no interpretation reaches the layout' % (tu, op))
    def full(a, N): return len([x for y in a for x in y]) >= N
    def distinct(A): return all(len({x for y in a for x in y}) == sum(len(y) for y in a) for a in A)
    def rams(v):
        v = getk(v, 'rams') if v and v[0] == 'rec' else v
        return [tuple(getk(x, 'addresses')) for x in v]
    return optasks(P, fn, lambda op: re.match(r'Discriminator(Wrapper)?::Discriminator', op))

# ---------------------------------------------------------------- synthetic data
@rule('C26')
def r_synth(P, tier, prop):
    link_all(P); ts = []
    for tu in TUS:
        cur = P[tu]
        mk1 = lookup(cur, 'Synthesizer', 'Synthesizer'); mk2 = lookup(cur, 'Synthesizer', 'make')
        if not mk1 or not mk2 or ir.unchanged(cur, tu, mk1[0][1]) and ir.unchanged(cur, tu, mk2[0][1]): continue
        def task(r, tu=tu, cur=cur, c=mk1[0], g=mk2[0]):
            a = outcome(cur, *c, names=['mentalImage']); b = outcome(cur, *g)
            loc = cur.loc(g[1]['l'])
            if not a.alive or not b.alive or 'ret' not in b.objs: r.obligation(False, None, tu + ' Synthesizer: no result'); return
            T1 = aggterm(a.objs['this'], list(a.objs['this'])); T2 = aggterm(b.objs['ret'], list(b.objs['ret']))
            IM = [(), (0,), (3,), (1, 1, 2), (0, 0), (0, 2, 1, 2), (1, 2, 2, 1, 3), (2, 4, 2), (5, 0, 1, 4), (2, 2, 4, 0, 2), (1, 3, 1, 0), (-1, 2, 1), (9, 5, 0), (20, 20, 8)]
            done = 0
            for im in IM:
                m = model.Model(5, leaftype(a.it), (), (), allfields(cur), linker(cur))
                m.objs = dict(tables(cur)); m.objs['A:mentalImage'] = im
                outs = []
                try:
                    for s in range(1, 41 if tier == 'quick' else 161):
                        m.resalt(s, ('rand', 'undef')); m.tag = ('new',)
                        v = m.run(T1)
                        for k in range(3):
                            sub = model.SubModel(m, {'this': v[1]}); sub.tag = ('make', k); m.fuel = 400000
                            m.stop = time.time() + 2
                            w = sub.run(T2)
                            outs.append(w[1] if isinstance(w, tuple) and w and w[0] == 'agg' else w)
                except (Err, Out, RecursionError) as e: r.obligation(False, None, '%s Synthesizer: no value for the mental image %s (%s)' % (tu, im, e)); continue
                except Unk as e: r.obligation(False, None, '%s Synthesizer: %s' % (tu, e)); return
                done += 1; r.tried += len(outs)
                top = max(im + (0,)); bad = None
                for w in outs:
                    if not isinstance(w, tuple) or len(w) != len(im): bad = 'the example has %s values for %d positions' % (len(w) if isinstance(w, tuple) else '?', len(im))
                    elif any(x not in (0, 1) for x in w): bad = 'a value of the example is neither 0 nor 1'
                    elif any(x and im[i] <= 0 for i, x in enumerate(w)): bad = 'a position whose mental image is zero is set'
                    elif any(not x and im[i] == top and top > 0 for i, x in enumerate(w)): bad = 'a position whose mental image is maximal is not set'
                    if bad: break
                if not bad and top > 1:
                    mid = [i for i, x in enumerate(im) if 0 < x < top]
                    for i in mid:
                        if len({w[i] for w in outs}) < 2: bad = 'a position with a middle value of the mental image is always %s' % ('set' if outs[0][i] else 'clear')
                    for i in mid:
                        for j in mid:
                            if i < j and not bad:
                                ps = {(w[i], w[j]) for w in outs}
                                if (1, 1) not in ps or im[i] + im[j] <= top and (0, 0) not in ps: bad = 'the positions %d and %d are not drawn independently' % (i, j)
                                elif im[i] == im[j] and all(x == y for x, y in ps): bad = 'the positions %d and %d are not drawn independently' % (i, j)
                                elif im[i] < im[j] and (1, 0) not in ps or im[i] > im[j] and (0, 1) not in ps: bad = 'the positions %d and %d are not drawn independently' % (i, j)
                if bad: r.obl += 1; r.find('synthetic', loc, 'Synthesizer::make()', bad, ['mental image: %s' % (im,), 'examples: %s' % (sorted(set(map(str, outs)))[:4],)]); return
                r.obligation(True, 'mental image %s: %d examples' % (im, len(outs)))
        ts.append((tu + ' Synthesizer', task, 200))
    return ts

# ---------------------------------------------------------------- keyword options
def docoptions(cls):
    """options a class's documentation lists and shows as optional: [(name, place)]"""
    out = []
    for d, sub, fs in os.walk(os.path.join(ir.REPO, 'docs')):
        for fn in sorted(fs):
            if fn.lower() != cls.lower() + '.md': continue
            ls = open(os.path.join(d, fn), encoding='utf8', errors='replace').read().split('\n')
            opt = set()
            for l in ls: opt |= {x.lower() for x in re.findall(r'^\s*(\w+)\s*=\s*[^#]*#\s*optional', l)}
            for i, l in enumerate(ls):
                x = re.match(r'\s*-\s*\*\*(\w+)\s*:\s*\[', l)
                if x and x.group(1).lower() in opt and x.group(1) not in [n for n, p in out]:
                    out.append((x.group(1), '%s:%d' % (os.path.relpath(os.path.join(d, fn), ir.REPO), i + 1)))
    return out
def strings(o):
    """string constants of an operation's value graph"""
    seen = set(); out = set()
    for ts in [list(d.values()) for d in o.objs.values()] + [list(o.lits)]:
        for t in ts:
            for x in walk(t, seen):
                if x.op == 'str': out.add(x.args[0])
    return out
@rule('C20')
def r_options(P, tier, prop):
    link_all(P); ts = []
    cur = P['src']
    for rec, f in methods(cur):
        if not f.get('ctor') or not rec['short'].endswith('Wrapper') or not public(f): continue
        tys = [props.pname(api.tysig(cur, q['t'])) for q in f['params']]
        if not tys or tys[-1] != 'kwargs': continue
        base = rec['short'][:-7]
        g = [(r2, f2) for r2, f2 in methods(cur) if r2['short'] == base and f2.get('ctor') and [props.pname(api.tysig(cur, q['t'])) for q in f2['params']] == tys[:-1] + ['J']]
        def task(r, rec=rec, f=f, base=base, g=g, op=props.opname(api, cur, f)):
            o = outcome(cur, rec, f)
            r.functions.add(('src', op))
            if not o.alive: r.obligation(False, None, op + ': no normal exit'); return
            known = strings(o)
            for n, w in docoptions(base):
                ok = n in known
                if not ok and (o.unknown or has_op([t for d in o.objs.values() for t in d.values()], {'unk'})): r.obligation(False, None, '%s: option %s' % (op, n)); continue
                r.obligation(ok, 'option %s (%s)' % (n, w))
                if not ok: r.find('option-unknown', cur.loc(f['l']), op, 'the documented option %s is not recognised' % n, ['documented at ' + w], key='option-%s-%s' % (base, n))
            if not g: return
            q = outcome(cur, *g[0], names=o.names)
            if not q.alive: return
            from . import states
            n = 0; ps = [p for p in o.objs['this'] if p in q.objs['this']]
            mk1 = maker(cur, rec, f, o.names)
            for s in range(60 if tier == 'quick' else 300):
                m = Model(9000 + s, leaftype(o.it), (), (), allfields(cur), linker(cur))
                mk1(m, 9000 + s)
                w = states.World(9000 + s); opts = w.options(rec['short'])[2]
                if s < 3: opts = ()
                elif s % 3 == 1 and opts: opts = (opts[s % len(opts)],)
                m.objs['A:' + o.names[-1]] = ('jo', ('null',), tuple(opts))
                m.kw = [(k, states.World.plainjson(v)) for k, v in opts]
                if s % 2: m.kw.reverse()
                m.reset()
                try:
                    if not all(m.truth(m.run(l)) for l in list(o.lits) + list(q.lits)): continue
                    n += 1; r.tried += 1
                    for p in ps:
                        if any(p[:len(k)] == k for k in skip(o, q)): continue
                        a = [p] + [z for z in prefixes(p) if z in o.objs['this'] and z in q.objs['this']]
                        x = m.run(aggterm(o.objs['this'], a)); y = m.run(aggterm(q.objs['this'], a))
                        if x != y:
                            r.obl += 1
                            r.find('option-value', cur.loc(f['l']), op, 'with the options %s, %s is not what the C++ constructor makes it' % (dict(m.kw) or 'left out', '.'.join(p)), ['Python: ' + repr(x)[:200], 'C++:    ' + repr(y)[:200]])
                            return
                except (Err, Out, RecursionError): continue
                except Unk as e: r.obligation(False, None, '%s: %s' % (op, e)); return
            r.obligation(n > 4, '%s: %d sets of options' % (op, n), None if n > 4 else '%s: hardly any set of options is accepted' % op)
        def skip(o, q): return ()
        ts.append(('src options ' + rec['short'], task, 120))
    return ts

# ---------------------------------------------------------------- the Python module
def bindings(prog):
    """what the Python module offers: [(C++ class, Python name, target function or constructor types or None, place, extra arguments)], [(Python class, C++ class)]"""
    out = []; classes = {}
    def clsof(e):
        x = prog.types[prog.strip(e['t'])] if 't' in e else {}
        if x.get('q') == 'pybind11::class_' and x.get('a') and isinstance(x['a'][0], int): return prog.types[x['a'][0]]['n'].split('::')[-1]
    for f in lib_functions(prog):
        for e in irwalk(f['body']):
            if e.get('k') == 'ctor' and clsof(e):
                for a in e['args']:
                    if a.get('k') == 'str': classes[clsof(e)] = (a['v'], prog.loc(e['l'])); break
            if e.get('k') != 'mcall' or 'f' not in e: continue
            g = prog.f.get(e['f'])
            if g is None or g['n'].split('<')[0] not in ('def', 'def_static', 'def_property_readonly', 'def_property') or not (g.get('cls') or '').startswith('pybind11::class_'): continue
            c = clsof(e['o']) or clsof(e)
            a = e['args']
            if not c or not a: continue
            if a[0].get('k') == 'str':
                fns = [x for x in irwalk(a[1]) if x.get('k') == 'fn'] if len(a) > 1 else []
                out.append((c, a[0]['v'], prog.f.get(fns[0]['f']) if len(fns) == 1 and a[1].get('k') in ('fn', 'cast', 'call', 'mcall', 'opcall') else None, prog.loc(e['l']), a[2:]))
            else:
                x = prog.types[prog.strip(a[0]['t'])]
                if x.get('q', '').startswith('pybind11::detail::initimpl::constructor'): out.append((c, '__init__', tuple(props.pname(api.tysig(prog, t)) for t in x.get('a', ()) if isinstance(t, int)), prog.loc(e['l']), a[1:]))
                else: out.append((c, '__init__', None, prog.loc(e['l']), a[1:]))
    return out, classes
def ptypes(prog, f): return tuple(props.pname(api.tysig(prog, q['t'])) for q in f['params'])
def family(c): return api.FAMILY.get(c, c)
def docmethods():
    """methods the documentation lists: [(class, method, place)]"""
    out = []
    for d, sub, fs in os.walk(os.path.join(ir.REPO, 'docs')):
        for fn in sorted(fs):
            if not fn.endswith('.md'): continue
            on = False; code = False
            for i, l in enumerate(open(os.path.join(d, fn), encoding='utf8', errors='replace').read().split('\n')):
                if l.startswith('```'): code = not code
                if code: continue
                if re.match(r'##\s', l): on = 'methods' in l.lower()
                x = re.match(r'#+\s+([a-zA-Z_]\w*)\s*$', l)
                if on and x: out.append((fn[:-3].lower(), x.group(1), '%s:%d' % (os.path.relpath(os.path.join(d, fn), ir.REPO), i + 1)))
    return out
@rule('C21')
def r_bindings(P, tier, prop):
    link_all(P); ts = []
    cur, ref = P['src'], P['ref']
    def task(r):
        B, C = bindings(cur); R, D = bindings(ref)
        if len(B) < 10: r.obligation(False, None, 'the bindings were not found'); return
        known = known_ops(P)
        def key(prog, f): return (api.clsname(f), f['n'].split('<')[0], nparams(prog, f))
        def describe(prog, f): return '%s(%s)' % (api.fname(f), ','.join(ptypes(prog, f)))
        for c, (n, w) in D.items():
            ok = any(family(x) == family(c) and C[x][0] == n for x in C)
            r.obligation(ok, 'class %s' % n)
            if not ok: r.find('binding-missing', 'src/wisard_bind.cc', 'pybind11_init_wisardpkg', 'the module offers no class %s' % n)
        for c, n, f, w, extra in R:
            pyc = D.get(c, (c, ''))[0]
            same = [b for b in B if family(b[0]) == family(c) and b[1] == n]
            label = '%s.%s' % (pyc, n)
            if n == '__init__':
                ok = any(b[2] == f for b in same)
                if not ok and any(b[2] is None for b in same): r.obligation(False, None, label + ': a constructor that is not looked into'); continue
                r.obligation(ok, '%s%s' % (label, f))
                if not ok: r.find('binding-missing', same[0][3] if same else 'src/wisard_bind.cc', label, 'no constructor taking (%s) is offered' % ', '.join(f))
                continue
            want = ptypes(ref, f)
            cand = [b for b in same if b[2] is not None and ptypes(cur, b[2]) == want]
            if not cand:
                if any(b[2] is None for b in same): r.obligation(False, None, label + ': bound to a function that is not looked into'); continue
                r.obligation(False)
                r.find('binding-missing', same[0][3] if same else 'src/wisard_bind.cc', label, 'no method %s taking (%s) is offered' % (label, ', '.join(want))); continue
            b = cand[0]; g = b[2]
            if g['n'].split('<')[0] == f['n'].split('<')[0] and api.clsname(g) == api.clsname(f):
                r.obligation(True, '%s(%s) runs %s' % (label, ','.join(want), describe(cur, g))); continue
            if g['n'].split('<')[0] != f['n'].split('<')[0] and (key(cur, g) in known or g['n'].split('<')[0] in {k[1] for k in known if family(k[0]) == family(c)}):
                r.obligation(False)
                r.find('binding-target', b[3], label, '%s(%s) runs %s, not %s' % (label, ', '.join(want), describe(cur, g), describe(ref, f))); continue
            judge_target(r, label, b, f, g)
        for c, n, f, w, extra in B:
            if f is None or n == '__init__': continue
            x = cur.types[f['ret']]
            bad = x['k'] == 'ptr' or x['k'] == 'ref' and any(str(y.get('n', y.get('v', ''))).split('::')[-1] in ('reference', 'reference_internal', 'take_ownership') for a in extra for y in irwalk(a))
            r.obligation(not bad, None)
            if bad: r.find('binding-copy', w, '%s.%s' % (C.get(c, (c,))[0], n), 'the result is not an independent copy')
        offered = {(family(c).lower(), n) for c, n, f, w, e in B}
        for c, n, w in docmethods():
            ok = (c, n) in offered
            r.obligation(ok, 'documented %s.%s' % (c, n))
            if not ok: r.find('binding-missing', w, '%s.%s' % (c, n), 'the documented method %s is not offered' % n)
    def judge_target(r, label, b, f, g):
        """a function of another name: it must do what the operation does"""
        rr = [(rec, x) for rec, x in methods(ref) if x['id'] == f['id']]; cc = [(rec, x) for rec, x in methods(cur) if x['id'] == g['id']]
        if not rr or not cc: r.obligation(False, None, '%s: bound to %s, which is not looked into' % (label, api.fname(g))); return
        a = outcome(ref, *rr[0]); o = outcome(cur, *cc[0], names=a.names)
        d, st = compare(a, o, {'value', 'exit'}, lambda ob, p: True)
        r.obl += st['leaves']; r.dis += st['same']; r.tried += st['tried']
        if d:
            x = d[0]
            r.find('binding-target', b[3], label, 'bound to %s, which differs from %s: %s' % (api.fname(g), api.fname(f), x.msg), list(x.vals or ()) + ([x.m.show()] if x.m is not None else []))
    ts.append(('src bindings', task, 200))
    return ts

# ---------------------------------------------------------------- errors as exceptions
STDEX = r'std::(exception|bad_\w+|\w+_error|invalid_argument|out_of_range|nested_exception)$|pybind11::(builtin_exception|\w+_error|error_already_set|stop_iteration|cast_error)|nlohmann::.*'
ENDS = {'exit', '_Exit', '_exit', 'quick_exit', 'abort', 'terminate', 'raise', 'kill', '__builtin_trap', '__builtin_abort', 'longjmp'}
def lineage(prog, t, public=True):
    """qualified names a thrown object can be caught as"""
    out = set(); todo = [t]
    while todo:
        x = prog.types[prog.strip(todo.pop())]
        if x['k'] != 'rec': continue
        out.add(x['q'])
        r = prog.records.get(x['q']) or next((y for y in prog.records.values() if y['q'] == x['q']), None)
        if r is None:
            if re.match(STDEX, x['q']): out.add('std::exception')
            continue
        pb = r.get('pubbases') or [True] * len(r['bases'])
        todo += [b for b, p in zip(r['bases'], pb) if p or not public]
    return out
def bare(e):
    while isinstance(e, dict) and e.get('k') == 'cast' and isinstance(e.get('x'), dict): e = e['x']
    return e
def escapes(prog, lib):
    """function id -> {(types of the thrown object as tuple, place)} that leave the function"""
    memo = {i: set() for i in lib}
    def walk(n, cur, out):
        if isinstance(n, list):
            for x in n: walk(x, cur, out)
            return
        if not isinstance(n, dict): return
        k = n.get('k')
        if k == 'try':
            inner = set(); walk(n['b'], cur, inner)
            for h in n['h']:
                t = lineage(prog, h['v']['t']) and prog.types[prog.strip(h['v']['t'])].get('q') if 'v' in h else None
                got = {x for x in inner if 'v' not in h or t in x[0]}
                inner -= got
                walk(h['b'], got, out)
            out |= inner; return
        if k == 'throw':
            if n.get('x') is None: out |= cur
            else: out.add((tuple(sorted(lineage(prog, n['x']['t']))), prog.loc(n['l'])))
        if k in ('call', 'mcall', 'ctor', 'opcall', 'new', 'lambda', 'construct') and n.get('f') in memo: out |= memo[n['f']]
        for v in n.values(): walk(v, cur, out)
    more = True
    while more:
        more = False
        for i, f in lib.items():
            out = set(); walk(f['body'], set(), out); walk([x['x'] for x in f.get('inits', ())], set(), out)
            if not out <= memo[i]: memo[i] |= out; more = True
    return memo, walk
def always_throws(prog, lib, s, depth=0):
    """the statement never completes normally (throws on every path)"""
    k = s.get('k') if isinstance(s, dict) else None
    if k == 'block': return any(always_throws(prog, lib, x, depth) for x in s['b'])
    if k == 'if': return bool(s.get('b')) and always_throws(prog, lib, s['a'], depth) and always_throws(prog, lib, s['b'], depth)
    if k == 'expr':
        e = bare(s['x'])
        if not isinstance(e, dict): return False
        if e.get('k') == 'throw': return True
        if e.get('f') in lib and depth < 4: return always_throws(prog, lib, lib[e['f']]['body'], depth + 1)
        return isinstance(e.get('f'), int) and prog.f.get(e['f'], {}).get('n') in ('rethrow_exception', 'throw_with_nested')
    if k == 'try': return always_throws(prog, lib, s['b'], depth) and all(always_throws(prog, lib, h['b'], depth) for h in s['h'])
    return k == 'throw'
def lasting(prog, lib, f, e, depth=0):
    """does the text the pointer expression names outlive the function?  True, False or None"""
    e = bare(e)
    if not isinstance(e, dict): return None
    k = e.get('k')
    if k in ('str', 'null', 'nullptr'): return True
    if k == 'cond':
        a = [lasting(prog, lib, f, e[x], depth) for x in ('a', 'b')]
        return False if False in a else None if None in a or not a else True
    if k == 'var':
        if 'g' in e or e.get('static'): return True
        t = prog.types[prog.strip(e['t'])]
        if t['k'] == 'arr': return False
        ps = [q['id'] for q in f['params']]
        if e.get('id') in ps:
            if depth > 3: return None
            i = ps.index(e['id']); got = []
            for g in lib.values():
                for y in list(irwalk(g['body'])) + [z for x in g.get('inits', ()) for z in irwalk(x['x'])]:
                    if y.get('f') == f['id'] and y.get('k') in ('call', 'mcall', 'ctor') and len(y['args']) > i: got.append(lasting(prog, lib, g, y['args'][i], depth + 1))
            return False if False in got else None if None in got or not got else True
        vs = []
        for y in irwalk(f['body']):
            if 'init' in y and y.get('id') == e.get('id'):
                if y.get('id') == e.get('id') and y.get('init'): vs.append(lasting(prog, lib, f, y['init'], depth + 1))
            if y.get('k') == 'bin' and y.get('op') == '=' and bare(y.get('a') or {}).get('id') == e.get('id'): vs.append(lasting(prog, lib, f, y.get('b'), depth + 1))
        return False if False in vs else None if None in vs or not vs else True
    if k in ('mcall',) and prog.f.get(e.get('f'), {}).get('n') in ('c_str', 'data') or k == 'un' and e.get('op') == '&' or k == 'opcall' and e.get('op') in ('[]',):
        o = bare(e.get('o') or e.get('x') or (e.get('args') or [None])[0])
        while isinstance(o, dict) and o.get('k') in ('idx', 'mem') and (o.get('a') or o.get('o')): o = bare(o.get('a') or o.get('o'))
        if not isinstance(o, dict): return None
        if o.get('k') == 'var': return True if 'g' in o or o.get('static') else (None if prog.types[o['t']]['k'] == 'ref' or any(q['id'] == o.get('id') and prog.types[q['t']]['k'] == 'ref' for q in f['params']) else False)
        if o.get('k') in ('call', 'mcall', 'opcall', 'ctor', 'cast', 'temp', 'lambda'):
            return None if prog.types[o['t']]['k'] == 'ref' or o.get('k') != 'ctor' and returns_ref(prog, o) else False
        return None
    if k in ('call', 'mcall') and e.get('f') in lib and depth < 4:
        g = lib[e['f']]
        vs = [lasting(prog, lib, g, y['x'], depth + 1) for y in irwalk(g['body']) if y.get('k') == 'ret' and y.get('x')]
        return False if False in vs else None if None in vs or not vs else True
    return None
def returns_ref(prog, o):
    g = prog.f.get(o.get('f'))
    return g is not None and prog.types[g['ret']]['k'] in ('ref', 'ptr')
@rule('C22')
def r_errors(P, tier, prop):
    ts = []
    for tu in TUS:
        cur = P[tu]
        def task(r, tu=tu, cur=cur):
            lib = {f['id']: f for f in lib_functions(cur)}
            esc, scan = escapes(cur, lib)
            # exception classes that keep a pointer to text of someone else
            raw = {}
            for q, x in cur.records.items():
                if 'std::exception' not in lineage(cur, x['t'], False): continue
                if any(cur.types[fl['t']]['k'] == 'ptr' or cur.types[fl['t']].get('q') == 'std::basic_string_view' for fl in x['fields']): raw[x['q']] = x
            for f in lib.values():
                if 'pybind11' in (f.get('q') or '') or f['n'].startswith('PyInit_'): continue
                nm = api.fname(f)
                nodes = list(irwalk(f['body'])) + [y for x in f.get('inits', ()) for y in irwalk(x['x'])]
                for e in nodes:
                    k = e.get('k')
                    if k == 'throw' and e.get('x') is not None:
                        ok = 'std::exception' in lineage(cur, e['x']['t'])
                        r.obligation(ok, '%s throws a std::exception' % nm)
                        if not ok: r.find('thrown-type', cur.loc(e['l']), nm, 'throws an object that cannot be caught as std::exception: ' + cur.tyname(e['x']['t']))
                    if k == 'expr' and isinstance(e.get('x'), dict):
                        y = e['x']
                        y = bare(y)
                        if y.get('k') == 'ctor' and 'std::exception' in lineage(cur, y['t'], False):
                            r.obligation(False); r.find('not-thrown', cur.loc(e['l']), nm, 'an exception is made and not thrown')
                    if k == 'ctor' and cur.types[cur.strip(e['t'])].get('q') in raw and e['args']:
                        g = cur.f.get(e['f'], {})
                        if not (g.get('copy') or g.get('move')):
                            for a, q in zip(e['args'], g.get('params', ())):
                                if cur.types[cur.strip(q['t'])]['k'] != 'ptr' and cur.types[cur.strip(q['t'])].get('q') != 'std::basic_string_view': continue
                                v = lasting(cur, lib, f, a)
                                r.obligation(v is True, '%s: message is a constant' % nm, None if v is not None else '%s %s: message of unknown lifetime' % (tu, nm))
                                if v is False: r.find('message-lifetime', cur.loc(e['l']), nm, 'the message of the exception is gone when it is caught')
                    if k in ('call', 'mcall') and e.get('f') in cur.f:
                        g = cur.f[e['f']]
                        if g['n'] in ENDS and not g.get('repo') and not g.get('cls'): r.obligation(False); r.find('process-ends', cur.loc(e['l']), nm, 'ends the process (%s)' % g['n'])
                    if k == 'try':
                        inner = set(); scan(e['b'], set(), inner)
                        for h in e['h']:
                            if always_throws(cur, lib, h['b']): r.obligation(True, '%s: handler passes the error on' % nm); continue
                            t = cur.types[cur.strip(h['v']['t'])].get('q') if 'v' in h else None
                            got = [x for x in inner if t is None or t in x[0]]
                            lost = bool(got) or t is not None and t.startswith('nlohmann') or t in (None, 'std::exception') and parses(cur, e['b'])
                            if not lost or any(cur.f.get(y.get('f'), {}).get('n') == 'current_exception' for y in nodes) or later_throw(f['body'], e): r.obligation(False, None, '%s %s: a handler that completes' % (tu, nm)); continue
                            r.obligation(False)
                            r.find('error-swallowed', cur.loc(h['l']), nm, 'an error raised below is caught and not passed on', ['raised at ' + x[1] for x in sorted(got)[:3]])
                if f.get('dtor') or f.get('nothrow'):
                    ok = not esc[f['id']]
                    r.obligation(ok, '%s lets no exception out' % nm)
                    if not ok: r.find('throw-in-nothrow', cur.loc(f['l']), nm, 'an exception leaves %s, which ends the process' % ('a destructor' if f.get('dtor') else 'a function declared not to throw'), ['raised at ' + x[1] for x in sorted(esc[f['id']])[:3]])
                if f['n'] == 'what' and f.get('virtual'):
                    for y in nodes:
                        if y.get('k') == 'ret' and y.get('x'):
                            v = lasting(cur, lib, f, y['x'])
                            r.obligation(v is not False, nm)
                            if v is False: r.find('message-lifetime', cur.loc(y['l']), nm, 'the text handed out is gone when the caller reads it')
        ts.append((tu + ' errors', task, 120))
    return ts
def parses(prog, body):
    """calls below that report malformed text by an exception of the JSON library"""
    for y in irwalk(body):
        g = prog.f.get(y.get('f')) if isinstance(y.get('f'), int) else None
        if g is not None and 'nlohmann' in (g.get('q') or ''): return True
    return False
def later_throw(body, node):
    """a throw behind the node in the text of the function"""
    seen = False
    for y in irwalk(body):
        if y is node: seen = True; inside = {id(z) for z in irwalk(node)}
        elif seen and id(y) not in inside and y.get('k') == 'throw': return True
    return False

# ---------------------------------------------------------------- the header against the sources
def constant_text(g):
    ss = [e['v'] for e in irwalk(g.get('init') or {}) if e.get('k') == 'str']
    return ss[0] if len(ss) == 1 else None
def vocabulary(o):
    """item names read from and written to JSON, and file suffixes, in an operation's value graph"""
    seen = set(); put = set(); get = set(); suf = set()
    def leafstr(t, out):
        for x in walk(t):
            if x.op == 'str': out.add(x.args[0])
    for ts in [list(d.values()) for d in o.objs.values()] + [list(o.lits)]:
        for t in ts:
            for x in walk(t, seen):
                if x.op in ('jput', 'jget', 'jhas') and type(x.args[1]) is T:
                    to = put if x.op == 'jput' else get
                    leafstr(x.args[1], to)
                    if x.args[1].op != 'str' and any(y.op == 'init' and str(y.args[0]).startswith('G:') for y in walk(x.args[1])): to.add(None)
                elif x.op == 'str' and re.match(r'\.\w+$', x.args[0]): suf.add(x.args[0])
    return {'item written': put, 'item read': get, 'file suffix': suf}
@rule('C27')
def r_header(P, tier, prop):
    from .main import reference_index, find_current
    link_all(P); ts = []
    ref, src, hdr = P['ref'], P['src'], P['hdr']
    def consts(prog): return {g['q'].split('::')[-1]: (constant_text(g), prog.loc(g['l'])) for g in prog.globals.values() if constant_text(g) is not None and g.get('const') and not g.get('static_local')}
    def task(r):
        a, b = consts(src), consts(hdr)
        for n in sorted(set(a) & set(b)):
            if n == 'alphanum': continue            # only the letters random names are made of
            ok = a[n][0] == b[n][0]
            r.obligation(ok, 'constant %s' % n)
            if not ok: r.find('header-constant', b[n][1], n, 'the header has %r where the sources have %r' % (b[n][0], a[n][0]), ['sources: ' + a[n][1]])
        if '__version__' not in a or '__version__' not in b: r.obligation(False, None, 'no version constant')
        cl = lambda prog: {x['short'] for x in prog.records.values() if is_lib(prog, x)}
        for c in sorted({rec['short'] for rec, f in methods(ref)} & cl(src)):
            if c.endswith('Wrapper') : continue
            ok = c in cl(hdr)
            r.obligation(ok, 'class ' + c)
            if not ok: r.find('header-class', 'include/wisardpkg.hpp', c, 'the header does not offer the class')
        for (cls, n, types), (rrec, rf) in sorted(reference_index(ref).items(), key=lambda x: str(x[0])):
            if cls.endswith('Wrapper'): continue
            op = props.opname(api, ref, rf)
            x, y = find_current(src, rrec, n, types), find_current(hdr, rrec, n, types)
            if x is None and y is None: continue
            ok = x is not None and y is not None
            r.obligation(ok, op)
            if not ok:
                prog, z = (src, x) if y is None else (hdr, y)
                r.find('header-operation', prog.loc(z[1]['l']), op, 'the header does not offer this public operation of the sources' if y is None else 'the sources do not offer this public operation of the header')
                continue
            rx, ry = api.tysig(src, x[1]['ret']), api.tysig(hdr, y[1]['ret'])
            ok = props.pname(rx) == props.pname(ry) and bool(x[1].get('static')) == bool(y[1].get('static'))
            r.obligation(ok, None)
            if not ok: r.find('header-operation', hdr.loc(y[1]['l']), op, 'the header returns %s, the sources %s' % (ry, rx))
    ts.append(('interface', task, 100))
    for (cls, n, types), (rrec, rf) in sorted(reference_index(ref).items(), key=lambda x: str(x[0])):
        if cls.endswith('Wrapper'): continue
        x, y = find_current(src, rrec, n, types), find_current(hdr, rrec, n, types)
        if x is None or y is None or ir.unchanged(src, 'src', x[1]) and ir.unchanged(hdr, 'hdr', y[1]): continue
        def task(r, x=x, y=y, op=props.opname(api, ref, rf)):
            a = outcome(src, *x); b = outcome(hdr, *y)
            if a.unknown or b.unknown: r.obligation(False, None, op + ': not all steps are known'); return
            va, vb = vocabulary(a), vocabulary(b)
            for k in va:
                ok = va[k] == vb[k]
                if not ok and None in va[k] | vb[k]: r.obligation(False, None, op + ': names taken from a table'); continue
                r.obligation(ok, '%s: %s %s' % (op, k, ', '.join(sorted(va[k]))) if va[k] else None)
                if not ok: r.find('vocabulary', hdr.loc(y[1]['l']), op, '%s: the sources have %s, the header %s' % (k, sorted(va[k] - vb[k]) or 'none', sorted(vb[k] - va[k]) or 'none'), ['sources: ' + src.loc(x[1]['l'])])
        ts.append(('vocabulary ' + props.opname(api, ref, rf), task, 60))
    return ts


# ---------------------------------------------------------------- a rejected example leaves no trace
LEARN = r'.*::(train|untrain|trainUnsupervised|leaveOneOut|leaveMoreOut)'
LEARNED = ('positions', 'count', 'discriminators', 'clusters', 'rams')
def learned_sites(o):
    """the places at which something learned is stored in the object"""
    r = getattr(o, 'learned', None)
    if r is None:
        root = o.it.thisplace.root; r = []; seen = set()
        for s in sites.sites(o, ('write', 'mapinsert', 'erase', 'resize', 'clear')):
            pl = s.e.d.get('place')
            if getattr(pl, 'root', None) != root: continue
            if not islearned(pl):
                # a part of the object that holds something learned is replaced as a whole
                if s.e.kind == 'write' and 'by' not in s.e.d and pl.path and all(isinstance(x, str) and x.isidentifier() for x in pl.path) and any(p[:len(pl.path)] == pl.path and len(p) > len(pl.path) and p[len(pl.path)] in LEARNED for p in o.objs.get('this', ())): r.append(s)
                continue
            if s.e.kind == 'write' and s.e.d.get('val') is None:
                k = (s.e.loc and tuple(s.e.loc), s.e.pc, s.syms)          # one is enough for what one call stores
                if k in seen: continue
                seen.add(k)
            r.append(s)
        o.learned = r
    return r
def islearned(pl): return any(isinstance(x, str) and x.strip('{}?') in LEARNED for x in pl.path)
def holds_learned(m, s):
    """where a part is replaced as a whole: it held something learned"""
    pl = s.e.d['place']
    if islearned(pl): return True
    from .states import getf
    v = m.objs.get('this')
    for x in pl.path:
        if not (isinstance(v, tuple) and v[:1] == ('rec',)): return False
        v = getf(v, x)
    if not (isinstance(v, tuple) and v[:1] == ('rec',)): return False
    return any(k in LEARNED and isinstance(y, tuple) and len(y) > 1 for k, y in v[1:])
def earlier(m, o, limit):
    """the first place at which something learned is stored before the limit: (key, site, counters) or None; same: in the same round of the outermost loop"""
    best = same = None
    for s in learned_sites(o):
        if not holds_learned(m, s): continue
        for key, ks in rounds_before(m, s, limit):
            if best is None or key < best[0]: best = (key, s, ks)
            if key[0] == limit[0] and (same is None or key < same[0]): same = (key, s, ks)
    return best, same
def rounds_before(m, s, limit):
    for key, ks in sites.rounds(m, s):
        if key < limit: yield key, ks
def isbatch(prog, f):
    return any(re.search(r'vector<std::vector<int>|DataSet', ts) for ts in (api.tysig(prog, q['t']) for q in f['params']))
@rule('C05')
def r_trace(P, tier, prop):
    from .main import reference_index
    ri = {(rec['short'], n, ty): (rec, f) for (c, n, ty), (rec, f) in reference_index(P['ref']).items()}
    n = 400 if tier == 'quick' else 4000; budget = 15 if tier == 'quick' else 200
    def fn(r, tu, prog, op, rec, f, o):
        if not sites.throwsites(o): r.obligation(True, op + ': throws nowhere'); return
        ls = learned_sites(o)
        if any(e.kind == 'try' for e in o.evs): r.obligation(False, None, '%s %s: handlers may undo what was stored' % (tu, op)); return
        x = ri.get((rec['short'], f['n'].split('<')[0], nparams(prog, f)))
        oref = outcome(P['ref'], *x) if x else None
        batch = isbatch(prog, f)
        told = set(); thrown = 0
        def tell(kind, text, e, s, m):
            k = (kind, e[1].e.loc and tuple(e[1].e.loc))
            if k in told: return
            told.add(k); r.obl += 1
            r.find(kind, where(prog, s.e), op, text, ['stored at %s before that: %s' % (where(prog, e[1].e), e[1].e.d['place']), 'rounds of the enclosing loops: throw %s, store %s' % (ft[2], e[2]), 'interpretation: ' + m.show()])
        def candidates():
            for lits in goals(o): yield from sites.interpretations(o, 12, base=1, lits=lits, budget=budget / 3)
            yield from spoiled(o, sites.interpretations(o, n, base=2, budget=budget), budget)
        for m in candidates():
            r.tried += 1
            try:
                ft = sites.first_throw(m, o)
                if ft is None: continue
                thrown += 1
                any_, same = earlier(m, o, ft[0])
                if any_ is None: continue
                if not batch: tell('partly-learned', 'the call is refused here after something of the example has been stored', any_, ft[1], m); continue
                if len(ft[0]) > 1 and same is not None and len(same[0]) > 1: tell('partly-learned', 'an example is refused here after something of it has been stored', same, ft[1], m); continue
                if not islearned(any_[1].e.d['place']) and len(any_[0]) == 1: tell('forgotten', 'the batch is refused here after what had been learned was given up', any_, ft[1], m); continue
                if len(ft[0]) == 1: tell('late-check', 'the batch is refused here after examples of it have been learned', any_, ft[1], m); continue
                if oref is not None:
                    m2 = m.with_linker(linker(P['ref']))
                    rt = sites.first_throw(m2, oref)
                    if rt is not None and earlier(m2, oref, rt[0])[0] is None and not like(rt[1], ft[1]): tell('late-check', 'a batch that was refused as a whole is refused here after examples of it have been learned', any_, ft[1], m)
            except (Err, Out, Unk, RecursionError): continue
        for s in sites.throwsites(o):
            mine = {x for x, _, _ in s.loops}
            bad = [l for l in ls if l.pos < s.pos or mine & {x for x, _, _ in l.loops}]
            if batch: bad = [l for l in bad if not (s.loops and l.loops) or s.loops[0][0] == l.loops[0][0] and l.pos < s.pos]
            if not bad: r.obligation(True, '%s: nothing is stored before the exception at %s on any path' % (op, where(prog, s.e)))
            else: r.obligation(False, None, '%s %s: the order of the exception at %s and the store at %s rests on what was checked before; none of %d refused interpretations shows it' % (tu, op, where(prog, s.e), where(prog, bad[0].e), thrown))
    return optasks(P, fn, lambda op: re.fullmatch(LEARN, op.split('(')[0]))
def spoiled(o, ms, budget):
    """the interpretations, and those in which one symbol of an accepted input is not one of the base"""
    t0 = time.time()
    for m in ms:
        yield m
        try:
            if sites.first_throw(m, o) is not None: continue
        except (Err, Out, Unk, RecursionError): continue
        for k in [k for k in m.objs if k.startswith('A:')]:
            v = m.objs[k]
            rows = range(len(v)) if isinstance(v, tuple) and v and all(isinstance(x, tuple) and all(type(y) is int for y in x) for x in v) else [None] if isinstance(v, tuple) and v and all(type(y) is int for y in v) else ()
            for row in rows:
                x = v if row is None else v[row]
                if len(x) > 8: continue
                for p in range(len(x)):
                    if time.time() - t0 > budget: return
                    y = x[:p] + (BADSYMBOL,) + x[p + 1:]
                    m2 = m.with_linker(m.linker); m2.objs = dict(m.objs)
                    m2.objs[k] = y if row is None else v[:row] + (y,) + v[row + 1:]
                    yield m2
BADSYMBOL = (1 << 31) - 1                      # no base of a small state has such a symbol
def goals(o):
    """facts to aim the interpretations at: any, and those of each refusal"""
    for s in sites.throwsites(o)[:10]:
        if s.kind != 'throw': continue
        if not s.syms: yield tuple(s.pc())
        else:
            for k in (0, 1):
                mm = {a: num(k) for a in s.syms}
                yield tuple(subst(l, mm) for l in s.e.pc.lits())
def like(a, b): return a.kind == b.kind == 'maythrow' and a.e.d.get('sig') == b.e.d.get('sig')


# ---------------------------------------------------------------- values cut to the width of a type
WIDTH = ('C06', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C25', 'C28', 'C07', 'C09')
def fits(v, dst):
    """a value survives a conversion: it is one of the type's values, or the same bits read with the other sign"""
    if not isinstance(v, (int, Fraction)): return True
    if dst[0] == 'f':
        v = abs(int(v))
        if v == 0: return True
        return v.bit_length() - ((v & -v).bit_length() - 1) <= (24 if dst[1] == 32 else 53 if dst[1] == 64 else 64)
    if dst[0] == 63: return v < (1 << 63)
    return -(1 << (dst[0] - 1)) <= v < (1 << dst[0])
def toolong(v, dst):
    b = 24 if dst[1] == 32 else 53 if dst[1] == 64 else 64
    if dst[0] == 'f': return lt(num(1 << b), v)
    if dst[0] == 63: return le(num(1 << 63), v)
    return or_(le(num(1 << dst[0]), v), lt(v, num(-(1 << (dst[0] - 1)))))
def cuts(o):
    """[(site, closed value, type)]: the places where a value is put into a type that may be too small for it"""
    r = getattr(o, 'cuts', None)
    if r is None:
        r = []
        for s in sites.sites(o, ('narrow', 'width', 'signed')):
            d = s.e.d; v = d['val']; dst = d['dst']
            if s.kind == 'narrow' and not d['lost']: continue
            if s.kind == 'narrow' and d['src'][0] == 'f': continue
            if s.kind == 'narrow' and d['ex'] and dst[0] == 8: continue        # a byte is asked for
            if not isinstance(v, T) or isnum(v): continue
            if dst[0] != 'f' and decide(s.e.pc, not_(toolong(v, dst))) is True: continue
            r.append((s, s.close(v), dst))
        o.cuts = r
    return r
def cutvalues(m, o, which, limit=None):
    """[(site, counters, key)]: the places at which a value is cut under an interpretation"""
    out = []
    for s, v, dst in which:
        for key, ks in sites.rounds(m, s):
            if limit is not None and key > limit: break
            try: x = m.apply(v, ks, {})
            except Err: continue
            if not fits(x, dst): out.append((key, s, ks, x, dst)); break
        else:
            if limit is None:
                try: d = sites.distant(m, s, v, dst)
                except Err: continue
                if d is not None: out.append((d[0], s, d[1], m.apply(v, d[1], {}), dst))
    return out
@rule('C23', *WIDTH)
def r_width(P, tier, prop):
    from .main import reference_index
    ri = {(rec['short'], n, ty): (rec, f) for (c, n, ty), (rec, f) in reference_index(P['ref']).items()}
    n = 60 if tier == 'quick' else 600; budget = 8 if tier == 'quick' else 80
    def want(op):
        fc = props.facets(prop, op)
        return prop == 'C23' or fc is not None and ('value' in fc[0] or 'file' in fc[0])
    def fn(r, tu, prog, op, rec, f, o):
        nm = rec['short'] if f.get('ctor') else f['n'].split('<')[0]
        x = ri.get((rec['short'], nm, nparams(prog, f)))
        if not x: return
        oref = outcome(P['ref'], *x)
        have = {}
        for s, v, dst in cuts(oref): have.setdefault(v, []).append(dst)
        new = []
        for s, v, dst in cuts(o):
            if any(d == dst or d[0] != 'f' and dst[0] != 'f' and d[0] <= dst[0] for d in have.get(v, ())): r.obligation(True, '%s: %s at %s is as reviewed' % (op, show(v)[:60], where(prog, s.e)))
            else: new.append((s, v, dst))
        if prop == 'C23': new = [x for x in new if x[0].kind == 'narrow' and x[2][0] != 'f' and x[2][0] <= 16 and x[0].loops]     # counters only
        if not new: return
        told = set()
        def cand():
            if prop == 'C23': return
            yield from sites.interpretations(o, n, 21, budget=budget)
            for s, v, dst in new[:6]:
                if len(s.loops) == 1 and dst[0] != 'f' and dst[0] <= 16 and s.loops[0][2] is not None:
                    # a counter of a small type: as many rounds as it takes to leave it
                    yield from sites.interpretations(o, 12, 29, [l for l in s.e.pc.lits() if s.syms[0] not in l.free] + [le(num((1 << dst[0]) + 1), s.loops[0][2])], budget=budget / 3)
                for k in (0, 1, 2) if s.syms else (0,):
                    mm = {a: num(k) for a in s.syms}
                    ls = [subst(l, mm) for l in s.e.pc.lits()] + [subst(toolong(s.e.d['val'], dst), mm)]
                    yield from sites.interpretations(o, max(6, n // 6), 23, ls, budget=budget / 3)
        for m in cand():
            r.tried += 1
            try:
                c = [y for y in cutvalues(m, o, new) if y[1].e.loc and tuple(y[1].e.loc) not in told]
                if not c: continue
                ft = sites.first_throw(m, o)
                c = [y for y in c if ft is None or y[0] < ft[0]]
                if not c: continue
                m2 = m.with_linker(linker(P['ref']))
                old = {y[4] for y in cutvalues(m2, oref, cuts(oref))}
                for key, s, ks, val, dst in c:
                    if any(d == dst or d[0] != 'f' and dst[0] != 'f' and d[0] <= dst[0] for d in old): continue
                    if tuple(s.e.loc) in told: continue
                    told.add(tuple(s.e.loc)); r.obl += 1
                    r.find('width', where(prog, s.e), op, 'a value beyond 63 bits is taken for a negative one here' if dst[0] == 63 else 'a value is cut to %s here' % ('%d bits' % dst[0] if dst[0] != 'f' else 'the precision of a floating type of %d bits' % dst[1]),
                           ['the value: %s = %s' % (show(s.e.d['val'])[:200], val), 'round of the enclosing loops: %s' % (ks,), 'interpretation: ' + m.show()])
            except (Err, Out, Unk, RecursionError): continue
        for s, v, dst in new:
            # a counter of a small type that runs over a container of any size
            N = s.e.loops[-1].n if s.e.loops else None
            if tuple(s.e.loc) in told or s.kind != 'narrow' or dst[0] == 'f' or dst[0] > 16 or not isinstance(N, T) or N.op != 'init' or N.args[1][-1:] != ('#',) or 'addresses' in N.args[1]: continue
            c, d = poly(s.e.d['val'])
            if c < 0 or d.get((s.syms[-1],)) != 1 or len(d) != 1 or decide(s.e.pc, lt(N, num(1 << dst[0]))) is True: continue
            told.add(tuple(s.e.loc)); r.obl += 1
            r.find('width', where(prog, s.e), op, 'the counter has %d bits here and the container it runs over can have more elements' % dst[0], ['the container: ' + show(N)])
        for s, v, dst in new:
            if tuple(s.e.loc) not in told: r.obligation(False, None, '%s %s: whether %s at %s always fits is open; no interpretation shows that it does not' % (tu, op, show(s.e.d['val'])[:80], where(prog, s.e)))
    return optasks(P, fn, want)
# ---------------------------------------------------------------- settings are read in a type that holds them
def width(ty):
    m = re.fullmatch(r'([iuf])(\d+)', ty)
    if m: return m.group(1), int(m.group(2))
    return {'bool': ('b', 1), 'char': ('i', 8), 'signed char': ('i', 8), 'short': ('i', 16), 'int': ('i', 32), 'long': ('i', 64), 'long long': ('i', 64), 'float': ('f', 32), 'double': ('f', 64),
            'unsigned char': ('u', 8), 'unsigned short': ('u', 16), 'unsigned int': ('u', 32), 'unsigned long': ('u', 64), 'unsigned long long': ('u', 64)}.get(ty)
def holds(a, b):
    """every value of type b is a value of type a"""
    if a == b: return True
    if a is None or b is None or a[0] == 'b' or b[0] == 'b': return a == b
    if a[0] == b[0]: return a[1] >= b[1]
    if a[0] == 'f': return a[1] == 64 or b[1] <= 16
    return a[0] == 'i' and b[0] == 'u' and a[1] > b[1]
def settings_read(o):
    """{(way, name): types} of the scalars read from JSON members and keyword options of a fixed name"""
    out = {}
    seen = set()
    ts = [v for d in o.objs.values() for v in d.values()] + list(o.lits)
    for t in ts:
        for x in walk(t, seen):
            if x.op == 'jas' and type(x.args[1]) is T and x.args[1].op == 'jget' and x.args[1].args[1].op == 'str': out.setdefault(('JSON member', x.args[1].args[1].args[0]), {}).setdefault(x.args[0], None)
    for s in sites.sites(o, ('pycast',)):
        ns = set()
        for l in s.e.pc:
            if l.op == 'eq' and {y.op for y in l.args} == {'str', 'pystr'}: ns |= {y.args[0] for y in l.args if y.op == 'str'}
        if len(ns) == 1: out.setdefault(('option', ns.pop()), {}).setdefault(s.e.d['ty'], s.e)
    return out
@rule('C09', 'C20')
def r_settingtype(P, tier, prop):
    from .main import reference_index
    ri = {(rec['short'], n, ty): (rec, f) for (c, n, ty), (rec, f) in reference_index(P['ref']).items()}
    way = 'JSON member' if prop == 'C09' else 'option'
    def fn(r, tu, prog, op, rec, f, o):
        from .main import nparams
        if not o.alive: return
        g = ri.get((rec['short'], rec['short'], nparams(prog, f)))
        if g is None: return
        now = {k: v for k, v in settings_read(o).items() if k[0] == way}
        if not now: return
        was = settings_read(outcome(P['ref'], *g))
        for k, tys in now.items():
            need = [width(t) for t in was.get(k, ()) if width(t)]
            for t, e in tys.items():
                bad = [n for n in need if width(t) and not holds(width(t), n)] if need else []
                r.obligation(not bad, '%s: %s %s read as %s' % (op, k[0], k[1], t))
                if bad and not any(holds(width(t), n) for n in need): r.find('setting-type', prog.loc(e.loc) if e is not None else prog.loc(f['l']), op, 'the %s %s is read as %s, which does not hold every value the setting has' % (k[0], k[1], t), ['required: ' + ', '.join(was[k])], key='settingtype-%s-%s' % (op, k[1]))
    return optasks(P, fn, lambda op: op.split('(')[0].split('::')[0] == op.split('(')[0].split('::')[-1] and ('kwargs' in op if prop == 'C20' else True))
# ---------------------------------------------------------------- state the reviewed classes do not have
def isquery(op): n = op.split('(')[0]; return not re.fullmatch(CHANGES, n) and n.split('::')[0] != n.split('::')[-1].lstrip('~')
@rule('C01', 'C03', *sorted(props.TABLE))
def r_history(P, tier, prop):
    from . import history
    link_all(P)
    return history.tasks(P, prop, isquery)
CHECKED = set(RULES)
