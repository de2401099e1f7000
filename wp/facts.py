"""Dominating conditions and what follows from them: literals, linear bounds (polyhedral
entailment by elimination), and per-element facts left behind by checking loops."""
from fractions import Fraction
from .term import *

class PC:
    __slots__ = ('parent', 'lit', 'kind', 'depth', '_lits', '_memo', 'loc')
    def __init__(self, parent, lit, kind, loc=None):
        self.parent, self.lit, self.kind, self.loc = parent, lit, kind, loc
        self.depth = 0 if parent is None else parent.depth + 1
        self._lits = None; self._memo = None
    def chain(self):
        out = []; p = self
        while p is not None and p.lit is not None: out.append(p); p = p.parent
        out.reverse(); return out
    def lits(self):
        if self._lits is None:
            s = []
            for p in self.chain(): explode(p.lit, s)
            self._lits = s
        return self._lits
    def __iter__(self): return iter(self.lits())
ROOT = PC(None, None, 'root')
ROOT._lits = []

def explode(l, out):
    if l.op == 'and':
        for x in l.args: explode(x, out)
    elif l is not TRUE: out.append(l)

def extend(pc, lit, kind, loc=None):
    if lit is TRUE: return pc
    return PC(pc, lit, kind, loc)

# axiom providers: function(atom) -> list of literals known about the atom
axioms = []
def nonneg_atom(a):
    o = a.op
    if o == 'sym': return a.args[1] and a.sort == 'i'
    if o in ('ssize', 'card', 'ord', 'rand', 'strlen', 'sqrt', 'bvnat', 'find'): return True
    if o == 'init': return bool(a.args[1]) and a.args[1][-1] == '#'
    if o == 'phi': return a.args[2] and a.args[2][-1] == '#'
    if o == 'ite': return nonneg(a.args[1]) and nonneg(a.args[2])
    if o in ('imod', 'idiv', 'pow', 'shr', 'fdiv'): return nonneg(a.args[0]) and nonneg(a.args[1])
    if o == 'band': return any(nonneg(x) for x in a.args)
    if o == 'sum':
        return nonneg(app(a.args[1], fresh('n', 'i', True)))
    if o == 'max': return nonneg(a.args[0])
    if o in ('first', 'perm', 'sortperm', 'npos', 'byteval'): return True
    if o == 'trunc' : return nonneg(a.args[0])
    if o == 'unsigned': return True
    return False
def nonneg(t):
    c, d = poly(t)
    return c >= 0 and all(k >= 0 and all(nonneg_atom(x) for x in m) for m, k in d.items())

def atom_axioms(a, out):
    """literals (le0 etc.) known of an atom"""
    o = a.op
    if nonneg_atom(a): out.append(le(ZERO, a))
    if o == 'imod' and isnum(a.args[1]) and a.args[1].args[0] > 0:
        if nonneg(a.args[0]): out.append(le(ZERO, a))
        out.append(lt(a, a.args[1]))
    elif o == 'imod' and nonneg(a.args[0]):
        out.append(('imod', a))
    elif o == 'idiv':
        x, y = a.args
        if isnum(y) and isinstance(y.args[0], int) and y.args[0] > 0 and nonneg(x):
            out.append(le(mul(a, y), x)); out.append(lt(x, add(mul(a, y), y)))
        elif nonneg(x): out.append(('idiv', a))
    elif o == 'band':
        for x in a.args:
            if isnum(x) and isinstance(x.args[0], int) and x.args[0] >= 0: out.append(le(ZERO, a)); out.append(le(a, x))
    elif o == 'perm':
        out.append(le(ZERO, a)); out.append(lt(a, a.args[1]))
    elif o == 'sortperm':
        out.append(le(ZERO, a)); out.append(lt(a, a.args[1]))
    elif o == 'max':
        out.append(le(a.args[0], a))
    elif o == 'first':
        out.append(le(ZERO, a)); out.append(('first', a))
    for f in axioms: out.extend(f(a))

def lin_of(lit):
    """literal -> (kind, const, {mono: coeff}) meaning sum <= 0 / < 0 / == 0, or None"""
    if lit.op in ('le0', 'fle0'): k = 'le'
    elif lit.op == 'flt0': k = 'lt'
    elif lit.op == 'eq0': k = 'eq'
    else: return None
    c, d = poly(lit.args[0])
    return (k, c, d)

def atoms_of(lit):
    r = set()
    for x in walk(lit):
        r.add(x)
    return r

def unsat(cons, budget=220):
    """Fourier-Motzkin on [(kind, c, {v: k})]; True if certainly infeasible"""
    # equalities: substitute
    cons = [(k, Fraction(c), {v: Fraction(x) for v, x in d.items() if x}) for k, c, d in cons]
    work = []
    eqs = [c for c in cons if c[0] == 'eq']
    ins = [c for c in cons if c[0] != 'eq']
    while eqs:
        k, c, d = eqs.pop()
        if not d:
            if c != 0: return True
            continue
        v = min(d, key=lambda v_: (abs(d[v_]) != 1,))
        a = d[v]
        def sb(con):
            k2, c2, d2 = con
            if v not in d2: return con
            f = d2[v] / a
            nd = dict(d2)
            for m, x in d.items():
                nd[m] = nd.get(m, 0) - f * x
            nd = {m: x for m, x in nd.items() if x}
            return (k2, c2 - f * c, nd)
        eqs = [sb(e) for e in eqs]; ins = [sb(e) for e in ins]
    while True:
        nxt = []
        seen = {}
        for k, c, d in ins:
            if not d:
                if c > 0 or (c == 0 and k == 'lt'): return True
                continue
            # normalise
            s = max(abs(x) for x in d.values())
            key = frozenset((v, x / s) for v, x in d.items())
            val = (c / s, k == 'lt')
            if key not in seen or seen[key][0] < val: seen[key] = (val, (k, c / s, {v: x / s for v, x in d.items()}))
        ins = [v[1] for v in seen.values()]
        if not ins: return False
        if len(ins) > budget: return False
        vs = {}
        for k, c, d in ins:
            for v, x in d.items():
                p = vs.setdefault(v, [0, 0]); p[0 if x > 0 else 1] += 1
        v = min(vs, key=lambda v_: vs[v_][0] * vs[v_][1] - vs[v_][0] - vs[v_][1])
        pos = [i for i in ins if i[2].get(v, 0) > 0]; negs = [i for i in ins if i[2].get(v, 0) < 0]
        rest = [i for i in ins if v not in i[2]]
        if len(pos) * len(negs) + len(rest) > budget: return False
        for k1, c1, d1 in pos:
            for k2, c2, d2 in negs:
                a, b = d1[v], -d2[v]
                nd = {}
                for m, x in d1.items(): nd[m] = nd.get(m, 0) + x * b
                for m, x in d2.items(): nd[m] = nd.get(m, 0) + x * a
                nd = {m: x for m, x in nd.items() if x}
                rest.append(('lt' if 'lt' in (k1, k2) else 'le', c1 * b + c2 * a, nd))
        ins = rest

def _int_negation(lit):
    return not_(lit)

_memo = {}
def decide(pc, c, depth=0):
    """True / False / None"""
    if c is TRUE: return True
    if c is FALSE: return False
    key = (pc, c)
    r = _memo.get(key, 0)
    if r != 0: return r
    r = _decide(pc, c, depth)
    _memo[key] = r
    return r
def reset(): _memo.clear()

def _decide(pc, c, depth):
    lits = pc.lits()
    if c.op == 'and':
        rs = [decide(pc, x, depth) for x in c.args]
        if all(r is True for r in rs): return True
        if any(r is False for r in rs): return False
    elif c.op == 'or':
        rs = [decide(pc, x, depth) for x in c.args]
        if any(r is True for r in rs): return True
        if all(r is False for r in rs): return False
    nc = not_(c)
    ls = set(lits)
    if c in ls: return True
    if nc in ls: return False
    for l in lits:
        if implies1(l, c): return True
        if implies1(l, nc): return False
        if l.op == 'or':
            # unit resolution
            rest = [x for x in l.args if not (not_(x) in ls)]
            if len(rest) == 1 and rest[0] is not c:
                if implies1(rest[0], c): return True
                if implies1(rest[0], nc): return False
    if c.op in ('and',):
        return None
    cc = c.args[0] if c.op == 'not' else c
    if cc.op in ('le0', 'fle0', 'flt0', 'eq0'):
        if depth > 2: return None
        if entails(pc, c, depth): return True
        if entails(pc, nc, depth): return False
    # universally quantified facts: match
    for l in lits:
        if l.op == 'not' and l.args[0].op == 'exists':
            r = match_forall(pc, l.args[0], c, depth)
            if r is not None: return r
    if cc.op == 'exists':
        # exists over an empty range
        if decide(pc, le(cc.args[0], ZERO), depth + 1) is True: return cc is not c
    for f in deciders:
        r = f(pc, c, depth)
        if r is not None: return r
    return None
deciders = []

def match_forall(pc, ex, c, depth):
    n, l = ex.args
    x = fresh('q', l.args[2][0], True)
    body = app(l, x)
    # body is false for every 0<=x<n. c decided if c == body[x:=v] for some v
    for pol, goal in ((False, c), (True, not_(c))):
        parts = body.args if body.op == 'or' else (body,)
        for p in parts:
            m = {}
            if onematch(p, goal, x, m) and x in m:
                v = m[x]
                if decide(pc, and_(le(ZERO, v), lt(v, n)), depth + 1) is True: return pol
    return None
def onematch(p, g, x, m):
    if p is x:
        if x in m: return m[x] is g
        m[x] = g; return True
    if p is g: return True
    if type(p) is not T or type(g) is not T:
        if type(p) is tuple and type(g) is tuple and len(p) == len(g): return all(onematch(a, b, x, m) for a, b in zip(p, g))
        return p == g
    if x not in p.free: return False
    if p.op == 'lin' and g.sort in 'if':
        # unique occurrence of x linearly: x = ...
        c, d = poly(p)
        k = d.get((x,))
        if k in (1, -1):
            others = [mm for mm in d if mm != (x,) and any(x in a.free for a in mm)]
            if not others:
                v = scale(sub(g, unpoly(c, {mm: kk for mm, kk in d.items() if mm != (x,)})), k)
                if x in m: return m[x] is v
                m[x] = v; return True
    if p.op != g.op or len(p.args) != len(g.args): return False
    return all(onematch(a, b, x, m) for a, b in zip(p.args, g.args))

def entails(pc, c, depth=0, extra=()):
    """linear entailment of a (possibly negated) comparison"""
    goals = []
    if c.op == 'eq0':
        return _ent(pc, le_(c.args[0]), depth, extra) and _ent(pc, le_(neg(c.args[0])), depth, extra)
    if c.op == 'not' and c.args[0].op == 'eq0':
        p = c.args[0].args[0]
        if p.sort == 'i':
            return _ent(pc, cmp0('lt', p), depth, extra) or _ent(pc, cmp0('lt', neg(p)), depth, extra)
        return _ent(pc, cmp0('lt', p), depth, extra) or _ent(pc, cmp0('lt', neg(p)), depth, extra)
    return _ent(pc, c, depth, extra)
def le_(p): return cmp0('le', p)

def constraints_for(pc, seeds, depth, extra=()):
    """all linear constraints connected to the monomials in seeds"""
    cons = []; seen_m = set(); seen_a = set()
    lits = list(pc.lits()) + list(extra)
    facts = []
    for l in lits:
        q = lin_of(l)
        if q: facts.append((l, q))
        elif l.op == 'not' and l.args[0].op == 'eq0':
            # p != 0: useful when one side is known
            p = l.args[0].args[0]
            if p.sort == 'i':
                for s in (p, neg(p)):
                    if depth < 2 and nonneg(s): facts.append((l, lin_of(cmp0('lt', neg(s)))))
        elif l.op == 'or' and depth < 2:
            pass
    foralls = [l.args[0] for l in lits if l.op == 'not' and l.args[0].op == 'exists']
    todo = list(seeds); used = set(); rounds = 0
    nonlin = set()
    while todo and rounds < 60:
        rounds += 1
        m = todo.pop()
        if m in seen_m: continue
        seen_m.add(m)
        for l, q in facts:
            if l in used: continue
            if m in q[2]:
                used.add(l); cons.append(q); todo.extend(q[2].keys())
        for a in m:
            if a in seen_a: continue
            seen_a.add(a)
            ax = []
            atom_axioms(a, ax)
            for x in ax:
                if type(x) is tuple:
                    kind, t = x
                    if kind == 'imod':
                        if depth < 3 and decide(pc, lt(ZERO, t.args[1]), depth + 1) is True: x = lt(t, t.args[1])
                        else: continue
                        q = lin_of(x); cons.append(q); todo.extend(q[2].keys())
                        continue
                    if kind == 'idiv':
                        if depth < 3 and decide(pc, lt(ZERO, t.args[1]), depth + 1) is True:
                            for x in (le(mul(t, t.args[1]), t.args[0]), lt(t.args[0], add(mul(t, t.args[1]), t.args[1])), le(ZERO, t), le(t, t.args[0])):
                                q = lin_of(x)
                                if q: cons.append(q); todo.extend(q[2].keys())
                        continue
                    if kind == 'first':
                        if depth < 3 and decide(pc, le(ZERO, t.args[0]), depth + 1) is True:
                            q = lin_of(le(t, t.args[0]))
                            if q: cons.append(q); todo.extend(q[2].keys())
                        continue
                    continue
                q = lin_of(x)
                if q: cons.append(q); todo.extend(q[2].keys())
            # per-element facts
            for ex in foralls:
                n, l = ex.args
                x = fresh('q', l.args[2][0], True)
                body = app(l, x)
                for p in (body.args if body.op == 'or' else (body,)):
                    for pa in walk(p):
                        if pa.op == a.op and pa is not a and x in pa.free:
                            mm = {}
                            if onematch(pa, a, x, mm) and x in mm and depth < 3:
                                v = mm[x]
                                if decide(pc, and_(le(ZERO, v), lt(v, n)), depth + 1) is True:
                                    f = not_(subst(p, {x: v}))
                                    for ff in (f.args if f.op == 'and' else (f,)):
                                        q = lin_of(ff)
                                        if q: cons.append(q); todo.extend(q[2].keys())
        if len(m) == 2:
            for y, x in ((m[0], m[1]), (m[1], m[0])):
                if depth < 3 and (nonneg_atom(y) or decide(pc, le(ZERO, y), depth + 1) is True):
                    for l, q in facts:
                        if (x,) in q[2] and all(len(z) == 1 for z in q[2]) and len(cons) < 60 and q[0] != 'lt':
                            nd = {tuple(sorted(z + (y,), key=lambda t: t.id)): k for z, k in q[2].items()}
                            if q[1]: nd[(y,)] = nd.get((y,), 0) + q[1]
                            nd = {z: k for z, k in nd.items() if k}
                            cons.append((q[0], 0, nd)); todo.extend(nd.keys())
                    ax = []
                    atom_axioms(x, ax)
                    for z in ax:
                        if type(z) is not tuple:
                            q = lin_of(z)
                            if q and all(len(w) == 1 for w in q[2]) and (x,) in q[2]:
                                nd = {tuple(sorted(w + (y,), key=lambda t: t.id)): k for w, k in q[2].items()}
                                if q[1]: nd[(y,)] = nd.get((y,), 0) + q[1]
                                nd = {w: k for w, k in nd.items() if k}
                                if nd: cons.append((q[0], 0, nd)); todo.extend(nd.keys())
    return cons
def _ent(pc, c, depth, extra):
    q = lin_of(c)
    if q is None: return c is TRUE
    n = not_(c)
    nq = lin_of(n)
    if nq is None: return n is FALSE
    cons = constraints_for(pc, list(nq[2].keys()), depth, extra)
    # expand conditional atoms of the goal by cases
    ites = [m for m in nq[2] if len(m) == 1 and m[0].op == 'ite']
    if ites and depth < 2:
        it = ites[0][0]
        ok = True
        for cnd, br in ((it.args[0], it.args[1]), (not_(it.args[0]), it.args[2])):
            if decide(pc, cnd, depth + 1) is False: continue
            g = subst_atom(c, it, br)
            p2 = extend(pc, cnd, 'case')
            if decide(p2, g, depth + 1) is not True: ok = False; break
        if ok: return True
    return unsat(cons + [nq])
def subst_atom(t, a, v, memo=None):
    """replace the atom a by v everywhere in t (not under binders)"""
    if memo is None: memo = {}
    if t is a: return v
    if t in memo: return memo[t]
    if not t.args or t.op in ('lam', 'sym', 'bv', 'num'): return t
    def go(x):
        if type(x) is T: return subst_atom(x, a, v, memo)
        if type(x) is tuple: return tuple(go(y) for y in x)
        return x
    args = tuple(go(x) for x in t.args)
    r = t if args == t.args else rebuild(t.op, args, t.sort)
    memo[t] = r
    return r

def simp(pc, t, depth=0):
    """prune the decision nodes near the root of t that the facts decide"""
    if depth > 12 or type(t) is not T: return t
    if t.op == 'ite':
        r = decide(pc, t.args[0])
        if r is True: return simp(pc, t.args[1], depth + 1)
        if r is False: return simp(pc, t.args[2], depth + 1)
        return t
    if t.sort == 'b' and t.op not in ('true', 'false'):
        r = decide(pc, t)
        if r is not None: return boolean(r)
    if t.op == 'lin':
        for m, k in t.args[1]:
            for a in m:
                if a.op == 'ite':
                    r = decide(pc, a.args[0])
                    if r is not None:
                        return simp(pc, subst_atom(t, a, a.args[1] if r else a.args[2]), depth + 1)
    return t
def consistent(pc): return True
