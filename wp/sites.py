"""Program points of an operation - throws, accesses, divisions, loops - as conditions on its object and arguments.

Every event of the abstract run carries the facts that lead to it.  An obligation at such a point is
discharged when the facts entail it; otherwise an interpretation with a well-formed object is looked
for under which the point is reached and the obligation is false."""
import random, time
from .term import *
from . import term as tm
from . import api, model
from .model import Err, Out, Unk, Model, SubModel
from .contrast import *
from .facts import decide

COMBOS = 260
class Site:
    """an event, closed over the counters of the loops around it"""
    def __init__(self, e, pos, loops, exits=()):
        self.e = e; self.kind = e.kind; self.pos = pos
        self.loops = loops                       # [(position of the loop, counter, number of rounds closed over the outer counters)]
        self.syms = tuple(s for p, s, n in loops)
        self.exits = exits                       # the condition under which a round of the loop is its last
        self.lits = None; self.closed = {}
    def pc(self):
        if self.lits is None: self.lits = [lam(len(self.syms), l, self.syms) if self.syms else l for l in self.e.pc.lits()]
        return self.lits
    def close(self, t):
        r = self.closed.get(t)
        if r is None: r = self.closed[t] = lam(len(self.syms), t, self.syms) if self.syms else t
        return r
def loopsyms(l): return l.lv
def sites(o, kinds):
    """the events of an outcome of the kinds asked for"""
    ev = getattr(o, 'evs', None)
    if ev is None: ev = o.evs = o.it.expanded()
    out = []; open_ = []                         # loops open at this place: (lv, position)
    for i, e in enumerate(ev):
        d = 0
        lvs = [l.lv for l in e.loops]
        while d < len(open_) and d < len(lvs) and open_[d][0] is lvs[d]: d += 1
        del open_[d:]
        while len(open_) < len(lvs): open_.append((lvs[len(open_)], i))
        if e.kind not in kinds: continue
        ls = []; syms = (); exits = []
        for (lv, p), l in zip(open_, e.loops):
            n = l.n if isinstance(l.n, T) else None
            if not isinstance(lv, T): ls = None; break
            ls.append((p, lv, (lam(len(syms), n, syms) if syms else n) if n is not None else None))
            syms += (lv,)
            E = getattr(l, 'E', None)
            exits.append(lam(len(syms), E, syms) if isinstance(E, T) and E is not FALSE else None)
        if ls is None: continue
        out.append(Site(e, i, ls, exits))
    return out
def rounds(m, s, lits=None):
    """counter values under which the site is reached, with the place of each in the run"""
    out = []; cnt = [0]
    lits = s.pc()
    def go(d, ks, key):
        if cnt[0] > COMBOS:
            if not m.big: return
            if cnt[0] > 5200: raise Out('rounds')
        if d == len(s.loops):
            cnt[0] += 1
            try:
                for l in lits:
                    if not m.truth(m.apply(l, ks, {})): return
            except Err: return
            out.append((key + ((s.pos,),), ks)); return
        p, sym_, n = s.loops[d]
        try: n = m.apply(n, ks, {}) if n is not None else 24
        except Err: return
        if not isinstance(n, (int, float)): return
        n = int(min(n, 40)) if not m.big else int(min(n, 5200))
        E = s.exits[d] if d < len(s.exits) else None
        for k in range(n):
            if k and E is not None:
                try:
                    if m.truth(m.apply(E, ks + (k - 1,), {})): return
                except Err: return
            go(d + 1, ks + (k,), key + ((p, k),))
    go(0, (), ())
    return out
def callee(m, s, ks):
    """interpretation of the operation called at the site and its outcome"""
    sig = s.e.d.get('sig'); pk = s.e.d.get('packed')
    if sig is None or m.linker is None: return None
    if m.depth > 4: return None
    o = m.linker.outcome(sig)
    if o is None: return None
    args = []
    for x in pk: args.append(m.apply(s.close(x), ks, {}))
    key = ('throws', sig, tuple(args))
    sub = m.subs.get(key)
    if sub is None:
        bind = {}; a = list(args)
        if o.rec is not None and not o.f.get('static') and not o.f.get('ctor'): bind['this'] = a.pop(0)
        for i, nm in enumerate(o.names):
            if i >= len(a): raise Unk('arguments')
            bind['A:' + nm] = a[i]
        for k, v in bind.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg': bind[k] = v[1]
        sub = m.subs[key] = SubModel(m, bind)
        sub.tag = (m.tag, sig, tuple(args))
        sub.first = -1
    return sub, o
def throwsites(o):
    r = getattr(o, 'throws', None)
    if r is None: r = o.throws = sites(o, ('throw', 'maythrow'))
    return r
def first_throw(m, o, limit=None):
    """the first place (before the limit) at which the operation throws under the interpretation: (place, site, counters) or None"""
    best = None
    for s in throwsites(o):
        for key, ks in rounds(m, s):
            if best is not None and key >= best[0]: break
            if limit is not None and key >= limit: break
            if s.kind == 'maythrow':
                c = callee(m, s, ks)
                if c is None: continue
                sub, co = c
                if sub.first == -1:
                    sub.first = None
                    sub.first = first_throw(sub, co)
                if sub.first is None: continue
            best = (key, s, ks); break
    return best
def magic(o, ts):
    """numbers and texts of these terms that stand in the current sources and not in the reference's, or None"""
    nl = getattr(o.prog, 'newlits', None)
    if not nl or not (nl[0] or nl[1]): return None
    ints, strs = model.mined(ts)
    a = tuple(i for i in nl[0] if any(abs(i - j) <= 1 for j in ints)); b = tuple(x for x in nl[1] if x in strs)
    return (a, b) if a or b else None
def sitemagic(o):
    r = getattr(o, '_magic', 0)
    if r == 0:
        ev = getattr(o, 'evs', None)
        if ev is None: ev = o.evs = o.it.expanded()
        ts = list(o.lits)
        for e in ev: ts += e.pc.lits()
        r = o._magic = magic(o, ts)
    return r
def interpretations(o, n, base=1, lits=(), tries=40, budget=10, known=True):
    """interpretations with a well-formed object for an operation, those satisfying the literals"""
    t0 = time.time()
    mk_ = getattr(o, '_maker', None)
    if mk_ is None: mk_ = o._maker = maker(o.prog, o.rec, o.f, o.names)
    ints, strs = model.mined(list(o.lits) + list(lits))
    nv = sitemagic(o)
    if nv and getattr(o, '_maker2', None) is None: o._maker2 = maker(o.prog, o.rec, o.f, o.names, magic=nv)
    # states built around new numbers come in between the others
    for s in [x for k in range(n) for x in ((k, 50000 + k, 60000 + k) if nv else (k,))]:
        if time.time() - t0 > budget: return
        model.HARD[0] = t0 + budget
        m = Model(base * 1000 + s, leaftype(o.it), ints, strs, allfields(o.prog), linker(o.prog))
        (mk_ if s < 50000 else o._maker2)(m, base * 1000 + s)
        if lits:
            try:
                if not model.satisfy(m, list(lits), random.Random(s + base), tries): continue
            except (Err, Out, Unk, RecursionError): continue
        m.reset()
        yield m
def reach(o, s, bad, n=100, budget=8, base=1):
    """an interpretation reaching the site with the condition true, before anything is thrown: (model, counters), or None; and the number tried"""
    tried = 0
    c = s.close(bad)
    t0 = time.time()
    for step in (0, 1):
        if step == 0: gen = interpretations(o, n, base, budget=budget * .5)
        else:
            # adjust the arguments so that the condition holds in one of the first rounds
            pick = [tuple(0 for _ in s.syms), tuple(1 for _ in s.syms)] if s.syms else [()]
            def g():
                for ks in pick:
                    mm = {a: num(k) for a, k in zip(s.syms, ks)}
                    ls = [subst(l, mm) for l in s.e.pc.lits()] + [subst(bad, mm)]
                    yield from interpretations(o, 12, base + 7, ls, budget=max(.5, min(budget * .25, budget - (time.time() - t0))))
            gen = g()
        for m in gen:
            tried += 1
            try:
                hit = None
                for key, ks in rounds(m, s):
                    try:
                        if m.truth(m.apply(c, ks, {})): hit = (key, ks); break
                    except Err: continue
                if hit is None: continue
                f = first_throw(m, o, hit[0])
                if f is not None and f[0] < hit[0]: continue
                return (m, hit[1]), tried
            except (Err, Out, RecursionError): continue
            except Unk: return None, tried
    return None, tried
def distant(m, s, v, dst, lim=300):
    """the round, further on than rounds() looks, in which a counter leaves its small type: (place, counters) or None"""
    if not s.loops or dst[0] == 'f' or dst[0] > 16: return None
    outer = s.loops[:-1]
    if outer: return None
    p, sym_, n = s.loops[-1]
    a, b = m.apply(v, (0,), {}), m.apply(v, (1,), {})
    if not isinstance(a, int) or not isinstance(b, int) or b <= a: return None
    k = -(-((1 << dst[0]) - a) // (b - a))
    if not 0 <= k <= 1 << 17 or m.apply(v, (k,), {}) != a + k * (b - a): return None
    N = m.apply(n, (), {}) if n is not None else 1 << 30
    if not isinstance(N, (int, float)) or k >= N: return None
    E = s.exits[-1]
    if E is not None:
        if k > lim: return None
        m.stop = time.time() + 6
        for j in range(k):
            if j % 32 == 0: m.fuel = max(m.fuel, 400000)
            if m.truth(m.apply(E, (j,), {})): return None
    if not all(m.truth(m.apply(l, (k,), {})) for l in s.pc()): return None
    return ((p, k), (s.pos,)), (k,)
