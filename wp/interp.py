"""Abstract interpreter: evaluates the type-checked program once over symbolic values, with every
library function inlined, conditionals merged into decision trees and loops summarised in closed form.
It enumerates no paths and calls no solver; it produces the final value of every reached memory
region and the list of events (writes, throws, accesses, divisions, calls) with their dominating facts."""
from .term import *
from . import term as tm
from .theory import *
from . import facts
from .facts import PC, ROOT, extend, decide, simp
from fractions import Fraction

_c0 = tm.cmp0
def cmp0(kind, p):
    if p.op == 'lin' or p is INFT:
        c, d = poly(p)
        k = d.get((INFT,))
        if k is not None:
            if kind == 'eq': return FALSE
            return boolean(k < 0)
    return _c0(kind, p)
tm.cmp0 = cmp0

class Place:
    __slots__ = ('root', 'path', 'idx')
    def __init__(s, root, path=(), idx=()): s.root, s.path, s.idx = root, path, idx
    def sub(s, comp, ix=None): return Place(s.root, s.path + (comp,), s.idx + ((ix,) if ix is not None else ()))
    def key(s): return (s.root, s.path, s.idx)
    def __repr__(s): return s.root + pathstr(s.path, s.idx)
class Proj:
    """part of an atomic value: JSON member, string character, Python item"""
    __slots__ = ('kind', 'base', 'k')
    def __init__(s, kind, base, k): s.kind, s.base, s.k = kind, base, k
    def __repr__(s): return '%r<%s>[%r]' % (s.base, s.kind, s.k)
class PairRef:
    __slots__ = ('first', 'second')
    def __init__(s, a, b): s.first, s.second = a, b
class Agg:
    __slots__ = ('ty', 'leaves')
    def __init__(s, ty, leaves): s.ty, s.leaves = ty, leaves
class Event:
    __slots__ = ('kind', 'd', 'pc', 'loops', 'stack', 'loc', 'seq')
    def __repr__(s): return '<%s %s %r>' % (s.kind, s.loc, s.d)
class State:
    __slots__ = ('cells', 'pc')
    def __init__(s, cells, pc): s.cells, s.pc = cells, pc
    def copy(s): return State(dict(s.cells), s.pc)
class Frame:
    def __init__(s, f, this, loc):
        s.f, s.this, s.loc = f, this, loc
        s.vars = {}; s.returns = []; s.closure = None; s.base = None
class LoopCtx:
    def __init__(s, lv):
        s.lv = lv; s.n = None; s.breaks = []; s.continues = []; s.loc = None; s.func = None; s.kind = None
        s.info = {}
class Stop(Exception): pass
class Summary: pass
def hasnode(s, kinds):
    if isinstance(s, dict):
        if s.get('k') in kinds: return True
        return any(hasnode(v, kinds) for k, v in s.items() if isinstance(v, (dict, list)))
    if isinstance(s, list): return any(hasnode(v, kinds) for v in s)
    return False
class LazyMap(dict):
    """substitution of a summary's roots by the caller's places and values"""
    def __init__(self, it, bind, cells):
        self.it, self.bind, self.cells = it, bind, cells
        self.memo = {}
    def cellof(self, root, path):
        v = self.cells.get((root, path))
        return v if v is not None else self.it.initcell(root, path)
    def sub(self, t):
        if not any(type(f) is str for f in t.free): return t
        m = {}
        for f in t.free:
            if type(f) is str and f[0] == 'S':
                r = self.memo.get(f)
                if r is None:
                    sn, rn, rest = f.split(':', 2) if f.count(':') >= 2 else (f, '', '')
                    root = sn + ':' + rn
                    if root not in self.bind: continue
                    path = tuple(rest.split('.')) if rest else ()
                    r = self.memo[f] = self.fun(root, path)
                m[f] = r
        return subst(t, m)
    def fun(self, root, path):
        b = self.bind[root]
        it = self.it
        if isinstance(b, Place):
            key = (b.root, b.path + path)
            if path and path[-1] == '#' and it.cellinfo(*key) is None:
                P = self.cellof(b.root, b.path + path[:-1] + ('{?}',))
                def card_(*a):
                    s = fresh('b', 'i', True)
                    return card(lam(1, app(P, *(b.idx + a + (s,))), (s,)))
                return card_
            c = self.cellof(*key)
            if not b.idx: return lambda *a: app(c, *a) if a else c
            return lambda *a: app(c, *(b.idx + a))
        if isinstance(b, Agg):
            c = b.leaves.get(path)
            if c is None and path and path[-1] == '#' and path[:-1] + ('{?}',) in b.leaves:
                P = b.leaves[path[:-1] + ('{?}',)]
                def card_(*a):
                    s = fresh('b', 'i', True)
                    return card(lam(1, app(P, *(a + (s,))), (s,)))
                return card_
            if c is None: c = mk('unk', ('missing leaf', path), 'o')
            return lambda *a: app(c, *a) if a else c
        return lambda *a: b
    def val(self, v):
        if isinstance(v, T):
            v = self.sub(v)
            if v.sort == 'o' and any(y.op == 'ptr' for y in walk(v)): v = self.ptrs(v)
            return v
        if isinstance(v, Agg): return Agg(v.ty, {p: self.val(x) for p, x in v.leaves.items()})
        if isinstance(v, Place): return self.place(v)
        if isinstance(v, Proj): return Proj(v.kind, self.val(v.base), self.val(v.k))
        if isinstance(v, PairRef): return PairRef(self.val(v.first), self.val(v.second))
        if isinstance(v, tuple): return tuple(self.val(x) for x in v)
        if isinstance(v, list): return [self.val(x) for x in v]
        return v
    def ptrs(self, v):
        m = {}
        for y in walk(v):
            if y.op == 'ptr' and y.args[0] in self.bind and isinstance(self.bind[y.args[0]], Place):
                b = self.bind[y.args[0]]
                m[y] = mk('ptr', (b.root, b.path + y.args[1]) + b.idx + y.args[2:], 'o')
        from .loops import subst_atoms
        return subst_atoms(v, m) if m else v
    def place(self, pl):
        idx = tuple(self.sub(i) if isinstance(i, T) else i for i in pl.idx)
        b = self.bind.get(pl.root)
        if isinstance(b, Place): return Place(b.root, b.path + pl.path, b.idx + idx)
        return Place(pl.root, pl.path, idx)

class Compose:
    def __init__(self, it, inner, outer): self.inner, self.outer = inner, outer
    def sub(self, t): return self.outer.sub(self.inner.sub(t))
    def val(self, v): return self.outer.val(self.inner.val(v))
def itelam(c, a, b):
    if a is b: return a
    if a.sort == 'l' or b.sort == 'l':
        l = a if a.op == 'lam' else b
        ss = lamsyms(l)
        return lam(len(ss), ite(c, app(a, *ss), app(b, *ss)), ss)
    return ite(c, a, b)
def toint(t):
    return ite(t, ONE, ZERO) if t.sort == 'b' else t

from .api import fname, fsig
from .lib import Lib
from .loops import Loops

class Interp(Lib, Loops):
    def __init__(self, prog, opts=None):
        self.p = prog
        self.opts = opts or {}
        self.roottype = {}
        self.unsigned = set(); _CUR[0] = self.unsigned
        self.rootname = {}
        self.events = []
        self.frames = []
        self.loops = []
        self.st = State({}, ROOT)
        self.nroot = 0
        self.exits = 0
        self.ninit = {}
        self.seq = 0
        self.loc = None
        self.clos = []
        self.unknown = []
        self.budget = 4000000
        self.cellinfo_ = {}
        self.dry = 0
        self.nrand = 0
        self.calls = set()
        self.analysed = set()
        self.carried = {}; self.sums = {}; self.summing = set(); self.nsum = 0

    # ------------------------------------------------------------ events
    def event(self, kind, **d):
        if self.st is None: return
        e = Event(); e.kind = kind; e.d = d; e.pc = self.st.pc
        e.loops = tuple(self.loops); e.stack = tuple((f.f['id'], f.loc) for f in self.frames)
        e.loc = self.loc; self.seq += 1; e.seq = self.seq
        self.events.append(e)
        return e
    def expanded(self):
        """all events, those inside summarised calls instantiated"""
        out = []
        for e in self.events: self.expand(e, out, None, ROOT, (), ())
        return out
    def expand(self, e, out, ms, base, loops, stack):
        if ms is None: x = e
        else:
            x = Event(); x.kind = e.kind; x.loc = e.loc; x.seq = e.seq
            m = ms
            x.d = {k: (m.val(v) if isinstance(v, (T, Place, Proj, PairRef, Agg, tuple, list)) else v) for k, v in e.d.items()}
            pc = base
            for p in e.pc.chain(): pc = extend(pc, m.sub(p.lit), p.kind, p.loc)
            x.pc = pc
            x.loops = loops + tuple(self.loopinst(l, m) for l in e.loops)
            x.stack = stack + e.stack
        if e.kind == 'inst':
            m2 = e.d['m'] if ms is None else Compose(self, e.d['m'], ms)
            call = Event(); call.kind = 'call'; call.d = {'f': e.d['f'], 'this': x.d['this'], 'args': x.d['args']}
            call.pc = x.pc; call.loops = x.loops; call.stack = x.stack; call.loc = x.loc; call.seq = x.seq
            out.append(call)
            st = x.stack
            evs = e.d['sum'].events
            for y in evs[0:1]:
                if y.kind == 'call' and y.d['f'] == e.d['f']: evs = evs[1:]
            for y in evs: self.expand(y, out, m2, x.pc, x.loops, st)
        else: out.append(x)
    def loopinst(self, l, m):
        n = LoopCtx(l.lv); n.loc = l.loc; n.func = l.func; n.kind = l.kind; n.info = l.info
        n.n = m.sub(l.n) if isinstance(l.n, T) else l.n
        n.E = m.sub(l.E) if isinstance(getattr(l, 'E', None), T) else None
        n.serial = getattr(l, 'serial', 0)
        return n
    def unk(self, why, sort='o'):
        _fresh = len(self.unknown)
        self.unknown.append((why, self.loc))
        self.event('unknown', why=why)
        return mk('unk', (why, fresh('u').args[0]) + tuple(l.lv for l in self.loops), sort)
    # ------------------------------------------------------------ memory
    def newroot(self, ty, name=''):
        self.nroot += 1
        r = 'L%d' % self.nroot
        self.roottype[r] = self.p.strip(ty); self.rootname[r] = name
        return r
    def symroot(self, name, ty):
        self.roottype[name] = self.p.strip(ty); self.rootname[name] = name
        return name
    def islocal(self, root): return root[0] == 'L'
    def cellinfo(self, root, path):
        t = self.roottype[root]
        d = self.cellinfo_.get(t)
        if d is None:
            d = {p: (s, ix, lt) for p, s, ix, lt in self.p.leaves(t)}
            self.cellinfo_[t] = d
        return d.get(path)
    def ptype(self, pl):
        t = self.roottype[pl.root]
        for c in pl.path: t = self.p.step(t, c)
        return t
    def initcell(self, root, path):
        key = (root, path)
        r = self.ninit.get(key)
        if r is not None: return r
        s, ix, lt = self.cellinfo(root, path)
        ss = tuple(fresh('b', x, True) for x in ix)
        if self.islocal(root):
            body = mk('undef', (self.rootname[root] + pathstr(path, ()),), s)
        else:
            body = self.initvalue(root, path, ss, s, lt)
        r = lam(len(ss), body, ss) if ss else body
        self.ninit[key] = r
        return r
    def initterm(self, root, path, ss, s):
        if root[0] == 'S': return mk('phi', ('%s:%s' % (root, '.'.join(path)), root, path) + ss, s)
        return mk('init', (root, path) + ss, s)
    def initvalue(self, root, path, ss, s, lt):
        if path and path[-1] == '{?}' and len(path) >= 2 and path[-2] == 'discriminators':
            # keys of a cluster's discriminators are 0..size-1 (established at every insertion: C15/C16 obligations)
            if self.cellinfo(root, path)[1][-1] == 'i' and self.opts.get('cluster_interval', True):
                n = self.initterm(root, path[:-1] + ('#',), ss[:-1], 'i')
                return and_(le(ZERO, ss[-1]), lt_(ss[-1], n))
        t = self.initterm(root, path, ss, s)
        if lt is not None:
            x = self.p.ty(lt)
            if x['k'] == 'int' and not x['s']: self.unsigned.add((root, path)); _CUR[0] = self.unsigned
        return t
    def cell(self, root, path):
        v = self.st.cells.get((root, path))
        return v if v is not None else self.initcell(root, path)
    def partial(self, r, idx):
        if not idx: return r
        n = r.args[0] if r.op == 'lam' else None
        if r.op != 'lam': return r
        if n == len(idx): return simp(self.st.pc, app(r, *idx))
        ss = lamsyms(r)[len(idx):]
        return lam(n - len(idx), app(r, *(tuple(idx) + ss)), ss)
    def isleaf(self, ty): return ty is None or self.p.kind(ty) == 'leaf'
    def readagg(self, pl):
        ty = self.ptype(pl)
        out = {}
        for p, s, ix, lt in self.p.leaves(ty):
            out[p] = self.partial(self.cell(pl.root, pl.path + p), pl.idx)
        return Agg(ty, out)
    def setcell(self, root, path, idx, val):
        if idx:
            old = self.cell(root, path)
            ss = lamsyms(old)
            k = len(idx)
            c = and_(*[eq(s, i) for s, i in zip(ss, idx)])
            v = app(val, *ss[k:]) if val.sort == 'l' else val
            self.st.cells[(root, path)] = lam(len(ss), ite(c, v, app(old, *ss)), ss)
        else:
            self.st.cells[(root, path)] = val
    def clip(self, pl, val):
        """integers stored in narrow or unsigned fields keep their mathematical value"""
        return val
    def store(self, pl, val, event=True):
        if self.st is None: return
        if isinstance(pl, Proj):
            base = self.load(pl.base)
            if pl.kind == 'str' and isinstance(base, T) and base.sort == 's' and val is not ZERO: self.event('strwrite', size=tm.ssize(base), idx=pl.k)
            self.store(pl.base, self.put(pl.kind, base, pl.k, val), event)
            return
        if isinstance(pl, PairRef): return
        if not isinstance(pl, Place):
            self.unk('store to %s' % type(pl).__name__); return
        ty = self.ptype(pl)
        if event: self.event('write', place=pl, val=val if isinstance(val, T) else None)
        if self.isleaf(ty):
            if isinstance(val, Agg): val = self.unk('agg to leaf', self.p.sort(ty) if ty else 'o')
            if not isinstance(val, T): val = self.wrapval(val)
            s = self.cellinfo(pl.root, pl.path)[0]
            if s == 'b' and val.sort in ('i', 'f'): val = not_(eq(val, ZERO))
            elif s in ('i', 'f') and val.sort == 'b': val = toint(val)
            self.setcell(pl.root, pl.path, pl.idx, val)
        else:
            if isinstance(val, T):
                u = val if val.op == 'unk' else self.unk('scalar to aggregate')
                for p, s, ix, lt in self.p.leaves(ty):
                    ss = tuple(fresh('b', x, True) for x in ix)
                    b = mk('unk', u.args + (p,) + ss, s)
                    self.setcell(pl.root, pl.path + p, pl.idx, lam(len(ss), b, ss) if ss else b)
                return
            for p, s, ix, lt in self.p.leaves(ty):
                if p in val.leaves: self.setcell(pl.root, pl.path + p, pl.idx, val.leaves[p])
    def wrapval(self, v):
        if isinstance(v, Place): return mk('ptr', (v.root, v.path) + v.idx, 'o')
        self.clos.append(v)
        return mk('clos', (len(self.clos) - 1,), 'o')
    def load(self, v):
        if isinstance(v, Place):
            ty = self.ptype(v)
            if self.isleaf(ty):
                t = self.partial(self.cell(v.root, v.path), v.idx)
                if not v.idx: t = simp(self.st.pc, t)
                if t.op == 'undef' or (t.op == 'ite' and contains(t, ('undef',))): self.event('uninit', place=v, val=t)
                elif t.op == 'phi': self.event('phiread', place=v, val=t)
                return t
            return self.readagg(v)
        if isinstance(v, Proj):
            return self.getp(v.kind, self.load(v.base), v.k)
        if isinstance(v, PairRef):
            s = self.load(v.second)
            return self.mkpair(v.first, s)
        return v
    def mkpair(self, a, b, ty=None):
        leaves = {}
        for n, x in (('first', a), ('second', b)):
            if isinstance(x, Agg):
                for p, t in x.leaves.items(): leaves[(n,) + p] = t
            else: leaves[(n,)] = x if isinstance(x, T) else self.wrapval(x)
        return Agg(ty, leaves)
    def getp(self, kind, base, k):
        if kind == 'j': return simp(self.st.pc, jget(base, k))
        if kind == 'str': return sidx(base, k)
        return mk('pyget', (kind, base, k), 'o') if not (base.op == 'pyput' and base.args[0] == kind and base.args[2] is k) else base.args[3]
    def put(self, kind, base, k, v):
        if kind == 'j': return jput(base, k, self.jsonof(v))
        if kind == 'str': return sset(base, k, toint(v))
        if isinstance(v, Agg): v = self.pack(v)
        if not isinstance(v, T): v = self.wrapval(v)
        return mk('pyput', (kind, base, k, v), 'o')
    def pack(self, a):
        names = tuple(sorted(a.leaves)); return mk('agg', (names, tuple(a.leaves[n] for n in names)), 'o')
    def temp(self, ty, val, name='tmp'):
        r = self.newroot(ty, name)
        pl = Place(r)
        if self.isleaf(ty) and not isinstance(val, (T, Agg)): val = self.wrapval(val)
        self.store(pl, val, event=False)
        return pl
    def asplace(self, v, ty):
        """an object to call members on"""
        if isinstance(v, (Place, Proj, PairRef)): return v
        if isinstance(v, T) and v.op == 'ptr': return Place(v.args[0], v.args[1], v.args[2:])
        return self.temp(ty, v)
    # ------------------------------------------------------------ joins
    def gate(self, pc, base):
        ls = []
        p = pc
        while p is not base and p is not None:
            if p.kind == 'branch': ls.append(p.lit)
            p = p.parent
        ls.reverse()
        return ls
    def assumed(self, pc, base):
        ls = []
        p = pc
        while p is not base and p is not None:
            if p.kind != 'branch': ls.append(p.lit)
            p = p.parent
        ls.reverse()
        return ls
    def tree(self, items):
        """items: [(gate literal list, leaf)] -> nested (cond, a, b) / leaf"""
        if len(items) == 1: return ('leaf', items[0][1])
        g0 = items[0][0]
        if g0:
            l = g0[0]; nl = not_(l)
            if all(g and (g[0] is l or g[0] is nl) for g, _ in items):
                a = [(g[1:], x) for g, x in items if g[0] is l]; b = [(g[1:], x) for g, x in items if g[0] is nl]
                if a and b: return ('if', l, self.tree(a), self.tree(b))
                return self.tree(a or b)
        # put the one with the shortest gate at the end
        g, x = items[0]
        return ('if', and_(*g), ('leaf', x), self.tree(items[1:]))
    def applytree(self, tr, f):
        if tr[0] == 'leaf': return f(tr[1])
        a = self.applytree(tr[2], f); b = self.applytree(tr[3], f)
        return itelam(tr[1], a, b)
    def join(self, states, base):
        """states: list of State or (State, value); returns (State, value)"""
        vals = [s[1] if isinstance(s, tuple) else None for s in states]
        sts = [s[0] if isinstance(s, tuple) else s for s in states]
        if len(sts) == 1: return sts[0], vals[0]
        gates = [self.gate(s.pc, base) for s in sts]
        tr = self.tree(list(zip(gates, range(len(sts)))))
        cells = dict(sts[0].cells)
        keys = set()
        for s in sts: keys.update(s.cells)
        for k in keys:
            vs = []
            for s in sts:
                v = s.cells.get(k)
                if v is None: v = self.initcell(*k)
                vs.append(v)
            v0 = vs[0]
            if all(v is v0 for v in vs): cells[k] = v0; continue
            cells[k] = self.applytree(tr, lambda i: vs[i])
        G = or_(*[and_(*g) for g in gates])
        pc = base
        if G is not TRUE: pc = extend(pc, G, 'branch')
        asum = [self.assumed(s.pc, base) for s in sts]
        for i, a in enumerate(asum):
            for l in a:
                if all(l in b for b in asum):
                    if i == 0: pc = extend(pc, l, 'assume')
                else:
                    w = or_(not_(and_(*gates[i])), l)
                    pc = extend(pc, w, 'assume')
        val = self.joinvals(tr, vals)
        return State(cells, pc), val
    def joinvals(self, tr, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if any(v is None for v in vals):
            return None
        if all(isinstance(v, T) for v in vals):
            if any(v.sort == 'b' for v in vals) and not all(v.sort == 'b' for v in vals): vals = [toint(v) for v in vals]
            return self.applytree(tr, lambda i: vals[i])
        if all(isinstance(v, Agg) for v in vals):
            out = {}
            ks = set(v0.leaves)
            for v in vals: ks &= set(v.leaves)
            for k in ks:
                out[k] = self.applytree(tr, lambda i: vals[i].leaves[k])
            return Agg(v0.ty, out)
        if all(isinstance(v, Place) for v in vals):
            if all(v.root == v0.root and v.path == v0.path for v in vals):
                idx = tuple(self.applytree(tr, lambda i: vals[i].idx[j]) for j in range(len(v0.idx)))
                return Place(v0.root, v0.path, idx)
        return self.unk('join of references')
    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st is None: return
        if s.get('l') and s['l'][0] >= 0: self.loc = s['l']
        getattr(self, 's_' + s['k'], self.s_unk)(s)
    def s_unk(self, s): self.unk('statement ' + s.get('cls', s['k']))
    def s_null(self, s): pass
    def s_block(self, s):
        for x in s['b']:
            if self.st is None: return
            self.exec(x)
    def s_expr(self, s): self.ev(s['x'])
    def s_decl(self, s):
        for d in s['d']: self.decl(d)
    def decl(self, d):
        if self.st is None: return
        fr = self.frames[-1]
        if d.get('static'):
            name = 'G:' + d['n']
            self.globalplace(d['id'], d['t'], name, d.get('init'), d.get('const'))
            return
        if self.p.isref(d['t']):
            v = self.ev(d['init'])
            if isinstance(v, (Place, Proj, PairRef)): fr.vars[d['id']] = v
            elif isinstance(v, T) and v.op == 'ptr' and False: pass
            else: fr.vars[d['id']] = self.temp(d['t'], v, d['n'])
            return
        r = self.newroot(d['t'], d['n'])
        pl = Place(r)
        fr.vars[d['id']] = pl
        if self.p.kind(d['t']) == 'strm': fr.__dict__.setdefault('streams', []).append(r)
        self.initobj(pl, d['t'], d.get('init'))
    def initobj(self, pl, ty, init):
        """construct a fresh object at pl"""
        if init is None: return
        if init['k'] == 'ctor' and self.p.kind(ty) == 'rec' and self.p.rec(ty) is not None and self.p.tyname(init['t']) == self.p.tyname(ty):
            f = self.p.f[init['f']]
            if not (f.get('copy') or f.get('move')) or not (f.get('implicit') or f.get('defaulted')):
                self.construct(pl, init); return
        v = self.rv(init)
        if self.st is None: return
        self.store(pl, v, event=False)
    def s_if(self, s):
        if s.get('init'): self.exec(s['init'])
        if s.get('cvar'): self.decl(s['cvar'])
        if self.st is None: return
        c = self.cond(s['c'])
        if self.st is None: return
        self.branch(c, lambda: self.exec(s['a']), (lambda: self.exec(s['b'])) if s.get('b') else (lambda: None))
    def branch(self, c, fa, fb):
        r = decide(self.st.pc, c)
        if r is True: return fa()
        if r is False: return fb()
        base = self.st.pc
        s2 = self.st.copy()
        loc = self.loc
        self.st.pc = extend(base, c, 'branch', loc)
        ex = self.exits
        va = fa(); sa = self.st; thrown = self.exits == ex
        self.st = s2
        self.st.pc = extend(base, not_(c), 'assume' if sa is None and thrown else 'branch', loc)
        ex = self.exits
        vb = fb(); sb = self.st; thrown2 = self.exits == ex
        if sa is None and sb is None: self.st = None; return None
        if sb is None:
            self.st = sa
            if thrown2: self.st.pc = self.rekind(sa.pc, base)
            return va
        if sa is None: self.st = sb; return vb
        self.st, v = self.join([(sa, va), (sb, vb)], base)
        return v
    def rekind(self, pc, base):
        ch = []
        p = pc
        while p is not base: ch.append(p); p = p.parent
        ch.reverse()
        out = base
        for i, p in enumerate(ch): out = extend(out, p.lit, 'assume' if i == 0 else p.kind, p.loc)
        return out
    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('x') is not None:
            if self.p.isref(fr.f['ret']): v = self.ev(s['x'])
            else: v = self.rv(s['x'])
        if self.st is None: return
        fr.returns.append((self.st, v)); self.exits += 1
        self.st = None
    def s_break(self, s):
        self.loops_target('breaks').append(self.st); self.exits += 1; self.st = None
    def s_continue(self, s):
        for l in reversed(self.loops):
            if l.kind != 'switch': l.continues.append(self.st); break
        self.exits += 1; self.st = None
    def loops_target(self, which): return getattr(self.loops[-1], which)
    def s_for(self, s):
        if s.get('init'): self.exec(s['init'])
        if self.st is None: return
        loc = s['l']
        def cond():
            if s.get('cvar'): self.decl(s['cvar'])
            return TRUE if s.get('c') is None else self.cond(s['c'])
        self.run_loop(cond, lambda: self.exec(s['b']), (lambda: self.ev(s['inc'])) if s.get('inc') else (lambda: None), loc)
    def s_while(self, s):
        def cond():
            if s.get('cvar'): self.decl(s['cvar'])
            return self.cond(s['c'])
        self.run_loop(cond, lambda: self.exec(s['b']), lambda: None, s['l'])
    def s_do(self, s):
        def body():
            self.exec(s['b'])
        self.run_loop(None, body, lambda: None, s['l'], post=lambda: self.cond(s['c']))
    def s_rfor(self, s):
        fr = self.frames[-1]
        r = self.ev(s['r'])
        if self.st is None: return
        v = s['v']
        n, elem = self.elements(r, s['r']['t'])
        def body(lv):
            x = elem(lv)
            if self.p.isref(v['t']) and isinstance(x, (Place, Proj, PairRef)): fr.vars[v['id']] = x
            else:
                val = self.load(x)
                if self.p.isref(v['t']) or isinstance(x, (Place, Agg, T, Proj)):
                    fr.vars[v['id']] = self.temp(v['t'], val, v['n'])
                elif isinstance(x, PairRef):
                    fr.vars[v['id']] = PairRef(x.first, self.temp(self.ptype(x.second), self.load(x.second))) if isinstance(x.second, Place) else x
            self.exec(s['b'])
        self.run_range(n, body, s['l'])
    def elements(self, r, ty):
        """(count, element function) of a range"""
        if isinstance(r, T) and r.op == 'ptr': r = self.asplace(r, ty)
        if isinstance(r, Agg): r = self.temp(ty, r)
        if isinstance(r, T) and self.p.kind(ty) != 'leaf': r = self.temp(ty, r)
        if isinstance(r, Place):
            k = self.p.kind(self.ptype(r))
            if k in ('vec', 'arr'):
                return self.vsize(r), lambda lv: r.sub('*', lv)
            if k in ('map', 'set'):
                P = self.presence(r)
                if k == 'set': return card(P), lambda lv: keyat(P, lv)
                return card(P), lambda lv: PairRef(keyat(P, lv), r.sub('{}', keyat(P, lv)))
            v = self.load(r)
        else: v = self.load(r)
        if isinstance(v, T) and v.sort == 's': return ssize(v), lambda lv: (Proj('str', r, lv) if isinstance(r, Place) else sidx(v, lv))
        if isinstance(v, T) and v.sort == 'j': return jsize(v), lambda lv: jelem(v, lv)
        if isinstance(v, T):
            return mk('pysize', (v,), 'i'), lambda lv: self.mkpair(mk('pykey', (v, lv), 'o'), mk('pyval', (v, lv), 'o'))
        self.unk('range'); return fresh('n', 'i', True), lambda lv: self.unk('element')
    def s_switch(self, s):
        c = self.rv(s['c'])
        if self.st is None: return
        flat = []
        def collect(x):
            if x is None: return
            if x['k'] == 'block':
                for y in x['b']: collect(y)
            elif x['k'] in ('case', 'default'):
                lab = [x]
                y = x['s']
                while y is not None and y['k'] in ('case', 'default'): lab.append(y); y = y['s']
                flat.append((lab, [y] if y else []))
            elif flat: flat[-1][1].append(x)
        collect(s['b'])
        ctx = LoopCtx(None); ctx.kind = 'switch'
        base = self.st.pc
        conds = []
        for lab, _ in flat:
            vs = [eq(c, self.rv(l['v'])) for l in lab if l['k'] == 'case']
            conds.append((or_(*vs), any(l['k'] == 'default' for l in lab)))
        anycase = or_(*[x for x, _ in conds])
        self.loops.append(ctx)
        def run(i):
            if i == len(flat):
                return
            cnd, dflt = conds[i]
            if dflt: cnd = or_(cnd, not_(anycase))
            def go():
                for _, body in flat[i:]:
                    for y in body:
                        if self.st is None: return
                        self.exec(y)
            self.branch(cnd, go, lambda: run(i + 1))
        run(0)
        self.loops.pop()
        sts = ([self.st] if self.st else []) + ctx.breaks
        if not sts: self.st = None
        else: self.st, _ = self.join(sts, base)
    def s_try(self, s):
        base = self.st
        s0 = self.st.copy()
        self.event('try')
        mark = len(self.events)
        self.exec(s['b'])
        sb = self.st
        outs = [sb] if sb else []
        bpc = s0.pc
        for h in s['h']:
            st = s0.copy()
            # what the body may have changed is unknown in the handler
            if sb is not None:
                for k, v in sb.cells.items():
                    o = st.cells.get(k)
                    if o is None: o = self.initcell(*k)
                    if o is not v:
                        info = self.cellinfo(*k)
                        ss = tuple(fresh('b', x, True) for x in info[1])
                        b = mk('unk', ('try', k[0], k[1]) + ss, info[0]); st.cells[k] = lam(len(ss), b, ss) if ss else b
            self.st = st
            flag = mk('unk', ('caught', fresh('c').args[0]), 'b')
            self.st.pc = extend(self.st.pc, flag, 'branch')
            if sb is not None: sb.pc = extend(sb.pc, not_(flag), 'branch')
            if h.get('v'):
                self.frames[-1].vars[h['v']['id']] = self.temp(h['v']['t'], mk('unk', ('exc',), 'o') if self.isleaf(h['v']['t']) else Agg(h['v']['t'], {}))
            self.exec(h['b'])
            if self.st: outs.append(self.st)
        if not outs: self.st = None
        elif len(outs) == 1: self.st = outs[0]
        else: self.st, _ = self.join(outs, bpc)
    def s_case(self, s): self.exec(s['s'])
    def s_default(self, s): self.exec(s['s'])
    # ------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.rv(e)
        if self.st is None: return FALSE
        return self.truth(v)
    def truth(self, v):
        if not isinstance(v, T): return self.unk('condition', 'b')
        if v.sort == 'b': return simp(self.st.pc, v)
        if numeric(v): return simp(self.st.pc, not_(eq(v, ZERO)))
        if v.op in ('ptr', 'null', 'ite'): return not_(eq(v, NULL))
        return mk('truth', (v,), 'b')
    def rv(self, e):
        v = self.ev(e)
        if self.st is None: return v if isinstance(v, T) else NULL
        v = self.load(v)
        return v
    def ev(self, e):
        if self.st is None: return NULL
        self.budget -= 1
        if self.budget < 0: raise Stop('budget')
        l = e.get('l')
        if l and l[0] >= 0: self.loc = l
        return getattr(self, 'e_' + e['k'], self.e_unk)(e)
    def e_unk(self, e):
        for c in e.get('ch', []): self.ev(c)
        return self.unk('expression ' + e.get('cls', e['k']), self.p.sort(e['t']))
    def e_int(self, e):
        t = self.p.ty(e['t'])
        if t['k'] == 'bool': return boolean(e['v'])
        v = e['v']
        if t['k'] == 'int' and not t['s'] and v < 0: v += 1 << t['bits']
        return num(v)
    def e_flt(self, e):
        v = e['v']
        f = Fraction(repr(float(v)))
        if f.denominator == 1: return num(int(f))
        import struct
        # shortest decimal that names the same value (0.07f and 0.07 are written alike)
        return num(f)
    def e_str(self, e): return string(e['v'])
    def e_null(self, e): return NULL
    def e_fn(self, e): return mk('fnptr', (e['f'],), 'o')
    def e_this(self, e):
        th = self.frames[-1].this
        if th is None: return self.unk('this')
        return self.toptr(th)
    def toptr(self, pl):
        if isinstance(pl, Place): return mk('ptr', (pl.root, pl.path) + pl.idx, 'o')
        return self.wrapval(pl)
    def deref(self, v, ty=None):
        if isinstance(v, (Place, Proj, PairRef)): return v
        if isinstance(v, T):
            v = simp(self.st.pc, v)
            if v.op == 'ptr': return Place(v.args[0], v.args[1], v.args[2:])
            if v.op == 'ite':
                for a in (v.args[1], v.args[2]):
                    o = v.args[2] if a is v.args[1] else v.args[1]
                    if o is NULL and a.op == 'ptr':
                        return Place(a.args[0], a.args[1], a.args[2:])
            if v.op == 'iter': return self.iterderef(v)
            if v.op == 'clos': return self.clos[v.args[0]]
        return None
    def globalplace(self, vid, ty, name, init, const):
        root = getattr(self.p, 'gtag', {}).get(name, name)
        if root not in self.roottype: self.symroot(root, ty)
        if const and init is not None and self.p.sort(ty) in 'sibf':
            v = self.ninit.get((root, ()))
            if v is None or v.op == 'init':
                s = self.st; fr = self.frames
                v = self.rv(init)
                if isinstance(v, T): self.ninit[(root, ())] = v
        self.frames[-1].vars[vid] = Place(root)
        return Place(root)
    def e_var(self, e):
        for fr in (self.frames[-1],):
            v = fr.vars.get(e['id'])
            if v is not None: return v
            if fr.closure is not None and e['id'] in fr.closure: return fr.closure[e['id']]
        if 'g' in e:
            if e['n'] == 'npos': return NPOS
            g = self.p.globals.get(e['id'])
            if not e.get('repo'):
                if e['n'] in ('cout', 'cerr', 'clog'): return mk('stream', (e['n'],), 'o')
                if 'cv' in e: return num(e['cv'])
                return mk('extvar', (e['g'],), self.p.sort(e['t']))
            self.event('global', name=e['g'], const=bool(g and g.get('const')))
            return self.globalplace(e['id'], e['t'], 'G:' + e['g'].split('::')[-1], g.get('init') if g else None, g and g.get('const'))
        if 'cv' in e: return num(e['cv'])
        return self.unk('variable ' + e['n'], self.p.sort(e['t']))
    def e_mem(self, e):
        o = self.ev(e['o'])
        if self.st is None: return NULL
        if isinstance(o, T) and o.op in ('ptr', 'ite', 'iter', 'clos'):
            d = self.deref(o)
            if d is None: return self.unk('member of pointer', self.p.sort(e['t']))
            o = d
        fld = e['fld']
        if isinstance(o, PairRef):
            return o.first if fld == 'first' else o.second
        if isinstance(o, Agg):
            if (fld,) in o.leaves: return o.leaves[(fld,)]
            sub = {p[1:]: v for p, v in o.leaves.items() if p and p[0] == fld}
            if sub: return Agg(self.p.strip(e['t']), sub)
        if isinstance(o, Place):
            try: self.p.step(self.ptype(o), fld)
            except KeyError: return self.unk('member ' + fld, self.p.sort(e['t']))
            return o.sub(fld)
        if isinstance(o, T) and o.op in ('unk', 'obj', 'ext'): return mk('ext', ('fld:' + fld, o), self.p.sort(e['t']))
        return self.unk('member ' + fld, self.p.sort(e['t']))
    def e_mfn(self, e): return mk('fnptr', (e['f'],), 'o')
    def e_cond(self, e):
        c = self.cond(e['c'])
        if self.st is None: return NULL
        r = decide(self.st.pc, c)
        if r is True: return self.ev(e['a'])
        if r is False: return self.ev(e['b'])
        def side(x):
            v = self.ev(x)
            if self.st is None: return None
            return v if isinstance(v, (Place, PairRef)) and False else self.load(v)
        return_val = self.branch(c, lambda: side(e['a']), lambda: side(e['b']))
        if return_val is None: return NULL if self.st is None else self.unk('conditional')
        return return_val
    def e_il(self, e):
        t = self.p.strip(e['t'])
        vals = [self.rv(x) for x in e['e']]
        if self.st is None: return NULL
        k = self.p.kind(t)
        if k in ('vec', 'arr'): return self.listagg(t, vals)
        if k in ('rec', 'tup'):
            out = {}
            fl = self.p.allfields(self.p.rec(t)) if k == 'rec' else [{'n': 'first'}, {'n': 'second'}]
            for f, v in zip(fl, vals):
                if isinstance(v, Agg):
                    for p, x in v.leaves.items(): out[(f['n'],) + p] = x
                else: out[(f['n'],)] = v
            return Agg(t, out)
        if not vals: return self.default(t)
        if len(vals) == 1: return vals[0]
        return self.unk('initializer list')
    def listagg(self, t, vals):
        """container of the given elements"""
        out = {}
        et = self.p.targs(t)[0] if self.p.kind(t) == 'vec' else self.p.ty(t)['e']
        for p, s, ix, lt in self.p.leaves(t):
            if p == ('#',): out[p] = num(len(vals)); continue
            ss = tuple(fresh('b', x, True) for x in ix)
            body = None
            d = self.default(et)
            d = d.leaves.get(p[1:]) if isinstance(d, Agg) else d
            body = app(d, *ss[1:]) if d is not None and d.sort == 'l' else (d if d is not None else mk('undef', ('element',), s))
            for i, v in reversed(list(enumerate(vals))):
                x = v.leaves.get(p[1:]) if isinstance(v, Agg) else v
                if x is None: x = mk('unk', ('il',), s)
                x = app(x, *ss[1:]) if x.sort == 'l' else x
                body = ite(eq(ss[0], num(i)), x, body) if not (i == len(vals) - 1 and i == 0 and False) else x
            out[p] = lam(len(ss), body, ss)
        return Agg(t, out)
    def default(self, ty):
        """value-initialised object"""
        ty = self.p.strip(ty)
        k = self.p.kind(ty)
        if k == 'leaf':
            s = self.p.sort(ty)
            return {'i': ZERO, 'f': ZERO, 'b': FALSE, 's': string(''), 'j': JNULL}.get(s, NULL if self.p.ty(ty)['k'] in ('ptr', 'null') else mk('obj', (self.p.tyname(ty), 'default'), 'o'))
        if k == 'rec' and self.p.rec(ty) is not None:
            r = self.p.rec(ty)
            for m in self.p.methods(r):
                if m.get('ctor') and (m.get('default') or not m['params']):
                    if m.get('body') is None: break
                    root = self.newroot(ty, 'default')
                    self.construct_f(Place(root), m, [])
                    if self.st is None: return NULL
                    return self.readagg(Place(root))
            out = {}
            for f in self.p.allfields(r):
                d = self.default(f['t'])
                if isinstance(d, Agg):
                    for p, x in d.leaves.items(): out[(f['n'],) + p] = x
                else: out[(f['n'],)] = d
            return Agg(ty, out)
        out = {}
        for p, s, ix, lt in self.p.leaves(ty):
            ss = tuple(fresh('b', x, True) for x in ix)
            if p[-1] == '#' : b = ZERO
            else: b = {'i': ZERO, 'f': ZERO, 'b': FALSE, 's': string(''), 'j': JNULL}.get(s, NULL)
            out[p] = lam(len(ss), b, ss) if ss else b
        return Agg(ty, out)
    def e_zero(self, e): return self.default(e['t'])
    def e_sizeof(self, e): return num(e['cv']) if 'cv' in e else mk('sizeof', (self.p.tyname(e['of']),), 'i')
    def e_lambda(self, e):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.frames[-1].this
                continue
            src = self.e_var({'id': c['id'], 'n': c['n'], 't': e['t']})
            if c['byref']: caps[c['id']] = src
            else:
                v = self.load(src)
                ty = self.ptype(src) if isinstance(src, Place) else e['t']
                caps[c['id']] = self.temp(ty, v) if isinstance(src, Place) else src
        self.clos.append(('lambda', e['f'], caps, this))
        return mk('clos', (len(self.clos) - 1,), 'o')
    def e_new(self, e):
        r = self.newroot(e['at'], 'new')
        self.event('new', ty=self.p.tyname(e['at']))
        pl = Place(r)
        if e.get('init'): self.initobj(pl, e['at'], e['init'])
        return mk('ptr', (r, ()), 'o')
    def e_delete(self, e):
        self.event('delete'); self.ev(e['x']); return NULL
    def e_throw(self, e):
        x = e.get('x')
        msg = None; t = None
        if x is not None:
            t = self.p.tyname(x['t'])
            msg = self.throwmsg(x)
        self.event('throw', ty=t, msg=msg, node=e)
        self.st = None
        return NULL
    def throwmsg(self, x):
        while x is not None and x['k'] in ('cast', 'ctor'):
            if x['k'] == 'cast': x = x['x']
            else:
                if not x['args']: return None
                x = x['args'][0]
        if x is not None and x['k'] == 'str': return x['v']
        return None
    def e_idx(self, e):
        a = self.ev(e['a']); i = self.rv(e['b'])
        if self.st is None: return NULL
        if isinstance(a, Place) and self.p.kind(self.ptype(a)) == 'arr':
            t = self.p.ty(self.ptype(a))
            self.event('index', size=num(t.get('len', 0)), idx=i, what='array', place=a)
            return a.sub('*', i)
        v = self.load(a)
        if isinstance(v, T) and v.sort == 's': return Proj('str', a, i)
        if isinstance(v, T) and v.op == 'ptr':
            pl = Place(v.args[0], v.args[1], v.args[2:])
            if v.args[1] and v.args[1][-1] == '*': return Place(v.args[0], v.args[1], v.args[2:-1] + (add(v.args[-1], i),))
            if i is ZERO: return pl
        return self.unk('subscript', self.p.sort(e['t']))
    # integers
    def isuns(self, ty):
        t = self.p.ty(ty)
        return t['k'] == 'int' and not t['s']
    def isfloat(self, ty): return self.p.ty(ty)['k'] == 'float'
    def e_cast(self, e):
        ck = e['ck']
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            if 'cv' in e and ck == 'IntegralCast':
                x = e['x']
                if x['k'] in ('int', 'cast', 'un', 'sizeof', 'bin'):
                    v = e['cv']; t = self.p.ty(e['t'])
                    if t['k'] == 'int' and not t['s'] and v < 0: v += 1 << t['bits']
                    return num(v)
            v = self.rv(e['x'])
            if self.st is None: return NULL
            if not isinstance(v, T): return v
            if ck.endswith('ToBoolean'): return self.truth(v)
            v = toint(v)
            self.narrow(v, e['x']['t'], e['t'], ck, e)
            if ck == 'FloatingToIntegral' and v.sort == 'f': return mk('trunc', (v,), 'i')
            if ck == 'IntegralCast':
                v = self.wrapcast(v, e['x']['t'], e['t'])
            return v
        if ck in ('ConstructorConversion', 'NoOp', 'UserDefinedConversion', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'BitCast', 'LValueBitCast', 'ArrayToPointerDecay'):
            if ck in ('BitCast', 'NoOp') or True:
                return self.ev(e['x'])
        if ck in ('NullToPointer',): return NULL
        if ck == 'ToVoid': self.ev(e['x']); return NULL
        v = self.rv(e['x'])
        return v if isinstance(v, T) and ck in ('Dynamic', 'BaseToDerivedMemberPointer') else self.unk('cast ' + ck, self.p.sort(e['t']))
    def wrapcast(self, v, src, dst):
        """conversions keep the mathematical value, except constants that change"""
        t = self.p.ty(dst)
        if isnum(v) and t['k'] == 'int' and isinstance(v.args[0], int):
            x = v.args[0] & ((1 << t['bits']) - 1)
            if t['s'] and x >= 1 << (t['bits'] - 1): x -= 1 << t['bits']
            return num(x)
        return v
    def narrow(self, v, src, dst, ck, e):
        a, b = self.p.ty(src), self.p.ty(dst)
        if isnum(v): return
        if a['k'] == 'int' and b['k'] == 'int':
            lost = b['bits'] < a['bits']
            sg = (a['s'] and not b['s']) or (not a['s'] and b['s'] and b['bits'] <= a['bits'])
            if lost or sg: self.event('narrow', val=v, src=(a['bits'], a['s']), dst=(b['bits'], b['s']), ex=bool(e.get('ex')), lost=lost)
        elif a['k'] == 'float' and b['k'] in ('int',): self.event('narrow', val=v, src=('f', a['bits']), dst=(b['bits'], b['s']), ex=bool(e.get('ex')), lost=True)
        elif a['k'] == 'int' and b['k'] == 'float' and a['bits'] > (24 if b['bits'] == 32 else 53):
            self.event('narrow', val=v, src=(a['bits'], a['s']), dst=('f', b['bits']), ex=bool(e.get('ex')), lost=True)
    def e_un(self, e):
        op = e['op']
        if op == '&':
            v = self.ev(e['x'])
            if self.st is None: return NULL
            if isinstance(v, (Place,)): return self.toptr(v)
            if isinstance(v, (Proj, PairRef)): return self.wrapval(v)
            return self.unk('address of')
        if op == '*':
            v = self.rv(e['x'])
            if self.st is None: return NULL
            d = self.deref(v)
            return d if d is not None else self.unk('dereference', self.p.sort(e['t']))
        if op in ('++', '--', 'post++', 'post--'):
            pl = self.ev(e['x'])
            if self.st is None: return NULL
            old = self.load(pl)
            if not isinstance(old, T): return self.unk('increment')
            if old.op == 'iter': new = self.iteradd(old, ONE if '+' in op else neg(ONE))
            elif old.op == 'ptr' and old.args[1] and old.args[1][-1] == '*': new = mk('ptr', old.args[:-1] + (add(old.args[-1], ONE if '+' in op else neg(ONE)),), 'o')
            else:
                new = add(toint(old), ONE) if '+' in op else sub(toint(old), ONE)
                t = self.p.ty(self.p.strip(e['t']))
                if t['k'] == 'int' and t['bits'] < 32 and not isnum(new): self.event('narrow', val=new, src=(32, True), dst=(t['bits'], t['s']), ex=False, lost=True)
            self.store(pl, new)
            return old if op.startswith('post') else pl
        v = self.rv(e['x'])
        if self.st is None: return NULL
        if op == '!': return not_(self.truth(v))
        if not isinstance(v, T): return self.unk('unary ' + op)
        if op == '-':
            r = neg(toint(v))
            t = self.p.ty(e['t'])
            if isnum(r) and t['k'] == 'int' and not t['s'] and r.args[0] < 0: return num(r.args[0] + (1 << t['bits']))
            return r
        if op == '+': return toint(v)
        if op == '~':
            if isnum(v):
                return self.wrapcast(bnot(v), e['t'], e['t'])
            return bnot(toint(v))
        return self.unk('unary ' + op)
    CMP = {'<', '<=', '>', '>=', '==', '!='}
    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            if self.st is None: return NULL
            r = decide(self.st.pc, a)
            if r is not None:
                if r == (op == '||'): return boolean(op == '||')
                return self.cond(e['b'])
            if self.pure(e['b']):
                # evaluate under the condition, without splitting the state
                base = self.st.pc
                lit = a if op == '&&' else not_(a)
                self.st.pc = extend(base, lit, 'branch', self.loc)
                b = self.cond(e['b'])
                if self.st is None: return NULL
                self.st.pc = base
                return simp(base, and_(a, b) if op == '&&' else or_(a, b))
            return self.branch(a if op == '&&' else not_(a), lambda: self.cond(e['b']), lambda: boolean(op == '||')) or FALSE
        if op == '=':
            v = self.rv(e['b'])
            if self.st is None: return NULL
            pl = self.ev(e['a'])
            if self.st is None: return NULL
            if self.p.ty(e['a']['t'])['k'] == 'int' and isinstance(v, T): v = toint(v) if v.sort == 'b' else v
            self.store(pl, v)
            return pl
        if op.endswith('=') and op not in self.CMP:
            b = self.rv(e['b'])
            if self.st is None: return NULL
            pl = self.ev(e['a'])
            if self.st is None: return NULL
            a = self.load(pl)
            r = self.arith(op[:-1], a, b, e.get('ct', e['t']), e)
            if self.st is None: return NULL
            if e.get('ct') is not None and isinstance(r, T): self.narrow(r, e['ct'], e['a']['t'], 'compound', e)
            if isinstance(r, T) and r.sort == 'f' and self.p.ty(e['a']['t'])['k'] == 'int': r = mk('trunc', (r,), 'i')
            self.store(pl, r)
            return pl
        a = self.rv(e['a'])
        if self.st is None: return NULL
        b = self.rv(e['b'])
        if self.st is None: return NULL
        if op in self.CMP:
            wa, wb = self.below(a, e['a']), self.below(b, e['b'])
            if b is ZERO and wa and op in ('>=', '<'): return boolean(op == '>=')
            if a is ZERO and wb and op in ('<=', '>'): return boolean(op == '<=')
            if b is ZERO and wa and op in ('>', '<='): op = '!=' if op == '>' else '=='
            elif a is ZERO and wb and op in ('<', '>='): op = '!=' if op == '<' else '=='
            else:
                if wa: a = self.wrapped(a, wa)
                if wb: b = self.wrapped(b, wb)
            return self.compare(op, a, b)
        return self.arith(op, a, b, e['t'], e)
    def below(self, a, e):
        """width of an unsigned operand of a comparison when the number may be a difference below zero, a huge number there"""
        if not isinstance(a, T) or a.sort != 'i' or not numeric(a): return 0
        x = self.p.ty(e['t'])
        if x['k'] != 'int' or x['s'] or x['bits'] < 32: return 0
        c, d = poly(a)
        if c >= 0 and all(k > 0 for k in d.values()): return 0
        if decide(self.st.pc, le(ZERO, a)) is True: return 0
        return x['bits']
    def wrapped(self, a, bits):
        return simp(self.st.pc, ite(lt(a, ZERO), add(a, num(1 << bits)), a))
    def compare(self, op, a, b):
        if not (isinstance(a, T) and isinstance(b, T)):
            if isinstance(a, Agg) and isinstance(b, Agg) and op in ('==', '!='):
                r = self.aggeq(a, b)
                return r if op == '==' else not_(r)
            return self.unk('comparison', 'b')
        if op in ('==', '!='):
            if a.op == 'iter' and b.op == 'iter':
                r = eq(a.args[1], b.args[1])
            else: r = eq(a, b)
            return simp(self.st.pc, r if op == '==' else not_(r))
        a, b = toint(a), toint(b)
        if a.op == 'iter' and b.op == 'iter': a, b = a.args[1], b.args[1]
        if numeric(a) and numeric(b):
            r = {'<': lt(a, b), '<=': le(a, b), '>': lt(b, a), '>=': le(b, a)}[op]
            return simp(self.st.pc, r)
        if a.sort == 's' or b.sort == 's':
            return {'<': mk('slt', (a, b), 'b'), '>': mk('slt', (b, a), 'b'), '<=': not_(mk('slt', (b, a), 'b')), '>=': not_(mk('slt', (a, b), 'b'))}[op]
        return self.unk('comparison', 'b')
    def aggeq(self, a, b):
        if '#' in [p[0] for p in a.leaves if p] and ('*',) in a.leaves:
            x = fresh('i', 'i', True)
            return and_(eq(a.leaves[('#',)], b.leaves[('#',)]), not_(exists(a.leaves[('#',)], lam(1, not_(eq(app(a.leaves[('*',)], x), app(b.leaves[('*',)], x))), (x,)))))
        return mk('aggeq', (self.pack(a), self.pack(b)), 'b')
    def arith(self, op, a, b, ty, e):
        if isinstance(a, T) and a.op == 'iter' and op in ('+', '-') and isinstance(b, T):
            if b.op == 'iter': return sub(a.args[1], b.args[1])
            return self.iteradd(a, b if op == '+' else neg(b))
        if isinstance(b, T) and b.op == 'iter' and op == '+' and isinstance(a, T): return self.iteradd(b, a)
        if not (isinstance(a, T) and isinstance(b, T)): return self.unk('operands of ' + op, self.p.sort(ty))
        if a.sort == 's' or b.sort == 's':
            return self.unk('string arithmetic ' + op, 's')
        if op in ('&', '|', '^') and a.sort == 'b' and b.sort == 'b':
            return and_(a, b) if op == '&' else or_(a, b) if op == '|' else not_(eq(a, b))
        a, b = toint(a), toint(b)
        fl = self.isfloat(ty)
        if op == '+': return add(a, b)
        if op == '-':
            if self.isuns(ty) and not isnum(a): self.event('usub', a=a, b=b)
            return sub(a, b)
        if op == '*': return self.width(mul(a, b), ty)
        if op in ('/', '%', '>>') and not fl and not isnum(a):
            x = self.p.ty(ty)
            # the number is read as a signed one here
            if x['k'] == 'int' and x['s'] and x['bits'] == 64: self.event('signed', val=a, dst=(63, True))
        if op in ('/', '%'):
            self.event('div', a=a, b=b, fl=fl, op=op)
            if op == '%': return imod(a, b)
            return fdiv(a, b) if fl else idiv(a, b)
        if op == '<<': return self.width(bitop('shl', a, b), ty)
        if op == '>>':
            if isnum(b) and (self.isuns(ty)) and 0 <= b.args[0] < 128: return idiv(a, num(1 << b.args[0]))
            return bitop('shr', a, b)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isnum(y) and isinstance(y.args[0], int) and y.args[0] > 0 and (y.args[0] & (y.args[0] + 1)) == 0 and self.isuns(ty) and x.op != 'shr':
                    return imod(x, num(y.args[0] + 1))
            return bitop('band', a, b)
        if op == '|': return bitop('bor', a, b)
        if op == '^': return bitop('bxor', a, b)
        return self.unk('operator ' + op, self.p.sort(ty))
    def width(self, v, ty):
        """a product or shift computed in an integer type"""
        t = self.p.ty(ty)
        if t['k'] == 'int' and not isnum(v): self.event('width', val=v, dst=(t['bits'], t['s']))
        return v
    def pure(self, e):
        """expression without side effects (syntactically)"""
        k = e['k']
        if k in ('un',) and e['op'] in ('++', '--', 'post++', 'post--'): return False
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in self.CMP: return False
        if k in ('throw', 'new', 'delete'): return False
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            f = self.p.f.get(e.get('f'))
            if f is None: return False
            if f['repo'] and f.get('body'): return False
            if k == 'opcall' and e['op'] in ('=', '++', '--', '+=', '-=', '<<', '>>'): return False
            if f['n'] == 'operator[]' and (f.get('cls') or '').startswith(('std::map', 'std::unordered_map')): return False
            if f['n'] in ('getline', 'push_back', 'insert', 'clear', 'erase', 'pop_back', 'resize'): return False
        for key in ('x', 'a', 'b', 'c', 'o', 'callee'):
            v = e.get(key)
            if isinstance(v, dict) and not self.pure(v): return False
        for key in ('args', 'e', 'ch'):
            for v in e.get(key) or []:
                if isinstance(v, dict) and not self.pure(v): return False
        return True
    # ------------------------------------------------------------ calls
    def e_call(self, e):
        f = self.p.f.get(e.get('f'))
        if f is None:
            c = self.rv(e['callee'])
            return self.callvalue(c, [self.ev(a) for a in e['args']], e)
        if f['repo'] and f.get('body') is not None:
            args = [self.evarg(a) for a in e['args']]
            if self.st is None: return NULL
            return self.call(f, None, args, e)
        return self.libcall(f, e)
    def evarg(self, a):
        return self.ev(a)
    def e_mcall(self, e):
        f = self.p.f.get(e.get('f'))
        if f is None:
            return self.unk('member call')
        if f['repo'] and f.get('body') is not None:
            o = self.ev(e['o']) if e.get('o') is not None else self.e_this(e)
            if self.st is None: return NULL
            th = self.thisof(o, e)
            args = [self.evarg(a) for a in e['args']]
            if self.st is None: return NULL
            return self.call(f, th, args, e)
        return self.libmethod(f, e.get('o'), e['args'], e)
    def thisof(self, o, e):
        if isinstance(o, T):
            d = self.deref(o)
            if d is not None: return d
            if o.op in ('unk', 'ext'): return None
            t = e['o']['t']
            x = self.p.ty(t)
            if x['k'] == 'ptr': t = x['e']
            return self.temp(t, o)
        if isinstance(o, Agg): return self.temp(e['o']['t'], o)
        if isinstance(o, Place):
            # pointer variable?
            ty = self.ptype(o)
            if ty is not None and self.p.ty(ty)['k'] == 'ptr':
                return self.deref(self.load(o))
        return o
    def e_opcall(self, e):
        f = self.p.f.get(e.get('f'))
        op = e['op']
        if f is not None and f['repo'] and f.get('body') is not None and not (f.get('defaulted') or f.get('implicit')):
            if f.get('cls') and not f.get('static'):
                o = self.ev(e['args'][0])
                if self.st is None: return NULL
                if f.get('lambda') or (isinstance(o, T) and o.op == 'clos') or (isinstance(o, Place) and op == '()'):
                    return self.callvalue(self.load(o), [self.ev(a) for a in e['args'][1:]], e)
                th = self.thisof(o, {'o': e['args'][0]})
                args = [self.evarg(a) for a in e['args'][1:]]
                if self.st is None: return NULL
                return self.call(f, th, args, e)
            args = [self.evarg(a) for a in e['args']]
            if self.st is None: return NULL
            return self.call(f, None, args, e)
        return self.libop(f, e)
    def callvalue(self, c, args, e):
        if self.st is None: return NULL
        if isinstance(c, T) and c.op == 'clos':
            x = self.clos[c.args[0]]
            if isinstance(x, tuple) and x[0] == 'lambda':
                f = self.p.f[x[1]]
                return self.call(f, x[3], args, e, closure=x[2])
        if isinstance(c, T) and c.op == 'fnptr':
            f = self.p.f[c.args[0]]
            if f['repo'] and f.get('body') is not None: return self.call(f, None, args, e)
        return self.unk('indirect call', self.p.sort(e['t']))
    def call(self, f, this, args, e, closure=None):
        if len(self.frames) > 60 or sum(1 for x in self.frames if x.f is f) > 3:
            self.unk('recursion ' + f['q'])
            return mk('unk', ('recursion', fresh('u').args[0]), self.p.sort(f['ret']))
        if f.get('cls') and not f.get('static') and this is None and not f.get('lambda'):
            return self.unk('call on unknown object', self.p.sort(f['ret']))
        if closure is None and self.frames and self.opts.get('opaque') and self.opts['opaque'](self, f):
            r = self.opaquecall(f, this, args, e)
            if r is not None: return r[0]
        if closure is None and self.opts.get('summaries', True):
            r = self.bysummary(f, this, args, e)
            if r is not None: return r[0]
        loc = self.loc
        fr = Frame(f, this, loc)
        fr.closure = closure
        return self.callbody2(fr, f, this, args)
    def callbody(self, f, this, args, closure):
        fr = Frame(f, this, self.loc); fr.closure = closure
        return self.callbody2(fr, f, this, args)
    def callbody2(self, fr, f, this, args):
        loc = self.loc
        self.analysed.add(f['id'])
        self.event('call', f=f['id'], this=this, args=args)
        for prm, a in zip(f['params'], args): self.bind(fr, prm, a)
        fr.base = self.st.pc
        self.frames.append(fr)
        mark = self.nroot
        self.exec(f['body'])
        self.frames.pop()
        self.loc = loc
        outs = list(fr.returns)
        if self.st is not None: outs.append((self.st, None))
        if not outs: self.st = None; return NULL
        isvoid = self.p.ty(f['ret'])['k'] == 'void'
        if len(outs) > 1 and not isvoid: outs = [o for o in outs if o[1] is not None] or outs
        self.st, v = self.join(outs, fr.base)
        if len(outs) == 1 and outs[0][0].pc is not fr.base:
            # conditions of the single exit stay facts
            self.st.pc = self.demote(self.st.pc, fr.base)
        if v is None: v = NULL
        for d in getattr(fr, 'streams', ()):
            c = [self.st.cells.get((d, (n,))) for n in ('file', 'mode', 'content', 'closed')]
            if all(x is not None for x in c): self.event('streamend', vals=tuple(c), q=self.p.ty(self.roottype[d])['q'])
        self.drop(fr, v)
        return v
    def demote(self, pc, base):
        ch = []
        p = pc
        while p is not base and p is not None: ch.append(p); p = p.parent
        if p is None: return pc
        out = base
        for q in reversed(ch): out = extend(out, q.lit, 'assume', q.loc)
        return out
    def drop(self, fr, v):
        """locals of a finished call are gone"""
        keep = set()
        def scan(x):
            if isinstance(x, Place): keep.add(x.root)
            elif isinstance(x, Proj): scan(x.base)
            elif isinstance(x, PairRef): scan(x.second)
            elif isinstance(x, T):
                for y in walk(x):
                    if y.op == 'ptr': keep.add(y.args[0])
                    if y.op == 'clos': keep.add('*')
            elif isinstance(x, Agg):
                for y in x.leaves.values():
                    if y.sort == 'o': scan(y)
        scan(v)
        if '*' in keep: return
        dead = set()
        for x in fr.vars.values():
            if isinstance(x, Place) and self.islocal(x.root) and not x.path: dead.add(x.root)
        owned = getattr(fr, 'owned', set())
        dead = {d for d in dead if d in owned} - keep
        if dead:
            for k in [k for k in self.st.cells if k[0] in dead]: del self.st.cells[k]
    def bind(self, fr, prm, a):
        if not hasattr(fr, 'owned'): fr.owned = set()
        if self.p.isref(prm['t']):
            if isinstance(a, (Place, Proj, PairRef)): fr.vars[prm['id']] = a
            elif isinstance(a, T) and a.op == 'ptr' and self.p.ty(prm['t'])['k'] != 'ptr': fr.vars[prm['id']] = Place(a.args[0], a.args[1], a.args[2:])
            else:
                pl = self.temp(prm['t'], a, prm['n']); fr.vars[prm['id']] = pl; fr.owned.add(pl.root)
        else:
            v = self.load(a)
            pl = self.temp(prm['t'], v, prm['n'])
            fr.vars[prm['id']] = pl; fr.owned.add(pl.root)
    # ------------------------------------------------------------ calls kept as opaque operations
    def packarg(self, a):
        v = self.load(a) if not isinstance(a, T) or a.op != 'ptr' else self.load(Place(a.args[0], a.args[1], a.args[2:]))
        if isinstance(v, Agg): return self.pack(v)
        if isinstance(v, T) and v.op not in ('clos', 'iter', 'ptr', 'unk'): return v
        return None
    def opaquecall(self, f, this, args, e, ctor=None):
        """the call is an uninterpreted operation on the values it is given; what it may change is its effect summary"""
        if self.p.isref(f['ret']) or self.p.ty(f['ret'])['k'] == 'ptr': return None
        eff = effects(self.p, f, self.opts)
        packed = []
        places = {}
        if this is not None:
            if not isinstance(this, Place): return None
            places['this'] = this
            if ctor is None:
                a = self.packarg(this)
                if a is None: return None
                packed.append(a)
        for prm, a in zip(f['params'], args):
            if isinstance(a, T) and a.op == 'ptr': a = Place(a.args[0], a.args[1], a.args[2:])
            if isinstance(a, Place): places['A:' + (prm['n'] or 'arg')] = a
            x = self.packarg(a)
            if x is None: return None
            packed.append(x)
        names = ','.join(self.p.tyname(q['t']) for q in f['params'])
        key = fsig(self.p, f)
        if eff.rand:
            self.nrand += 1
            packed.append(mk('rand', ('call', self.nrand) + tuple(l.lv for l in self.loops if l.lv is not None), 'i'))
        packed = tuple(packed)
        self.event('call', f=f['id'], this=this, args=args, opaque=True, packed=packed)
        if eff.throws: self.event('maythrow', f=f['id'], sig=key, packed=packed)
        if not eff.alive: self.st = None; return (NULL,)
        def leafterm(op, path, s, ix):
            ss = tuple(fresh('b', x, True) for x in ix)
            b = mk(op, (key, path) + packed + ss, s)
            return lam(len(ss), b, ss) if ss else b
        if ctor is not None:
            for p, s, ix, lt in self.p.leaves(self.ptype(ctor)):
                self.setcell(ctor.root, ctor.path + p, ctor.idx, leafterm('res', p, s, ix))
        new = []
        for slot, path in sorted(eff.writes):
            pl = places.get(slot)
            if pl is None or pl is ctor: continue
            i0 = [q for q in self.p.leaves(self.ptype(pl)) if q[0] == path]
            if not i0: continue
            p, s, ix, lt = i0[0]
            if slot != 'this': slot = 'A%d' % [('A:' + (q['n'] or 'arg')) for q in f['params']].index(slot)
            new.append((pl, p, leafterm('res', ('after', slot) + p, s, ix)))
        for pl, p, v in new:
            self.setcell(pl.root, pl.path + p, pl.idx, v)
        if new:
            for pl, p, v in new: self.event('write', place=Place(pl.root, pl.path + p, pl.idx), val=None, by=f['id'])
        if self.p.ty(f['ret'])['k'] == 'void' or ctor is not None: return (NULL,)
        if self.isleaf(f['ret']): return (leafterm('res', (), self.p.sort(f['ret']), ()),)
        return (Agg(self.p.strip(f['ret']), {p: leafterm('res', p, s, ix) for p, s, ix, lt in self.p.leaves(f['ret'])}),)
    # ------------------------------------------------------------ summaries of functions with loops
    def hasloop(self, f):
        r = f.get('_loop')
        if r is None:
            r = f['_loop'] = hasnode(f['body'], ('for', 'while', 'do', 'rfor'))
        return r
    def summary(self, f):
        if f['id'] in self.sums: return self.sums[f['id']]
        if f['id'] in self.summing: return None
        if self.summing and len(self.summing) > 20: return None
        s = self.makesummary(f)
        self.sums[f['id']] = s
        return s
    def makesummary(self, f):
        ok = True
        for p in f['params']:
            t = self.p.ty(p['t'])
            if t.get('lambda') or (t['k'] == 'rec' and t.get('q') == 'std::function') or (t['k'] == 'ptr' and self.p.kind(t['e']) == 'leaf' and False): ok = False
        if not ok: return None
        saved = (self.st, self.frames, self.loops, self.events, self.exits, self.nrand, self.loc, self.unknown, self.dry)
        self.summing.add(f['id'])
        n = len(self.sums) + len(self.summing)
        self.nsum += 1
        pre = 'S%d:' % self.nsum
        S = Summary(); S.f = f; S.slots = []
        self.st = State({}, ROOT); self.frames = []; self.loops = []; self.events = []; self.unknown = []; self.nrand = 0; self.dry = 0
        this = None
        if f.get('cls') and not f.get('static'):
            r = None
            for x in self.p.records.values():
                if f['id'] in x['methods']: r = x
            if r is None: ok = False
            else:
                this = Place(self.symroot(pre + 'this', r['t'])); S.slots.append(('this', pre + 'this', True))
        args = []
        for i, p in enumerate(f['params']):
            root = pre + '%d%s' % (i, p['n'] or '')
            x = self.p.ty(p['t'])
            if x['k'] == 'ptr':
                self.symroot(root, x['e']); args.append(mk('ptr', (root, ()), 'o')); S.slots.append((i, root, 'ptr'))
            else:
                self.symroot(root, p['t']); args.append(Place(root))
                S.slots.append((i, root, self.p.isref(p['t'])))
        try:
            if ok:
                ret = self.callbody(f, this, args, None)
                S.alive = self.st is not None
                S.ret = ret if S.alive else None
                S.pc = self.st.pc.lits() if S.alive else []
                S.cells = {}
                roots = {r for _, r, _ in S.slots}
                if S.alive:
                    for k, v in self.st.cells.items():
                        if k[0] in roots and v is not self.initcell(*k): S.cells[k] = v
                        elif k[0][0] == 'G': ok = False
                S.events = self.events
                S.unknown = self.unknown
                if self.nrand: ok = False
                S.ok = ok and self.portable(S)
        finally:
            self.st, self.frames, self.loops, self.events, self.exits, self.nrand, self.loc, self.unknown, self.dry = saved
            self.summing.discard(f['id'])
        return S if ok and S.ok else None
    def portable(self, S):
        roots = {r for _, r, _ in S.slots}
        def okv(v):
            if isinstance(v, T):
                for y in walk(v):
                    if y.op == 'ptr' and (y.args[0] not in roots): return False
                    if y.op in ('clos', 'iter', 'unk', 'fnptr') : return False
                return True
            if isinstance(v, Agg): return all(okv(x) for x in v.leaves.values() if x.sort in 'ol')
            if isinstance(v, Place): return v.root in roots or v.root[0] == 'G'
            return v is None
        if S.alive and not okv(S.ret): return False
        for v in S.cells.values():
            if (v.sort == 'o' or v.op == 'lam' and v.args[3].sort == 'o') and not okv(v): return False
        if S.unknown: return False
        # a local object escaping by value was read into an aggregate already
        if S.alive and isinstance(S.ret, Place) and S.ret.root[0] == 'L': return False
        return True
    def bysummary(self, f, this, args, e):
        if not f.get('body') or not self.hasloop(f): return None
        s = self.summary(f)
        if s is None: return None
        # bind the slots
        bind = {}
        places = set()
        for slot, root, mode in s.slots:
            a = this if slot == 'this' else args[slot] if slot < len(args) else None
            if a is None: return None
            if mode == 'ptr':
                a = self.load(a)
                if not (isinstance(a, T) and a.op == 'ptr'): return None
                a = Place(a.args[0], a.args[1], a.args[2:])
            elif mode is True:
                if isinstance(a, Proj) or isinstance(a, PairRef):
                    if any(k[0] == root for k in s.cells): return None
                    a = self.load(a)
                elif isinstance(a, T) and a.op == 'ptr': a = Place(a.args[0], a.args[1], a.args[2:])
            else:
                a = self.load(a)
            if not isinstance(a, (Place, Agg, T)): return None
            if isinstance(a, T) and a.op in ('clos', 'iter'): return None
            if isinstance(a, Place):
                if a.root in places and s.cells: return None
                places.add(a.root)
            bind[root] = a
        m = LazyMap(self, bind, self.st.cells.copy())
        loc = self.loc
        self.analysed.add(f['id'])
        if not self.dry:
            self.event('inst', sum=s, m=m, f=f['id'], this=this, args=args, base=self.st.pc)
        pc = self.st.pc
        for l in s.pc: pc = extend(pc, m.sub(l), 'assume', loc)
        if not s.alive:
            self.st = None; return (NULL,)
        newcells = []
        for (root, path), v in s.cells.items():
            b = bind[root]
            if not isinstance(b, Place): continue
            nv = m.sub(v)
            newcells.append((b, path, nv))
        ret = m.val(s.ret)
        self.st.pc = pc
        for b, path, nv in newcells:
            if nv.op == 'lam':
                ss = lamsyms(nv); nv = lam(len(ss), simp(pc, app(nv, *ss)), ss)
            else: nv = simp(pc, nv)
            self.setcell(b.root, b.path + path, b.idx, nv)
        if isinstance(ret, T): ret = simp(pc, ret)
        return (ret,)
    # ------------------------------------------------------------ construction
    def e_ctor(self, e):
        ty = self.p.strip(e['t'])
        r = self.p.rec(ty)
        if r is not None:
            f = self.p.f[e['f']]
            if (f.get('copy') or f.get('move')) and (f.get('implicit') or f.get('defaulted') or f.get('body') is None):
                return self.rv(e['args'][0])
            root = self.newroot(ty, r['short'])
            self.construct(Place(root), e)
            if self.st is None: return NULL
            return self.readagg(Place(root))
        return self.libctor(e)
    def construct(self, pl, e):
        f = self.p.f[e['f']]
        args = [self.evarg(a) for a in e['args']]
        if self.st is None: return
        self.construct_f(pl, f, args, e)
    def construct_f(self, pl, f, args, e=None):
        if (f.get('copy') or f.get('move')) and (f.get('implicit') or f.get('defaulted')):
            self.store(pl, self.load(args[0]), event=False); return
        if f.get('body') is None:
            r = self.p.cls(f['cls'].split('::')[-1])
            for fd in self.p.allfields(r) if r else []:
                k = self.p.kind(fd['t'])
                if fd.get('init'): self.initobj(pl.sub(fd['n']), fd['t'], fd['init'])
                elif k != 'leaf' or self.p.sort(fd['t']) in 'sj': self.store(pl.sub(fd['n']), self.default(fd['t']), event=False)
            return
        if self.frames and not (f.get('copy') or f.get('move')) and self.opts.get('opaque') and self.opts['opaque'](self, f):
            r = self.opaquecall(f, pl, args, e, ctor=pl)
            if r is not None: return
        loc = self.loc
        fr = Frame(f, pl, loc)
        self.analysed.add(f['id'])
        self.event('call', f=f['id'], this=pl, args=args)
        for prm, a in zip(f['params'], args): self.bind(fr, prm, a)
        fr.base = self.st.pc
        self.frames.append(fr)
        for i in f.get('inits', []):
            if self.st is None: break
            if i.get('l') and i['l'][0] >= 0: self.loc = i['l']
            x = i['x']
            if x is None: continue
            if 'fld' in i:
                sub_ = pl.sub(i['fld'])
                self.initobj(sub_, self.ptype(sub_), x)
            else:
                if x['k'] == 'ctor':
                    bf = self.p.f[x['f']]
                    if bf['repo']: self.construct(pl, x)
                else: self.unk('base initialiser')
        if self.st is not None: self.exec(f['body'])
        self.frames.pop()
        self.loc = loc
        outs = [o[0] for o in fr.returns]
        if self.st is not None: outs.append(self.st)
        if not outs: self.st = None; return
        self.st, _ = self.join(outs, fr.base)
        if len(outs) == 1: self.st.pc = self.demote(self.st.pc, fr.base)
        self.drop(fr, NULL)

class Effects:
    def __init__(s): s.writes = set(); s.throws = False; s.rand = False; s.alive = True; s.unknown = []; s.globals = set(); s.events = None; s.it = None
def effects(prog, f, opts):
    """what one function may change in its object and arguments, found by one abstract run of its body"""
    cache = prog.__dict__.setdefault('_eff', {})
    key = (f['id'], opts.get('name'))
    r = cache.get(key)
    if r is not None: return r
    r = cache[key] = Effects()
    r.busy = True
    from . import driver
    prev = _CUR[0]
    it = Interp(prog, opts)
    rec = None
    if f.get('cls') and not f.get('static'):
        for x in prog.records.values():
            if f['id'] in x['methods']: rec = x
    driver.run_function(it, f, rec)
    _CUR[0] = prev
    r.it = it
    r.unknown = it.unknown
    evs = it.expanded()
    r.rand = it.nrand > 0
    r.throws = any(e.kind in ('throw', 'maythrow') for e in evs)
    r.alive = it.st is not None
    for e in evs:
        if e.kind == 'write' and isinstance(e.d.get('place'), Place):
            pl = e.d['place']
            if pl.root == 'this' or pl.root.startswith('A:'):
                for p, s, ix, lt in prog.leaves(it.ptype(pl)) if it.ptype(pl) is not None else [((), None, None, None)]: r.writes.add((pl.root, pl.path + p))
            elif pl.root.startswith('G:'): r.globals.add(pl.root)
        elif e.kind == 'random': r.rand = True
    if it.st is not None:
        for (root, path), v in it.st.cells.items():
            if root == 'this' or root.startswith('A:'):
                if v is not it.initcell(root, path): r.writes.add((root, path))
    r.busy = False
    return r

_CUR = [set()]
def activate(it): _CUR[0] = it.unsigned
def _unsigned_axiom(a):
    if a.op == 'init' and (a.args[0], a.args[1]) in _CUR[0]: return [le(ZERO, a)]
    return []
facts.axioms.append(_unsigned_axiom)
def lt_(a, b): return lt(a, b)
_nn = facts.nonneg_atom
def nonneg_atom(a):
    if a.op == 'init' and (a.args[0], a.args[1]) in _CUR[0]: return True
    if a.op in ('inf', 'jsize', 'pysize'): return True
    if a.op == 'res' and a.args[1] and a.args[1][-1] == '#': return True
    return _nn(a)
facts.nonneg_atom = nonneg_atom
