"""Models of the library operations the code base uses: containers, strings, iterators, streams,
nlohmann::json and pybind11 objects, and the standard algorithms (as loops over their ranges)."""
from .term import *
from . import term as tm
from .theory import *
from .facts import decide, simp, extend

RANDOM = {'rand', 'random', 'drand48', 'lrand48', 'time', 'clock', 'srand', 'srandom', 'getpid', 'gettimeofday', 'clock_gettime'}

def cref(ptr, P): return mk('cref', (ptr, P if P is not None else NULL), 'o')
def iterof(c, i): return mk('iter', (c, i), 'o')
CONT = ('vec', 'arr', 'map', 'set')

def raw(s): return s.args[0] if isinstance(s, T) and s.op == 'cstr' else s
class Lib:
    # ------------------------------------------------------------ helpers
    def objplace(self, o, e):
        """the object expression of a library member call: Place / Proj / T"""
        if o is None: return self.e_this(e)
        v = self.ev(o)
        if self.st is None: return None
        from .interp import Place, Proj, PairRef, Agg
        if isinstance(v, Place):
            ty = self.ptype(v)
            if ty is not None and self.p.ty(ty)['k'] == 'ptr':
                d = self.deref(self.load(v))
                return d if d is not None else self.unk('object through pointer')
            return v
        if isinstance(v, T) and v.op in ('ptr', 'clos') or (isinstance(v, T) and v.op == 'ite' and v.sort == 'o'):
            d = self.deref(v)
            if d is not None: return d
        if isinstance(v, Agg) : return self.temp(o['t'], v)
        return v
    def cont(self, v, ty=None):
        """container kind of a Place"""
        from .interp import Place
        if isinstance(v, Place):
            t = self.ptype(v)
            if t is None: return None
            return self.p.kind(t)
        return None
    def vsize(self, pl):
        k = self.p.kind(self.ptype(pl))
        if k == 'arr':
            return num(self.p.ty(self.ptype(pl)).get('len', 0))
        if k in ('map', 'set'): return card(self.presence(pl))
        return self.partial(self.cell(pl.root, pl.path + ('#',)), pl.idx)
    def presence(self, pl):
        return self.partial(self.cell(pl.root, pl.path + ('{?}',)), pl.idx)
    def setsub(self, pl, comp, val):
        self.setcell(pl.root, pl.path + (comp,), pl.idx, val)
    def elemty(self, pl):
        t = self.ptype(pl)
        return self.p.targs(t)[0] if self.p.kind(t) == 'vec' else self.p.ty(t)['e']
    def has(self, pl, k):
        return simp(self.st.pc, app(self.presence(pl), k))
    def keyterm(self, v):
        v = self.load(v)
        from .interp import Agg
        if isinstance(v, Agg): return self.pack(v)
        return toint_(v) if isinstance(v, T) else self.wrapval(v)
    def charstr(self, v):
        """char or string -> string"""
        if v.sort == 's': return v
        if isnum(v) and 0 <= v.args[0] < 256: return string(chr(v.args[0]))
        return chrs(v)
    def throwext(self, what):
        self.event('throw', ty=what, msg=None, node=None, ext=True)
        self.st = None
        return NULL
    def mapaccess(self, pl, k):
        """m[k]"""
        c = self.has(pl, k)
        if c is not TRUE:
            self.event('mapinsert', place=pl, key=k, present=c)
            P = self.presence(pl)
            ss = lamsyms(P)
            vt = self.p.targs(self.ptype(pl))[1]
            d = self.default(vt)
            if self.st is None: return NULL
            self.setsub(pl, '{?}', lam(1, or_(app(P, ss[0]), eq(ss[0], k)), ss))
            sub_ = pl.sub('{}', k)
            from .interp import Agg
            for p, s, ix, lt in self.p.leaves(vt):
                dv = d.leaves.get(p) if isinstance(d, Agg) else d
                if dv is None: continue
                old = self.partial(self.cell(pl.root, pl.path + ('{}',) + p), sub_.idx)
                if dv.sort == 'l':
                    s2 = lamsyms(dv)
                    nv = lam(len(s2), ite(c, app(old, *s2), app(dv, *s2)), s2)
                else: nv = ite(c, old, dv)
                self.setcell(pl.root, pl.path + ('{}',) + p, sub_.idx, nv)
        return pl.sub('{}', k)
    def erasekey(self, pl, k):
        P = self.presence(pl); ss = lamsyms(P)
        self.setsub(pl, '{?}', lam(1, and_(app(P, ss[0]), not_(eq(ss[0], k))), ss))
    # ------------------------------------------------------------ iterators
    def mkiter(self, pl, i, P=None):
        from .interp import Place
        k = self.cont(pl)
        if k in ('map', 'set'): return iterof(cref(self.toptr(pl), P if P is not None else self.presence(pl)), i)
        if k in ('vec', 'arr'): return iterof(cref(self.toptr(pl), None), i)
        v = self.load(pl)
        if isinstance(v, T) and v.sort == 's': return iterof(cref(self.toptr(pl), None), i)
        if isinstance(v, T): return iterof(cref(NULL, v), i)
        return self.unk('iterator')
    def iterkey(self, it):
        P = it.args[0].args[1]; i = it.args[1]
        if i.op in ('ord', 'ordf'): return i.args[1]
        return simp(self.st.pc, keyat(P, i))
    def iterderef(self, it):
        from .interp import Place, Proj, PairRef
        c, i = it.args
        ptr, P = c.args
        if ptr is NULL:
            if P.sort == 'j': return jelem(P, i)
            return self.mkpair(mk('pykey', (P, i), 'o'), mk('pyval', (P, i), 'o'))
        pl = self.deref(ptr)
        if isinstance(pl, Place):
            k = self.cont(pl)
            if k == 'map':
                key = self.iterkey(it)
                self.event('deref', it=it, size=card(P), idx=i, place=pl)
                return PairRef(key, pl.sub('{}', key))
            if k == 'set': return self.iterkey(it)
            if k in ('vec', 'arr'):
                self.event('index', size=self.vsize(pl), idx=i, what='iterator', place=pl)
                return pl.sub('*', i)
            return Proj('str', pl, i)
        return self.unk('iterator dereference')
    def iteradd(self, it, k):
        return iterof(it.args[0], simp(self.st.pc, add(it.args[1], k)))
    def rangeof(self, a, b):
        """two iterators -> (count, element function)"""
        a, b = self.load(a), self.load(b)
        if isinstance(a, T) and isinstance(b, T) and a.op == 'iter' and b.op == 'iter' and a.args[0] is b.args[0]:
            n = simp(self.st.pc, sub(b.args[1], a.args[1]))
            return n, (lambda lv: self.iterderef(iterof(a.args[0], add(a.args[1], lv)))), a
        return None, None, None
    # ------------------------------------------------------------ free functions
    def libcall(self, f, e):
        n = f['n']; q = f['q']
        m = getattr(self, 'f_' + n, None)
        if m is not None: return m(f, e)
        for a in e['args']: self.ev(a)
        if self.st is None: return NULL
        return self.unk('call ' + q, self.p.sort(e['t']))
    def args(self, e, ld=True):
        out = []
        for a in e['args']:
            out.append(self.rv(a) if ld else self.ev(a))
            if self.st is None: return None
        return out
    def random(self, what):
        self.nrand += 1
        self.event('random', what=what)
        return mk('rand', (what, self.nrand) + tuple(l.lv for l in self.loops if l.lv is not None), 'i')
    def f_rand(self, f, e): return self.random('rand')
    def f_random(self, f, e): return self.random('rand')
    def f_time(self, f, e):
        self.args(e); return self.random('time')
    def f_srand(self, f, e):
        a = self.args(e); self.event('srand', val=a[0] if a else None); return NULL
    def f_sqrt(self, f, e):
        a = self.args(e)
        return mk('sqrt', (a[0],), 'f') if a else NULL
    def f_tanh(self, f, e):
        a = self.args(e)
        return mk('tanh', (a[0],), 'f') if a else NULL
    def f_round(self, f, e):
        a = self.args(e)
        return mk('round', (a[0],), 'i') if a else NULL
    def f_lround(self, f, e): return self.f_round(f, e)
    def f_floor(self, f, e):
        a = self.args(e); return mk('floor', (a[0],), 'i') if a else NULL
    def f_ceil(self, f, e):
        a = self.args(e); return mk('ceil', (a[0],), 'i') if a else NULL
    def f_abs(self, f, e):
        a = self.args(e)
        return ite(lt(a[0], ZERO), neg(a[0]), a[0]) if a else NULL
    f_fabs = f_abs
    def f_pow(self, f, e):
        a = self.args(e)
        if not a: return NULL
        return power(a[0], a[1]) if a[0].sort == 'i' and a[1].sort == 'i' else mk('fpow', tuple(a), 'f')
    def f_isnan(self, f, e):
        a = self.args(e); return mk('isnan', (a[0],), 'b') if a else NULL
    def f_min(self, f, e):
        a = self.args(e)
        if not a: return NULL
        if len(a) == 2 and numeric(a[0]) and numeric(a[1]): return ite(lt(a[1], a[0]), a[1], a[0])
        return self.unk('min')
    def f_max(self, f, e):
        a = self.args(e)
        if not a: return NULL
        if len(a) == 2 and numeric(a[0]) and numeric(a[1]): return ite(lt(a[0], a[1]), a[1], a[0])
        return self.unk('max')
    def f_swap(self, f, e):
        a = self.args(e, False)
        if not a: return NULL
        x, y = self.load(a[0]), self.load(a[1])
        self.store(a[0], y); self.store(a[1], x); return NULL
    def f_move(self, f, e):
        return self.ev(e['args'][0])
    f_forward = f_move
    f_addressof = lambda self, f, e: self.toptr(self.ev(e['args'][0]))
    def f_get(self, f, e):
        if not f['q'].startswith('std::get'): return self.unk('call ' + f['q'], self.p.sort(e['t']))
        v = self.ev(e['args'][0])
        if self.st is None: return NULL
        i = None
        for ta in f.get('ta', []):
            if isinstance(ta, dict) and 'v' in ta: i = ta['v']
        if i is None: return self.unk('std::get', self.p.sort(e['t']))
        from .interp import Place, Agg, PairRef
        if isinstance(v, PairRef): return v.first if i == 0 else v.second
        t = self.p.strip(e['args'][0]['t'])
        nme = ('first', 'second')[i] if self.p.ty(t)['q'] == 'std::pair' else str(i)
        if isinstance(v, Place): return v.sub(nme)
        if isinstance(v, Agg):
            if (nme,) in v.leaves: return v.leaves[(nme,)]
            return Agg(self.p.step(t, nme), {p[1:]: x for p, x in v.leaves.items() if p and p[0] == nme})
        return self.unk('std::get')
    def f_make_tuple(self, f, e):
        a = self.args(e)
        if a is None: return NULL
        return self.mkrec(e['t'], [str(i) for i in range(len(a))], a)
    def f_make_pair(self, f, e):
        a = self.args(e)
        if a is None: return NULL
        return self.mkrec(e['t'], ['first', 'second'], a)
    def mkrec(self, ty, names, vals):
        from .interp import Agg
        out = {}
        for n, v in zip(names, vals):
            if isinstance(v, Agg):
                for p, x in v.leaves.items(): out[(n,) + p] = x
            else: out[(n,)] = v if isinstance(v, T) else self.wrapval(v)
        return Agg(self.p.strip(ty), out)
    def f_to_string(self, f, e):
        a = self.args(e)
        return tostr(toint_(a[0])) if a else NULL
    def f_memcpy(self, f, e):
        from .interp import Place, Proj
        a = self.args(e)
        if not a: return NULL
        d, s, n = self.deref(a[0]), None if isinstance(a[1], T) and a[1].sort == 's' else self.deref(a[1]), a[2]
        if s is None and isinstance(d, Place) and isnum(n):
            t = self.p.ty(self.ptype(d)); sv = raw(a[1])
            self.event('strindex', size=ssize(sv), idx=sub(n, ONE), s=sv)
            if t.get('bits', 8 * n.args[0]) != 8 * n.args[0]: self.store(d, self.unk('memcpy into a part', self.p.sort(self.ptype(d)))); return NULL
            self.store(d, unbytes((n.args[0], t.get('s', True), t['k']), sv, self.p.sort(self.ptype(d))))
            return NULL
        if isinstance(d, Proj) and d.kind == 'str' and d.k is ZERO and isinstance(s, Place) and isnum(n):
            v = self.load(s)
            t = self.p.ty(self.ptype(s))
            if isinstance(v, T):
                w = (n.args[0], t.get('s', True), t['k'])
                base = self.load(d.base)
                self.event('strindex', size=ssize(base), idx=sub(n, ONE), s=base)
                if sub(ssize(base), n) is ZERO: self.store(d.base, mk('bytes', (w, v), 's'))
                else: self.store(d.base, srep(base, ZERO, n, mk('bytes', (w, v), 's')))
                return NULL
        if isinstance(s, Proj) and s.kind == 'str' and s.k is ZERO and isinstance(d, Place) and isnum(n):
            t = self.p.ty(self.ptype(d))
            w = (n.args[0], t.get('s', True), t['k'])
            sv = self.load(s.base)
            self.event('strindex', size=ssize(sv), idx=sub(n, ONE), s=sv)
            if t.get('bits', 8 * n.args[0]) != 8 * n.args[0]: self.store(d, self.unk('memcpy into a part', self.p.sort(self.ptype(d)))); return NULL
            self.store(d, unbytes(w, sv, self.p.sort(self.ptype(d))))
            return NULL
        self.unk('memcpy'); return NULL
    def f_strlen(self, f, e):
        a = self.args(e)
        return ssize(a[0]) if a and a[0].sort == 's' else self.unk('strlen', 'i')
    def f_getline(self, f, e):
        from .interp import Place
        s = self.ev(e['args'][0]); out = self.ev(e['args'][1])
        d = self.rv(e['args'][2]) if len(e['args']) > 2 else num(10)
        if self.st is None: return NULL
        if not isinstance(s, Place) or self.p.kind(self.ptype(s)) != 'strm': return self.unk('getline')
        pos = self.load(s.sub('pos')); fn = self.load(s.sub('file'))
        self.event('stream', op='read', place=s)
        self.store(out, split(mk('filetext', (fn,), 's'), self.charstr(d), pos))
        self.store(s.sub('pos'), add(pos, ONE), event=False)
        return s
    def f_random_shuffle(self, f, e):
        a = self.args(e)
        if not a: return NULL
        n, el, it = self.rangeof(a[0], a[1])
        if n is None: return self.unk('shuffle')
        pl = self.deref(it.args[0].args[0])
        self.nrand += 1
        self.event('random', what='shuffle')
        tag = ('shuffle', self.nrand) + tuple(l.lv for l in self.loops if l.lv is not None)
        self.event('shuffle', place=pl, n=n, first=it.args[1], size=self.vsize(pl))
        self.permute(pl, it.args[1], n, lambda b: mk('perm', (tag, n, b), 'i'))
        return NULL
    f_shuffle = f_random_shuffle
    def permute(self, pl, first_, n, pf):
        for p, s, ix, lt in self.p.leaves(self.ptype(pl)):
            if p == ('#',): continue
            old = self.partial(self.cell(pl.root, pl.path + p), pl.idx)
            ss = lamsyms(old)
            b = ss[0]
            inside = and_(le(first_, b), lt_(b, add(first_, n)))
            if simp(self.st.pc, sub(n, self.vsize(pl))) is ZERO and first_ is ZERO: inside = TRUE
            nv = app(old, add(first_, pf(sub(b, first_))), *ss[1:])
            self.setcell(pl.root, pl.path + p, pl.idx, lam(len(ss), ite(inside, nv, app(old, *ss)), ss))
        self.event('write', place=pl.sub('*', mk('anyidx', (), 'i')), val=None)
    def f_sort(self, f, e):
        a = self.args(e)
        if not a: return NULL
        n, el, it = self.rangeof(a[0], a[1])
        if n is None: return self.unk('sort')
        pl = self.deref(it.args[0].args[0])
        agg = self.readagg(pl)
        cmp_ = a[2] if len(a) > 2 else NULL
        # ordering key: the comparison applied to two generic elements
        i, j = fresh('i', 'i', True), fresh('j', 'i', True)
        save = self.st.copy()
        for x in (i, j):
            self.st.pc = extend(self.st.pc, le(ZERO, x), 'assume', self.loc); self.st.pc = extend(self.st.pc, lt_(x, n), 'assume', self.loc)
        if cmp_ is NULL:
            x, y = self.load(el(i)), self.load(el(j))
            c = lt(x, y) if isinstance(x, T) and numeric(x) else mk('less', (self.pack(x) if not isinstance(x, T) else x, self.pack(y) if not isinstance(y, T) else y), 'b')
        else:
            c = self.callvalue(cmp_, [el(i), el(j)], e)
        self.event('sort', place=pl, n=n, cmp=(i, j, c))
        self.st = save
        order = lam(2, c, (i, j)) if isinstance(c, T) else NULL
        self.permute(pl, it.args[1], n, lambda b: mk('sortperm', (order, n, b), 'i'))
        return NULL
    f_stable_sort = f_sort
    # standard algorithms, as loops over their range
    def algo(self, e, k=2):
        a = self.args(e, False)
        if a is None: return None
        n, el, it = self.rangeof(a[0], a[1])
        if n is None:
            self.unk('range of ' + str(e.get('f'))); return None
        return n, el, it, a
    def f_for_each(self, f, e):
        r = self.algo(e)
        if r is None: return NULL
        n, el, it, a = r
        fn = self.load(a[2])
        self.run_range(n, lambda lv: self.callvalue(fn, [el(lv)], {'t': e['t']}), self.loc)
        return fn if isinstance(fn, T) else NULL
    def f_accumulate(self, f, e):
        r = self.algo(e)
        if r is None: return self.unk('accumulate', self.p.sort(e['t']))
        n, el, it, a = r
        init = self.load(a[2])
        acc = self.temp(e['t'], init, 'acc')
        op = self.load(a[3]) if len(a) > 3 else None
        def body(lv):
            x = el(lv)
            if op is None:
                u, v = self.load(acc), self.load(x)
                if isinstance(u, T) and u.sort == 's': w = cat(u, v)
                elif isinstance(u, T) and isinstance(v, T): w = add(toint_(u), toint_(v))
                else: w = self.unk('accumulate')
            else: w = self.load(self.callvalue(op, [self.load(acc), x], {'t': e['t']}))
            if self.st is not None: self.store(acc, w, event=False)
        self.run_range(n, body, self.loc)
        return self.load(acc) if self.st is not None else NULL
    def countloop(self, e, test):
        r = self.algo(e)
        if r is None: return self.unk('count', 'i')
        n, el, it, a = r
        acc = self.temp(self.inttype(), ZERO, 'acc')
        def body(lv):
            c = test(el(lv), a)
            if self.st is not None: self.store(acc, add(self.load(acc), ite(c, ONE, ZERO)), event=False)
        self.run_range(n, body, self.loc)
        return self.load(acc) if self.st is not None else NULL
    def inttype(self):
        for i, t in enumerate(self.p.types):
            if t['n'] == 'int': return i
    def pred(self, fn, args): 
        v = self.callvalue(self.load(fn), args, {'t': self.inttype()})
        return self.truth(self.load(v)) if self.st is not None else FALSE
    def f_count_if(self, f, e): return self.countloop(e, lambda x, a: self.pred(a[2], [x]))
    def f_count(self, f, e): return self.countloop(e, lambda x, a: self.valeq(x, a[2]))
    def valeq(self, x, y):
        x, y = self.load(x), self.load(y)
        return eq(x, y) if isinstance(x, T) and isinstance(y, T) else self.aggeq(x, y)
    def quant(self, e, test):
        r = self.algo(e)
        if r is None: return None, None, None
        n, el, it, a = r
        x = fresh('q', 'i', True)
        # the predicate on a generic element
        base = self.st
        res = []
        acc = self.temp(self.booltype(), FALSE, 'acc')
        def body(lv):
            c = test(el(lv), a)
            if self.st is not None:
                res.append((lv, c)); self.store(acc, or_(self.load(acc), c), event=False)
        self.run_range(n, body, self.loc)
        if self.st is None: return None, None, None
        lv, c = res[-1]
        return n, (lv, c), (self.load(acc), it)
    def booltype(self):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'bool': return i
    def f_any_of(self, f, e):
        n, lc, r = self.quant(e, lambda x, a: self.pred(a[2], [x]))
        return r[0] if r else self.unk('any_of', 'b')
    def f_none_of(self, f, e):
        n, lc, r = self.quant(e, lambda x, a: self.pred(a[2], [x]))
        return not_(r[0]) if r else self.unk('none_of', 'b')
    def f_all_of(self, f, e):
        n, lc, r = self.quant(e, lambda x, a: not_(self.pred(a[2], [x])))
        return not_(r[0]) if r else self.unk('all_of', 'b')
    def f_find_if(self, f, e):
        n, lc, r = self.quant(e, lambda x, a: self.pred(a[2], [x]))
        if not r: return self.unk('find_if')
        return self.iteradd(r[1], first(n, lam(1, lc[1], (lc[0],))))
    def f_find(self, f, e):
        n, lc, r = self.quant(e, lambda x, a: self.valeq(x, a[2]))
        if not r: return self.unk('find')
        return self.iteradd(r[1], first(n, lam(1, lc[1], (lc[0],))))
    def extreme(self, e, sgn):
        r = self.algo(e)
        if r is None: return self.unk('max_element')
        n, el, it, a = r
        cur = self.temp(self.inttype(), ZERO, 'best')
        def body(lv):
            x, y = el(self.load(cur)), el(lv)
            if len(a) > 2: c = self.pred(a[2], [x, y] if sgn > 0 else [y, x])
            else:
                u, v = self.load(x), self.load(y)
                if not (isinstance(u, T) and numeric(u)): c = self.unk('max_element', 'b')
                else: c = lt(u, v) if sgn > 0 else lt(v, u)
            if self.st is not None: self.store(cur, ite(c, lv, self.load(cur)), event=False)
        self.run_range(n, body, self.loc)
        if self.st is None: return NULL
        return self.iteradd(it, self.load(cur))
    def f_max_element(self, f, e): return self.extreme(e, 1)
    def f_min_element(self, f, e): return self.extreme(e, -1)
    def f_transform(self, f, e):
        r = self.algo(e)
        if r is None: return self.unk('transform')
        n, el, it, a = r
        out = self.load(a[2])
        fn = self.load(a[-1])
        el2 = None
        if len(a) == 5:
            i2 = out; out = self.load(a[3])
            el2 = lambda lv: self.iterderef(self.iteradd(i2, lv))
        def body(lv):
            v = self.load(self.callvalue(fn, [el(lv)] + ([el2(lv)] if el2 else []), {'t': self.inttype()}))
            if self.st is not None: self.outstore(out, lv, v)
        self.run_range(n, body, self.loc)
        return self.iteradd(out, n) if out.op == 'iter' else out
    def outstore(self, out, lv, v):
        if out.op == 'iter': self.store(self.iterderef(self.iteradd(out, lv)), v)
        elif out.op == 'backins': self.pushback(self.deref(out.args[0]), v)
        else: self.unk('output iterator')
    def f_back_inserter(self, f, e):
        v = self.ev(e['args'][0])
        return mk('backins', (self.toptr(v),), 'o') if self.st is not None else NULL
    def f_copy(self, f, e):
        r = self.algo(e)
        if r is None: return self.unk('copy')
        n, el, it, a = r
        out = self.load(a[2])
        self.run_range(n, lambda lv: self.outstore(out, lv, self.load(el(lv))), self.loc)
        return self.iteradd(out, n) if out.op == 'iter' else out
    def f_fill(self, f, e):
        r = self.algo(e)
        if r is None: return NULL
        n, el, it, a = r
        v = self.load(a[2])
        self.run_range(n, lambda lv: self.store(el(lv), v), self.loc)
        return NULL
    def f_iota(self, f, e):
        r = self.algo(e)
        if r is None: return NULL
        n, el, it, a = r
        v = self.load(a[2])
        self.run_range(n, lambda lv: self.store(el(lv), add(v, lv)), self.loc)
        return NULL
    def f_generate(self, f, e):
        r = self.algo(e)
        if r is None: return NULL
        n, el, it, a = r
        fn = self.load(a[2])
        self.run_range(n, lambda lv: self.store(el(lv), self.load(self.callvalue(fn, [], {'t': self.inttype()}))), self.loc)
        return NULL
    def f_distance(self, f, e):
        a = self.args(e)
        n, el, it = self.rangeof(a[0], a[1])
        return n if n is not None else self.unk('distance', 'i')
    def f_next(self, f, e):
        a = self.args(e)
        return self.iteradd(a[0], a[1] if len(a) > 1 else ONE) if a and a[0].op == 'iter' else self.unk('next')
    def f_begin(self, f, e):
        v = self.ev(e['args'][0]); return self.mkiter(v, ZERO) if self.st is not None else NULL
    def f_end(self, f, e):
        v = self.ev(e['args'][0])
        return self.mkiter(v, self.vsize(v)) if self.st is not None and self.cont(v) in CONT else self.unk('end')
    def f_parse(self, f, e):
        v = self.rv(e['args'][0])
        if self.st is None: return NULL
        self.event('jparse', text=v)
        return jparse(v) if isinstance(v, T) and v.sort == 's' else self.unk('parse', 'j')
    def f_get_internals(self, f, e): return mk('ext', ('internals',), 'o')
    def f_init(self, f, e): return mk('ext', ('pyinit', self.p.tyname(e['t'])), 'o')
    def f_exit(self, f, e):
        self.args(e); self.event('exit', what=f['q']); self.st = None; return NULL
    f_abort = f_quick_exit = f__Exit = f_terminate = f_exit
    def f_setw(self, f, e): self.args(e); return mk('manip', ('setw',), 'o')
    def f_numeric(self, f, e): return self.unk('numeric')
    # ------------------------------------------------------------ methods
    def libmethod(self, f, o, args, e):
        v = self.objplace(o, e)
        if self.st is None: return NULL
        n = f['n']
        cls = (f.get('cls') or '')
        from .interp import Place, Proj, PairRef
        k = self.cont(v)
        if k == 'strm' or cls.startswith('std::basic_ios') or 'fstream' in cls: return self.m_stream(v, n, args, e)
        if k in ('vec', 'arr'): return self.m_vec(v, n, args, e, f)
        if k in ('map', 'set'): return self.m_map(v, n, args, e, k, f)
        if cls.startswith(('std::basic_string', 'std::__cxx11::basic_string')): return self.m_str(v, n, args, e)
        if cls.startswith('nlohmann::basic_json'): return self.m_json(v, n, args, e)
        if cls.startswith('nlohmann::detail::iter_impl'):
            it = self.load(v)
            if isinstance(it, T) and it.op == 'iter':
                if n == 'value': return self.iterderef(it)
                if n == 'key': return jkey(it.args[0].args[1], it.args[1])
        if cls.startswith('pybind11'): return self.m_py(v, n, args, e, f)
        if cls.startswith('std::tuple') or cls.startswith('std::pair'):
            if n == 'operator=': return self.assign(v, args[0])
        for a in args: self.ev(a)
        if self.st is None: return NULL
        return self.unk('method ' + f['q'], self.p.sort(e['t']))
    def assign(self, pl, arg):
        x = self.rv(arg)
        if self.st is None: return NULL
        self.store(pl, x); return pl
    def getattr_(self, pl, c): return self.load(pl.sub(c))
    def m_stream(self, v, n, args, e):
        from .interp import Place
        a = [self.rv(x) for x in args]
        if self.st is None: return NULL
        if not (isinstance(v, Place) and self.p.kind(self.ptype(v)) == 'strm'): return self.unk('stream ' + n, self.p.sort(e['t']))
        g = lambda c: self.getattr_(v, c)
        if n == 'open':
            if not a: return NULL
            self.event('stream', op='open', place=v, file=raw(a[0]), mode=a[1] if len(a) > 1 else NULL, ty=self.p.ty(self.ptype(v))['q'])
            self.openstream(v, a[0], a[1] if len(a) > 1 else NULL); return NULL
        st = (g('file'), g('mode'), g('pos'), g('content'), g('closed'))
        if n == 'is_open':
            self.event('stream', op='is_open', place=v); return g('open')
        if n == 'close':
            self.event('stream', op='close', place=v)
            self.store(v.sub('closed'), TRUE, event=False); return NULL
        if n == 'eof':
            self.event('stream', op='eof', place=v)
            return mk('eof', (st[0], st[2]), 'b')
        if n in ('fail', 'bad', 'good', 'operator!', 'operator bool'):
            self.event('stream', op=n, place=v)
            if n in ('good', 'operator bool') and st[2] is ZERO and st[3].op == 'str': return g('open')
            c = mk('streamfail' if n != 'bad' else 'streambad', st, 'b')
            return not_(c) if n in ('good', 'operator bool') else c
        if n == 'flush': return v
        if n in ('write', 'put') and a and isinstance(a[0], T):
            c = self.charstr(a[0]) if n == 'put' else substr(raw(a[0]), ZERO, a[1]) if len(a) == 2 and a[0].sort == 's' else self.unk('streamed', 's')
            self.event('stream', op='write', place=v, val=c)
            self.store(v.sub('content'), cat(st[3], c), event=False)
            return v
        if n in ('rdbuf', 'str', 'tellp', 'tellg', 'seekg', 'seekp', 'exceptions', 'clear', 'peek', 'get', 'read', 'write', 'put'):
            self.event('stream', op=n, place=v)
        return self.unk('stream ' + n, self.p.sort(e['t']))
    def openstream(self, v, file, mode):
        file = raw(file)
        if mode.sort != 'i' and mode.op == 'extvar': mode = mk('openmode', (mode.args[0],), 'i')
        for c, x in (('file', file), ('mode', mode), ('open', mk('openok', (file, mode), 'b')), ('content', string('')), ('pos', ZERO), ('closed', FALSE)):
            self.store(v.sub(c), x, event=False)
    def iterargs(self, args):
        return [self.load(self.ev(a)) for a in args]
    def pushback(self, v, x):
        n = self.vsize(v)
        self.event('write', place=v.sub('*', n), val=x if isinstance(x, T) else None)
        self.store(v.sub('*', n), x, event=False)
        self.setsub(v, '#', add(n, ONE))
    def m_vec(self, v, n, args, e, f):
        if n == 'size' or n == 'length': return simp(self.st.pc, self.vsize(v))
        if n == 'empty': return simp(self.st.pc, eq(self.vsize(v), ZERO))
        if n in ('begin', 'cbegin'): return self.mkiter(v, ZERO)
        if n in ('end', 'cend'): return self.mkiter(v, self.vsize(v))
        if n == 'data': return self.toptr(v.sub('*', ZERO))
        if n in ('at', 'operator[]'):
            i = self.rv(args[0])
            if self.st is None: return NULL
            if n == 'at':
                c = and_(le(ZERO, i), lt(i, self.vsize(v)))
                self.branch(simp(self.st.pc, c), lambda: None, lambda: self.throwext('std::out_of_range'))
                if self.st is None: return NULL
            else: self.event('index', size=self.vsize(v), idx=i, what='vector', place=v)
            return v.sub('*', i)
        if n in ('front', 'back'):
            i = ZERO if n == 'front' else sub(self.vsize(v), ONE)
            self.event('index', size=self.vsize(v), idx=i, what='vector', place=v)
            return v.sub('*', i)
        if n in ('push_back', 'emplace_back', 'push'):
            if len(args) == 1: x = self.rv(args[0])
            else: x = self.unk('emplace_back')
            if self.st is None: return NULL
            self.pushback(v, x); return NULL
        if n == 'pop_back':
            self.setsub(v, '#', sub(self.vsize(v), ONE)); self.event('write', place=v, val=None); return NULL
        if n == 'clear':
            self.event('write', place=v, val=None)
            self.store(v, self.default(self.ptype(v)), event=False); return NULL
        if n in ('reserve', 'shrink_to_fit'):
            for a in args: self.rv(a)
            return NULL
        if n == 'resize':
            k = self.rv(args[0])
            x = self.rv(args[1]) if len(args) > 1 else None
            if self.st is None: return NULL
            self.event('write', place=v, val=None)
            self.resize(v, k, x); return NULL
        if n == 'operator=': return self.assign(v, args[0])
        if n == 'swap':
            o = self.ev(args[0])
            if self.st is None: return NULL
            x, y = self.load(v), self.load(o)
            self.store(v, y); self.store(o, x); return NULL
        if n == 'assign':
            a = [self.load(self.ev(x)) for x in args]
            if self.st is None: return NULL
            val = self.vecvalue(self.ptype(v), a)
            if val is not None: self.store(v, val); return NULL
        if n == 'insert' and len(args) == 3:
            a = self.iterargs(args)
            if self.st is None: return NULL
            if isinstance(a[0], T) and a[0].op == 'iter' and a[0].args[1] is self.vsize(v):
                cnt, el, it = self.rangeof(a[1], a[2])
                if cnt is not None:
                    self.run_range(cnt, lambda lv: self.pushback(v, self.load(el(lv))), self.loc)
                    return a[0]
        for a in args: self.ev(a)
        if self.st is None: return NULL
        self.havoc(v, 'vector ' + n)
        return self.unk('vector ' + n, self.p.sort(e['t']))
    def havoc(self, v, why):
        from .interp import Place
        if isinstance(v, Place):
            self.store(v, self.unk(why))
    def resize(self, v, k, x=None):
        old = self.vsize(v)
        et = self.elemty(v)
        d = x if x is not None else self.default(et)
        from .interp import Agg
        if self.st is None: return
        r = decide(self.st.pc, le(k, old))
        if r is not True:
            for p, s, ix, lt in self.p.leaves(et):
                dv = d.leaves.get(p) if isinstance(d, Agg) else d
                if dv is None: continue
                cur = self.partial(self.cell(v.root, v.path + ('*',) + p), v.idx)
                ss = lamsyms(cur)
                nv = app(dv, *ss[1:]) if dv.sort == 'l' else dv
                self.setcell(v.root, v.path + ('*',) + p, v.idx, lam(len(ss), ite(lt_(ss[0], old), app(cur, *ss), nv) if old is not ZERO else nv, ss))
        self.setsub(v, '#', k)
    def vecvalue(self, ty, a):
        """value of a vector built from constructor arguments"""
        from .interp import Agg
        a = [x for x in a if not (isinstance(x, T) and x.op == 'alloc')]
        ty = self.p.strip(ty)
        et = self.p.targs(ty)[0] if self.p.kind(ty) == 'vec' else self.p.ty(ty)['e']
        if not a: return self.default(ty)
        if len(a) == 1 and isinstance(a[0], Agg): return Agg(ty, a[0].leaves)
        if isinstance(a[0], T) and numeric(a[0]):
            if len(a) == 1: d = self.default(et)
            else: d = a[1]
            if self.st is None: return NULL
            out = {('#',): a[0]}
            for p, s, ix, lt in self.p.leaves(et):
                dv = d.leaves.get(p) if isinstance(d, Agg) else d
                if dv is None: continue
                ss = tuple(fresh('b', x, True) for x in ('i',) + ix)
                out[('*',) + p] = lam(len(ss), app(dv, *ss[1:]) if dv.sort == 'l' else dv, ss)
            return Agg(ty, out)
        if len(a) == 2 and isinstance(a[0], T) and a[0].op == 'iter' and isinstance(a[1], T) and a[1].op == 'iter' and a[0].args[0] is a[1].args[0]:
            c, i = a[0].args
            n = simp(self.st.pc, sub(a[1].args[1], i))
            src = self.deref(c.args[0]) if c.args[0] is not NULL else None
            from .interp import Place
            if isinstance(src, Place) and self.cont(src) in ('vec', 'arr'):
                self.event('range', size=self.vsize(src), first=i, last=a[1].args[1], place=src)
                out = {('#',): n}
                for p, s, ix, lt in self.p.leaves(et):
                    cur = self.partial(self.cell(src.root, src.path + ('*',) + p), src.idx)
                    ss = lamsyms(cur)
                    out[('*',) + p] = lam(len(ss), app(cur, add(i, ss[0]), *ss[1:]), ss)
                return Agg(ty, out)
        return None
    def m_map(self, v, n, args, e, k, f):
        if n == 'size': return simp(self.st.pc, card(self.presence(v)))
        if n == 'empty': return simp(self.st.pc, eq(card(self.presence(v)), ZERO))
        if n in ('begin', 'cbegin'): return self.mkiter(v, ZERO)
        if n in ('end', 'cend'): return self.mkiter(v, card(self.presence(v)))
        if n == 'clear':
            self.event('write', place=v, val=None)
            self.store(v, self.default(self.ptype(v)), event=False); return NULL
        if n == 'operator=': return self.assign(v, args[0])
        if n == 'swap':
            o = self.ev(args[0])
            if self.st is None: return NULL
            x, y = self.load(v), self.load(o)
            self.store(v, y); self.store(o, x); return NULL
        if n in ('find', 'count', 'at', 'operator[]', 'erase', 'contains'):
            kv = self.ev(args[0])
            if self.st is None: return NULL
            kt = self.keyterm(kv)
            if n == 'find': return iterof(cref(self.toptr(v), self.presence(v)), ordf(self.presence(v), kt))
            c = self.has(v, kt)
            if n == 'count': return ite(c, ONE, ZERO)
            if n == 'contains': return c
            if n == 'at':
                self.branch(c, lambda: None, lambda: self.throwext('std::out_of_range'))
                return v.sub('{}', kt) if self.st is not None else NULL
            if n == 'operator[]': return self.mapaccess(v, kt)
            if n == 'erase':
                if kt.op == 'iter': kt = self.iterkey(kt)
                self.event('write', place=v, val=None)
                self.erasekey(v, kt); return NULL
        if n in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace'):
            a = [self.ev(x) for x in args]
            if self.st is None: return NULL
            from .interp import PairRef, Agg
            vals = [self.load(x) if not isinstance(x, PairRef) else x for x in a]
            if n in ('insert', 'emplace_hint') and len(vals) >= 2 and isinstance(vals[0], T) and vals[0].op == 'iter': vals = vals[1:]
            if k == 'set':
                kt = self.keyterm(vals[0])
                P = self.presence(v); ss = lamsyms(P)
                c = self.has(v, kt)
                self.event('mapinsert', place=v, key=kt, present=c)
                self.setsub(v, '{?}', lam(1, or_(app(P, ss[0]), eq(ss[0], kt)), ss))
                return self.mkrec_pair(self.mkiter(v, ordf(self.presence(v), kt)), not_(c), e)
            if len(vals) == 1:
                x = vals[0]
                if isinstance(x, PairRef): kt, val = self.keyterm(x.first), self.load(x.second)
                elif isinstance(x, Agg):
                    kt = x.leaves.get(('first',))
                    if ('second',) in x.leaves: val = x.leaves[('second',)]
                    else: val = Agg(None, {p[1:]: y for p, y in x.leaves.items() if p[0] == 'second'})
                else: kt = None
            elif len(vals) == 2: kt, val = self.keyterm(vals[0]), vals[1]
            else: kt = None
            if kt is None:
                self.havoc(v, 'map insert'); return self.unk('map insert')
            c = self.has(v, kt)
            def ins():
                pl = self.mapaccess(v, kt)
                if self.st is not None: self.store(pl, val, event=True)
            if n == 'insert_or_assign': ins()
            else: self.branch(c, lambda: None, ins)
            if self.st is None: return NULL
            it = iterof(cref(self.toptr(v), self.presence(v)), ordf(self.presence(v), kt))
            if self.p.kind(e['t']) == 'tup': return self.mkrec_pair(it, not_(c), e)
            return it
        for a in args: self.ev(a)
        if self.st is None: return NULL
        self.havoc(v, 'map ' + n)
        return self.unk('map ' + n, self.p.sort(e['t']))
    def strof(self, a, A):
        """the string made from constructor arguments (characters and count, part of another string, range of characters)"""
        if len(a) == 2 and isinstance(a[0], T) and a[0].sort == 's' and isinstance(a[1], T) and numeric(a[1]):
            if self.p.kind(A[0]['t']) == 'ptr' or a[0].op == 'cstr': return substr(raw(a[0]), ZERO, a[1])
            return substr(a[0], a[1], NPOS)
        if len(a) == 2 and isinstance(a[0], T) and a[0].op == 'iter' and a[1].op == 'iter' and a[0].args[0] is a[1].args[0]:
            pl = self.deref(a[0].args[0].args[0])
            s = self.load(pl) if pl is not None else None
            if isinstance(s, T) and s.sort == 's': return substr(s, a[0].args[1], sub(a[1].args[1], a[0].args[1]))
        if len(a) == 3 and isinstance(a[0], T) and a[0].sort == 's' and numeric(a[1]): return substr(a[0], a[1], a[2])
        return None
    def mkrec_pair(self, a, b, e):
        from .interp import Agg
        return Agg(self.p.strip(e['t']), {('first',): a, ('second',): b})
    def m_str(self, v, n, args, e):
        from .interp import Place, Proj
        a = [self.rv(x) for x in args if not (x.get('dflt') and x['k'] == 'ctor')]
        if self.st is None: return NULL
        s = self.load(v)
        if not (isinstance(s, T) and s.sort == 's'): return self.unk('string ' + n, self.p.sort(e['t']))
        if n in ('size', 'length'): return simp(self.st.pc, tm.ssize(s))
        if n == 'empty': return simp(self.st.pc, eq(tm.ssize(s), ZERO))
        if n in ('c_str', 'data'): return cstr(s)
        if n == 'substr':
            pos = a[0] if a else ZERO; cnt = a[1] if len(a) > 1 else NPOS
            self.event('substr', size=tm.ssize(s), pos=pos)
            return substr(s, pos, cnt)
        if n in ('find', 'rfind', 'find_first_of', 'find_last_of'):
            p = self.charstr(a[0])
            if n.startswith('find_') and not (p.op == 'str' and len(p.args[0]) == 1): return self.unk('string ' + n, 'i')
            st = a[1] if len(a) > 1 else (NPOS if 'rfind' in n or 'last' in n else ZERO)
            return (rfind if n in ('rfind', 'find_last_of') else find)(s, p, st)
        if n == 'compare':
            if len(a) == 1: return scmp(s, a[0])
            if len(a) == 3: return scmp(substr(s, a[0], a[1]), a[2])
        if n in ('begin', 'cbegin') and isinstance(v, Place): return self.mkiter(v, ZERO)
        if n in ('end', 'cend') and isinstance(v, Place): return self.mkiter(v, tm.ssize(s))
        if n in ('at', 'operator[]', 'back', 'front'):
            i = a[0] if a else (ZERO if n == 'front' else sub(tm.ssize(s), ONE))
            if n == 'at':
                self.branch(simp(self.st.pc, and_(le(ZERO, i), lt(i, tm.ssize(s)))), lambda: None, lambda: self.throwext('std::out_of_range'))
                if self.st is None: return NULL
            else: self.event('strindex', size=tm.ssize(s), idx=i, s=s)
            return Proj('str', v, i) if isinstance(v, (Place, Proj)) else sidx(s, i)
        if n == 'replace' and len(a) == 3 and a[2].sort == 's':
            self.event('strrange', size=tm.ssize(s), pos=a[0], n=a[1], s=s)
            self.store(v, srep(s, a[0], a[1], a[2])); return v
        if n in ('append', 'operator+='):
            if len(a) == 1: self.store(v, cat(s, self.charstr(a[0]))); return v
            if len(a) == 2 and numeric(a[0]): self.store(v, cat(s, sfill(a[0], a[1]))); return v
            if len(a) == 2 and a[0].op == 'cstr' and numeric(a[1]): self.store(v, cat(s, substr(raw(a[0]), ZERO, a[1]))); return v
            if len(a) == 3 and a[0].sort == 's': self.store(v, cat(s, substr(a[0], a[1], a[2]))); return v
        if n == 'push_back': self.store(v, cat(s, self.charstr(a[0]))); return NULL
        if n == 'clear': self.store(v, string('')); return NULL
        if n == 'reserve': return NULL
        if n in ('operator=', 'assign') and len(a) == 1: self.store(v, self.charstr(a[0])); return v
        sz = tm.ssize(s)
        if n == 'resize' and a:
            c = a[1] if len(a) > 1 else ZERO
            if decide(self.st.pc, eq(sz, ZERO)) is True: self.store(v, sfill(a[0], c)); return NULL
            if decide(self.st.pc, le(sz, a[0])) is True: self.store(v, cat(s, sfill(sub(a[0], sz), c))); return NULL
            if decide(self.st.pc, le(a[0], sz)) is True: self.store(v, substr(s, ZERO, a[0])); return NULL
        if n == 'assign':
            if len(a) == 2 and numeric(a[0]): self.store(v, sfill(a[0], a[1])); return v
            x = self.strof(a, args)
            if x is not None: self.store(v, x); return v
        if n == 'pop_back': self.store(v, substr(s, ZERO, sub(sz, ONE))); return NULL
        if n == 'insert' and len(a) == 2 and numeric(a[0]) and a[1].sort == 's':
            self.event('substr', size=sz, pos=a[0])
            self.store(v, cat(substr(s, ZERO, a[0]), a[1], substr(s, a[0], NPOS))); return v
        if n == 'erase' and 1 <= len(a) <= 2 and numeric(a[0]):
            self.event('substr', size=sz, pos=a[0])
            if len(a) == 1 or a[1] is NPOS: self.store(v, substr(s, ZERO, a[0])); return v
            if decide(self.st.pc, le(add(a[0], a[1]), sz)) is True: self.store(v, cat(substr(s, ZERO, a[0]), substr(s, add(a[0], a[1]), NPOS))); return v
        if n == 'swap' and len(args) == 1 and isinstance(v, Place):
            o = self.ev(args[0])
            if isinstance(o, Place):
                x = self.load(o)
                self.store(o, s); self.store(v, x); return NULL
        if n not in ('find_first_not_of', 'find_last_not_of', 'rbegin', 'rend', 'crbegin', 'crend', 'capacity', 'max_size', 'get_allocator', 'copy', 'starts_with', 'ends_with', 'compare', 'find', 'rfind', 'begin', 'end'):
            self.event('write', place=v, val=None) if isinstance(v, Place) else None
            self.store(v, self.unk('string ' + n, 's'))
        return self.unk('string ' + n, self.p.sort(e['t']))
    # ------------------------------------------------------------ JSON
    def jsonof(self, v):
        from .interp import Agg, Place, Proj, PairRef
        if isinstance(v, (Place, Proj)): v = self.load(v)
        if isinstance(v, T):
            if v.sort == 'j': return v
            if v is NULL: return JNULL
            if v.op == 'jlist': return v
            return tojson(v)
        if isinstance(v, Agg):
            order = [p for p, _, _, _ in self.p.leaves(v.ty)] if v.ty is not None else sorted(v.leaves)
            names = tuple(p for p in order if p in v.leaves)
            return mk('tojsonA', (self.p.tyname(v.ty) if v.ty is not None else '?', names, tuple(v.leaves[p] for p in names)), 'j')
        return self.unk('json value', 'j')
    def jlist(self, elems):
        """nlohmann initializer list: object when every element is a [string, value] pair"""
        if elems and all(x.op == 'jarr' and len(x.args) == 2 and x.args[0].op == 'tojson' and x.args[0].args[0].sort == 's' for x in elems):
            j = JNULL
            for x in elems: j = jput(j, x.args[0].args[0], x.args[1])
            return j
        return mk('jarr', tuple(elems), 'j')
    def jvalue(self, j, ty):
        """C++ value of type ty read from j"""
        from .interp import Agg
        ty = self.p.strip(ty)
        k = self.p.kind(ty)
        if k == 'leaf':
            s = self.p.sort(ty)
            if s == 'j': return j
            return jas(self.jtype(ty), j, s)
        out = {}
        def rec(t, j, path, ss):
            k = self.p.kind(t)
            def put(p, x): out[p] = lam(len(ss), x, tuple(ss)) if ss else x
            if k == 'leaf': put(path, jas(self.jtype(t), j, self.p.sort(t)) if self.p.sort(t) != 'j' else j)
            elif k in ('vec', 'arr'):
                put(path + ('#',), jsize(j))
                b = fresh('b', 'i', True)
                rec(self.p.targs(t)[0], jelem(j, b), path + ('*',), ss + [b])
            elif k == 'map':
                a = self.p.targs(t)
                b = fresh('b', self.p.sort(a[0]), True)
                out[path + ('{?}',)] = lam(len(ss) + 1, jhas(j, b), tuple(ss + [b]))
                rec(a[1], jget(j, b), path + ('{}',), ss + [b])
            else:
                for p, s, ix, lt in self.p.leaves(t):
                    s2 = [fresh('b', x, True) for x in ix]
                    out[path + p] = lam(len(ss) + len(s2), self.unk('json to ' + self.p.tyname(t), s), tuple(ss + s2)) if ss or s2 else self.unk('json', s)
        rec(ty, j, (), [])
        return Agg(ty, out)
    def jtype(self, ty):
        n = self.p.tyname(ty)
        t = self.p.ty(ty)
        if t['k'] == 'int': return ('i' if t['s'] else 'u') + str(t['bits'])
        if t['k'] == 'float': return 'f%d' % t['bits']
        return 'string' if self.p.sort(ty) == 's' else n
    def m_json(self, v, n, args, e):
        from .interp import Place, Proj, Agg
        a = [self.rv(x) for x in args]
        if self.st is None: return NULL
        j = self.load(v)
        if not (isinstance(j, T) and j.sort == 'j'): return self.unk('json ' + n, self.p.sort(e['t']))
        if n == 'is_null': return simp(self.st.pc, isnull(j))
        if n == 'empty': return simp(self.st.pc, eq(jsize(j), ZERO))
        if n == 'size': return jsize(j)
        if n == 'get' or n.startswith('operator ') or n == 'get_ref':
            self.event('jread', j=j, ty=self.p.tyname(e['t']))
            return self.jvalue(j, e['t'])
        if n == 'value' and len(a) == 2:
            x = jget(j, a[0])
            d = self.jsonof(a[1])
            r = self.jvalue(x, e['t'])
            if isinstance(r, T) and isinstance(a[1], T): return ite(jhas(j, a[0]), r, a[1])
            return self.unk('json value()')
        if n == 'dump':
            self.event('jdump', j=j)
            return mk('jdump', (j,), 's')
        if n == 'merge_patch':
            b = self.jsonof(a[0])
            self.store(v, jmerge(j, b)); return NULL
        if n in ('begin', 'cbegin'): return iterof(cref(NULL, j), ZERO)
        if n in ('end', 'cend'): return iterof(cref(NULL, j), jsize(j))
        if n in ('push_back', 'emplace_back'):
            x = self.jsonof(a[0])
            self.store(v, jput(j, jsize(j), x)); return NULL
        if n in ('contains', 'count'):
            c = jhas(j, a[0])
            return c if n == 'contains' else ite(c, ONE, ZERO)
        if n == 'find':
            return iterof(cref(NULL, j), mk('jfind', (j, a[0]), 'i'))
        if n == 'at': return Proj('j', v, a[0]) if isinstance(v, (Place, Proj)) else jget(j, a[0])
        if n == 'operator=':
            self.store(v, self.jsonof(a[0])); return v
        if n in ('update',):
            self.store(v, jmerge(j, self.jsonof(a[0]))); return NULL
        if n == 'erase' and len(a) == 1 and isinstance(a[0], T) and a[0].sort == 's':
            c = jhas(j, a[0])
            self.store(v, jdel(j, a[0])); return ite(c, ONE, ZERO)
        if n in ('clear', 'erase', 'insert', 'patch', 'swap'): self.havoc(v, 'json ' + n)
        return self.unk('json ' + n, self.p.sort(e['t']))
    # ------------------------------------------------------------ Python objects
    def pyconv(self, v):
        """Python object made of a C++ value"""
        from .interp import Agg
        if isinstance(v, T):
            if v.sort == 'o': return v
            return mk('topy', (v,), 'o')
        if isinstance(v, Agg): return mk('topy', (self.pack(v),), 'o')
        return self.wrapval(v)
    def pycast(self, x, ty):
        from .interp import Agg
        ty = self.p.strip(ty)
        if self.p.kind(ty) == 'leaf':
            if x.op == 'topy': return x.args[0]
            return mk('pycast', (self.jtype(ty) if self.p.sort(ty) in 'ifbs' else self.p.tyname(ty), x), self.p.sort(ty))
        out = {}
        for p, s, ix, lt in self.p.leaves(ty):
            ss = tuple(fresh('b', i, True) for i in ix)
            b = mk('pycast', (self.p.tyname(ty), x, p) + ss, s)
            out[p] = lam(len(ss), b, ss) if ss else b
        return Agg(ty, out)
    def m_py(self, v, n, args, e, f):
        from .interp import Place, Proj, Agg
        cls = f.get('cls') or ''
        a = [self.rv(x) for x in args]
        if self.st is None: return NULL
        x = self.load(v)
        if isinstance(x, Agg): x = self.pack(x)
        if n == 'cast':
            self.event('pycast', ty=self.p.tyname(e['t']), x=x)
            return self.pycast(x, e['t'])
        if n.startswith('operator ') and self.p.sort(e['t']) == 's': return mk('pystr', (x,), 's')
        if n == 'contains': return mk('pyhas', (x, self.keyterm(a[0])), 'b')
        if n == 'size': return mk('pysize', (x,), 'i')
        if n == 'append':
            self.store(v, mk('pyput', ('py', x, mk('pysize', (x,), 'i'), self.pyconv(a[0])), 'o')); return NULL
        if n == 'begin': return iterof(cref(NULL, x), ZERO)
        if n == 'end': return iterof(cref(NULL, x), mk('pysize', (x,), 'i'))
        if n in ('def', 'attr', 'doc', 'ptr', 'def_readwrite', 'inc_ref', 'dec_ref', 'def_property_readonly'):
            return v if n == 'def' else mk('ext', ('py.' + n, x) + tuple(y for y in a if isinstance(y, T)), 'o')
        if n == 'operator[]': return self.pyindex(v, a[0])
        return self.unk('python ' + n, self.p.sort(e['t']))
    def pyindex(self, v, k):
        from .interp import Place, Proj
        if not isinstance(v, (Place, Proj)): v = self.temp(self.anyty(), v)
        return Proj('py', v, k)
    def anyty(self):
        for i, t in enumerate(self.p.types):
            if t['n'] == 'pybind11::object' or t['n'] == 'pybind11::handle' : return i
        for i, t in enumerate(self.p.types):
            if t['k'] == 'ptr': return i
    # ------------------------------------------------------------ operators
    def libop(self, f, e):
        from .interp import Place, Proj, PairRef, Agg
        op = e['op']; A = e['args']
        cls = (f.get('cls') or '') if f else ''
        if op == '[]':
            v = self.ev(A[0])
            if self.st is None: return NULL
            if isinstance(v, T) and v.op == 'ptr': v = self.deref(v)
            if isinstance(v, Agg): v = self.temp(A[0]['t'], v)
            k = self.cont(v)
            i = self.rv(A[1])
            if self.st is None: return NULL
            if k in ('vec', 'arr'):
                self.event('index', size=self.vsize(v), idx=i, what='vector', place=v)
                return v.sub('*', i)
            if k == 'map': return self.mapaccess(v, self.keyterm(i))
            x = self.load(v)
            if isinstance(x, T):
                if x.sort == 's':
                    self.event('strindex', size=tm.ssize(x), idx=i, s=x)
                    return Proj('str', v, i) if isinstance(v, (Place, Proj)) else sidx(x, i)
                if x.sort == 'j':
                    if isinstance(i, Agg): return self.unk('json key', 'j')
                    return Proj('j', v, i) if isinstance(v, (Place, Proj)) else jget(x, i)
                if x.op == 'iter': return self.iterderef(self.iteradd(x, i))
                if cls.startswith('pybind11'): return self.pyindex(v, i)
            return self.unk('subscript', self.p.sort(e['t']))
        if op in ('*', '->') and len(A) == 1:
            it = self.rv(A[0])
            if self.st is None: return NULL
            if isinstance(it, T) and it.op == 'iter':
                d = self.iterderef(it)
                if op == '->' and isinstance(d, Place): return d
                return d
            d = self.deref(it) if isinstance(it, T) else None
            return d if d is not None else self.unk('dereference', self.p.sort(e['t']))
        if op in ('++', '--'):
            pl = self.ev(A[0])
            if self.st is None: return NULL
            old = self.load(pl)
            if isinstance(old, T) and old.op == 'iter':
                self.store(pl, self.iteradd(old, ONE if op == '++' else neg(ONE)))
                return old if len(A) == 2 else pl
            if isinstance(old, T) and old.op == 'phi':
                self.store(pl, itadd(old, ONE if op == '++' else neg(ONE))); return old if len(A) == 2 else pl
            self.havoc(pl, 'increment'); return self.unk('increment')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a = self.rv(A[0]); b = self.rv(A[1])
            if self.st is None: return NULL
            if isinstance(a, T) and isinstance(b, T):
                if a.op == 'iter' and b.op == 'iter' or (a.sort == 's' and b.sort == 's'): return self.compare(op, a, b)
                if op in ('==', '!='):
                    if a.sort == 'j' or b.sort == 'j':
                        r = eq(self.jsonof(a), self.jsonof(b)); return r if op == '==' else not_(r)
                    return self.compare(op, a, b)
            return self.compare(op, a, b)
        if op == '+' and len(A) == 2:
            a = self.rv(A[0]); b = self.rv(A[1])
            if self.st is None: return NULL
            if isinstance(a, T) and isinstance(b, T):
                if a.op == 'iter': return self.iteradd(a, b)
                if b.op == 'iter': return self.iteradd(b, a)
                if a.sort == 's' or b.sort == 's': return cat(self.charstr(a), self.charstr(b))
            return self.unk('operator +', self.p.sort(e['t']))
        if op == '-' and len(A) == 2:
            a = self.rv(A[0]); b = self.rv(A[1])
            if self.st is None: return NULL
            if isinstance(a, T) and a.op == 'iter' and isinstance(b, T):
                if b.op == 'iter' and b.args[0] is a.args[0]: return sub(a.args[1], b.args[1])
                if numeric(b): return self.iteradd(a, neg(b))
            return self.unk('operator -', self.p.sort(e['t']))
        if op == '+=':
            b = self.rv(A[1])
            if self.st is None: return NULL
            pl = self.ev(A[0])
            a = self.load(pl)
            if isinstance(a, T) and isinstance(b, T):
                if a.sort == 's': self.store(pl, cat(a, self.charstr(b))); return pl
                if a.op == 'iter': self.store(pl, self.iteradd(a, b)); return pl
            self.havoc(pl, 'operator +='); return pl
        if op == '=':
            x = self.rv(A[1])
            if self.st is None: return NULL
            if cls.startswith('pybind11::arg'):
                nm = self.rv(A[0])
                return mk('pyarg', (nm, self.pyconv(x)), 'o')
            pl = self.ev(A[0])
            if self.st is None: return NULL
            if isinstance(pl, Proj):
                if pl.kind == 'py': self.event('write', place=self.rootplace(pl), val=None); self.store(pl, self.pyconv(x), event=False)
                else: self.store(pl, x)
                return pl
            if isinstance(pl, Place):
                ty = self.ptype(pl)
                if self.isleaf(ty) and ty is not None:
                    s = self.p.sort(ty)
                    if s == 'j': x = self.jsonof(x)
                    elif s == 's' and isinstance(x, T): x = self.charstr(x)
                self.store(pl, x); return pl
            if isinstance(pl, T) and pl.op in ('ext',): return pl
            return self.unk('assignment')
        if op == '<<':
            s = self.ev(A[0])
            x = self.rv(A[1])
            if self.st is None: return NULL
            if isinstance(s, Place) and self.p.kind(self.ptype(s)) == 'strm':
                self.event('stream', op='write', place=s, val=x if isinstance(x, T) else None)
                if isinstance(x, T):
                    c = x if x.sort == 's' else tostr(x) if numeric(x) else self.unk('streamed', 's') if x.op != 'fnptr' else string('\n')
                    self.store(s.sub('content'), cat(self.load(s.sub('content')), c), event=False)
                return s
            if isinstance(s, T) and s.op == 'stream':
                self.event('io', stream=s.args[0]); return s
            if isinstance(s, T) and s.op == 'extvar': self.event('io', stream='cout'); return s
            return s if isinstance(s, T) else self.unk('operator <<')
        if op == '>>':
            s = self.ev(A[0]); pl = self.ev(A[1])
            if self.st is None: return NULL
            if isinstance(s, Place): self.event('stream', op='read', place=s)
            self.havoc(pl, 'stream extraction'); return s
        if op == '!':
            v = self.ev(A[0])
            if self.st is None: return NULL
            if isinstance(v, Place) and self.p.kind(self.ptype(v)) == 'strm': return self.m_stream(v, 'operator!', [], e)
            return not_(self.truth(self.load(v)))
        if op == '()':
            c = self.rv(A[0])
            args = [self.ev(a) for a in A[1:]]
            if self.st is None: return NULL
            return self.callvalue(c, args, e)
        for a in A: self.ev(a)
        if self.st is None: return NULL
        return self.unk('operator ' + op, self.p.sort(e['t']))
    def rootplace(self, pr):
        while not hasattr(pr, 'root'): pr = pr.base
        return pr
    # ------------------------------------------------------------ construction of library objects
    def libctor(self, e):
        from .interp import Agg, Place, Proj, PairRef
        ty = self.p.strip(e['t'])
        t = self.p.ty(ty)
        q = t.get('q', '')
        k = self.p.kind(ty)
        A = e['args']
        if q == 'std::allocator': return mk('alloc', (), 'o')
        if q in ('std::function', 'nlohmann::detail::input_adapter', '__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', 'nlohmann::detail::iter_impl') or (t.get('lambda') and A):
            return self.rv(A[0]) if A else NULL
        if k == 'strm':
            r = self.newroot(ty, 'stream')
            pl = Place(r)
            a = [self.rv(x) for x in A]
            if self.st is None: return NULL
            if a and isinstance(a[0], Agg): return a[0]
            for c, x in (('file', string('')), ('mode', ZERO), ('open', FALSE), ('content', string('')), ('pos', ZERO), ('closed', FALSE)):
                self.store(pl.sub(c), x, event=False)
            if a:
                self.event('stream', op='open', place=pl, file=raw(a[0]), mode=a[1] if len(a) > 1 else NULL, ty=q)
                self.openstream(pl, a[0], a[1] if len(a) > 1 else NULL)
            return self.readagg(pl)
        a = [self.rv(x) for x in A if not (x.get('dflt') and x['k'] == 'ctor')]
        if self.st is None: return NULL
        if q == 'std::basic_string':
            if not a: return string('')
            if len(a) == 1 and isinstance(a[0], T) and a[0].sort == 's': return a[0]
            x = self.strof(a, A)
            if x is not None: return x
            if len(a) >= 2 and isinstance(a[0], T) and numeric(a[0]) and isinstance(a[1], T) and numeric(a[1]): return sfill(a[0], toint_(a[1]))
            if len(a) == 1 and isinstance(a[0], T) and a[0].op in ('unk', 'ext'): return mk('ext', ('tostring', a[0]), 's')
            return self.unk('string constructor', 's')
        if q in ('nlohmann::basic_json', 'nlohmann::detail::json_ref'):
            if not a: return JNULL
            x = a[0]
            if A[0]['k'] == 'il' or isinstance(x, Agg) and x.ty is not None and self.p.ty(x.ty)['q'] == 'std::initializer_list':
                return self.jlistof(x, A[0])
            return self.jsonof(x)
        if k in ('vec',):
            if q == 'std::initializer_list' and a: return a[0]
            v = self.vecvalue(ty, a)
            return v if v is not None else self.unk('vector constructor')
        if k in ('map', 'set'):
            if not a: return self.default(ty)
            if len(a) == 1 and isinstance(a[0], Agg) and ('{?}',) in a[0].leaves: return Agg(ty, a[0].leaves)
            if len(a) >= 2 and isinstance(a[0], T) and a[0].op == 'iter':
                n, el, it = self.rangeof(a[0], a[1])
                if n is not None and k == 'set':
                    pl = self.temp(ty, self.default(ty))
                    def body(lv):
                        kt = self.keyterm(el(lv)); P = self.presence(pl); ss = lamsyms(P)
                        self.setsub(pl, '{?}', lam(1, or_(app(P, ss[0]), eq(ss[0], kt)), ss))
                    self.run_range(n, body, self.loc)
                    return self.readagg(pl) if self.st is not None else NULL
            return self.unk('map constructor')
        if k == 'tup':
            names = ['first', 'second'] if q == 'std::pair' else [str(i) for i in range(len(self.p.tupargs(ty)))]
            if not a: return self.default(ty)
            if len(a) == 1 and isinstance(a[0], Agg): return Agg(ty, a[0].leaves) if len(names) > 1 else self.mkrec(ty, names, a)
            if len(a) == 1 and isinstance(a[0], PairRef): return self.load(a[0])
            return self.mkrec(ty, names, a)
        if q.startswith('pybind11'):
            if q == 'pybind11::str': return a[0] if a else NULL
            if q == 'pybind11::dict':
                d = mk('pydict', (), 'o')
                for x in a:
                    if isinstance(x, T) and x.op == 'pyarg': d = mk('pyput', ('py', d, x.args[0], x.args[1]), 'o')
                    elif isinstance(x, T): return x
                return d
            if q == 'pybind11::list':
                if a and isinstance(a[0], T) and numeric(a[0]): return mk('pylist', (a[0],), 'o')
                if a and isinstance(a[0], T): return a[0]
                return mk('pylist', (ZERO,), 'o')
            if q == 'pybind11::arg': return a[0] if a else NULL
            if len(a) >= 1 and isinstance(a[0], T) and q in ('pybind11::handle', 'pybind11::object', 'pybind11::kwargs', 'pybind11::int_', 'pybind11::float_'): return self.pyconv(a[0])
            return mk('ext', (q,) + tuple(x for x in a if isinstance(x, T)), 'o')
        if t.get('lambda'): return NULL
        self.event('libctor', q=q)
        return mk('obj', (q,) + tuple(x for x in a if isinstance(x, T)), 'o')
    def jlistof(self, x, node):
        from .interp import Agg
        if isinstance(x, Agg) and ('#',) in x.leaves and isnum(x.leaves[('#',)]):
            n = x.leaves[('#',)].args[0]
            l = x.leaves.get(('*',))
            return self.jlist([self.jsonof(app(l, num(i))) for i in range(n)]) if n else JNULL
        return self.unk('json list', 'j')

def lt_(a, b): return lt(a, b)
def toint_(t):
    return ite(t, ONE, ZERO) if isinstance(t, T) and t.sort == 'b' else t
