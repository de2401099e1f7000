"""Loop summaries: one abstract iteration over symbolic carried values, then the recurrences are
solved in closed form (sums, powers, quantifiers, tables, concatenations, last-assigned values);
what has no closed form stays a fold over the iteration count."""
from .term import *
from . import term as tm
from .theory import *
from .facts import decide, simp, extend

DBG = False

def occurs_lin(p, x):
    """p = k*x + r with x in no other place; (k, r) or None"""
    c, d = poly(p)
    k = d.get((x,))
    if k is None: return None
    for m in d:
        if m != (x,) and any(x in a.free for a in m): return None
    return k, unpoly(c, {m: v for m, v in d.items() if m != (x,)})

def phis(t, acc=None):
    return {f for f in t.free if type(f) is str}

class Loops:
    # ------------------------------------------------------------ entry points
    def run_range(self, n, body, loc):
        if self.st is None: return
        n = simp(self.st.pc, n)
        r = decide(self.st.pc, le(n, ZERO))
        if r is True: return
        if r is not False and decide(self.st.pc, le(ZERO, n)) is not True: n = ite(le(ZERO, n), n, ZERO)
        self.loop_core(lambda lv: None, body, lambda: None, loc, fixed=n)
    def run_loop(self, cond, body, inc, loc, post=None):
        if self.st is None: return
        def head(lv): return TRUE if cond is None else cond()
        self.loop_core(head, lambda lv: body(), inc, loc, post=post)

    # ------------------------------------------------------------ one iteration
    def iteration(self, ctx, head, body, inc, post, fixed):
        """executes one iteration from self.st; returns the head condition"""
        c = head(ctx.lv)
        ctx.c = TRUE if c is None else c
        ctx.headst = None
        if self.st is None: return
        if c is not None and c is not TRUE:
            r = decide(self.st.pc, c)
            ctx.c = c
            if r is not True:
                ctx.headst = self.st.copy()
                ctx.headst.pc = self.st.pc
                if r is False:
                    self.st = None
                    ctx.headpc = ctx.headst.pc
                    return
                self.st.pc = extend(self.st.pc, c, 'branch', self.loc)
        body(ctx.lv)
        outs = ([self.st] if self.st is not None else []) + ctx.continues
        if not outs: self.st = None; return
        if len(outs) > 1: self.st, _ = self.join(outs, ctx.basepc)
        else: self.st = outs[0]
        inc()
        if post is not None and self.st is not None:
            c = post()
            if self.st is None: return
            r = decide(self.st.pc, c)
            if r is not True:
                s = self.st.copy(); s.pc = extend(self.st.pc, not_(c), 'branch', self.loc)
                ctx.breaks.append(s)
                if r is False: self.st = None
                else: self.st.pc = extend(self.st.pc, c, 'branch', self.loc)

    def attempt(self, ctx, base, cells, extra, run):
        """one pass over the body with the carried cells set; leaves results in ctx"""
        ctx.breaks = []; ctx.continues = []
        self.st = base.copy()
        for k, v in cells.items(): self.st.cells[k] = v
        for lit, kind in extra: self.st.pc = extend(self.st.pc, lit, kind, ctx.loc)
        ctx.basepc = self.st.pc
        self.nrand = ctx.nrand
        fr = self.frames[-1] if self.frames else None
        ctx.mark = (len(self.events), len(fr.returns) if fr else 0, len(self.unknown), self.nroot)
        self.loops.append(ctx)
        run()
        self.loops.pop()
        ctx.end = self.st
        self.nrandmax = max(getattr(self, 'nrandmax', 0), self.nrand)
    def discard(self, ctx):
        del self.events[ctx.mark[0]:]
        if self.frames: del self.frames[-1].returns[ctx.mark[1]:]
        del self.unknown[ctx.mark[2]:]

    def outer(self, key, ctx):
        root = key[0]
        return not (root[0] == 'L' and int(root[1:]) > ctx.firstroot)

    def loop_core(self, head, body, inc, loc, fixed=None, post=None):
        from .interp import LoopCtx, State, INFT, Stop
        base = self.st
        lv = fresh('k', 'i', True)
        ctx = LoopCtx(lv); ctx.loc = loc; ctx.func = self.frames[-1].f['id'] if self.frames else None
        ctx.kind = 'loop'; ctx.nrand = self.nrand; ctx.firstroot = self.nroot; ctx.n = fixed
        ctx.serial = self.nloop = getattr(self, 'nloop', 0) + 1
        run = lambda: self.iteration(ctx, head, body, inc, post, fixed)
        fr = self.frames[-1] if self.frames else None
        exits0 = self.exits
        # ---- which cells change
        M = {}
        def changed_cells(cells):
            states = ([ctx.end] if ctx.end is not None else []) + ctx.breaks + ([ctx.headst] if ctx.headst else [])
            if fr: states += [s for s, v in fr.returns[ctx.mark[1]:]]
            new = False
            for s in states:
                for k, v in s.cells.items():
                    if not self.outer(k, ctx): continue
                    o = cells.get(k)
                    if o is None: o = base.cells.get(k)
                    if o is None: o = self.initcell(*k)
                    if v is not o:
                        sh = self.shape(ctx, k, base, v)
                        if k not in M: M[k] = sh; new = True
                        elif M[k] is not None and sh != M[k] and k not in closed: M[k] = None; new = True
            return new
        closed = {}
        self.dry += 1
        self.attempt(ctx, base, {}, [], run)
        changed_cells({})
        self.discard(ctx)
        self.dry -= 1
        if self.dry:
            # only the set of changed cells matters
            self.st = base
            for k in M: self.st.cells[k] = self.phicell(ctx, k, None, 'D%d' % ctx.serial)
            self.exits = exits0
            return
        inits = {}
        def fill():
            for k in M:
                if k not in inits:
                    v = base.cells.get(k)
                    inits[k] = v if v is not None else self.initcell(*k)
        # ---- solve
        N = fixed
        for rnd in range(14):
            fill()
            complete = len(closed) == len(M)
            cells = {}
            for k in M:
                cells[k] = closed[k] if k in closed else self.phicell(ctx, k, M[k])
            extra = []
            if N is not None: extra.append((lt(lv, N), 'loop'))
            N0 = N
            self.attempt(ctx, base, cells, extra, run)
            end = ctx.end
            if changed_cells(cells) and len(M) > len(cells):
                self.discard(ctx); continue
            progress = False
            # trip count
            if N is None and post is None and ctx.c is not TRUE:
                n, rest = self.trip(base.pc, ctx.c, lv)
                if n is not None: N = n; progress = True
            if complete and N is N0: break
            self.discard(ctx)
            if end is None:
                # never goes round: carried values stay initial
                for k in M: closed[k] = inits[k]
                continue
            left = [k for k in M if k not in closed]
            changed = True
            while changed:
                changed = False
                for k in left:
                    if k in closed: continue
                    if not ctx.info.get('hyp') and any(c[:1] == '{' for c in k[1]): continue
                    r = self.solve(ctx, k, M[k], inits[k], end.cells[k], closed, base)
                    if r is not None:
                        closed[k] = r; changed = progress = True
                        if M[k] is not None: self.carried[(ctx.serial, k)] = self.unshape(M[k], r)
            if not progress and not ctx.info.get('hyp'):
                # optimistic: suppose the remaining cells do not change
                ctx.info['hyp'] = True
                H = [k for k in M if k not in closed]
                while H:
                    cells = {}
                    for k in M:
                        cells[k] = closed[k] if k in closed else inits[k] if k in H else self.phicell(ctx, k, M[k])
                    self.attempt(ctx, base, cells, [(lt(lv, N), 'loop')] if N is not None else [], run)
                    e2 = ctx.end
                    if e2 is None: self.discard(ctx); H = []; break
                    bad = [k for k in H if not self.same(e2.cells.get(k), inits[k], e2.pc)]
                    self.discard(ctx)
                    if not bad: break
                    H = [k for k in H if k not in bad]
                for k in H: closed[k] = inits[k]; progress = True
                if progress: continue
            if not progress and not ctx.info.get('frame') and ctx.info.get('hyp'):
                ctx.info['frame'] = True
                r = self.framehyp(ctx, base, M, inits, closed, N, run)
                if r: closed.update(r); progress = True; continue
            if not progress:
                # undo nothing: whatever is left is a joint fold
                self.foldall(ctx, [k for k in M if k not in closed], M, inits, end, closed)
        infinite = N is None
        if infinite: N = INFT
        ctx.n = N
        bp = ctx.basepc
        # ---- exits
        outs = []     # (cells, gate literals, assumed, value, isreturn)
        for s in ctx.breaks: outs.append((s, self.gate(s.pc, bp), self.assumed(s.pc, bp), None, False))
        rets = []
        if fr:
            rets = fr.returns[ctx.mark[1]:]; del fr.returns[ctx.mark[1]:]
            for s, v in rets: outs.append((s, self.gate(s.pc, bp), self.assumed(s.pc, bp), v, True))
        if ctx.headst is not None:
            hc = self.strip_trip(base.pc, ctx.c, lv, N)
            if hc is not TRUE:
                s = ctx.headst
                outs.append((s, self.gate(s.pc, bp) + [not_(hc)], self.assumed(s.pc, bp), None, False))
        E = or_(*[and_(*o[1]) for o in outs])
        ctx.E = E
        ctx.closed = closed
        ctx.endlits = self.assumed(ctx.end.pc, bp) if ctx.end is not None else []
        lamE = lam(1, E, (lv,))
        # facts left by every completed iteration
        forall = []
        j = fresh('j', 'i', True)
        for l in ctx.endlits:
            if lv in l.free or True:
                forall.append(l)
        def facts_upto(k):
            fs = []
            for l in forall:
                if l.op == 'and': ls = l.args
                else: ls = (l,)
                for q in ls:
                    if lv not in q.free:
                        r = or_(le(k, ZERO), q)
                    else: r = not_(exists(k, lam(1, not_(q), (lv,))))
                    if r is not TRUE: fs.append(r)
            return fs
        results = []
        self.clean(ctx, [ctx.end, ctx.headst] + [o[0] for o in outs])
        if not infinite and E is not TRUE:
            # normal end
            src = ctx.headst.cells if ctx.headst is not None else None
            cells = dict(base.cells)
            if src is None or ctx.headst is None:
                for k, v in closed.items(): cells[k] = self.at(v, lv, N, base.pc)
            else:
                m = {lv: N}
                for k, v in src.items():
                    cells[k] = self.at(v, lv, N, base.pc)
            pc = base.pc
            if E is not FALSE: pc = extend(pc, not_(exists(N, lamE)), 'branch', loc)
            for f in facts_upto(N): pc = extend(pc, f, 'assume', loc)
            results.append((State(cells, pc), None, False))
        if E is not FALSE:
            K = first(N, lamE)
            exi = TRUE if infinite else exists(N, lamE)
            ctx.K = K
            for s, g, a, v, isret in outs:
                pc = base.pc
                pc = extend(pc, exi, 'branch', loc)
                gi = and_(*g)
                giK = self.at(gi, lv, K, pc)
                if len(outs) > 1: pc = extend(pc, giK, 'branch', loc)
                else: pc = extend(pc, giK, 'assume', loc)
                pc = extend(pc, le(ZERO, K), 'assume', loc)
                if not infinite: pc = extend(pc, lt(K, N), 'assume', loc)
                pc = extend(pc, not_(exists(K, lamE)), 'assume', loc)
                for f in facts_upto(K): pc = extend(pc, f, 'assume', loc)
                for l in a: pc = extend(pc, self.at(l, lv, K, pc), 'assume', loc)
                cells = dict(base.cells)
                for k, c in s.cells.items():
                    cells[k] = self.at(c, lv, K, pc)
                results.append((State(cells, pc), self.valat(v, lv, K), isret))
        if isinstance(ctx.n, T): pass
        cont = []
        for s, v, isret in results:
            if isret: fr.returns.append((s, v)); self.exits += 1
            else: cont.append(s)
        self.event('loop', n=N, E=E, infinite=infinite, ctx=ctx) if base is not None and self.set_st(base) else None
        if not cont: self.st = None
        elif len(cont) == 1:
            self.st = cont[0]
        else: self.st, _ = self.join(cont, base.pc)
        ctx.loc_end = self.loc
        self.loc = loc
    def ordcase(self, b, x, y, sgn, pc):
        """b when x < y (sgn 1) or x > y (sgn -1)"""
        T1, F1 = (TRUE, FALSE) if sgn > 0 else (FALSE, TRUE)
        m = {eq(x, y): FALSE, le(x, y): T1, lt(x, y): T1, le(y, x): F1, lt(y, x): F1}
        m.update({not_(k): not_(v) for k, v in m.items()})
        return simp(extend(pc, lt(x, y) if sgn > 0 else lt(y, x), 'case'), subst_atoms(b, m))
    def framehyp(self, ctx, base, M, inits, closed, N, run):
        """suppose round k works on element k of a sequence only: elements not reached yet are as before the loop"""
        lv = ctx.lv
        H = []
        for k in M:
            if k not in closed and M[k] is None and inits[k].op == 'lam' and inits[k].args[2][0] == 'i': H.append(k)
        while H:
            cells = {}
            for k in M:
                if k in closed: cells[k] = closed[k]; continue
                p = self.phicell(ctx, k, M[k])
                if k in H:
                    ss = lamsyms(p)
                    p = lam(len(ss), ite(le(lv, ss[0]), app(inits[k], *ss), app(p, *ss)), ss)
                cells[k] = p
            self.attempt(ctx, base, cells, [(lt(lv, N), 'loop')] if N is not None else [(le(ZERO, lv), 'loop')], run)
            e = ctx.end
            self.discard(ctx)
            if e is None: return None
            out = {}; bad = []
            for k in H:
                v = e.cells[k]; ss = lamsyms(v); b = app(v, *ss)
                later = self.ordcase(b, lv, ss[0], 1, e.pc)
                before = self.ordcase(b, lv, ss[0], -1, e.pc)
                at = simp(e.pc, subst(b, {ss[0]: lv}))
                tag = self.phitag(ctx, k)
                ok = later is app(inits[k], *ss) and before is app(self.phicell(ctx, k, None), *ss) and not self.mine(ctx, at)
                if not ok:
                    if DBG: print('FRAMEBAD', k, '\n LATER', later, '\n BEFORE', before, '\n AT', at)
                    bad.append(k); continue
                out[k] = lam(len(ss), ite(and_(le(ZERO, ss[0]), lt(ss[0], lv)), subst(at, {lv: ss[0]}), app(inits[k], *ss)), ss)
            if not bad: return out
            H = [k for k in H if k not in bad]
        return None
    def same(self, a, b, pc):
        if a is b or a is None: return True
        if a.op == 'lam' and b.op == 'lam' and a.args[2] == b.args[2]:
            ss = lamsyms(a)
            x, y = app(a, *ss), app(b, *ss)
            if x is y: return True
            x = simp(pc, x)
            return self.sameunder(x, y, pc)
        return self.sameunder(a, b, pc)
    def sameunder(self, x, y, pc, depth=0):
        if x is y: return True
        if depth > 6: return False
        if x.op == 'ite':
            for c, v in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
                r = decide(pc, c)
                if r is False: continue
                p2 = pc if r is True else extend(pc, c, 'case')
                m = dict(s for l in (c.args if c.op == 'and' else (c,)) for s in eqsolutions(l)[:1])
                if not self.sameunder(simp(p2, subst(v, m) if m else v), simp(p2, subst(y, m) if m else y), p2, depth + 1): return False
            return True
        if y.op == 'ite': return self.sameunder(y, x, pc, depth + 1)
        if numeric(x) and numeric(y): return decide(pc, eq(x, y)) is True
        return False
    def set_st(self, s):
        self.st = s; return True
    def clean(self, ctx, states):
        """drop the cells of objects created inside the body, unless something points to them"""
        keep = set()
        for s in states:
            if s is None: continue
            for k, v in s.cells.items():
                if self.outer(k, ctx) and (v.sort == 'o' or (v.op == 'lam' and v.args[3].sort == 'o')):
                    for y in walk(v):
                        if y.op == 'ptr': keep.add(y.args[0])
        for s in states:
            if s is None: continue
            for k in [k for k in s.cells if not self.outer(k, ctx) and k[0] not in keep]: del s.cells[k]
    def at(self, t, lv, v, pc):
        r = subst(t, {lv: v})
        return r
    def valat(self, v, lv, K):
        from .interp import Place, Agg, Proj, PairRef
        if isinstance(v, T): return subst(v, {lv: K})
        if isinstance(v, Agg): return Agg(v.ty, {p: subst(x, {lv: K}) for p, x in v.leaves.items()})
        if isinstance(v, Place): return Place(v.root, v.path, tuple(subst(i, {lv: K}) for i in v.idx))
        return v
    # ------------------------------------------------------------ carried cells
    def shape(self, ctx, k, base, v):
        """iterators and pointers into one object are carried by their position"""
        o = base.cells.get(k)
        if o is None: o = self.initcell(*k)
        if o.op == 'iter' and v.op == 'iter' and o.args[0] is v.args[0]: return ('iter', o.args[0])
        if o is NULL and v.sort == 'o' and v is not NULL:
            pre = self.ptrprefix(v)
            if pre is not None: return ('nptr', pre)
        if o.op == 'ptr' and v.op == 'ptr' and o.args[:2] == v.args[:2] and len(o.args) == len(v.args) and len(o.args) > 2 and o.args[2:-1] == v.args[2:-1]:
            return ('ptr', o.args[:-1])
        return None
    def ptrprefix(self, v):
        if v.op == 'ptr' and len(v.args) > 2 and isinstance(v.args[-1], T) and v.args[-1].sort == 'i': return v.args[:-1]
        if v.op == 'ite':
            a, b = v.args[1], v.args[2]
            if a is NULL: return self.ptrprefix(b)
            if b is NULL: return self.ptrprefix(a)
            p = self.ptrprefix(a)
            return p if p is not None and p == self.ptrprefix(b) else None
        return None
    def nptr(self, pre, p): return ite(le(ZERO, p), mk('ptr', pre + (p,), 'o'), NULL)
    def phicell(self, ctx, k, shape, tag=None):
        root, path = k
        tag = tag or 'P%d' % ctx.serial
        tag = '%s:%s:%s' % (tag, root, '.'.join(path))
        if shape is not None:
            p = mk('phi', (tag, root, path), 'i')
            if shape[0] == 'nptr': return self.nptr(shape[1], p)
            return mk(shape[0], (shape[1], p), 'o') if shape[0] == 'iter' else mk('ptr', shape[1] + (p,), 'o')
        s, ix, lt_ = self.cellinfo(root, path)
        ss = tuple(fresh('b', x, True) for x in ix)
        b = mk('phi', (tag, root, path) + ss, s)
        return lam(len(ss), b, ss) if ss else b
    def phitag(self, ctx, k): return 'P%d:%s:%s' % (ctx.serial, k[0], '.'.join(k[1]))
    def phifree(self, t): return not any(type(f) is str for f in t.free)
    def mine(self, ctx, t):
        p = 'P%d:' % ctx.serial
        return any(type(f) is str and f.startswith(p) for f in t.free)
    # ------------------------------------------------------------ trip counts
    def trip(self, pc, c, lv):
        """number of iterations after which c becomes false for good; (n, rest) or (None, c)"""
        parts = c.args if c.op == 'and' else (c,)
        for q in parts:
            n = self.trip1(pc, q, lv)
            if n is not None: return n, and_(*[x for x in parts if x is not q])
        return None, c
    def trip1(self, pc, q, lv):
        m = None
        if q.op == 'le0':
            r = occurs_lin(q.args[0], lv)
            if r is None: return None
            k, r = r
            if any(type(f) is str and f.startswith('P') for f in r.free): return None
            if isinstance(k, int) and k > 0:
                if k == 1: m = sub(ONE, r)
                else: m = add(idiv(neg(r), num(k)), ONE)
                if k > 1 and decide(pc, le(ZERO, neg(r))) is not True:
                    m = ite(le(ZERO, neg(r)), m, ZERO)
        elif q.op == 'not' and q.args[0].op == 'eq0':
            r = occurs_lin(q.args[0].args[0], lv)
            if r is None: return None
            k, r = r
            if k in (1, -1) and not any(type(f) is str and f.startswith('P') for f in r.free):
                v = scale(r, -k)
                if decide(pc, le(ZERO, v)) is True: return v
                return None
        if m is None: return None
        if decide(pc, le(ZERO, m)) is True: return m
        return ite(le(ZERO, m), m, ZERO)
    def strip_trip(self, pc, c, lv, N):
        parts = c.args if c.op == 'and' else (c,)
        keep = []
        used = False
        for q in parts:
            if not used and self.trip1(pc, q, lv) is N: used = True; continue
            keep.append(q)
        return and_(*keep)
    # ------------------------------------------------------------ recurrences
    def unshape(self, shape, v):
        if shape is None: return v
        if shape[0] == 'nptr':
            if v is NULL: return num(-1)
            if v.op == 'ptr': return v.args[-1] if v.args[:-1] == shape[1] else None
            if v.op == 'ite':
                for p in (v.args[1], v.args[2]):
                    if p.op == 'ptr' and p.args[-1].op in ('phi', 'sym') and self.nptr(shape[1], p.args[-1]) is v: return p.args[-1]
                a = self.unshape(shape, v.args[1]); b = self.unshape(shape, v.args[2])
                return None if a is None or b is None else ite(v.args[0], a, b)
            return None
        if v.op == shape[0]: return v.args[-1]
        return None
    def reshape(self, shape, v):
        if shape is None: return v
        if shape[0] == 'nptr': return self.nptr(shape[1], v)
        if shape[0] == 'iter': return mk('iter', (shape[1], v), 'o')
        return mk('ptr', shape[1] + (v,), 'o')
    def solve(self, ctx, k, shape, init, v, closed, base):
        """closed form (in ctx.lv) of cell k, or None"""
        lv = ctx.lv
        tag = self.phitag(ctx, k)
        v = self.unshape(shape, v); i0 = self.unshape(shape, init)
        if v is None or i0 is None: return None
        # other carried cells that are solved
        m = {}
        for f in v.free:
            if type(f) is str and f.startswith('P%d:' % ctx.serial) and f != tag:
                return self.solve_subst(ctx, k, shape, init, v, closed, base, tag)
        return self.solve2(ctx, k, shape, i0, v, tag, base)
    def closedfun(self, ctx, c, shape):
        if shape is not None: c = self.unshape(shape, c)
        return (lambda *a: app(c, *a) if a else c)
    def solve_subst(self, ctx, k, shape, init, v, closed, base, tag):
        m = {}
        for k2, c in closed.items():
            t2 = self.phitag(ctx, k2)
            if t2 in v.free:
                c2 = self.carried.get((ctx.serial, k2)) or c
                m[t2] = (lambda c2: (lambda *a: app(c2, *a) if a else c2))(c2)
        for f in v.free:
            if type(f) is str and f.startswith('P%d:' % ctx.serial) and f != tag and f not in m: return None
        v = subst(v, m)
        return self.solve2(ctx, k, shape, self.unshape(shape, init), v, tag, base)
    def solve2(self, ctx, k, shape, init, v, tag, base):
        lv = ctx.lv
        pc = extend(base.pc, le(ZERO, lv), 'loop')
        if v.op != 'lam':
            x = fresh('X', v.sort if v.sort != 'l' else 'o')
            w = subst(v, {tag: lambda *a: x})
            r = self.solve1(x, w, init, lv, pc)
            return None if r is None else self.reshape(shape, r)
        ss = lamsyms(v)
        b = app(v, *ss)
        w = self.pointwise(b, tag, ss)
        if w is None: return None
        x, w = w
        i0 = app(init, *ss)
        r = self.solve1(x, w, i0, lv, pc)
        if r is None: return None
        return lam(len(ss), r, ss)
    def pointwise(self, b, tag, ss):
        x = fresh('X', b.sort)
        occ = [t for t in walk(b) if t.op == 'phi' and t.args[0] == tag]
        # walk does not enter binders' substitution, but finds the nodes
        for t in occ:
            if any(a.h > 0 or any(type(f) is T and f.op == 'bv' for f in a.free) for a in t.args[3:] if isinstance(a, T)) and t.args[3:] != ss:
                if any(type(f) is T and f.op == 'bv' for a in t.args[3:] for f in a.free): return None
        other = [t for t in occ if t.args[3:] != ss]
        for t in other:
            lits = [eq(s, a) for s, a in zip(ss, t.args[3:]) if s is not a]
            if any(l is FALSE for l in lits): return None
            tt = b
            # v = ite(all lits, v|lits with phi(e)->phi(b), v|not lits)
            tt = self.restrict(b, lits, True)
            same = subst_atoms(tt, {t: mk('phi', t.args[:3] + ss, t.sort)})
            ff = self.restrict(b, lits, False)
            if ff is None or t in set(walk(ff)): return None
            b = ite(and_(*lits), same, ff)
            # the join may keep them apart
            if t in set(walk(b)):
                pass
        w = subst_atoms(b, {mk('phi', (tag,) + (occ[0].args[1], occ[0].args[2]) + ss, b.sort): x}) if occ else b
        if tag in w.free: return None
        return x, w
    def restrict(self, b, lits, val):
        if val:
            m = {}
            for l in lits: m[l] = TRUE; m[not_(l)] = FALSE
            return subst_atoms(b, m)
        if len(lits) == 1:
            return subst_atoms(b, {lits[0]: FALSE, not_(lits[0]): TRUE})
        # not all of several: split
        l = lits[0]
        a = subst_atoms(b, {l: FALSE, not_(l): TRUE})
        c = self.restrict(subst_atoms(b, {l: TRUE, not_(l): FALSE}), lits[1:], False)
        return ite(l, c, a)
    def solve1(self, x, v, init, lv, pc, depth=0):
        """closed form of  x := v(x, lv)  after lv rounds"""
        if depth > 12: return None
        if v is x: return init
        if x not in v.free:
            pv = subst(v, {lv: sub(lv, ONE)})
            if lv not in v.free and v is init: return init
            return ite(lt(ZERO, lv), pv, init)
        if v.sort == 'i' and v.op == 'lin':
            # x plus one or nothing
            d = sub(v, x)
            if d.op == 'ite' and x not in d.args[1].free and x not in d.args[2].free: v = ite(d.args[0], add(x, d.args[1]), add(x, d.args[2]))
            if v.op != 'ite' and d.op == 'ite': v = mk('ite', (d.args[0], add(x, d.args[1]), add(x, d.args[2])), 'i')
        if v.op == 'ite' and v.sort == 'i':
            # grows by steps of one up to a limit and stays there
            c, a, b = v.args
            if b is x: pass
            elif a is x: c, a, b = not_(c), b, a
            else: c = None
            if c is not None and c.op == 'le0' and a is add(x, ONE):
                r = occurs_lin(c.args[0], x)
                if r is not None and r[0] == 1 and x not in r[1].free and lv not in r[1].free:
                    # goes on while x <= top
                    top = neg(r[1])
                    if decide(pc, le(init, add(top, ONE))) is True: return ite(le(add(init, lv), add(top, ONE)), add(init, lv), add(top, ONE))
                    return ite(le(init, top), ite(le(add(init, lv), add(top, ONE)), add(init, lv), add(top, ONE)), init)
        if v.op == 'ite':
            c, a, b = v.args
            if x not in c.free and lv not in c.free:
                p = self.solve1(x, a, init, lv, pc, depth + 1); q = self.solve1(x, b, init, lv, pc, depth + 1)
                if p is not None and q is not None: return ite(c, p, q)
                return None
        if v.sort in ('i', 'f') and numeric(v):
            r = occurs_lin(v, x)
            if r is not None:
                k, d = r
                if k == 1: return add(init, sum_(lv, lam(1, d, (lv,)))) if lv in d.free else add(init, mul(lv, d))
            # affine with an invariant factor
            c, d = poly(v)
            fac = ZERO; rest = {}
            ok = True
            for m, kk in d.items():
                if x in m and m.count(x) == 1:
                    mm = list(m); mm.remove(x)
                    if any(x in a.free for a in mm): ok = False; break
                    t = num(kk)
                    for a in mm: t = mul(t, a)
                    fac = add(fac, t)
                elif any(x in a.free for a in m): ok = False; break
                else: rest[m] = kk
            if ok and lv not in fac.free:
                d = unpoly(c, rest)
                out = mul(init, power(fac, lv))
                if d is ZERO: return out
                j = fresh('j', 'i', True)
                dj = subst(d, {lv: j})
                return add(out, sum_(lv, lam(1, mul(dj, power(fac, sub(sub(lv, ONE), j))), (j,))))
        if v.sort == 'b':
            t = subst(v, {x: TRUE}); f = subst(v, {x: FALSE})
            if x not in t.free and x not in f.free:
                if t is TRUE: return or_(init, exists(lv, lam(1, f, (lv,))))
                if f is FALSE: return and_(init, not_(exists(lv, lam(1, not_(t), (lv,)))))
        # last assigned
        r = self.lastform(x, v)
        if r is not None:
            c, a = r
            return last(lv, lam(1, c, (lv,)), lam(1, a, (lv,)), init)
        # a single round changes it
        if v.op == 'ite':
            c, a, b = v.args
            for cc, hit, miss in ((c, a, b), (not_(c), b, a)):
                if miss is x and x not in cc.free:
                    j = fresh('j', 'i', True)
                    u = uniquesol(subst(cc, {lv: j}), j, lv)
                    if u is not None:
                        g, j0 = u
                        return ite(and_(g), subst(hit, {x: init, lv: j0}), init)
        if v.sort == 's' and v.op == 'cat' and v.args[0] is x and not any(x in p.free for p in v.args[1:]):
            return cat(init, catn(lv, lam(1, cat(*v.args[1:]), (lv,))))
        if v.op == 'jput' and v.args[0] is x and x not in v.args[1].free and x not in v.args[2].free:
            return jtab(init, lv, lam(1, v.args[1], (lv,)), lam(1, v.args[2], (lv,)))
        if v.op == 'ite' and v.sort in ('i', 'f'):
            # running maximum
            c, a, b = v.args
            for p, q in ((a, b), (b, a)):
                if q is x and x not in p.free and (c is lt(x, p) or c is not_(lt(x, p)) or c is le(x, p) or c is not_(le(x, p)) ):
                    if ite(lt(x, p), p, x) is v or ite(le(x, p), p, x) is v:
                        return maxof(lv, lam(1, p, (lv,)), init)
                    if ite(lt(p, x), p, x) is v or ite(le(p, x), p, x) is v:
                        return neg(maxof(lv, lam(1, neg(p), (lv,)), neg(init)))
        return None
    def lastform(self, x, v):
        """v = ite(c, a, x) with x in neither c nor a"""
        def go(t):
            if t is x: return FALSE, None
            if x not in t.free: return TRUE, t
            if t.op != 'ite' or x in t.args[0].free: return None
            p = go(t.args[1])
            if p is None: return None
            q = go(t.args[2])
            if q is None: return None
            c = or_(and_(t.args[0], p[0]), and_(not_(t.args[0]), q[0]))
            a = q[1] if p[1] is None else p[1] if q[1] is None else ite(t.args[0], p[1], q[1])
            return c, a
        if v.op == 'ite': return go(v)
        return None
    # ------------------------------------------------------------ no closed form
    def foldall(self, ctx, left, M, inits, end, closed):
        """joint fold over the cells in left"""
        lv = ctx.lv
        tags = {}
        m = {}
        for k2, c in closed.items():
            t2 = self.phitag(ctx, k2)
            c2 = self.unshape(M[k2], c) if M.get(k2) is not None else c
            m[t2] = (lambda c2: (lambda *a: app(c2, *a) if a else c2))(c2)
        bodies = {}
        for k in left:
            v = self.unshape(M[k], end.cells[k]); i0 = self.unshape(M[k], inits[k])
            if v is None or i0 is None:
                v = self.unk('loop carried pointer', 'i'); i0 = ZERO
            bodies[k] = (i0, subst(v, m))
        # split into independent groups
        deps = {}
        for k in left:
            deps[k] = {k2 for k2 in left if self.phitag(ctx, k2) in bodies[k][1].free}
        def closure(k):
            s = set(); st = [k]
            while st:
                y = st.pop()
                if y in s: continue
                s.add(y); st.extend(deps[y])
            return s
        order = {k: i for i, k in enumerate(left)}
        for k in left:
            grp = [k] + sorted(closure(k) - {k}, key=lambda y: order[y])
            # canonical order: depth first from k
            grp = self.dfs(k, deps, bodies, ctx)
            closed[k] = self.reshape(M[k], self.foldterm(ctx, grp, bodies, M))
    def dfs(self, k, deps, bodies, ctx):
        out = []
        tagof = {self.phitag(ctx, y): y for y in deps}
        def visit(y):
            if y in out: return
            out.append(y)
            for t in walk(bodies[y][1]):
                if t.op == 'phi' and t.args[0] in tagof: visit(tagof[t.args[0]])
        visit(k)
        return out
    def foldterm(self, ctx, grp, bodies, M):
        lv = ctx.lv
        h = max(max(bodies[k][1].h for k in grp), max(bodies[k][0].h for k in grp)) + 1
        m = {}
        for i, k in enumerate(grp):
            tg = 'mu%d_%d' % (h, i)
            srt = bodies[k][1].args[3].sort if bodies[k][1].op == 'lam' else bodies[k][1].sort
            m[self.phitag(ctx, k)] = (lambda tg, srt: (lambda *a: mk('phi', (tg, 'mu', ()) + a, srt)))(tg, srt)
        bs = tuple(lam(1, subst(bodies[k][1], m), (lv,)) for k in grp)
        ins = tuple(bodies[k][0] for k in grp)
        def build(*a):
            v0 = bodies[grp[0]][0]
            srt = v0.args[3].sort if v0.op == 'lam' else v0.sort
            return mkfold(h, lv, ins, bs, a, srt)
        v = bodies[grp[0]][1]
        if v.op == 'lam':
            ss = lamsyms(v)
            return lam(len(ss), build(*ss), ss)
        return build()

def subst_atoms(t, m, memo=None):
    """replace subterms (not under binders that capture) according to m"""
    if memo is None: memo = {}
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    if not t.args or t.op in ('sym', 'bv', 'num', 'str'): return t
    def go(x):
        if type(x) is T: return subst_atoms(x, m, memo)
        if type(x) is tuple: return tuple(go(y) for y in x)
        return x
    if t.op == 'lam':
        b = go(t.args[3])
        if b is t.args[3]: r = t
        else:
            ss = lamsyms(t)
            r = lam(len(ss), subst(b, {bv(t.args[1], i, t.args[2][i]): ss[i] for i in range(t.args[0])}), ss)
    else:
        args = tuple(go(x) for x in t.args)
        r = t if args == t.args else rebuild(t.op, args, t.sort)
    memo[t] = r
    return r
