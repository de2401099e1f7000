"""Canonical forms for the library operations the code uses (maps, sums, strings, JSON)."""
from . import term as tm
from .term import *

def _bvs(l): return {bv(l.args[1], i, l.args[2][i]) for i in range(l.args[0])}
def invariant(l): 
    return not (_bvs(l) & l.args[3].free)


def _linin(p, x):
    """p = K*x + r, K and r free of x (K a term); (K, r) or None"""
    c, d = poly(p)
    K = ZERO; rest = {}
    for m, k in d.items():
        if x in m and m.count(x) == 1:
            mm = list(m); mm.remove(x)
            if any(x in a.free for a in mm): return None
            t = num(k)
            for a in mm: t = mul(t, a)
            K = add(K, t)
        elif any(x in a.free for a in m): return None
        else: rest[m] = k
    return K, unpoly(c, rest)
def _solve_eq(p, x, n):
    """literal p holds for at most one x: (list of guards, x0)"""
    if p.op == 'eq0':
        r = _linin(p.args[0], x)
        if r is not None:
            K, r = r
            if K.op == 'num' and K.args[0] in (1, -1):
                v = scale(r, -K.args[0]); return [le(ZERO, v), lt(v, n)], v
            if K.op == 'num' and isinstance(K.args[0], int) and K.args[0] != 0:
                v = scale(r, -1 if K.args[0] > 0 else 1); k = num(abs(K.args[0]))
                q = idiv(v, k)
                return [le(ZERO, v), eq(imod(v, k), ZERO), lt(q, n)], q
        c, d = poly(p.args[0])
        for m, k in d.items():
            if len(m) == 1 and m[0].op == 'keyat' and m[0].args[1] is x and k in (1, -1) and x not in m[0].args[0].free:
                if any(x in a.free for m2 in d if m2 != m for a in m2): continue
                o = scale(sub(p.args[0], scale(m[0], k)), -k)
                P = m[0].args[0]
                g = [app(P, o)]
                if n is not card(P): g.append(lt(ordk(P, o), n))
                return g, ordk(P, o)
    elif p.op == 'eq':
        for s, o in ((p.args[0], p.args[1]), (p.args[1], p.args[0])):
            if s.op == 'keyat' and s.args[1] is x and x not in o.free and x not in s.args[0].free:
                P = s.args[0]
                g = [app(P, o)]
                if n is not card(P): g.append(lt(ordk(P, o), n))
                return g, ordk(P, o)
    return None
def uniquesol(c, x, n):
    """c(x) with 0 <= x < n holds for at most one x: (condition, x0) or None"""
    parts = c.args if c.op == 'and' else (c,)
    for p in parts:
        if x not in p.free: continue
        s = _solve_eq(p, x, n)
        if s is not None:
            g, x0 = s
            return and_(*g, *[subst(q, {x: x0}) for q in parts if q is not p]), x0
    les = [p for p in parts if p.op == 'le0' and x in p.free]
    for p in les:
        r = _linin(p.args[0], x)
        if r is None: continue
        K, r1 = r
        if K.op == 'num' and K.args[0] <= 0: continue
        for q in les:
            if q is p: continue
            r = _linin(q.args[0], x)
            if r is None or add(r[0], K) is not ZERO: continue
            # K*x + r1 <= 0,  -K*x + r2 <= 0,  r1 + r2 = 1 - K : x = -r1 div K
            if sub(add(r1, r[1]), sub(ONE, K)) is ZERO:
                b = neg(r1)
                x0 = idiv(b, K)
                return and_(le(ZERO, b), lt(ZERO, K), lt(x0, n), *[subst(z, {x: x0}) for z in parts if z is not p and z is not q]), x0
    return None

def _tripdisj(n, b, x):
    """disjunct x >= t of an unbounded search"""
    if n is not INFT: return None
    for p in (b.args if b.op == 'or' else (b,)):
        if p.op == 'le0':
            r = _linin(p.args[0], x)
            if r is not None and r[0].op == 'num' and r[0].args[0] == -1: return p, r[1]
    return None
def exists(n, l):
    body = l.args[3]
    if body is FALSE: return FALSE
    if isnum(n) and n.args[0] <= 0: return FALSE
    if invariant(l): return and_(lt(ZERO, n), body)
    x = fresh('e', l.args[2][0], True)
    b = app(l, x)
    if _tripdisj(n, b, x): return TRUE
    if b.op == 'or': return or_(*[exists(n, lam(1, p, (x,))) for p in b.args])
    u = uniquesol(b, x, n)
    if u is not None: return u[0]
    if b.op == 'and':
        inv = [p for p in b.args if x not in p.free]
        rest = [p for p in b.args if x in p.free]
        if inv: return and_(*inv, exists(n, lam(1, and_(*rest), (x,))))
    if isnum(n) and n.args[0] <= 8: return or_(*[app(l, num(i)) for i in range(n.args[0])])
    return mk('exists', (n, l), 'b')
@rebuilder('exists')
def _r(op, a, s): return exists(*a)

def sum_(n, l):
    body = l.args[3]
    if body is ZERO or (isnum(n) and n.args[0] <= 0): return ZERO
    if invariant(l):
        return mul(n, body)
    x = fresh('e', 'i', True)
    b = app(l, x)
    if isnum(n) and n.args[0] <= 8: return add(*[app(l, num(i)) for i in range(n.args[0])])
    c, d = poly(b)
    if len(d) + (1 if c else 0) > 1 or (len(d) == 1 and (c or list(d.values())[0] != 1)):
        out = [scale(n, c)] if c else []
        for m, k in d.items(): out.append(scale(sum_(n, lam(1, mkmono(m), (x,))), k))
        return add(*out)
    if b.op == 'mul':
        inv = [a for a in b.args if x not in a.free]
        if inv:
            rest = [a for a in b.args if x in a.free]
            r = ONE
            for a in rest: r = mul(r, a)
            s = sum_(n, lam(1, r, (x,)))
            for a in inv: s = mul(s, a)
            return s
    if b.op == 'fdiv' and x not in b.args[1].free:
        return fdiv(sum_(n, lam(1, b.args[0], (x,))), b.args[1])
    if b.op == 'ite':
        cnd, p, q = b.args
        if x not in cnd.free: return ite(cnd, sum_(n, lam(1, p, (x,))), sum_(n, lam(1, q, (x,))))
        if q is ZERO:
            u = uniquesol(cnd, x, n)
            if u is not None: return ite(u[0], subst(p, {x: u[1]}), ZERO)
            # nested conditions
            cs = [cnd]; h = p
            while h.op == 'ite' and h.args[2] is ZERO: cs.append(h.args[0]); h = h.args[1]
            if len(cs) > 1:
                u = uniquesol(and_(*cs), x, n)
                if u is not None: return ite(u[0], subst(h, {x: u[1]}), ZERO)
        if p is ZERO:
            u = uniquesol(not_(cnd), x, n)
            if u is not None: return ite(u[0], subst(q, {x: u[1]}), ZERO)
    return mk('sum', (n, l), b.sort)
@rebuilder('sum')
def _r(op, a, s): return sum_(*a)

def first(n, l):
    """least x < n with the property, n if there is none"""
    if l.args[3] is FALSE: return n
    x = fresh('e', 'i', True)
    b = app(l, x)
    if b is TRUE: return ZERO if n is INFT else ite(lt(ZERO, n), ZERO, n)
    t = _tripdisj(n, b, x)
    if t is not None:
        rest = or_(*[p for p in (b.args if b.op == 'or' else ()) if p is not t[0]])
        m = t[1]
        if not _facts.nonneg(m): m = ite(le(ZERO, m), m, ZERO)
        return first(m, lam(1, rest, (x,)))
    if n is not INFT:
        u = uniquesol(b, x, n)
        if u is not None: return ite(u[0], u[1], n)
    return mk('first', (n, l), 'i')
@rebuilder('first')
def _r(op, a, s): return first(*a)
def last(n, c, a, init):
    """a(j) of the last j < n with c(j), init if there is none"""
    if c.args[3] is FALSE: return init
    x = fresh('e', 'i', True)
    cb, ab = app(c, x), app(a, x)
    if cb is TRUE: return ite(lt(ZERO, n), subst(ab, {x: sub(n, ONE)}), init)
    if x not in cb.free: return ite(and_(cb, lt(ZERO, n)), subst(ab, {x: sub(n, ONE)}), init)
    if x not in ab.free: return ite(exists(n, c), ab, init)
    u = uniquesol(cb, x, n)
    if u is not None: return ite(u[0], subst(ab, {x: u[1]}), init)
    if cb.op == 'and':
        inv = [p for p in cb.args if x not in p.free]
        if inv:
            return ite(and_(*inv), last(n, lam(1, and_(*[p for p in cb.args if x in p.free]), (x,)), a, init), init)
    return mk('last', (n, c, a, init), init.sort if init.op not in ('undef', 'unk') else ab.sort)
@rebuilder('last')
def _r(op, a, s): return last(*a)
def maxof(n, l, init):
    if isnum(n) and n.args[0] <= 0: return init
    if invariant(l):
        return ite(and_(lt(ZERO, n), lt(init, l.args[3])), l.args[3], init)
    return mk('maxof', (n, l, init), 'f' if 'f' in (init.sort, l.args[3].sort) else 'i')
@rebuilder('maxof')
def _r(op, a, s): return maxof(*a)
def mkfold(h, n, inits, bodies, idx, sort):
    """component 0, at the given indices, of the joint iteration of bodies n times"""
    if isnum(n) and n.args[0] <= 0:
        return app(inits[0], *idx) if idx else inits[0]
    return mk('fold', (h, n, inits, bodies) + tuple(idx), sort)
@rebuilder('fold')
def _r(op, a, s): return mkfold(a[0], a[1], a[2], a[3], a[4:], s)

# ---------------------------------------------------------------- maps
def interval(P):
    """N if P = \\b. 0<=b<N"""
    if P.op != 'lam' or P.args[0] != 1: return None
    b = P.args[3]; x = bv(P.args[1], 0, P.args[2][0])
    if b.op == 'and' and len(b.args) == 2:
        lo = le(ZERO, x)
        for p, q in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
            if p is lo and q.op == 'le0':
                c, d = poly(q.args[0])
                if d.get((x,)) == 1 and not any(x in a.free for m in d if m != (x,) for a in m):
                    return sub(ONE, sub(q.args[0], x)) if False else neg(sub(sub(q.args[0], x), ONE))
    if b.op == 'le0' : pass
    return None
def card(P):
    if P.op == 'lam':
        if P.args[3] is FALSE: return ZERO
        n = interval(P)
        if n is not None: return n
        e = singleton(P)
        if e is not None: return ONE
    return mk('card', (P,), 'i')
def singleton(P):
    b = P.args[3]; x = bv(P.args[1], 0, P.args[2][0])
    if b.op == 'eq0':
        c, d = poly(b.args[0]); k = d.get((x,))
        if k in (1, -1) and not any(x in a.free for m in d if m != (x,) for a in m): return scale(sub(b.args[0], scale(x, k)), -k)
    if b.op == 'eq':
        for s, o in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
            if s is x and x not in o.free: return o
    return None
@rebuilder('card')
def _r(op, a, s): return card(*a)
def keyat(P, o, sort=None):
    if o.op == 'ordf' and o.args[0] is P: return o.args[1]
    if P.op == 'lam' and interval(P) is not None: return o
    if o.op == 'ord' and o.args[0] is P: return o.args[1]
    if P.op == 'lam':
        e = singleton(P)
        if e is not None: return e
    if sort is None: sort = P.args[2][0]
    return mk('keyat', (P, o), sort)
@rebuilder('keyat')
def _r(op, a, s): return keyat(a[0], a[1], s)
def ordk(P, k):
    if P.op == 'lam' and interval(P) is not None: return k
    if k.op == 'keyat' and k.args[0] is P: return k.args[1]
    return mk('ord', (P, k), 'i')
@rebuilder('ord')
def _r(op, a, s): return ordk(*a)
_cmp0 = tm.cmp0
def cmp0(kind, p):
    if kind == 'eq' and p.op == 'scmp': return eq(*p.args)
    if p.op == 'lin' and kind == 'eq':
        for m, k in p.args[1]:
            if len(m) == 1 and m[0].op in ('ord', 'ordf') and k in (1, -1):
                o = m[0]; P, key = o.args
                r = scale(sub(p, scale(o, k)), -k)     # o == r
                if r is card(P): return not_(app(P, key))
                if o.op == 'ordf' and not any(a.op in ('ordf',) for a in walk(r)):
                    # position found: compare inside
                    pass
    if p is INFT or p.op == 'lin':
        c, d = poly(p)
        k = d.get((INFT,))
        if k is not None:
            if kind == 'eq': return FALSE
            return boolean(k < 0)
        if kind == 'eq':
            k = d.get((NPOS,))
        if p.sort == 'i' and (NPOS,) in d and kind in ('le', 'lt') and abs(d[(NPOS,)]) == 1:
            # anything else is below npos
            rest = [m for m in d if m != (NPOS,)]
            if all(nonneg_len(m, d[m]) for m in rest) : pass
    return _cmp0(kind, p)
def nonneg_len(m, k): return True
tm.cmp0 = cmp0
def ordf(P, k):
    """position of key k as find() returns it"""
    if P.op == 'lam' and P.args[3] is FALSE: return ZERO
    return mk('ordf', (P, k), 'i')
@rebuilder('ordf')
def _r(op, a, s): return ordf(*a)
def _has_decider(pc, c, depth):
    """key number o of a map is in the map when 0 <= o < size"""
    from . import facts
    neg_ = c.op == 'not'
    t = c.args[0] if neg_ else c
    for x in walk(t):
        if x.op == 'keyat' and x.args[0].op == 'lam':
            p = app(x.args[0], x)
            if p is t or p is c:
                if facts.decide(pc, and_(le(ZERO, x.args[1]), lt(x.args[1], card(x.args[0]))), depth + 1) is True:
                    return True if p is c else False
    return None
from . import facts as _facts
_facts.deciders.append(_has_decider)

# ---------------------------------------------------------------- strings
def substr(s, a, n):
    if a is ZERO and (n is NPOS or n is ssize(s)): return s
    if n is ZERO: return string('')
    if n is NPOS: n = sub(ssize(s), a)
    if s.op == 'str' and isnum(a) and isnum(n) and 0 <= a.args[0] <= len(s.args[0]): return string(s.args[0][a.args[0]:a.args[0] + n.args[0]])
    if s.op == 'cat':
        parts = list(s.args); off = ZERO; i = 0
        # cut whole leading parts
        while i < len(parts):
            if sub(a, off) is ZERO: break
            nx = add(off, ssize(parts[i]))
            df = sub(a, nx)
            if df.op == 'num' and df.args[0] >= 0: off = nx; i += 1
            else: break
        if sub(a, off) is ZERO:
            tot = ZERO; j = i; acc = []
            if sub(n, sub(ssize(s), a)) is ZERO: return cat(*parts[i:])
            while j < len(parts):
                if sub(n, tot) is ZERO: return cat(*acc)
                tot = add(tot, ssize(parts[j])); acc.append(parts[j]); j += 1
            if sub(n, tot) is ZERO: return cat(*acc)
    return mk('substr', (s, a, n), 's')
@rebuilder('substr')
def _r(op, a, s): return substr(*a)
def find(s, p, start=ZERO):
    if s.op == 'str' and p.op == 'str' and isnum(start):
        r = s.args[0].find(p.args[0], start.args[0])
        return NPOS if r < 0 else num(r)
    return mk('find', (s, p, start), 'i')
def rfind(s, p, start=NPOS):
    if s.op == 'str' and p.op == 'str' and start is NPOS:
        r = s.args[0].rfind(p.args[0])
        return NPOS if r < 0 else num(r)
    if s.op == 'cat' and p.op == 'str' and start is NPOS and s.args[-1].op == 'tostr' and len(s.args) >= 2:
        q = s.args[-2]
        if q.op == 'str' and q.args[0].endswith(p.args[0]) and not any(ch.isdigit() or ch == '-' for ch in p.args[0]):
            return sub(ssize(cat(*s.args[:-1])), num(len(p.args[0])))
    return mk('rfind', (s, p, start), 'i')
@rebuilder('find')
def _r(op, a, s): return find(*a)
@rebuilder('rfind')
def _r(op, a, s): return rfind(*a)
def tostr(x):
    if isnum(x) and isinstance(x.args[0], int): return string(str(x.args[0]))
    return mk('tostr', (x,), 's')
@rebuilder('tostr')
def _r(op, a, s): return tostr(*a)
def sidx(s, i):
    if s.op == 'str' and isnum(i) and 0 <= i.args[0] < len(s.args[0]): return num(ord(s.args[0][i.args[0]]))
    if s.op == 'sset':
        e = eq(s.args[1], i)
        return ite(e, s.args[2], sidx(s.args[0], i)) if e.op not in ('true', 'false') else (s.args[2] if e is TRUE else sidx(s.args[0], i))
    if s.op == 'sfill': return s.args[1]
    if s.op == 'ite' : return ite(s.args[0], sidx(s.args[1], i), sidx(s.args[2], i))
    return mk('sidx', (s, i), 'i')
@rebuilder('sidx')
def _r(op, a, s): return sidx(*a)
def sset(s, i, v): return mk('sset', (s, i, v), 's')
def srep(s, a, n, v): return mk('srep', (s, a, n, v), 's')
def sfill(n, v):
    if n is ZERO: return string('')
    return mk('sfill', (n, v), 's')
@rebuilder('sfill')
def _r(op, a, s): return sfill(*a)
def unbytes(w, s, sort='i'):
    if s.op == 'bytes' and s.args[0] == w: return s.args[1]
    return mk('unbytes', (w, s), sort)
@rebuilder('unbytes')
def _r(op, a, s): return unbytes(a[0], a[1], s)
def b64dec(s):
    if s.op == 'b64enc': return s.args[0]
    return mk('b64dec', (s,), 's')
@rebuilder('b64dec')
def _r(op, a, s): return b64dec(*a)
_ssize = tm.ssize
def ssize(s):
    if s.op == 'substr':
        return s.args[2] if False else mk('ssize', (s,), 'i')
    if s.op == 'srep':
        v = ssize(s.args[3])
        if sub(v, s.args[2]) is ZERO: return ssize(s.args[0])
    return _ssize(s)
tm.ssize = ssize

def catn(n, l):
    """l(0) ++ ... ++ l(n-1)"""
    if isnum(n):
        if n.args[0] <= 0: return string('')
        if n.args[0] <= 8: return cat(*[app(l, num(i)) for i in range(n.args[0])])
    if l.args[3].op == 'str' and l.args[3].args[0] == '': return string('')
    if l.args[3].op == 'chr' and l.args[3].h == 0 and invariant(l): return sfill(n, l.args[3].args[0])
    return mk('catn', (n, l), 's')
@rebuilder('catn')
def _r(op, a, s): return catn(*a)
@rebuilder('ssize_catn')
def _ssize_catn(s):
    n, l = s.args
    x = fresh('e', 'i', True)
    return sum_(n, lam(1, tm.ssize(app(l, x)), (x,)))
def split(text, sep, i):
    """piece number i of text cut at sep"""
    return mk('split', (text, sep, i), 's')
@rebuilder('split')
def _r(op, a, s): return split(*a)
def scmp(a, b): return mk('scmp', (a, b), 'i')
def cstr(s):
    """the string a C string of the characters of s denotes: up to the first NUL"""
    if s.op == 'str': return s if '\0' not in s.args[0] else string(s.args[0].split('\0')[0])
    if s.op in ('cstr', 'tostr', 'b64enc'): return s
    if s.op == 'ite': return ite(s.args[0], cstr(s.args[1]), cstr(s.args[2]))
    return mk('cstr', (s,), 's')
@rebuilder('cstr')
def _r(op, a, s): return cstr(*a)
def chrs(v):
    if isnum(v) and isinstance(v.args[0], int) and 0 <= v.args[0] < 256: return string(chr(v.args[0]))
    return mk('chr', (v,), 's')
@rebuilder('chr')
def _r(op, a, s): return chrs(*a)
def itadd(it, k):
    if it.op == 'iter': return mk('iter', (it.args[0], add(it.args[1], k)), 'o')
    return mk('itadd', (it, k), 'o')
@rebuilder('itadd')
def _r(op, a, s): return itadd(*a)
# ---------------------------------------------------------------- JSON
def tojson(x):
    if x.sort == 'j': return x
    if x.op == 'null': return JNULL
    if x.op == 'jas' : return x.args[1] if False else mk('tojson', (x,), 'j')
    return mk('tojson', (x,), 'j')
def _key(k): return k.args[0] if k.op == 'str' else None
def jput(j, k, v):
    if j.op == 'jput':
        a, b = _key(k), _key(j.args[1])
        if k is j.args[1]: return jput(j.args[0], k, v)
        if a is not None and b is not None and a < b:
            return mk('jput', (jput(j.args[0], k, v), j.args[1], j.args[2]), 'j')
    return mk('jput', (j, k, v), 'j')
@rebuilder('jput')
def _r(op, a, s): return jput(*a)
def jdel(j, k):
    if j.op == 'jput':
        a, b = _key(k), _key(j.args[1])
        if k is j.args[1]: return jdel(j.args[0], k)
        if a is not None and b is not None: return jput(jdel(j.args[0], k), j.args[1], j.args[2])
    if j.op == 'ite': return ite(j.args[0], jdel(j.args[1], k), jdel(j.args[2], k))
    if j.op == 'jnull': return j
    return mk('jdel', (j, k), 'j')
@rebuilder('jdel')
def _r(op, a, s): return jdel(*a)
def jget(j, k):
    if j.op == 'jnull': return JNULL
    if j.op == 'jdel':
        if j.args[1] is k: return JNULL
        a, b = _key(k), _key(j.args[1])
        if a is not None and b is not None: return jget(j.args[0], k)
    if j.op == 'jput':
        if j.args[1] is k: return j.args[2]
        a, b = _key(k), _key(j.args[1])
        if (a is not None and b is not None and a != b): return jget(j.args[0], k)
        if numeric(k) and numeric(j.args[1]) and eq(k, j.args[1]) is FALSE: return jget(j.args[0], k)
    if j.op == 'ite': return ite(j.args[0], jget(j.args[1], k), jget(j.args[2], k))
    if j.op == 'jmerge' and k.op == 'str':
        b = jget(j.args[1], k)
        n = isnull(b)
        if n is TRUE and closedj(j.args[1]): return jget(j.args[0], k)
        if n is FALSE: return b
    return mk('jget', (j, k), 'j')
def closedj(j):
    while j.op == 'jput' and _key(j.args[1]) is not None: j = j.args[0]
    return j is JNULL
@rebuilder('jget')
def _r(op, a, s): return jget(*a)
def jtab(init, n, kl, vl):
    """init with member kl(j) := vl(j), j = 0..n-1"""
    if isnum(n) and n.args[0] <= 0: return init
    return mk('jtab', (init, n, kl, vl), 'j')
@rebuilder('jtab')
def _r(op, a, s): return jtab(*a)
def jhas(j, k):
    if j.op == 'jnull': return FALSE
    if j.op == 'jdel': return and_(not_(eq(k, j.args[1])), jhas(j.args[0], k))
    if j.op == 'jput':
        if j.args[1] is k: return TRUE
        return or_(eq(k, j.args[1]), jhas(j.args[0], k))
    if j.op == 'ite': return ite(j.args[0], jhas(j.args[1], k), jhas(j.args[2], k))
    if j.op == 'jtab':
        x = fresh('e', 'i', True)
        return or_(jhas(j.args[0], k), exists(j.args[1], lam(1, eq(app(j.args[2], x), k), (x,))))
    if j.op == 'jmerge': return or_(jhas(j.args[0], k), jhas(j.args[1], k))
    return mk('jhas', (j, k), 'b')
@rebuilder('jhas')
def _r(op, a, s): return jhas(*a)
def isnull(j):
    if j.op == 'jnull': return TRUE
    if j.op in ('tojson', 'tojsonA', 'jput', 'jarr'): return FALSE
    if j.op == 'ite': return ite(j.args[0], isnull(j.args[1]), isnull(j.args[2]))
    if j.op == 'jtab':
        return and_(isnull(j.args[0]), le(j.args[1], ZERO))
    return mk('isnull', (j,), 'b')
@rebuilder('isnull')
def _r(op, a, s): return isnull(*a)
def jmerge(a, b):
    if closedj(b):
        items = []
        x = b
        while x.op == 'jput': items.append((x.args[1], x.args[2])); x = x.args[0]
        for k, v in reversed(items):
            a = jput(a, k, v)
        return a
    return mk('jmerge', (a, b), 'j')
@rebuilder('jmerge')
def _r(op, a, s): return jmerge(*a)
def jparse(s):
    if s.op == 'jdump': return s.args[0]
    return mk('jparse', (s,), 'j')
@rebuilder('jparse')
def _r(op, a, s): return jparse(*a)
def jas(ty, j, sort):
    """scalar of type ty read from j"""
    if j.op == 'tojson': return j.args[0]
    if j.op == 'ite': return ite(j.args[0], jas(ty, j.args[1], sort), jas(ty, j.args[2], sort))
    return mk('jas', (ty, j), sort)
@rebuilder('jas')
def _r(op, a, s): return jas(a[0], a[1], s)
def jsize(j):
    if j.op == 'jnull': return ZERO
    if j.op == 'tojsonA' and j.args[1][0] == ('#',): return j.args[2][0]
    if j.op == 'jtab': return add(jsize(j.args[0]), j.args[1])
    return mk('jsize', (j,), 'i')
@rebuilder('jsize')
def _r(op, a, s): return jsize(*a)
def jelem(j, i):
    if j.op == 'tojsonA' and j.args[1][0] == ('#',):
        names = []; leaves = []
        for nme, l in list(zip(j.args[1], j.args[2]))[1:]:
            assert nme[0] == '*'
            if l.op != 'lam': continue
            ss = lamsyms(l)
            r = app(l, i, *ss[1:])
            names.append(nme[1:]); leaves.append(lam(len(ss) - 1, r, ss[1:]) if len(ss) > 1 else r)
        if names == [()]: return tojson(leaves[0])
        return mk('tojsonA', (j.args[0], tuple(names), tuple(leaves)), 'j')
    if j.op == 'jtab' and j.args[0] is JNULL: return app(j.args[3], i)
    return mk('jelem', (j, i), 'j')
@rebuilder('jelem')
def _r(op, a, s): return jelem(*a)
def jkey(j, i):
    if j.op == 'jtab' and j.args[0] is JNULL: return app(j.args[2], i)
    return mk('jkey', (j, i), 's')
@rebuilder('jkey')
def _r(op, a, s): return jkey(*a)
