"""Hash-consed symbolic terms with canonical forms.

Integers and floats are mathematical numbers in polynomial normal form, comparisons are
  le0(p): p <= 0 (integers)   lt0(p)/fle0(p): p < 0 / p <= 0 (reals)   eq0(p): p == 0
conditionals are ordered decision trees, binders (lam) are named by height, so that
terms equal up to the names of bound variables are the same object.
"""
from fractions import Fraction
from math import gcd
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'h', 'free')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]
EMPTY = frozenset()

def _scan(a, acc):
    h = 0
    for x in a:
        if type(x) is T:
            if x.h > h: h = x.h
            if x.free: acc.append(x.free)
        elif type(x) is tuple:
            h2 = _scan(x, acc)
            if h2 > h: h = h2
    return h

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None: return t
    t = T(); t.op = op; t.args = args; t.sort = sort
    _n[0] += 1; t.id = _n[0]
    acc = []
    h = _scan(args, acc)
    if op == 'sym' or op == 'bv': t.free = frozenset((t,)); t.h = 0
    elif op == 'phi':
        t.free = frozenset((t.args[0],)).union(*acc) if acc else frozenset((t.args[0],)); t.h = h
    else:
        if not acc: t.free = EMPTY
        elif len(acc) == 1: t.free = acc[0]
        else: t.free = EMPTY.union(*acc)
        t.h = h
    if op == 'lam':
        n = args[0]; hh = args[1]
        t.h = hh
        t.free = frozenset(x for x in t.free if not (type(x) is T and x.op == 'bv' and x.args[0] == hh))
    elif op == 'fold':
        t.h = max(h, args[0])
        pre = 'mu%d_' % args[0]
        t.free = frozenset(x for x in t.free if not (type(x) is str and x.startswith(pre)))
    _tab[key] = t
    return t

def sym(name, sort='i', nat=False):
    return mk('sym', (name, nat), sort)
_fresh = [0]
def fresh(hint='v', sort='i', nat=False):
    _fresh[0] += 1
    return sym('%s#%d' % (hint, _fresh[0]), sort, nat)
def bv(h, i, sort='o'): return mk('bv', (h, i), sort)

TRUE = mk('true', (), 'b'); FALSE = mk('false', (), 'b'); NULL = mk('null', (), 'o')
JNULL = mk('jnull', (), 'j')

# ------------------------------------------------------------------ numbers
def num(v):
    if type(v) is Fraction and v.denominator == 1: v = int(v)
    return mk('num', (v,), 'i' if isinstance(v, int) else 'f')
ZERO = num(0); ONE = num(1)

def poly(t):
    """term -> (const, {mono: coeff})"""
    if t.op == 'num': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    if t.op == 'mul': return 0, {t.args: 1}
    return 0, {(t,): 1}

def monosort(m):
    for x in m:
        if x.sort == 'f': return 'f'
    return 'i'
def mkmono(m):
    return m[0] if len(m) == 1 else mk('mul', m, monosort(m))
def _itemkey(it):
    m = it[0]
    return (m[0].id,) if len(m) == 1 else tuple([a.id for a in m])
def unpoly(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if type(c) is Fraction and c.denominator == 1: c = int(c)
    if not d: return num(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1: return mkmono(m)
    items = []
    srt = 'i'
    for m, k in d.items():
        if type(k) is Fraction and k.denominator == 1: k = int(k)
        if type(k) is Fraction: srt = 'f'
        if monosort(m) == 'f': srt = 'f'
        items.append((m, k))
    if type(c) is Fraction: srt = 'f'
    if len(items) > 1: items.sort(key=_itemkey)
    return mk('lin', (c, tuple(items)), srt)

def add(*ts):
    c = 0; d = {}
    for t in ts:
        c2, d2 = poly(t)
        c += c2
        for m, k in d2.items(): d[m] = d.get(m, 0) + k
    return unpoly(c, d)
def scale(t, k):
    c, d = poly(t)
    return unpoly(c * k, {m: v * k for m, v in d.items()})
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    if a.op == 'num': return scale(b, a.args[0])
    if b.op == 'num': return scale(a, b.args[0])
    ca, da = poly(a); cb, db = poly(b)
    if len(da) * len(db) > 64: return mk('mul', tuple(sorted((a, b), key=lambda x: x.id)), monosort((a, b)))
    d = {}
    def put(m, k):
        d[m] = d.get(m, 0) + k
    for m, k in da.items():
        if cb: put(m, k * cb)
        for m2, k2 in db.items(): put(mulmono(m, m2), k * k2)
    for m2, k2 in db.items():
        if ca: put(m2, k2 * ca)
    r = unpoly(ca * cb, d)
    return r
def mulmono(m1, m2):
    ms = list(m1) + list(m2)
    # pow(b,e1)*pow(b,e2) = pow(b,e1+e2), b*pow(b,e) = pow(b,e+1)
    pows = [x for x in ms if x.op == 'pow']
    if pows:
        changed = True
        while changed:
            changed = False
            for i in range(len(ms)):
                for j in range(len(ms)):
                    if i != j and ms[i].op == 'pow':
                        if ms[j].op == 'pow' and ms[i].args[0] is ms[j].args[0]:
                            r = power(ms[i].args[0], add(ms[i].args[1], ms[j].args[1]))
                        elif ms[j] is ms[i].args[0]: r = power(ms[i].args[0], add(ms[i].args[1], ONE))
                        else: continue
                        ms = [ms[k] for k in range(len(ms)) if k not in (i, j)]
                        c, d = poly(r)
                        if r.op not in ('num', 'lin') : ms.append(r)
                        elif r.op == 'num' and r.args[0] == 1: pass
                        else: ms.append(r)
                        changed = True
                        break
                if changed: break
    ms.sort(key=lambda x: x.id)
    return tuple(ms)
def power(b, e):
    if e.op == 'num' and isinstance(e.args[0], int) and e.args[0] >= 0:
        if b.op == 'num': return num(b.args[0] ** min(e.args[0], 4096))
        if e.args[0] == 0: return ONE
        if e.args[0] == 1: return b
        if e.args[0] <= 4:
            r = b
            for _ in range(e.args[0] - 1): r = mul(r, b)
            return r
    return mk('pow', (b, e), 'f' if b.sort == 'f' else 'i')

def isnum(t): return t.op == 'num'
def exactdiv(a, k):
    c, d = poly(a)
    if isinstance(c, int) and c % k == 0 and all(isinstance(v, int) and v % k == 0 for v in d.values()):
        return unpoly(c // k, {m: v // k for m, v in d.items()})
    return None
def idiv(a, b):
    if isnum(a) and isnum(b) and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y > 0) else -q)
    if b is ONE: return a
    if a is ZERO: return ZERO
    if isnum(b) and isinstance(b.args[0], int) and b.args[0] != 0:
        r = exactdiv(a, b.args[0])
        if r is not None: return r
    if a.op == 'ite' and isnum(b): return ite(a.args[0], idiv(a.args[1], b), idiv(a.args[2], b))
    return mk('idiv', (a, b), 'i')
def imod(a, b):
    if isnum(a) and isnum(b) and b.args[0] != 0:
        x, y = a.args[0], abs(b.args[0])
        r = abs(x) % y
        return num(r if x >= 0 else -r)
    if b is ONE or a is ZERO: return ZERO
    if isnum(b) and isinstance(b.args[0], int) and b.args[0] != 0 and exactdiv(a, b.args[0]) is not None: return ZERO
    return mk('imod', (a, b), 'i')
def fdiv(a, b):
    if isnum(b) and b.args[0] != 0: return scale(a, Fraction(1) / Fraction(b.args[0]))
    if a is ZERO: return ZERO
    c, d = poly(a)
    if len(d) + (1 if c else 0) > 1 and len(d) <= 6:   # distribute over sums
        return add(*([fdiv(num(c), b)] if c else []), *[scale(fdiv(mkmono(m), b), k) for m, k in d.items()])
    if a.op == 'lin' and len(d) == 1:
        (m, k), = d.items()
        return scale(fdiv(mkmono(m), b), k)
    if b.op == 'lin':
        cb, db = poly(b)
        if cb == 0 and len(db) == 1:
            (m, k), = db.items()
            return scale(fdiv(a, mkmono(m)), Fraction(1) / Fraction(k))
    return mk('fdiv', (a, b), 'f')
def bitop(op, a, b):
    if isnum(a) and isnum(b):
        x, y = a.args[0], b.args[0]
        if isinstance(x, int) and isinstance(y, int):
            if op == 'shl' and 0 <= y < 256: return num(x << y)
            if op == 'shr' and 0 <= y < 256: return num(x >> y)
            if op == 'band': return num(x & y)
            if op == 'bor': return num(x | y)
            if op == 'bxor': return num(x ^ y)
    if op == 'shl' and isnum(b) and 0 <= b.args[0] < 256: return scale(a, 1 << b.args[0])
    if op in ('shl', 'shr') and b is ZERO: return a
    if op in ('band',) and (a is ZERO or b is ZERO): return ZERO
    if op in ('bor', 'bxor'):
        if a is ZERO: return b
        if b is ZERO: return a
    if op == 'band' and a is b: return a
    if op == 'bor' and a is b: return a
    if op in ('band', 'bor', 'bxor'):
        xs = []
        for x in (a, b):
            if x.op == op: xs.extend(x.args)
            else: xs.append(x)
        ns = [x for x in xs if isnum(x)]
        rest = [x for x in xs if not isnum(x)]
        if op != 'bxor':
            seen = []
            for x in rest:
                if x not in seen: seen.append(x)
            rest = seen
        if ns:
            v = ns[0].args[0]
            for n_ in ns[1:]:
                v = v & n_.args[0] if op == 'band' else v | n_.args[0] if op == 'bor' else v ^ n_.args[0]
            if op == 'band' and v == 0: return ZERO
            if not (op != 'band' and v == 0): rest.append(num(v))
        rest.sort(key=lambda x: x.id)
        if len(rest) == 1: return rest[0]
        return mk(op, tuple(rest), 'i')
    return mk(op, (a, b), 'i')
def bnot(a):
    if isnum(a): return num(~a.args[0])
    if a.op == 'bnot': return a.args[0]
    return mk('bnot', (a,), 'i')

# ------------------------------------------------------------------ booleans
def boolean(v): return TRUE if v else FALSE
def _lead(d):
    m = min(d, key=lambda m_: tuple(a.id for a in m_))
    return m
def cmp0(kind, p):
    """kind: le (<=0), lt (<0), eq (==0)"""
    c, d = poly(p)
    if not d:
        return boolean(c <= 0 if kind == 'le' else c < 0 if kind == 'lt' else c == 0)
    if p.sort == 'i':
        if kind == 'lt': kind = 'le'; c = c + 1
        g = 0
        for k in d.values(): g = gcd(g, abs(k))
        if kind == 'eq':
            if c % g: return FALSE
            c //= g
        else: c = -((-c) // g)      # ceil(c/g)
        d = {m: k // g for m, k in d.items()}
        if kind == 'eq' and d[_lead(d)] < 0: c = -c; d = {m: -k for m, k in d.items()}
    else:
        k0 = abs(Fraction(d[_lead(d)]))
        c = Fraction(c) / k0
        d = {m: Fraction(k) / k0 for m, k in d.items()}
        if kind == 'eq' and d[_lead(d)] < 0: c = -c; d = {m: -k for m, k in d.items()}
    # decision trees with constant outcomes: lift
    if len(d) == 1:
        (m, k), = d.items()
        if len(m) == 1 and m[0].op == 'ite':
            it = m[0]
            a = cmp0(kind, add(num(c), scale(it.args[1], k))); b = cmp0(kind, add(num(c), scale(it.args[2], k)))
            if a.op in ('true', 'false') or b.op in ('true', 'false'): return ite(it.args[0], a, b)
    p = unpoly(c, d)
    if p.sort == 'i': return mk('le0' if kind == 'le' else 'eq0', (p,), 'b')
    return mk({'le': 'fle0', 'lt': 'flt0', 'eq': 'eq0'}[kind], (p,), 'b')
def le(a, b): return cmp0('le', sub(a, b))
def lt(a, b): return cmp0('lt', sub(a, b))
def numeric(t): return t.sort in ('i', 'f')
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'b' or b.sort == 'b':
        if a.sort == b.sort: return ite(a, b, bnot_(b))
        a = ite(a, ONE, ZERO) if a.sort == 'b' else a; b = ite(b, ONE, ZERO) if b.sort == 'b' else b
    if numeric(a) and numeric(b): return cmp0('eq', sub(a, b))
    if a.op == 'str' and b.op == 'str': return boolean(a.args == b.args)
    if a.op == 'null' or b.op == 'null':
        o = b if a.op == 'null' else a
        if o.op == 'ptr': return FALSE
        if o.op == 'ite': return ite(o.args[0], eq(o.args[1], NULL), eq(o.args[2], NULL))
    if a.sort == 's' or b.sort == 's':
        r = _streq(a, b)
        if r is not None: return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op != 'ite' and x.h == 0:
            p, q = eq(x.args[1], y), eq(x.args[2], y)
            if p.op in ('true', 'false') and q.op in ('true', 'false'): return ite(x.args[0], p, q)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'b')
def _streq(a, b):
    for x, y in ((a, b), (b, a)):
        if y.op == 'str' and y.args[0] == '': return eq(ssize(x), ZERO)
    if a.op == 'tostr' and b.op == 'tostr' and a.args[0].sort == 'i' and b.args[0].sort == 'i': return eq(a.args[0], b.args[0])
    ca = a.args if a.op == 'cat' else (a,); cb = b.args if b.op == 'cat' else (b,)
    if len(ca) > 1 or len(cb) > 1:
        ca = list(ca); cb = list(cb)
        ch = False
        while ca and cb and ca[0] is cb[0]: ca.pop(0); cb.pop(0); ch = True
        while ca and cb and ca[-1] is cb[-1]: ca.pop(); cb.pop(); ch = True
        if ch: return eq(cat(*ca), cat(*cb))
    return None
_notmemo = {}
def not_(a):
    r = _notmemo.get(a)
    if r is None:
        r = _not(a)
        _notmemo[a] = r
    return r
def _not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le0': return cmp0('le', sub(ONE, a.args[0]))
    if a.op == 'fle0': return cmp0('lt', neg(a.args[0]))
    if a.op == 'flt0': return cmp0('le', neg(a.args[0]))
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'b')
bnot_ = not_
def _intpair(a, b, isand):
    """simplify a pair of literals; returns None or the replacement"""
    if isand:
        if implies1(a, b): return a
        if implies1(b, a): return b
        if implies1(a, not_(b)): return FALSE
        # p<=0 and -p<=0  ->  p==0
        if a.op == 'le0' and b.op == 'le0' and add(a.args[0], b.args[0]) is ZERO: return cmp0('eq', a.args[0])
        if a.op == 'le0' and b.op == 'not' and b.args[0].op == 'eq0':
            pass
    else:
        if implies1(a, b): return b
        if implies1(b, a): return a
        if implies1(not_(a), b): return TRUE
        if a.op == 'not' and a.args[0].op == 'eq0' or b.op == 'not' and b.args[0].op == 'eq0': pass
    return None
_linkey = {}
def linkey(p):
    """(constant, linear part, negated linear part)"""
    r = _linkey.get(p)
    if r is None:
        if p.op == 'lin': r = (p.args[0], p.args[1])
        elif p.op == 'num': r = (p.args[0], ())
        elif p.op == 'mul': r = (0, ((p.args, 1),))
        else: r = (0, (((p,), 1),))
        r = r + (tuple([(m, -k) for m, k in r[1]]),)
        _linkey[p] = r
    return r
NUMLIT = ('le0', 'eq0', 'fle0', 'flt0')
def implies1(a, b):
    """cheap implication between literals"""
    if a is b or a is FALSE or b is TRUE: return True
    if a.op not in NUMLIT: return False
    nb = b.op == 'not'
    bb = b.args[0] if nb else b
    if bb.op not in NUMLIT: return False
    ca, la, na = linkey(a.args[0]); cb, lb, _ = linkey(bb.args[0])
    if la == lb: s = 1
    elif na == lb: s = -1
    else: return False
    if a.op != 'eq0':
        # a: ca + L <= 0
        if not nb and bb.op != 'eq0':
            if s != 1: return False
            v = cb - ca
            if bb.op == 'flt0' and a.op != 'flt0': return v < 0
            return v <= 0
        if nb and bb.op == 'eq0':
            v = s * cb - ca
            return v < 0 or (v == 0 and a.op == 'flt0')
        return False
    # L = -ca (a equality)
    v = cb - s * ca
    if bb.op == 'eq0': return v != 0 if nb else v == 0
    r = v <= 0 if bb.op in ('le0', 'fle0') else v < 0
    return (not r) if nb else r
def litgroup(x):
    """linear part up to sign of a numeric literal"""
    y = x.args[0] if x.op == 'not' else x
    if y.op not in NUMLIT: return None
    c, l, n = linkey(y.args[0])
    return l if not l or l[0][1] > 0 else n
_narymemo = {}
def _nary(op, xs):
    key = (op, tuple(xs))
    r = _narymemo.get(key)
    if r is None:
        r = _nary_(op, xs)
        _narymemo[key] = r
    return r
def _nary_(op, xs):
    isand = op == 'and'
    unit, zero = (TRUE, FALSE) if isand else (FALSE, TRUE)
    other = 'or' if isand else 'and'
    flat = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is zero: return zero
        if x is unit: continue
        if x.op == op: st.extend(reversed(x.args)); continue
        flat[x] = None
    if len(flat) > 1:
        for x in flat:
            if not_(x) in flat: return zero
        # numeric literals over the same linear form
        groups = {}
        for x in flat:
            g = litgroup(x)
            if g is not None: groups.setdefault(g, []).append(x)
        for g in groups.values():
            if len(g) < 2: continue
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        r = _intpair(g[i], g[j], isand)
                        if r is not None:
                            if r is zero: return zero
                            x, y = g[i], g[j]
                            g[:] = [z for z in g if z is not x and z is not y]
                            flat.pop(x, None); flat.pop(y, None)
                            if r is unit: pass
                            elif litgroup(r) is None: 
                                return _nary(op, tuple(flat) + (r,))
                            elif r not in flat: flat[r] = None; g.append(r)
                            ch = True; break
                    if ch: break
        opp = [x for x in flat if x.op == other]
        for q in opp:
            hit = False; drop = []
            for y in q.args:
                if y in flat: hit = True; break
                if not_(y) in flat: drop.append(y); continue
                g = litgroup(y)
                if g is not None and g in groups:
                    for p in groups[g]:
                        if isand:
                            if implies1(p, y): hit = True; break
                            if implies1(p, not_(y)): drop.append(y); break
                        else:
                            if implies1(y, p): hit = True; break
                            if implies1(not_(p), y): drop.append(y); break
                    if hit: break
            if hit:
                del flat[q]; continue
            if drop:
                del flat[q]
                nq = _nary(other, tuple(y for y in q.args if y not in drop))
                return _nary(op, tuple(flat) + (nq,))
        opp = [x for x in flat if x.op == other]
        if 1 < len(opp) <= 24:
            for i in range(len(opp)):
                sp = set(opp[i].args)
                for j in range(i + 1, len(opp)):
                    sq = opp[j].args
                    dq = [y for y in sq if y not in sp]
                    if len(dq) == 1 and len(sq) <= len(sp):
                        nd = not_(dq[0])
                        if nd in sp:      # (a|b|c)&(a|!b) = (a|c)&(a|!b)
                            rest = [x for x in flat if x is not opp[i]]
                            if len(sp) == len(sq): rest = [x for x in rest if x is not opp[j]]
                            return _nary(op, tuple(rest) + (_nary(other, tuple(z for z in opp[i].args if z is not nd)),))
                    elif len(sp) < len(sq):
                        dp = [y for y in opp[i].args if y not in sq]
                        if len(dp) == 1 and not_(dp[0]) in sq:
                            rest = [x for x in flat if x is not opp[j]]
                            nd = not_(dp[0])
                            return _nary(op, tuple(rest) + (_nary(other, tuple(z for z in sq if z is not nd)),))
                        if not dp:
                            return _nary(op, tuple(x for x in flat if x is not opp[j]))
                    elif not dq:
                        return _nary(op, tuple(x for x in flat if x is not opp[i]))
    if not isand and len(flat) <= 12:
        # P(b) | (b == k & !P(k) & r)  =  P(b) | (b == k & r)
        ps = [x for x in flat if x.op in ('init', 'phi') or (x.op == 'not' and x.args[0].op in ('init', 'phi'))]
        if ps:
            for q in flat:
                if q.op != 'and': continue
                for e in q.args:
                    if e.op != 'eq0' and e.op != 'eq': continue
                    for x, v in eqsolutions(e):
                        for p in ps:
                            if x in p.free:
                                np = not_(subst(p, {x: v}))
                                if np in q.args:
                                    nq = _nary('and', tuple(y for y in q.args if y is not np))
                                    return _nary(op, tuple(y for y in flat if y is not q) + (nq,))
    if not flat: return unit
    if len(flat) == 1: return next(iter(flat))
    out = sorted(flat, key=lambda x: x.id)
    return mk(op, tuple(out), 'b')
def eqsolutions(e):
    """symbols an equality determines: [(x, value)]"""
    out = []
    if e.op == 'eq':
        for x, v in ((e.args[0], e.args[1]), (e.args[1], e.args[0])):
            if x.op in ('sym', 'bv') and x not in v.free: out.append((x, v))
    elif e.op == 'eq0':
        c, d = poly(e.args[0])
        for m, k in d.items():
            if len(m) == 1 and m[0].op in ('sym', 'bv') and k in (1, -1):
                x = m[0]
                if not any(x in a.free for m2 in d if m2 is not m for a in m2):
                    out.append((x, scale(sub(e.args[0], scale(x, k)), -k)))
    return out
def numericlit(a):
    if a.op == 'not': a = a.args[0]
    return a.op in ('le0', 'eq0', 'fle0', 'flt0')
def and_(*xs): return _nary('and', xs)
def or_(*xs): return _nary('or', xs)

# ------------------------------------------------------------------ conditionals
INF = 1 << 60
def topid(t): return t.args[0].id if t.op == 'ite' else INF
def cof(t, c, v):
    """cofactor with respect to the atomic condition c"""
    if t.op == 'ite' and t.args[0] is c: return t.args[1] if v else t.args[2]
    return t
_itememo = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    key = (c, a, b)
    r = _itememo.get(key)
    if r is None:
        r = _ite(c, a, b)
        _itememo[key] = r
    return r
def canon_atom(c):
    """positive representative of a literal: (atom, positive?)"""
    if c.op == 'not': return c.args[0], False
    if c.op in ('le0', 'fle0', 'flt0'):
        n = not_(c)
        if n.id < c.id and n.op in ('le0', 'fle0', 'flt0'): return n, False
    return c, True
def _ite(c, a, b):
    if a.sort == 'b' and b.sort == 'b':
        for p, q, d in ((a, b, not_(c)), (b, a, c)):
            if q.op == 'or' and all(x in q.args for x in (p.args if p.op == 'or' else (p,))):
                ps = p.args if p.op == 'or' else (p,)
                return or_(p, and_(d, or_(*[x for x in q.args if x not in ps])))
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'and':
        xs = list(c.args)
        if len(xs) <= 8:
            r = a
            for x in reversed(xs): r = ite(x, r, b)
            return r
    if c.op == 'or':
        xs = list(c.args)
        if len(xs) <= 8:
            r = b
            for x in reversed(xs): r = ite(x, a, r)
            return r
    at, pos = canon_atom(c)
    if not pos: return ite(at, b, a)
    # bool/number mixture
    if a.sort == 'b' and b.sort in ('i', 'f'): a = ite(a, ONE, ZERO)
    if b.sort == 'b' and a.sort in ('i', 'f'): b = ite(b, ONE, ZERO)
    if numeric(a) and numeric(b):
        ca, da = poly(a); cb, db = poly(b)
        common = {}
        for m, k in da.items():
            if db.get(m) == k: common[m] = k
        if common or cb != 0 or (not da and not db and ca != 1):
            ra = unpoly(ca - cb, {m: k for m, k in da.items() if m not in common})
            rb = unpoly(0, {m: k for m, k in db.items() if m not in common})
            if rb is ZERO and ra.op == 'num':
                if ra.args[0] == 0: return unpoly(cb, common)
                return add(unpoly(cb, common), scale(mkite(c, ONE, ZERO), ra.args[0]))
            if common or cb != 0:
                return add(unpoly(cb, common), ite(c, ra, rb))
        if a.op == 'num' and b is ZERO and a.args[0] != 1: return scale(mkite(c, ONE, ZERO), a.args[0])
    if a.op == 'iter' and b.op == 'iter' and a.args[0] is b.args[0]:
        return mk('iter', (a.args[0], ite(c, a.args[1], b.args[1])), 'o')
    if a.op == 'ptr' and b.op == 'ptr' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        return mk('ptr', a.args[:2] + tuple(ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])), 'o')
    if a.op == 'ite' or b.op == 'ite':
        t = min(topid(a), topid(b))
        if t == c.id: return ite(c, cof(a, c, True), cof(b, c, False))
        # implied tests below
        a2 = prune(a, c, True); b2 = prune(b, c, False)
        if a2 is not a or b2 is not b: return ite(c, a2, b2)
        if t < c.id:
            m = a.args[0] if topid(a) == t else b.args[0]
            return ite(m, ite(c, cof(a, m, True), cof(b, m, True)), ite(c, cof(a, m, False), cof(b, m, False)))
    return mkite(c, a, b)
def mkite(c, a, b): 
    if a is b: return a
    return mk('ite', (c, a, b), a.sort if a.sort == b.sort else ('f' if {a.sort, b.sort} == {'i', 'f'} else a.sort if b.op in ('undef', 'unk') else b.sort))
def prune(t, c, v, depth=0):
    """t under the assumption that c is v (only tests implied by it, near the root)"""
    if t.op != 'ite' or depth > 6: return t
    d = t.args[0]
    lit = c if v else not_(c)
    if implies1(lit, d): return prune(t.args[1], c, v, depth + 1)
    if implies1(lit, not_(d)): return prune(t.args[2], c, v, depth + 1)
    a = prune(t.args[1], c, v, depth + 1); b = prune(t.args[2], c, v, depth + 1)
    if a is t.args[1] and b is t.args[2]: return t
    return ite(d, a, b)

# ------------------------------------------------------------------ strings
def string(s): return mk('str', (s,), 's')
def cat(*xs):
    out = []
    for x in xs:
        parts = x.args if x.op == 'cat' else (x,)
        for p in parts:
            if p.op == 'str':
                if p.args[0] == '': continue
                if out and out[-1].op == 'str': out[-1] = string(out[-1].args[0] + p.args[0]); continue
            out.append(p)
    if not out: return string('')
    if len(out) == 1: return out[0]
    return mk('cat', tuple(out), 's')
def ssize(s):
    if s.op == 'str': return num(len(s.args[0]))
    if s.op == 'cat': return add(*[ssize(x) for x in s.args])
    if s.op == 'sfill': return s.args[0]
    if s.op == 'sset': return ssize(s.args[0])
    if s.op == 'bytes': return num(s.args[0][0])
    if s.op == 'chr': return ONE
    if s.op == 'catn':
        f = _rebuild.get('ssize_catn')
        return f(s)
    if s.op == 'ite': return ite(s.args[0], ssize(s.args[1]), ssize(s.args[2]))
    return mk('ssize', (s,), 'i')
NPOS = mk('npos', (), 'i')
INFT = mk('inf', (), 'i')

# ------------------------------------------------------------------ binders
def lam(n, body, syms):
    """close body over the symbols syms (n of them)"""
    h = body.h + 1
    m = {s: bv(h, i, s.sort) for i, s in enumerate(syms)}
    b = subst(body, m)
    if b.h + 1 != h:      # simplification changed the height
        h2 = b.h + 1
        b = subst(b, {bv(h, i, s.sort): bv(h2, i, s.sort) for i, s in enumerate(syms)})
        h = h2
    # eta: lam b. f(b) stays as is
    return mk('lam', (n, h, tuple(s.sort for s in syms), b), 'l')
def app(l, *args):
    if l.op != 'lam':
        if l.op == 'ite': return ite(l.args[0], app(l.args[1], *args), app(l.args[2], *args))
        if not args: return l
        raise TypeError('apply of ' + l.op)
    n, h, sorts, body = l.args
    assert n == len(args), (n, args)
    return subst(body, {bv(h, i, sorts[i]): args[i] for i in range(n)})
def lamsyms(l):
    return tuple(fresh('b', s, True) for s in l.args[2])
def konst(n, v, sorts=None):
    return lam(n, v, tuple(fresh('b', (sorts or ['i'] * n)[i], True) for i in range(n)))

_rebuild = {}
def rebuilder(*ops):
    def deco(f):
        for o in ops: _rebuild[o] = f
        return f
    return deco

def subst(t, m, memo=None):
    """simultaneous substitution of symbols / bound variables / phi families.
    A key may be ('phi', tag): value is a function from the index arguments to a term."""
    if memo is None:
        memo = {}
        keys = frozenset(m)
        if t.free.isdisjoint(keys): return t
        memo[0] = keys
    return _sub(t, m, memo)
def _sub(t, m, memo):
    if t.free.isdisjoint(memo[0]): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op in ('sym', 'bv'): r = m.get(t, t)
    elif t.op == 'phi' and t.args[0] in m:
        r = m[t.args[0]](*[_sub(x, m, memo) for x in t.args[3:]])
    elif t.op == 'lam':
        n, h, sorts, body = t.args
        b = _sub(body, m, memo)
        if b is body: r = t
        elif b.h >= h:        # terms with binders as high as this one came in: keep its variables apart from theirs
            syms = tuple(fresh('b', x, True) for x in sorts)
            mm = {k: v for k, v in m.items() if not (type(k) is T and k.op == 'bv' and k.args[0] == h)}
            mm.update({bv(h, i, sorts[i]): syms[i] for i in range(n)})
            r = lam(n, subst(body, mm), syms)
        else:
            h2 = b.h + 1
            if h2 != h:
                b = subst(b, {bv(h, i, sorts[i]): bv(h2, i, sorts[i]) for i in range(n)})
                # simplification may lower the height again
                while b.h + 1 != h2:
                    h3 = b.h + 1
                    b = subst(b, {bv(h2, i, sorts[i]): bv(h3, i, sorts[i]) for i in range(n)})
                    h2 = h3
            r = mk('lam', (n, h2, sorts, b), 'l')
    else:
        args = tuple(_suba(x, m, memo) for x in t.args)
        r = rebuild(t.op, args, t.sort)
    memo[t] = r
    return r
def _suba(x, m, memo):
    if type(x) is T: return _sub(x, m, memo)
    if type(x) is tuple: return tuple(_suba(y, m, memo) for y in x)
    return x

def rebuild(op, args, sort):
    if op == 'lin':
        c, items = args
        out = num(c)
        acc = [out]
        for mono, k in items:
            p = ONE
            for a in mono: p = mul(p, a)
            acc.append(scale(p, k))
        return add(*acc)
    if op == 'mul':
        p = ONE
        for a in args: p = mul(p, a)
        return p
    if op == 'ite': return ite(*args)
    if op in ('and', 'or'): return _nary(op, args)
    if op == 'not': return not_(args[0])
    if op == 'le0': return cmp0('le', args[0])
    if op == 'fle0': return cmp0('le', args[0])
    if op == 'flt0': return cmp0('lt', args[0])
    if op == 'eq0': return cmp0('eq', args[0])
    if op == 'eq': return eq(*args)
    if op == 'idiv': return idiv(*args)
    if op == 'imod': return imod(*args)
    if op == 'fdiv': return fdiv(*args)
    if op == 'pow': return power(*args)
    if op in ('shl', 'shr'): return bitop(op, *args)
    if op in ('band', 'bor', 'bxor'):
        r = args[0]
        for x in args[1:]: r = bitop(op, r, x)
        return r
    if op == 'bnot': return bnot(args[0])
    if op == 'cat': return cat(*args)
    if op == 'ssize': return ssize(args[0])
    f = _rebuild.get(op)
    if f: return f(op, args, sort)
    return mk(op, args, sort)

def walk(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple: st.extend(x); continue
        if type(x) is not T or x in seen: continue
        seen.add(x); yield x
        st.extend(x.args)
def contains(t, ops):
    for x in walk(t):
        if x.op in ops: return x
    return None

# ------------------------------------------------------------------ printing
def show(t, d=0):
    if type(t) is tuple: return '(' + ','.join(show(x, d + 1) for x in t) + ')'
    if type(t) is not T: return str(t)
    if d > 24: return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'num': return str(a[0])
    if o == 'sym': return a[0]
    if o == 'bv': return 'b%d_%d' % a
    if o == 'str': return repr(a[0])
    if o in ('true', 'false', 'null', 'npos', 'jnull'): return o
    if o == 'lin':
        r = [] if a[0] == 0 else [str(a[0])]
        for m, k in a[1]: r.append(('' if k == 1 else '-' if k == -1 else str(k) + '*') + '*'.join(s(x) for x in m))
        return '(' + '+'.join(r).replace('+-', '-') + ')'
    if o == 'mul': return '*'.join(s(x) for x in a)
    if o in ('le0', 'fle0'): return '%s<=0' % s(a[0])
    if o == 'flt0': return '%s<0' % s(a[0])
    if o == 'eq0': return '%s==0' % s(a[0])
    if o == 'eq': return '(%s==%s)' % (s(a[0]), s(a[1]))
    if o == 'not': return '!' + s(a[0])
    if o == 'and': return '(' + ' & '.join(map(s, a)) + ')'
    if o == 'or': return '(' + ' | '.join(map(s, a)) + ')'
    if o == 'ite': return '[%s ? %s : %s]' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'lam': return '\\%s.%s' % (','.join('b%d_%d' % (a[1], i) for i in range(a[0])), s(a[3]))
    if o == 'init': return '%s%s' % (a[0], pathstr(a[1], a[2:]))
    if o == 'phi': return '@%s%s' % (a[1] + pathstr(a[2], a[3:]), '')
    if o == 'cat': return '(' + ' ++ '.join(map(s, a)) + ')'
    return o + '(' + ', '.join(s(x) for x in a) + ')'
def pathstr(path, idx):
    r = ''; i = 0
    for p in path:
        if p in ('*', '{}', '{?}'):
            x = show(idx[i], 20) if i < len(idx) else '?'; i += 1
            r += '[%s]' % x if p == '*' else '{%s}' % x if p == '{}' else '{%s}?' % x
        else: r += '.' + p
    return r
