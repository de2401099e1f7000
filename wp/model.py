"""Random interpretation of value graphs.

Two nodes of the value graph that have different normal forms may still denote the same value.
A random interpretation gives every initial value, argument and opaque operation some value (small
sizes, small key universes) and computes what the two nodes denote under it.  If they differ the
nodes are different values, and the interpretation is the counter-model reported.  If none of the
interpretations tried tells them apart the comparison stays silent.  Nothing of the program is run:
only terms extracted from its source are evaluated."""
import hashlib, random, time as _time
from fractions import Fraction
from .term import *
from . import term as tm

class Err(Exception): pass      # the term has no value under this interpretation
class Out(Exception): pass      # the evaluation was given up
class Unk(Exception): pass      # the term contains something the analysis does not know
NPOSV = (1 << 64) - 1
INFV = float('inf')
BOOST = [1]
RUNLIMIT = 1.2
HARD = [0]
POOL = ('a', 'b', 'a::b', 'c', 'ab', '')
TEXTS = ('', '\xe9\x8a', '\xff\x80\xc3', 'a#b', 'YQ==#AAAA', 'a#b.c#d', 'x', 'AAAA.BBBB', 'QUJD')

def plain(v):
    """readable form of a value"""
    if isinstance(v, tuple):
        if v and v[0] == 'rec': return '{%s}' % ' '.join('%s=%s' % (k, plain(x)) for k, x in v[1:])
        if v and v[0] == 'map': return '{%s}' % ' '.join('%s:%s' % (plain(k), plain(x)) for k, x in v[1:])
        return '[%s]' % ','.join(plain(x) for x in v)
    return repr(v) if isinstance(v, str) else str(v)
class ProbeI:
    """generic integer key: k*x + c"""
    __slots__ = ('sink', 'k', 'c')
    def __init__(self, sink, k=1, c=0): self.sink, self.k, self.c = sink, k, c
class ProbeS:
    __slots__ = ('sink',)
    def __init__(self, sink): self.sink = sink
PROBES = (ProbeI, ProbeS)

class Frame:
    __slots__ = ('m', 't', 'env', 'n', 'memo', 'step')
    def __init__(self, m, t, env, n): self.m, self.t, self.env, self.n = m, t, env, n; self.memo = {}
    def comp(self, k, i, idx):
        key = (k, i, idx)
        r = self.memo.get(key, self)
        if r is not self: return r
        # fill from below to keep the recursion shallow
        if i > 40:
            for j in range(0, i, 20):
                if (k, j, idx) not in self.memo: self.comp(k, j, idx)
        if i == 0: r = self.m.apply(self.t.args[2][k], idx, self.env)
        else: r = self.round(k, i, idx)
        self.memo[key] = r
        return r
    def round(self, k, i, idx):
        b = self.t.args[3][k]
        h = self.t.args[0]
        env = dict(self.env)
        for c in range(len(self.t.args[3])): env['mu%d_%d' % (h, c)] = (self, c, i - 1)
        n, hh, sorts, body = b.args
        env[(hh, 0)] = i - 1
        return self.m.apply(body, idx, env)

def readmode(mode):
    ns = [x.args[0] for x in walk(mode) if x.op in ('extvar', 'openmode')] if type(mode) is T else []
    return bool(ns) and all(str(n).endswith('::in') for n in ns)
class Late(Frame):
    """the last rounds of a fold, begun in the state it has after s rounds"""
    __slots__ = ('off', 'fr', 's')
    def __init__(self, m, t, env, n, off, fr, s): Frame.__init__(self, m, t, env, n); self.off, self.fr, self.s = off, fr, s
    def comp(self, k, i, idx):
        if i <= self.off: return self.fr.comp(k, self.s, idx)
        key = (k, i, idx)
        r = self.memo.get(key, self)
        if r is self: r = self.memo[key] = self.round(k, i, idx)
        return r

class Model:
    big = False           # a state with long sequences
    def __init__(self, seed, leaftype=None, consts=(), strs=(), fields=None, linker=None):
        self.seed = seed
        self.leaftype = leaftype or (lambda r, p: None)
        self.consts = tuple(consts); self.strs = tuple(strs)
        self.fields = fields
        self.linker = linker
        self.depth = 0
        self.known = None
        self.objs = {}; self.files = {}; self.pre = {}; self.free = None
        self.salt = 0; self.salted = frozenset(); self.mutable = frozenset(); self.tag = (); self.kw = None
        self.over = {}
        self.profile = seed % 4
        self.touch = None
        self.reset()
    def reset(self):
        self.stop = min(_time.time() + RUNLIMIT * BOOST[0] * (2 if self.big else 1), HARD[0] or 1e18)
        self.memo = {}; self.dumps = dict(self.pre); self.fuel = 4000000 if self.big else 400000; self.gens = {}; self.subs = {}
    def with_linker(self, l):
        """the same interpretation for the operations of another program"""
        import copy
        m = copy.copy(self); m.linker = l; m.reset(); return m
    def show(self):
        """the leaves this interpretation fixed"""
        d = dict(self.gens); d.update(self.over)
        out = ['%s=%s' % (k, plain(v)) for k, v in sorted(self.objs.items()) if k[:2] != 'G:']
        for (r, p, i), v in sorted(d.items(), key=lambda x: str(x[0])):
            if isinstance(r, str) and len(out) < 60: out.append('%s%s%s=%r' % (r, ''.join('.' + c for c in p), list(i) if i else '', v))
        return ', '.join(out)[:2500]
    def h(self, key):
        d = hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8, salt=b'%8d' % (self.seed % 10**8)).digest()
        return int.from_bytes(d, 'little')
    # ------------------------------------------------------------------ values of leaves
    def leaf(self, root, path, idx, sort, ty=None):
        key = (root, path, idx)
        if self.touch is not None: self.touch[key] = sort
        v = self.over.get(key, self)
        if v is not self: return v
        if self.salt and root in self.mutable and 'global' in self.salted:
            return self.gen(root, path, idx, sort, self.chance('global', key), ty)
        if root in self.objs: return self.look(self.objs[root], path, idx, sort)
        if root == 'G:file' and idx and idx[0] in self.files: return self.files[idx[0]]
        v = self.gens.get(key, self)
        if v is not self: return v
        if isinstance(root, str) and root[:2] != 'G:' and not self.okpath(path): raise Unk('field ' + '.'.join(path))
        if any(isinstance(i, PROBES) for i in idx): return self.default(path, sort)
        v = self.gen(root, path, idx, sort, self.h(key), ty)
        self.gens[key] = v
        return v
    def look(self, v, path, idx, sort):
        idx = list(idx)
        for c in path:
            if c == '#':
                if isinstance(v, tuple) and v and v[0] in ('map', 'set'): return len(v) - 1
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'n': return v[1]
                if isinstance(v, tuple): return len(v)
                raise Err('look')
            if c == '*':
                i = idx.pop(0)
                if isinstance(i, PROBES): return self.default(path, sort)
                if not isinstance(v, tuple) or not isinstance(i, int): raise Err('look')
                if not 0 <= i < len(v): return self.default(path, sort)
                v = v[i]
            elif c == '{?}':
                k = idx.pop(0)
                if not isinstance(v, tuple) or not v or v[0] not in ('map', 'set'): raise Err('look')
                ks = [x[0] for x in v[1:]] if v[0] == 'map' else list(v[1:])
                if isinstance(k, PROBES):
                    for x in ks: k.sink.add(x)
                    return False
                return k in ks
            elif c == '{}':
                k = idx.pop(0)
                if isinstance(k, PROBES): return self.default(path, sort)
                if not isinstance(v, tuple) or not v or v[0] not in ('map', 'set'): raise Err('look')
                for x in v[1:]:
                    if x[0] == k: v = x[1]; break
                else: return self.default(path, sort)
            else:
                if not isinstance(v, tuple) or not v or v[0] != 'rec': raise Err('look')
                for x in v[1:]:
                    if x[0] == c: v = x[1]; break
                else: raise Unk('field ' + c)
        if isinstance(v, tuple) and sort not in ('o', 'j'): raise Err('look')
        return v
    def default(self, path, sort):
        if sort == 'b': return False
        if sort == 'i': return 0
        if sort == 'f': return 0
        if sort == 's': return ''
        return ('null',) if sort == 'j' else ('o',)
    def universe(self, sort):
        if sort == 's': return POOL + self.strs[:4]
        return tuple(range(6)) + ((1 << 32, (1 << 40) + 3) if self.profile == 3 else ())
    def gen(self, root, path, idx, sort, h, ty=None):
        last_ = path[-1] if path else ''
        if self.profile == 0 and isinstance(root, str): return self.coherent(root, path, idx, sort, h)
        if sort == 'b':
            if last_ == '{?}':
                if idx and idx[-1] not in self.universe('s' if isinstance(idx[-1], str) else 'i'): return False
                return h % 100 < 62
            return bool(h & 4)
        if sort == 'i':
            if last_ == '#':
                g = self.h(('size', root if isinstance(root, str) else root[:2], path)) if self.profile != 1 else h
                return (2, 3, 1, 2, 0, 3, 2, 1)[g % 8] if (g >> 9) % 6 else 0
            t = self.leaftype(root, path) if isinstance(root, str) else None
            uns = t is not None and t.get('k') == 'int' and not t['s']
            bits = t['bits'] if t is not None and t.get('k') == 'int' else 32
            nm = [p for p in path if p not in ('*', '{}')]
            nm = nm[-1] if nm else str(root)
            w = h % 100; z = h >> 8
            if nm == 'base' and w < 85: v = 2 + z % 3
            elif self.profile in (0, 1):
                v = z % 4 if w < 80 else z % 2 if w < 95 else 4 + z % 8
            elif self.profile == 2:
                if w < 55: v = z % 6
                elif w < 80 and self.consts: v = self.consts[z % len(self.consts)] + (z >> 20) % 3 - 1
                elif w < 92: v = -(z % 4)
                else: v = 100 + z % 1000
            else:
                if w < 60: v = z % 3
                elif w < 72 and self.consts: v = self.consts[z % len(self.consts)] + (z >> 20) % 3 - 1
                elif w < 80: v = -(z % 3)
                elif w < 90: v = (1 << (bits - 1)) - 1 - z % 3
                else: v = 7 + z % 60
            if uns: v = abs(v) % (1 << bits)
            elif not -(1 << (bits - 1)) <= v < (1 << (bits - 1)): v = v % (1 << (bits - 1))
            return v
        if sort == 'f':
            w = h % 12
            return (Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 10), Fraction(2), Fraction(3, 4), Fraction(1, 5), Fraction(3), Fraction(-1, 2), Fraction(1, 3), Fraction(7, 8), Fraction(5))[w]
        if sort == 's':
            if isinstance(root, str) and root == 'G:file': return TEXTS[h % len(TEXTS)]
            p = POOL + self.strs + (TEXTS if self.profile >= 2 else ())
            return p[h % len(p)]
        if sort == 'j': return ('jl', root, path, idx)
        return ('ol', root, path, idx)
    def coherent(self, root, path, idx, sort, h):
        """objects and arguments that fit together: one length everywhere, binary input"""
        N = 2 + (self.seed >> 2) % 3
        last_ = path[-1] if path else ''
        if sort == 'b':
            if last_ == '{?}':
                if idx and idx[-1] not in self.universe('s' if isinstance(idx[-1], str) else 'i'): return False
                return h % 100 < 62
            return bool(h & 4)
        if sort == 'i':
            if last_ == '#': return N if path[0] in ('*', 'addresses') or len(path) > 1 else (1 + h % 3)
            nm = [p for p in path if p not in ('*', '{}')]
            nm = nm[-1] if nm else str(root)
            if nm == 'base': return 2 + h % 2
            if nm == 'addresses' or nm in ('mapping', 'A:mapping', 'indexes', 'A:indexes'): return (idx[-1] + h % 2) % N
            if nm in ('entrySize', 'A:entrySize'): return N
            if nm in ('addressSize', 'A:addressSize'): return 2
            if root.startswith('A:') and path and path[-1] == '*': return h % 2
            return h % 4
        if sort == 's' and root != 'G:file': return POOL[h % len(POOL)]
        self.profile = 1
        try: return self.gen(root, path, idx, sort, h)
        finally: self.profile = 0
    def hashed(self, what, sort, path=('v',)):
        return self.leaf(('u',) + what, path, (), sort)
    # ------------------------------------------------------------------ evaluation
    def run(self, t, env=None):
        return self.ev(t, env or {})
    def apply(self, l, idx, env):
        if l.op == 'lam':
            n, h, sorts, body = l.args
            if n != len(idx):
                if n > len(idx): raise Err()
                e2 = dict(env)
                for i in range(n): e2[(h, i)] = idx[i]
                return self.apply(body, idx[n:], e2)
            e2 = dict(env)
            for i in range(n): e2[(h, i)] = idx[i]
            return self.ev(body, e2)
        if l.op == 'ite' and idx:
            return self.apply(l.args[1] if self.truth(self.ev(l.args[0], env)) else l.args[2], idx, env)
        return self.ev(l, env)
    def truth(self, v):
        return bool(v)
    def envkey(self, t, env):
        if not t.free: return t.id
        out = [t.id]
        try:
            for x in t.free:
                if type(x) is T:
                    if x.op == 'bv': out.append((x.id, env[x.args]))
                    else: out.append((x.id,))
                elif x in env:
                    f = env[x]; out.append((x, id(f[0]), f[1], f[2]))
        except KeyError: return None
        return frozenset(out[1:]), t.id
    def ev(self, t, env):
        op = t.op
        if op == 'num': return t.args[0]
        if op == 'bv':
            v = env.get(t.args, self)
            if v is self: raise Unk('unbound')
            return v
        key = self.envkey(t, env)
        if key is not None:
            r = self.memo.get(key, self)
            if r is not self: return r
        self.fuel -= 1
        if self.fuel < 0: raise Out('fuel')
        if not self.fuel & 255 and self.stop and _time.time() > self.stop: raise Out('time')
        f = getattr(self, 'e_' + op, None)
        r = f(t, env) if f else self.e_other(t, env)
        if key is not None: self.memo[key] = r
        return r
    def args(self, t, env): return [self.ev(x, env) for x in t.args]
    def e_true(self, t, env): return True
    def e_false(self, t, env): return False
    def e_null(self, t, env): return ('null',)
    def e_jnull(self, t, env): return ('null',)
    def e_str(self, t, env): return t.args[0]
    def e_npos(self, t, env): return NPOSV
    def e_inf(self, t, env): return INFV
    def e_unk(self, t, env): raise Unk(str(t.args[0]))
    # what nothing in the object and the arguments determines: another value under another salt
    def chance(self, kind, key):
        if not self.salt or kind not in self.salted: return None
        d = hashlib.blake2b(repr((self.salt, kind, key, self.tag)).encode('utf8', 'backslashreplace'), digest_size=8).digest()
        return int.from_bytes(d, 'little')
    def resalt(self, salt, kinds):
        self.salt = salt; self.salted = frozenset(kinds); self.memo = {}; self.subs = {}; self.fuel = 4000000 if self.big else 400000; self.dumps = dict(self.pre)
        self.stop = min(_time.time() + RUNLIMIT * BOOST[0] * (2 if self.big else 1), HARD[0] or 1e18)
    def argkey(self, t, env):
        def k(x):
            if type(x) is T: return self.ev(x, env)
            return tuple(k(y) for y in x) if isinstance(x, tuple) else x
        return tuple(k(x) for x in t.args)
    def e_undef(self, t, env):
        c = self.chance('undef', (t.args[0], self.seed))
        if c is not None:
            n = c % 1000 - 300 if self.seed % 2 else c % 12 - 3
            return {'i': n, 'f': Fraction(n, 7), 'b': bool(c & 16), 's': 'u%d' % (c % 99)}.get(t.sort, ('undef', c))
        return self.noundef(t, env)
    def noundef(self, t, env): return {'i': -777001, 'f': Fraction(-777001), 'b': False, 's': '<undef>'}.get(t.sort, ('undef',))
    def e_sym(self, t, env):
        v = env.get(t, self)
        if v is not self: return v
        if t.args[1] and t.sort == 'i': return self.leaf(('sym', t.args[0]), ('#',), (), 'i')
        return self.leaf(('sym', t.args[0]), ('v',), (), t.sort)
    def e_init(self, t, env):
        idx = tuple(self.ev(x, env) for x in t.args[2:])
        return self.leaf(t.args[0], t.args[1], idx, t.sort)
    def e_phi(self, t, env):
        f = env.get(t.args[0])
        if f is None: raise Unk('phi')
        fr, k, i = f
        idx = tuple(self.ev(x, env) for x in t.args[3:])
        return fr.comp(k, i, idx)
    def e_fold(self, t, env):
        n = self.ev(t.args[1], env)
        if isinstance(n, PROBES) or n == INFV: raise Err('fold')
        if n > (5200 if self.big else 300): return self.distant(t, env, int(n))
        idx = tuple(self.ev(x, env) for x in t.args[4:])
        fk = None
        u = ('fold', t.args[:4], self.envkey(t, env) if t.free else 0)
        keyed = (t.args[0], t.args[1].id, tuple(x.id for x in t.args[2]), tuple(x.id for x in t.args[3]))
        fv = []
        try:
            for x in sorted((y for z in (t.args[2] + t.args[3]) for y in z.free), key=lambda y: y.id if type(y) is T else hash(y)):
                if type(x) is T and x.op == 'bv': fv.append((x.id, env[x.args]))
                elif type(x) is str and x in env: g = env[x]; fv.append((x, id(g[0]), g[1], g[2]))
            fk = ('F', keyed, tuple(fv))
            hash(fk)
        except (KeyError, TypeError): fk = None
        fr = self.memo.get(fk) if fk is not None else None
        if fr is None:
            fr = Frame(self, t, env, n)
            if fk is not None: self.memo[fk] = fr
            self.keep = getattr(self, 'keep', []); self.keep.append(fr)
        return fr.comp(0, max(int(n), 0), idx)
    def distant(self, t, env, n):
        """value after very many rounds when only the last ones matter, or when the fold comes to rest"""
        idx = tuple(self.ev(x, env) for x in t.args[4:])
        if any(isinstance(i, PROBES) for i in idx): raise Err('fold')
        self.keep = getattr(self, 'keep', [])
        fk = ('D', t.id, self.envkey(t, env) if t.free else 0)
        try: fs = self.memo.get(fk)
        except TypeError: fs = fk = None
        if fs is None:
            fr = Frame(self, t, env, 60)
            fs = [Late(self, t, env, n, n - j, fr, s) for s in (0, 50) for j in (1, 3)]
            self.keep += fs
            if fk is not None: self.memo[fk] = fs
        try:
            vs = [f.comp(0, n, idx) for f in fs]
            if all(v == vs[0] for v in vs): return vs[0]
        except Err: pass
        return self.settled(t, env)
    def settled(self, t, env):
        """value after very many rounds of a fold that comes to rest"""
        if len(t.args) > 4: raise Err('fold')
        for b in t.args[3]:
            if b.op != 'lam' or b.args[0] != 1: raise Err('fold')
            if any(x.op == 'bv' and x.args == (b.args[1], 0) for x in walk(b.args[3])): raise Err('fold')
        fr = Frame(self, t, env, 0)
        self.keep = getattr(self, 'keep', []); self.keep.append(fr)
        old = None
        for i in range(300):
            new = tuple(fr.comp(c, i, ()) for c in range(len(t.args[3])))
            if new == old: return new[0]
            old = new
        raise Err('fold')
    # numbers
    def addn(self, a, b):
        if isinstance(a, ProbeI) or isinstance(b, ProbeI):
            if isinstance(a, ProbeI) and isinstance(b, ProbeI):
                return ProbeI(a.sink, a.k + b.k, a.c + b.c) if a.k + b.k else a.c + b.c
            p, q = (a, b) if isinstance(a, ProbeI) else (b, a)
            return ProbeI(p.sink, p.k, p.c + q)
        return a + b
    def muln(self, a, b):
        if isinstance(a, ProbeI) and isinstance(b, ProbeI): raise Err('probe')
        if isinstance(a, ProbeI): return ProbeI(a.sink, a.k * b, a.c * b) if b else 0
        if isinstance(b, ProbeI): return self.muln(b, a)
        return a * b
    def e_lin(self, t, env):
        s = t.args[0]
        for mono, k in t.args[1]:
            p = k
            for a in mono: p = self.muln(self.num(self.ev(a, env)), p)
            s = self.addn(s, p)
        return s
    def num(self, v):
        if v is True: return 1
        if v is False: return 0
        if isinstance(v, (int, Fraction, ProbeI, float)): return v
        if isinstance(v, ProbeS): raise Err('probe')
        raise Err('not a number')
    def e_mul(self, t, env):
        p = 1
        for a in t.args: p = self.muln(self.num(self.ev(a, env)), p)
        return p
    def cmpp(self, v, kind):
        if isinstance(v, ProbeI):
            r = Fraction(-v.c) / v.k if not isinstance(v.c, float) else 0
            f = r.numerator // r.denominator
            for x in ((f,) if kind == 'eq' and r.denominator == 1 else (f, f + 1) if kind == 'eq' else (f - 1, f, f + 1)): v.sink.add(x)
            return False
        return v <= 0 if kind == 'le' else v < 0 if kind == 'lt' else v == 0
    def e_le0(self, t, env): return self.cmpp(self.num(self.ev(t.args[0], env)), 'le')
    e_fle0 = e_le0
    def e_flt0(self, t, env): return self.cmpp(self.num(self.ev(t.args[0], env)), 'lt')
    def e_eq0(self, t, env): return self.cmpp(self.num(self.ev(t.args[0], env)), 'eq')
    def e_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ProbeS):
                if isinstance(y, str): x.sink.add(y)
                return x is y
            if isinstance(x, ProbeI):
                if isinstance(y, int): x.sink.add(y)
                return x is y
        return a == b
    def probing(self, env): return any(isinstance(v, PROBES) for v in env.values())
    def e_not(self, t, env): return not self.truth(self.ev(t.args[0], env))
    def e_and(self, t, env):
        if self.probing(env):
            r = True
            for x in t.args:
                try: r = self.truth(self.ev(x, env)) and r
                except Err: r = False
            return r
        err = None
        for x in t.args:
            try:
                if not self.truth(self.ev(x, env)): return False
            except Err as e: err = e
        if err is not None: raise err
        return True
    def e_or(self, t, env):
        if self.probing(env):
            r = False
            for x in t.args:
                try: r = self.truth(self.ev(x, env)) or r
                except Err: pass
            return r
        # an operand without a value may be guarded by another one
        err = None
        for x in t.args:
            try:
                if self.truth(self.ev(x, env)): return True
            except Err as e: err = e
        if err is not None: raise err
        return False
    def e_ite(self, t, env):
        if self.probing(env):
            c = self.truth(self.ev(t.args[0], env))
            r = None
            for i in ((2, 1) if c else (1, 2)):
                try: r = self.ev(t.args[i], env)
                except Err:
                    if i == (1 if c else 2): raise
            return r
        return self.ev(t.args[1] if self.truth(self.ev(t.args[0], env)) else t.args[2], env)
    def ints(self, t, env):
        out = []
        for x in t.args:
            v = self.num(self.ev(x, env))
            if isinstance(v, ProbeI) or not isinstance(v, int):
                if isinstance(v, Fraction) and v.denominator == 1: v = int(v)
                else: raise Err('int')
            out.append(v)
        return out
    def e_idiv(self, t, env):
        a, b = self.ints(t, env)
        if b == 0: raise Err('div')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    def e_imod(self, t, env):
        a, b = self.ints(t, env)
        if b == 0: raise Err('div')
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    def e_fdiv(self, t, env):
        a, b = [self.num(x) for x in self.args(t, env)]
        if isinstance(a, ProbeI) or isinstance(b, ProbeI): raise Err('probe')
        if b == 0: return self.hashed(('fdiv0', a), 'f')
        return Fraction(a) / Fraction(b)
    def e_pow(self, t, env):
        a, b = [self.num(x) for x in self.args(t, env)]
        if isinstance(a, ProbeI) or isinstance(b, ProbeI): raise Err('probe')
        if isinstance(b, Fraction) or b < 0 or b > 600: raise Err('pow')
        return a ** b
    def e_shl(self, t, env):
        a, b = self.ints(t, env)
        if not 0 <= b < 300: raise Err('shl')
        return a << b
    def e_shr(self, t, env):
        a, b = self.ints(t, env)
        if b < 0: raise Err('shr')
        return a >> min(b, 600)
    def e_band(self, t, env):
        xs = self.ints(t, env); r = xs[0]
        for x in xs[1:]: r &= x
        return r
    def e_bor(self, t, env):
        xs = self.ints(t, env); r = xs[0]
        for x in xs[1:]: r |= x
        return r
    def e_bxor(self, t, env):
        xs = self.ints(t, env); r = xs[0]
        for x in xs[1:]: r ^= x
        return r
    def e_bnot(self, t, env): return ~self.ints(t, env)[0]
    def e_trunc(self, t, env):
        v = self.num(self.ev(t.args[0], env))
        if isinstance(v, ProbeI): raise Err('probe')
        f = Fraction(v)
        q = abs(f.numerator) // f.denominator
        return q if f >= 0 else -q
    def e_round(self, t, env):
        v = self.num(self.ev(t.args[0], env))
        if isinstance(v, ProbeI): raise Err('probe')
        f = Fraction(v); g = abs(f) + Fraction(1, 2)
        q = g.numerator // g.denominator
        return q if f >= 0 else -q
    def e_sqrt(self, t, env):
        v = self.num(self.ev(t.args[0], env))
        if isinstance(v, ProbeI): raise Err('probe')
        if v < 0: return self.hashed(('sqrtneg', v), 'f')
        if v == 0: return 0
        n, d = Fraction(v).numerator, Fraction(v).denominator
        from math import isqrt
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d: return Fraction(isqrt(n), isqrt(d))
        k = 1 << 40
        return Fraction(isqrt(n * d * k * k), d * k)
    def e_max(self, t, env):
        return max(self.num(x) for x in self.args(t, env))
    def e_min(self, t, env):
        return min(self.num(x) for x in self.args(t, env))
    # searches
    def count(self, t, env, lim=400):
        n = self.ev(t, env)
        if isinstance(n, PROBES): raise Err('probe')
        if n == INFV: return 48, True
        if n > (max(lim, 5200) if self.big else lim): raise Err('range')
        return int(n), False
    def call1(self, l, i, env):
        return self.apply(l, (i,), env)
    def e_exists(self, t, env):
        n, inf = self.count(t.args[0], env)
        if self.probing(env):
            r = False
            for i in range(min(n, 40)): r = self.truth(self.call1(t.args[1], i, env)) or r
            return r
        for i in range(n):
            if self.truth(self.call1(t.args[1], i, env)): return True
        if inf: raise Err('inf')
        return False
    def e_sum(self, t, env):
        n, inf = self.count(t.args[0], env)
        s = 0
        for i in range(n): s = self.addn(s, self.num(self.call1(t.args[1], i, env)))
        return s
    def e_first(self, t, env):
        n, inf = self.count(t.args[0], env)
        for i in range(n):
            if self.truth(self.call1(t.args[1], i, env)): return i
        if inf: raise Err('inf')
        return n
    def e_last(self, t, env):
        n, inf = self.count(t.args[0], env)
        for i in range(n - 1, -1, -1):
            if self.truth(self.call1(t.args[1], i, env)): return self.call1(t.args[2], i, env)
        return self.ev(t.args[3], env)
    def e_maxof(self, t, env):
        n, inf = self.count(t.args[0], env)
        m = self.num(self.ev(t.args[2], env))
        for i in range(n):
            v = self.num(self.call1(t.args[1], i, env))
            if isinstance(v, ProbeI): raise Err('probe')
            if v > m: m = v
        return m
    # maps
    def keysof(self, fn, sort):
        sink = set()
        for _ in range(2):
            p = ProbeS(sink) if sort == 's' else ProbeI(sink)
            try: fn(p)
            except Err: pass
            break
        cand = set(self.universe(sort)) | {x for x in sink if isinstance(x, str if sort == 's' else int)}
        if len(cand) > (5200 if self.big else 120): raise Err('keys')
        out = [c for c in cand if self.truth(fn(c))]
        out.sort(key=(lambda s: s.encode('latin1', 'replace')) if sort == 's' else None)
        return tuple(out)
    def keys(self, P, env):
        if P.op != 'lam':
            if P.op == 'ite': return self.keys(P.args[1] if self.truth(self.ev(P.args[0], env)) else P.args[2], env)
            raise Unk('keys of ' + P.op)
        ek = self.envkey(P, env) if self.touch is None else None
        k = ('K', ek)
        if ek is not None:
            r = self.memo.get(k)
            if r is not None: return r
        r = self.keysof(lambda c: self.apply(P, (c,), env), P.args[2][0])
        if ek is not None: self.memo[k] = r
        return r
    def e_card(self, t, env): return len(self.keys(t.args[0], env))
    def e_keyat(self, t, env):
        ks = self.keys(t.args[0], env); o = self.ev(t.args[1], env)
        if isinstance(o, PROBES): raise Err('probe')
        if not isinstance(o, int) or not 0 <= o < len(ks): raise Err('keyat')
        return ks[o]
    def e_ord(self, t, env):
        ks = self.keys(t.args[0], env); k = self.ev(t.args[1], env)
        if isinstance(k, PROBES): return len(ks)
        return sum(1 for x in ks if x < k)
    def e_ordf(self, t, env):
        ks = self.keys(t.args[0], env); k = self.ev(t.args[1], env)
        if isinstance(k, PROBES):
            for x in ks: k.sink.add(x)
            return len(ks)
        return ks.index(k) if k in ks else len(ks)
    # strings
    def st(self, v):
        if not isinstance(v, str): raise Err('str')
        return v
    def e_cat(self, t, env): return ''.join(self.st(self.ev(x, env)) for x in t.args)
    def e_ssize(self, t, env): return len(self.st(self.ev(t.args[0], env)))
    def e_catn(self, t, env):
        n, inf = self.count(t.args[0], env)
        return ''.join(self.st(self.call1(t.args[1], i, env)) for i in range(n))
    def e_sidx(self, t, env):
        s, i = self.args(t, env)
        self.st(s)
        if not isinstance(i, int) or not 0 <= i <= len(s): raise Err('sidx')
        c = ord(s[i]) if i < len(s) else 0
        return c - 256 if 128 <= c < 256 else c
    def e_sset(self, t, env):
        s, i, v = self.args(t, env)
        self.st(s)
        if not isinstance(i, int) or not 0 <= i < len(s): raise Err('sset')
        return s[:i] + chr(self.byte(v)) + s[i + 1:]
    def byte(self, v):
        if isinstance(v, ProbeI) or not isinstance(v, (int, Fraction)): raise Err('byte')
        return int(v) & 255
    def e_sfill(self, t, env):
        n, v = self.args(t, env)
        if not isinstance(n, int) or n < 0 or n > (9000 if self.big else 2000): raise Err('sfill')
        return chr(self.byte(v)) * n
    def e_cstr(self, t, env): return self.st(self.ev(t.args[0], env)).split('\0')[0]
    def e_chr(self, t, env): return chr(self.byte(self.ev(t.args[0], env)))
    def e_substr(self, t, env):
        s, a, n = self.args(t, env)
        self.st(s)
        if not isinstance(a, int) or not 0 <= a <= len(s): raise Err('substr')
        if n < 0: n = n % (1 << 64)
        return s[a:a + min(n, len(s))]
    def e_srep(self, t, env):
        s, a, n = [self.ev(x, env) for x in t.args[:3]]
        v = self.st(self.ev(t.args[3], env)); self.st(s)
        if not isinstance(a, int) or a < 0 or a + n > len(s): raise Err('srep')
        return s[:a] + v + s[a + n:]
    def e_find(self, t, env):
        s, p, a = self.args(t, env)
        r = self.st(s).find(self.st(p), a) if a <= len(s) else -1
        return NPOSV if r < 0 else r
    def e_rfind(self, t, env):
        s, p, a = self.args(t, env)
        r = self.st(s).rfind(self.st(p), 0, min(a, len(s)) + len(p))
        return NPOSV if r < 0 else r
    def e_split(self, t, env):
        s, p, i = self.args(t, env)
        xs = self.st(s).split(self.st(p))
        if not isinstance(i, int) or i < 0: raise Err('split')
        return xs[i] if i < len(xs) else ''
    def e_tostr(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, PROBES): raise Err('probe')
        return str(v)
    def e_scmp(self, t, env):
        a, b = self.args(t, env)
        return 0 if a == b else -1 if self.st(a) < self.st(b) else 1
    def e_bytes(self, t, env):
        w, sg = t.args[0][0], t.args[0][1]
        v = self.ev(t.args[1], env)
        if not isinstance(v, int): raise Err('bytes')
        return (v & ((1 << (8 * w)) - 1)).to_bytes(w, 'little').decode('latin1')
    def e_unbytes(self, t, env):
        w, sg = t.args[0][0], t.args[0][1]
        s = self.st(self.ev(t.args[1], env))
        if len(s) < w: raise Err('unbytes')
        s = s[:w]
        return int.from_bytes(s.encode('latin1', 'replace'), 'little', signed=bool(sg))
    # files
    def e_filetext(self, t, env):
        return self.leaf('G:file', ('text',), (self.ev(t.args[0], env),), 's')
    def e_openok(self, t, env):
        f = self.ev(t.args[0], env)
        if readmode(t.args[1]): return self.leaf('G:openok', ('v',), (f,), 'i') != 3
        return self.h(('write', f)) % 8 != 3
    def e_eof(self, t, env):
        f, k = self.args(t, env)
        n = len(self.leaf('G:file', ('text',), (f,), 's').split('.'))
        if not isinstance(k, int): raise Err('eof')
        return k >= n
    def e_streamfail(self, t, env):
        f, mode, pos, content, closed = [self.ev(x, env) if type(x) is T and i != 1 else x for i, x in enumerate(t.args)]
        k = self.h(('fails', f)) % 6
        if readmode(mode): return k == 0 and pos > 0
        # a write may fail at once, or only when what was kept back is written at the end
        return k == 1 and bool(closed) or k == 0 and (bool(closed) or content != '')
    e_streambad = e_streamfail
    # randomness: one fixed stream
    def e_rand(self, t, env):
        c = self.chance('rand', self.argkey(t, env))
        return 0 if c is None else c % (1 << 31)
    def e_perm(self, t, env):
        n, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
        if not isinstance(b, int) or not 0 <= b < n or n > (2100 if self.big else 300): raise Err('perm')
        if self.salt and 'rand' in self.salted:
            c = self.chance('rand', (self.argkey(t, env)[0], n))
            x = list(range(n)); random.Random(c).shuffle(x)
            return x[b]
        return n - 1 - b
    def e_sortperm(self, t, env):
        lt_, n, b = t.args[0], self.ev(t.args[1], env), self.ev(t.args[2], env)
        if not isinstance(b, int) or not 0 <= b < n or n > (400 if self.big else 40): raise Err('sortperm')
        import functools
        def c(i, j):
            if self.truth(self.apply(lt_, (i, j), env)): return -1
            if self.truth(self.apply(lt_, (j, i), env)): return 1
            return 0
        return sorted(range(n), key=functools.cmp_to_key(c))[b]
    # JSON
    def e_tojson(self, t, env): return ('v', self.ev(t.args[0], env))
    def e_jput(self, t, env):
        j, k, v = self.args(t, env)
        return self.jput(j, k, v)
    def jput(self, j, k, v):
        if isinstance(k, PROBES): raise Err('probe')
        if isinstance(j, tuple) and j[0] == 'jo':
            d = dict(j[2]); d[k] = v
            return ('jo', j[1], tuple(sorted(d.items(), key=lambda x: repr(x[0]))))
        return ('jo', j, ((k, v),))
    def e_jdel(self, t, env):
        j, k = self.args(t, env)
        return self.jdel(j, k)
    def jdel(self, j, k):
        if isinstance(k, PROBES) or j[0] in ('v', 'ja', 'null'): raise Err('jdel')
        if j[0] == 'jo':
            b = j[1] if j[1] == ('null',) else self.jdel(j[1], k)
            d = dict(j[2]); d.pop(k, None)
            return ('jo', b, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))
        if k in self.jkeys(j): raise Unk('jdel')
        return j
    def jget(self, j, k):
        if isinstance(k, PROBES): return ('null',)
        if j == ('null',): return j
        if j[0] == 'jo':
            d = dict(j[2])
            return d[k] if k in d else self.jget(j[1], k)
        if j[0] == 'jm':
            b = self.jget(j[2], k)
            return b if not self.isnull(b) else self.jget(j[1], k)
        if j[0] in ('v', 'ja'): return ('null',)
        return ('jl', j, ('get', k), ())
    def isnull(self, j):
        if j == ('null',): return True
        if j[0] in ('v', 'ja'): return False
        if j[0] == 'jo': return False
        if j[0] == 'jm': return False
        return self.leaf(('jl', j), ('isnull',), (), 'i') in (0, 3)
    def e_jget(self, t, env):
        j, k = self.args(t, env); return self.jget(j, k)
    def e_isnull(self, t, env): return self.isnull(self.ev(t.args[0], env))
    def e_jas(self, t, env):
        j = self.ev(t.args[1], env)
        if j[0] == 'v':
            v = j[1]
            if t.sort == 'b': return bool(v) if not isinstance(v, (str, tuple)) else v
            if t.sort == 'i' and isinstance(v, (bool,)): return int(v)
            if t.sort in ('i', 'f') and isinstance(v, (str, tuple)): raise Err('jas')
            if t.sort == 's' and not isinstance(v, str): raise Err('jas')
            return v
        if j[0] == 'ja' or j[0] == 'jo' or j[0] == 'jm' or j == ('null',): raise Err('jas')
        p = j[2]; nm = p[1] if len(p) > 1 and p[0] == 'get' and isinstance(p[1], str) else 'v'
        return self.leaf(('jas', str(t.args[0]), j), (nm,), (), t.sort)
    def e_jsize(self, t, env): return self.jsize(self.ev(t.args[0], env))
    def jsize(self, j):
        if j == ('null',): return 0
        if j[0] == 'v': return 1
        if j[0] == 'ja': return len(j[1]) if isinstance(j[1], tuple) else 1
        if j[0] == 'jo': return len(self.jkeys(j))
        return self.leaf(('jl', j), ('#',), (), 'i')
    def jkeys(self, j):
        if j == ('null',): return ()
        if j[0] == 'jo':
            ks = set(dict(j[2])) | set(self.jkeys(j[1]))
            return tuple(sorted(ks, key=lambda k: k if isinstance(k, str) else repr(k)))
        if j[0] == 'jm': return tuple(sorted(set(self.jkeys(j[1])) | set(self.jkeys(j[2])), key=repr))
        if j[0] in ('v', 'ja'): return ()
        n = self.jsize(j)
        out = []
        for i in range(n):
            k = self.leaf(('jl', j), ('key',), (i,), 's')
            while k in out: k += "'"
            out.append(k)
        return tuple(sorted(out))
    def e_jkey(self, t, env):
        j, i = self.args(t, env)
        ks = self.jkeys(j)
        if not isinstance(i, int) or not 0 <= i < len(ks): raise Err('jkey')
        return ks[i]
    def e_jelem(self, t, env):
        j, i = self.args(t, env)
        if isinstance(i, PROBES): raise Err('probe')
        if j[0] == 'ja':
            if not 0 <= i < len(j[1]): raise Err('jelem')
            x = j[1][i]
            return ('ja', x) if isinstance(x, tuple) else ('v', x)
        if j[0] == 'jo' or j[0] == 'jm':
            ks = self.jkeys(j)
            if not 0 <= i < len(ks): raise Err('jelem')
            return self.jget(j, ks[i])
        if j[0] in ('null', 'v'): raise Err('jelem')
        if not 0 <= i < self.jsize(j): raise Err('jelem')
        return ('jl', j, ('elem', i), ())
    def e_jhas(self, t, env):
        j, k = self.args(t, env)
        if isinstance(k, PROBES):
            if j[0] != 'v':
                for x in self.jkeys(j): 
                    if isinstance(x, str): k.sink.add(x)
            return False
        return k in self.jkeys(j)
    def e_jmerge(self, t, env):
        a, b = self.args(t, env)
        if b[0] == 'jo' and b[1] == ('null',):
            for k, v in b[2]: a = self.jput(a, k, v)
            return a
        return ('jm', a, b)
    def e_jtab(self, t, env):
        j = self.ev(t.args[0], env)
        n, inf = self.count(t.args[1], env)
        for i in range(n): j = self.jput(j, self.call1(t.args[2], i, env), self.call1(t.args[3], i, env))
        return j
    def e_tojsonA(self, t, env):
        return ('ja', self.aggval(t.args[1], t.args[2], env))
    def e_jdump(self, t, env):
        j = self.ev(t.args[0], env)
        s = 'JSON' + repr(j)
        self.dumps[s] = j
        return s
    def e_jparse(self, t, env):
        s = self.ev(t.args[0], env)
        if s in self.dumps: return self.dumps[s]
        return ('jl', 'parse', (s,), ())
    # Python values
    def e_pyget(self, t, env):
        b = self.ev(t.args[1], env); k = self.ev(t.args[2], env)
        while isinstance(b, tuple) and b and b[0] == 'pyput' and b[1] == t.args[0]:
            if b[3] == k: return b[4]
            b = b[2]
        if self.kw is not None and t.args[0] == 'py' and isinstance(k, str):
            for n, v in self.kw:
                if n == k: return ('pyval', v)
            raise Err('kwargs')
        return ('pyget', t.args[0], b, k)
    def e_pyput(self, t, env):
        b, k, v = [self.ev(x, env) for x in t.args[1:4]]
        return ('pyput', t.args[0], b, k, v)
    # aggregates, opaque operations
    def okpath(self, p):
        if self.fields is None: return True
        return all(c in self.fields or c in ('#', '*', '{}', '{?}', 'first', 'second') or c.isdigit() for c in p)
    def e_aggeq(self, t, env):
        a, b = self.args(t, env)
        return a == b
    def e_agg(self, t, env):
        return ('agg', self.aggval(t.args[0], t.args[1], env))
    def aggval(self, names, leaves, env):
        items = [(p, l) for p, l in zip(names, leaves) if self.okpath(p)]
        return self.aggrec([(p, l) for p, l in items], (), env)
    def aggrec(self, items, idx, env):
        if len(items) == 1 and items[0][0] == ():
            return self.apply(items[0][1], idx, env)
        g = {}
        for p, l in items: g.setdefault(p[0] if p else '', []).append((p[1:], l))
        if '#' in g:
            n = self.aggrec(g['#'], idx, env)
            if not isinstance(n, int) or n > (5200 if self.big else 80): raise Err('agg')
            if '*' not in g: return ('n', n)
            return tuple(self.aggrec(g['*'], idx + (i,), env) for i in range(max(n, 0)))
        if '{?}' in g:
            l = g['{?}'][0][1]
            x = l
            s = l.args[2][-1] if l.op == 'lam' else 'i'
            ks = self.keysof(lambda c: self.apply(l, idx + (c,), env), s)
            if '{}' in g: return ('map',) + tuple((k, self.aggrec(g['{}'], idx + (k,), env)) for k in ks)
            return ('set',) + ks
        return ('rec',) + tuple((c, self.aggrec(g[c], idx, env)) for c in sorted(g))
    def ext(self, x, env):
        """value of an argument of an uninterpreted operation"""
        if type(x) is T:
            if x.op == 'lam':
                n, h, sorts, body = x.args
                doms = [self.universe(s)[:4] for s in sorts]
                import itertools
                return tuple(self.apply(x, c, env) for c in itertools.product(*doms))
            return self.ev(x, env)
        if type(x) is tuple: return tuple(self.ext(y, env) for y in x)
        return x
    def e_res(self, t, env):
        name, path = t.args[0], t.args[1]
        pk = t.args[2:]
        nidx = sum(1 for p in path if p in ('*', '{}', '{?}'))
        vals = tuple(self.ev(x, env) for x in pk)
        args, idx = (vals[:-nidx], vals[-nidx:]) if nidx else (vals, ())
        if any(isinstance(a, PROBES) for a in args): raise Err('probe')
        if self.linker is not None:
            o = self.linker.outcome(name)
            if o is not None: return self.link(o, name, path, args, idx)
        return self.leaf(('res', name, args), path, idx, t.sort)
    def link(self, o, name, path, args, idx):
        """the value of an opaque operation, computed from its own value graph"""
        if self.depth > 5: raise Err('depth')
        key = (name, args)
        sub = self.subs.get(key)
        if sub is None:
            bind = {}
            a = list(args)
            if o.rec is not None and not o.f.get('static') and not o.f.get('ctor'): bind['this'] = a.pop(0)
            for i, nm in enumerate(o.names):
                if i >= len(a): raise Unk('arguments of ' + name)
                bind['A:' + nm] = a[i]
            for k, v in bind.items():
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg': bind[k] = v[1]
            sub = SubModel(self, bind)
            sub.tag = (self.tag, name, args)
            sub.ok = True
            try:
                for l in o.lits:
                    if not sub.truth(sub.run(l)): sub.ok = False; break
            except Err: sub.ok = False
            self.subs[key] = sub
        if not sub.ok: raise Err('throws')
        if path and path[0] == 'after':
            slot = path[1]; p = path[2:]
            root = 'this' if slot == 'this' else 'A:' + o.names[int(slot[1:])]
        else:
            p = path
            root = 'this' if o.f.get('ctor') else 'ret'
        ob = o.objs.get(root)
        if ob is None: raise Unk('result of ' + name)
        t = ob.get(p)
        if t is None:
            if p and p[-1] == '#' and p[:-1] + ('{?}',) in ob:
                l = ob[p[:-1] + ('{?}',)]
                return len(sub.keysof(lambda c: sub.apply(l, idx + (c,), {}), l.args[2][-1] if l.op == 'lam' else 'i'))
            raise Unk('result of %s %s' % (name, path))
        return sub.apply(t, idx, {})
    def e_ptr(self, t, env): return ('ptr', t.args[0], t.args[1]) + tuple(self.ev(x, env) for x in t.args[2:])
    def e_cref(self, t, env): return ('cref',)
    def e_iter(self, t, env): return ('iter', self.ev(t.args[1], env))
    def e_pyhas(self, t, env): return self.e_other(t, env) if self.kw is None else any(k == self.ev(t.args[1], env) for k, v in self.kw)
    # keyword arguments given as a list of (name, value)
    def kwpos(self, t, env):
        i = self.ev(t.args[1], env)
        if not isinstance(i, int) or not 0 <= i < len(self.kw): raise Err('kwargs')
        return i
    def e_pysize(self, t, env): return len(self.kw) if self.kw is not None else self.e_other(t, env)
    def e_pykey(self, t, env): return self.e_other(t, env) if self.kw is None else ('pykey', self.kw[self.kwpos(t, env)][0])
    def e_pyval(self, t, env): return self.e_other(t, env) if self.kw is None else ('pyval', self.kw[self.kwpos(t, env)][1])
    def e_pystr(self, t, env):
        if self.kw is None: return self.e_other(t, env)
        x = self.ev(t.args[0], env)
        if isinstance(x, tuple) and x[0] == 'pykey': return x[1]
        raise Unk('pystr')
    def e_pycast(self, t, env):
        if self.kw is None: return self.e_other(t, env)
        x = self.ev(t.args[1], env)
        if not (isinstance(x, tuple) and x[0] == 'pyval'): raise Unk('pycast')
        x = x[1]
        if len(t.args) > 2: return self.look(x, t.args[2], [self.ev(y, env) for y in t.args[3:]], t.sort)
        if isinstance(x, tuple): raise Err('pycast')
        if t.sort == 'b' and not isinstance(x, bool): raise Err('pycast')
        if t.sort == 'i' and (isinstance(x, bool) or not isinstance(x, int)): raise Err('pycast')
        return x
    def e_other(self, t, env):
        a = tuple(self.ext(x, env) for x in t.args)
        if self.known is not None and (t.op, t.args[0] if t.args and isinstance(t.args[0], str) else None) not in self.known: raise Unk('operation ' + t.op)
        if any(isinstance(x, PROBES) for x in a): raise Err('probe')
        if t.sort in ('o', 'j'): return (t.op,) + a
        path = ('v',)
        return self.leaf(('u', t.op) + a, path, (), t.sort)

class SubModel(Model):
    """an operation's value graph under an interpretation of its object and arguments"""
    def __init__(self, up, bind):
        self.up = up; self.bind = bind; self.big = up.big
        self.seed = up.seed; self.known = None; self.leaftype = up.leaftype; self.consts = up.consts; self.strs = up.strs
        self.fields = up.fields; self.linker = up.linker; self.profile = up.profile
        self.over = {}; self.objs = {}; self.files = {}; self.pre = {}; self.free = None; self.touch = None; self.depth = up.depth + 1
        self.salt = up.salt; self.salted = up.salted; self.mutable = up.mutable; self.tag = up.tag; self.kw = up.kw
        self.memo = {}; self.dumps = up.dumps; self.gens = {}; self.subs = {}
        top = up
        while isinstance(top, SubModel): top = top.up
        self.top = top
        self.stop = 0
        self.fuel = top.fuel
    def ev(self, t, env):
        if t.op != 'num' and t.op != 'bv':
            self.top.fuel -= 1
            if self.top.fuel < 0: raise Out('fuel')
            if not self.top.fuel & 255 and _time.time() > self.top.stop: raise Out('time')
            self.fuel = 1000
        return Model.ev(self, t, env)
    def leaf(self, root, path, idx, sort, ty=None):
        if isinstance(root, str) and root in self.bind:
            return self.look(self.bind[root], path, idx, sort)
        return self.up.leaf(root, path, idx, sort, ty)

# ------------------------------------------------------------------ search
def opset(ts):
    """the operations of the required terms; others have no known meaning"""
    out = set(); seen = set()
    for t in ts:
        for x in walk(t, seen): out.add((x.op, x.args[0] if x.args and isinstance(x.args[0], str) else None))
    return out
def mined(terms):
    ints = set(); strs = set(); seen = set()
    for t in terms:
        for x in walk(t, seen):
            if x.op == 'num' and isinstance(x.args[0], int) and abs(x.args[0]) < 1 << 66: ints.add(x.args[0])
            elif x.op == 'lin':
                if isinstance(x.args[0], int): ints.add(abs(x.args[0]))
                for m, k in x.args[1]:
                    if isinstance(k, int) and abs(k) > 1: ints.add(abs(k))
            elif x.op == 'str' and len(x.args[0]) <= 8: strs.add(x.args[0])
    return sorted(ints), sorted(strs)

def eqsolve(m, lit, env, rnd):
    """try to make a linear literal true by adjusting one leaf"""
    pos = True
    if lit.op == 'not': lit = lit.args[0]; pos = False
    if lit.op not in ('le0', 'eq0', 'fle0', 'flt0'): return False
    c, d = poly(lit.args[0])
    cand = []
    for mo, k in d.items():
        if len(mo) == 1 and mo[0].op == 'init' and mo[0].sort in ('i', 'f') and (m.free is None or m.free((mo[0].args[0], mo[0].args[1], ()))): cand.append((mo[0], k))
    if not cand: return False
    a, k = rnd.choice(cand)
    try:
        v = m.ev(lit.args[0], env); x = m.ev(a, env)
        idx = tuple(m.ev(y, env) for y in a.args[2:])
    except (Err, Out, Unk): return False
    if isinstance(v, ProbeI): return False
    target = 0
    if not pos: target = rnd.choice((1, -1, 2))
    nv = x - Fraction(v - target) / k
    if a.sort == 'i':
        if nv.denominator != 1: return False
        nv = int(nv)
        if a.args[1] and a.args[1][-1] == '#' and not 0 <= nv <= 6: return False
    key = (a.args[0], a.args[1], idx)
    if m.free is not None and not m.free.ok(key, nv): return False
    m.over[key] = nv
    return True

def satisfy(m, lits, rnd, tries=60):
    """adjust the interpretation until the literals hold"""
    for _ in range(tries):
        if HARD[0] and _time.time() > HARD[0]: return False
        m.reset()
        bad = None
        for l in lits:
            try:
                if not m.truth(m.run(l)): bad = l; break
            except (Err, Out): bad = l; break
        if bad is None: return True
        if eqsolve(m, bad, {}, rnd) : continue
        m.reset(); m.touch = {}
        try: m.run(bad)
        except (Err, Out): pass
        tl = [x for x in m.touch.items() if m.free is None or m.free(x[0])]; m.touch = None
        if not tl: return False
        key, sort = rnd.choice(tl)
        try: nv = m.gen(key[0], key[1], key[2], sort, rnd.getrandbits(64))
        except Exception: return False
        if m.free is None or m.free.ok(key, nv): m.over[key] = nv
    return False

def natural(wanted, n, base=1, leaftype=None, fields=None, linker=None, known=None, maker=None, limit=160, budget=1.5):
    """seeds of well-formed states under which the wanted literals hold without any adjustment"""
    if maker is None or not wanted: return []
    t0 = _time.time()
    ints, strs = mined(list(wanted))
    old = HARD[0]; out = []
    for s in range(limit):
        if _time.time() - t0 > budget or len(out) >= n: break
        HARD[0] = t0 + budget
        m = Model(base * 1000 + s, leaftype, ints, strs, fields, linker); m.known = known
        maker(m, base * 1000 + s)
        try:
            m.reset()
            if all(m.truth(m.run(l)) for l in wanted): out.append(s)
        except Unk: break
        except (Err, Out, RecursionError): continue
    HARD[0] = old
    return out

def separate(lits, a, b, n=60, leaftype=None, fields=None, linker=None, base=1, tries=60, extra=(), budget=None, known=None, maker=None, seeds=None, more=0):
    """an interpretation under which the literals hold and the terms a and b differ, or None.
    Returns (model, value of a, value of b) / None, and the number of interpretations tried"""
    import time
    t0 = time.time()
    HARD[0] = t0 + budget if budget else 0
    ints, strs = mined([a, b] + list(lits))
    done = 0
    for s in (range(n) if seeds is None else seeds) if not more else range(n + more):
        if budget and time.time() - t0 > (budget if s < n else min(budget, 2.5)): break
        m = Model(base * 1000 + s, leaftype, ints, strs, fields, linker)
        m.known = known
        if maker is not None: maker(m, base * 1000 + s)
        rnd = random.Random(base * 7919 + s)
        try:
            if m.big:
                m.reset()
                if not all(m.truth(m.run(l)) for l in lits): continue
            elif not satisfy(m, list(lits) + list(extra), rnd, tries): continue
            x = m.run(a); y = m.run(b)
        except (Err, Out): continue
        except Unk: return None, done
        except RecursionError: continue
        done += 1
        if isinstance(x, PROBES) or isinstance(y, PROBES): continue
        if x != y: return (m, x, y), done
    return None, done
