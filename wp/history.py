"""Fields a class has beyond the reviewed ones: histories of operations, composed from the value graphs, from a constructor on.
A new field may hold anything an operation stores there, so states of one moment do not settle whether it is kept in step; the states
used here are those a constructor and a sequence of operations give, under the interpretations of their value graphs."""
import random, time, re
from .term import *
from . import api, props, model, states, ir
from .contrast import *
from .model import Err, Out, Unk, Model
COURSES = 6       # histories from one beginning
CHANCE = {'rand', 'perm', 'shuffle'}

def added(ref, cur):
    """{class: names of the fields the reference does not have}"""
    old = {}
    for x in ref.records.values():
        if x['short'] in states.World.OBJ: old.setdefault(x['short'], set()).update(f['n'] for f in ref.allfields(x))
    out = {}
    for x in cur.records.values():
        s = x['short']
        if s not in old or s.endswith('Wrapper'): continue
        new = {f['n'] for f in cur.allfields(x) if not f.get('static')} - old[s]
        if new: out[s] = new
    return out
def strip(v, keep):
    """the value with the reviewed fields only"""
    if isinstance(v, tuple):
        if v and v[0] == 'rec': return ('rec',) + tuple((k, strip(x, keep)) for k, x in v[1:] if k in keep)
        return tuple(strip(x, keep) for x in v)
    return v
def fieldsof(v): return dict(v[1:]) if isinstance(v, tuple) and v and v[0] == 'rec' else {}

class Op:
    def __init__(self, name, ref, cur, chance): self.name, self.ref, self.cur, self.chance = name, ref, cur, chance
def chancy(o):
    seen = set()
    for ob in o.objs.values():
        for t in ob.values():
            for x in walk(t, seen):
                if x.op in CHANCE: return True
    return False
def opsof(P, tu, cls):
    """operations of the class in both programs: (constructors, others)"""
    from .main import reference_index, find_current
    ref, cur = P['ref'], P[tu]
    ct, op = [], []
    for (c, n, types), (rrec, rf) in sorted(reference_index(ref).items(), key=lambda x: str(x[0])):
        if c != cls or rf.get('static') or n.startswith('~'): continue
        f = find_current(cur, rrec, n, types)
        if f is None: continue
        try:
            a = outcome(ref, rrec, rf); b = outcome(cur, *f, names=a.names)
        except Exception: continue
        if not a.alive or not b.alive: continue
        o = Op(props.opname(api, ref, rf), a, b, chancy(a) or chancy(b))
        o.f = f[1]; o.rec = rrec; o.rf = rf
        (ct if rf.get('ctor') else op).append(o)
    return ct, op

def mentions(o, new, writes=True):
    if writes and any(v is not o.it.initcell('this', p) for p, v in o.objs.get('this', {}).items() if p and p[0] in new): return True
    seen = set()
    for ob in o.objs.values():
        for p, t in ob.items():
            if p and p[0] in new: continue
            for x in walk(t, seen):
                if any(isinstance(a, tuple) and any(isinstance(c, str) and c in new for c in a) for a in x.args if isinstance(a, tuple)): return True
    return False
def common(vs):
    """what several values agree on"""
    a = vs[0]
    if all(x == a for x in vs[1:]): return a
    if all(isinstance(x, tuple) and len(x) == len(a) for x in vs) if isinstance(a, tuple) else False: return tuple(common([x[i] for x in vs]) for i in range(len(a)))
    return Ellipsis
def differ(a, b):
    if a is Ellipsis or b is Ellipsis: return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return any(differ(x, y) for x, y in zip(a, b))
    return a != b

class Player:
    def __init__(self, P, tu, cls):
        self.P, self.tu, self.cls = P, tu, cls
        self.ref, self.cur = P['ref'], P[tu]
        self.glob = link_tables(self.ref, self.cur)
        self.keep = allfields(self.ref)
        self.fields = self.keep | allfields(self.cur)
        self.ctors, self.ops = opsof(P, tu, cls)
        new = self.fields - self.keep
        self.users = [o for o in self.ops if mentions(o.cur, new)]
        self.readers = [o for o in self.users if mentions(o.cur, new, False)] or self.users
        self.changers = [o for o in self.ops if any(v is not o.cur.it.initcell('this', p) for p, v in o.cur.objs.get('this', {}).items() if p and p[0] not in new)]
        ts = [t for o in self.ops for ob in o.cur.objs.values() for t in ob.values()]
        self.consts = model.mined(ts)
        self.steps = 0
    def pick(self, rnd, w, o, this, used):
        """arguments of the next call, often those of an earlier one"""
        if used.get(o.name) and rnd.random() < .6: return rnd.choice(used[o.name])
        a = self.args(w, o, this)
        used.setdefault(o.name, []).append(a)
        return a
    def course(self, rnd, heads=None):
        """the operations of a history: one that uses the added fields, one that changes the object, others"""
        ch = self.changers or self.ops
        sure = [o for o in ch if not o.chance] or ch
        few = [rnd.choice(heads or self.readers or self.ops), rnd.choice(sure if rnd.random() < .7 else ch)]
        if rnd.random() < .5: few.append(rnd.choice(sure if rnd.random() < .7 else ch))
        rel = [o for o in self.users if not o.chance] + sure
        return [rnd.choice(few) if rnd.random() < .85 else rnd.choice(rel) for _ in range(rnd.choice((3, 4, 5, 7)))]
    def run(self, o, prog, w, objs, seed, salt=0):
        """(threw, object afterwards, result)"""
        m = Model(seed, leaftype(o.it), self.consts[0], self.consts[1], self.fields, linker(prog))
        m.objs = dict(self.glob); m.objs.update(objs)
        m.pre = dict(w.dumps); m.files = w.files; m.reset()
        if salt: m.resalt(salt, ('rand',))
        self.steps += 1
        for l in o.lits:
            if not m.truth(m.run(l)): return True, None, None
        this = ret = None
        if 'this' in o.objs:
            v = m.run(aggterm(o.objs['this'], list(o.objs['this'])))
            this = v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg' else v
        if 'ret' in o.objs:
            v = m.run(aggterm(o.objs['ret'], list(o.objs['ret'])))
            ret = v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'agg' else v
        return False, this, ret
    def args(self, w, o, this):
        make = w.object
        try: return self.args0(w, o, this)
        finally: w.object = make
    def args0(self, w, o, this):
        def ty(t): return props.pname(api.tysig(self.ref, t)).replace('const', '').rstrip('&*')
        params = [(o.ref.names[i], p['t']) for i, p in enumerate(o.rf['params'])]
        isctor = bool(o.rf.get('ctor'))
        if not isctor: w.object = lambda cls: this
        out = w.arguments(self.cls, o.name.split('(')[0].split('::')[-1], params, ty, isctor)
        out.pop('this', None)
        if any('A:' + n not in out for n, t in params if ty(t) not in ('bool',)): 
            for n, t in params:
                if 'A:' + n in out: continue
                k = ty(t)
                if k == 'bool': out['A:' + n] = w.p(.5)
                elif k in ('int', 'unsignedint', 'U', 'unsignedlong'): out['A:' + n] = w.r.choice((0, 1, 1, 2, 3))
        else:
            for n, t in params:
                if ty(t) == 'bool' and 'A:' + n not in out: out['A:' + n] = w.p(.5)
        if not isctor:
            # small batches, and labels the object knows
            if w.p(.6):
                for n in ('A:images', 'A:labels'):
                    if isinstance(out.get(n), tuple) and out[n][:1] not in (('map',), ('rec',)): out[n] = out[n][:1]
            ks = [k for g, v in fieldsof(this).items() if g in ('discriminators', 'clusters') and v[:1] == ('map',) for k, z in v[1:] if isinstance(k, str)]
            if ks and w.p(.7):
                if isinstance(out.get('A:label'), str): out['A:label'] = w.r.choice(ks)
                elif isinstance(out.get('A:labels'), tuple) and out['A:labels'][:1] != ('map',): out['A:labels'] = tuple(w.r.choice(ks) for _ in out['A:labels'])
        return out
    def begin(self, w, rnd, seed):
        """an object a constructor gives in both programs"""
        if not self.ctors: raise Err('no constructor')
        plain = [c for c in self.ctors if not c.chance] or self.ctors
        full = [c for c in self.ctors if re.search(r'\((S|J)\)$', c.name)] or plain
        c = rnd.choice(full if rnd.random() < .6 else plain if rnd.random() < .8 else self.ctors)
        a = self.args(w, c, None)
        ta, x, _ = self.run(c.ref, self.ref, w, a, seed)
        tb, y, _ = self.run(c.cur, self.cur, w, a, seed)
        if ta or tb: raise Err('refused')
        if x != strip(y, self.keep) and not set(fieldsof(x)) - set(fieldsof(strip(y, self.keep))): raise Err('different beginnings')
        return x, y, [(c.name, a)]
def told(v): return repr(v)[:300]
def tale(h): return ['history: ' + '; '.join('%s%s' % (n, ' ' + told(tuple(sorted(a.items()))) if a else '') for n, a in h)[:1800]]

def judge(P, tu, cls, new, prop, r, budget=40, lim=3000):
    """the answers of every history are the reviewed ones"""
    pl = Player(P, tu, cls)
    if not pl.ops or not pl.ctors: return
    t0 = time.time(); n = done = 0; found = set(); start = None
    while n < lim and time.time() - t0 < budget:
        n += 1
        seed = 70000 + n; rnd = random.Random(seed)
        model.HARD[0] = time.time() + 2
        try:
            if n % COURSES == 1 or start is None:
                start = None; w = states.World(seed)
                start = pl.begin(w, rnd, seed)
            x, y, h = start
            used = {}
            for k, o in enumerate(pl.course(rnd)):
                a = pl.pick(rnd, w, o, x, used)
                ta, x2, p = pl.run(o.ref, pl.ref, w, dict(a, this=x), seed * 16 + k)
                tb, y2, q = pl.run(o.cur, pl.cur, w, dict(a, this=y), seed * 16 + k)
                h = h + [(o.name, a)]
                done += 1
                bad = None
                q = strip(q, pl.keep)
                if ta != tb: bad = ('exit', 'the call is %s' % ('accepted where it has to be refused' if ta else 'refused where it has to be accepted'), None, None)
                elif ta: break
                elif p != q: bad = ('ret', 'the result differs', p, q)
                else:
                    fx, fy = fieldsof(x2), fieldsof(strip(y2, pl.keep))
                    for g in sorted(fx):
                        if g in fy and fx[g] != fy[g]: bad = ('this.' + g, '%s differs' % g, fx[g], fy[g]); break
                if bad and o.chance and not ta:
                    # what holds whatever chance gives
                    A = [pl.run(o.ref, pl.ref, w, dict(a, this=x), seed * 16 + k, j) for j in (1, 2, 3)]
                    B = [pl.run(o.cur, pl.cur, w, dict(a, this=y), seed * 16 + k, j) for j in (1, 2, 3)]
                    if any(z[0] for z in A + B): break
                    def val(z): return z[2] if bad[0] == 'ret' else fieldsof(z[1])[bad[0][5:]]
                    u, v = common([val(z) for z in A]), common([val((z[0], strip(z[1], pl.keep), strip(z[2], pl.keep))) for z in B])
                    if not differ(u, v): break
                    bad = bad[:2] + (u, v)
                if bad:
                    if not o.chance or bad[0] != 'exit': report(P, tu, prop, r, o, bad, h, new, found)
                    break
                x, y = x2, y2
        except Unk as e:
            if done == 0 and n > 60: break
            continue
        except (Err, Out, RecursionError, KeyError, TypeError): continue
    model.HARD[0] = 0
    r.tried += done
    r.obligation(done > 0 and not found, '%s %s: %d steps of histories with the added fields %s' % (tu, cls, done, ', '.join(sorted(new))),
                 None if done else '%s %s: no history with the added fields %s can be evaluated' % (tu, cls, ', '.join(sorted(new))))
def report(P, tu, prop, r, o, bad, h, new, found):
    fc = props.facets(prop, o.name)
    if fc is None: return
    kinds, want = fc
    k = bad[0]
    if k == 'exit' and 'exit' not in kinds: return
    if k == 'ret' and not want('ret', ()): return
    if k[:5] == 'this.' and not want('this', (k[5:],)): return
    key = (o.name, k)
    if key in found: return
    found.add(key)
    cur = P[tu]
    r.find('history', cur.loc(o.f['l']), o.name, 'after earlier calls %s (the added state %s is not kept in step)' % (bad[1], ', '.join(sorted(new))),
           (['required: ' + told(bad[2]), 'found:    ' + told(bad[3])] if k != 'exit' else []) + tale(h))

def silent(P, tu, cls, new, isquery, r, prop, budget=40, lim=3000):
    """no query changes what a later operation answers"""
    pl = Player(P, tu, cls)
    qs = [o for o in pl.ops if isquery(o.name) and not o.chance]; rest = [o for o in pl.ops if not o.chance]
    if not qs or not pl.ctors: return
    heads = [o for o in qs if o in pl.users]
    t0 = time.time(); n = done = 0; found = set(); start = None
    while n < lim and time.time() - t0 < budget:
        n += 1
        seed = 90000 + n; rnd = random.Random(seed)
        model.HARD[0] = time.time() + 2
        try:
            if n % COURSES == 1 or start is None:
                start = None; w = states.World(seed)
                start = pl.begin(w, rnd, seed)
            x, y, h = start
            z = y; asked = None
            used = {}
            for k, o in enumerate(pl.course(rnd, heads)):
                if o not in rest: continue
                a = pl.pick(rnd, w, o, strip(y, pl.keep), used)
                ty, y2, p = pl.run(o.cur, pl.cur, w, dict(a, this=y), seed * 16 + k)
                h = h + [(o.name, a)]
                # the other history leaves its queries out and asks only what is compared
                tz, z2, q = pl.run(o.cur, pl.cur, w, dict(a, this=z), seed * 16 + k)
                done += 1
                if asked and (ty != tz or not ty and p != q):
                    g = asked if prop == 'C01' else o
                    if g.name not in found and (prop == 'C01' or re.search(r'classify|getVote|Classify', o.name)):
                        found.add(g.name)
                        r.find('history', pl.cur.loc(g.f['l']), g.name, 'a query asked before changes what %s answers (through the added state %s)' % (o.name, ', '.join(sorted(new))),
                               ['asked before: ' + told(p) if not ty else 'asked before: refused', 'not asked:    ' + told(q) if not tz else 'not asked: refused'] + tale(h))
                    break
                if ty or tz: break
                y = y2
                if o in qs: asked = o
                else: z = z2
        except Unk:
            if done == 0 and n > 60: break
            continue
        except (Err, Out, RecursionError, KeyError, TypeError): continue
    model.HARD[0] = 0
    r.tried += done
    r.obligation(done > 0 and not found, '%s %s: %d steps of histories with and without queries' % (tu, cls, done), None if done else '%s %s: no history with queries can be evaluated' % (tu, cls))

def tasks(P, prop, isquery):
    ts = []
    for tu in ('src', 'hdr'):
        for cls, new in sorted(added(P['ref'], P[tu]).items()):
            if prop in ('C01', 'C03'):
                ts.append(('%s %s histories with queries' % (tu, cls), lambda r, tu=tu, cls=cls, new=new: silent(P, tu, cls, new, isquery, r, prop), 120))
            if prop in props.TABLE:
                ts.append(('%s %s histories' % (tu, cls), lambda r, tu=tu, cls=cls, new=new: judge(P, tu, cls, new, prop, r), 120))
    return ts
