"""Well-formed object states and arguments for the random interpretations.

The object an operation is applied to, and objects passed to it, satisfy what every constructor and
operation of the library establishes (a RAM addresses positions of its entry, its counters have keys
below base^addresses, the discriminators of a cluster are numbered from 0, ...).  Plain arguments may
be anything a caller can pass.  Values: ints, bools, Fractions, strings, tuples for sequences,
('map',(k,v)..), ('rec',(field,v)..); JSON as in model.py."""
import random, base64
from fractions import Fraction
F = Fraction
LABELS = ('a', 'b', 'a::b', 'c', '::', '0', 'x::', 'zz', 'c\0d')
def rec(**f): return ('rec',) + tuple(sorted(f.items()))
def mp(d): return ('map',) + tuple(sorted(d.items(), key=lambda x: x[0] if isinstance(x[0], str) else '%030d' % (x[0] + (1 << 70))))
def getf(v, n):
    for x in v[1:]:
        if x[0] == n: return x[1]
def b64(s): return base64.b64encode(s.encode('latin1')).decode()
def jv(x): return ('v', x)
def jo(d): return ('jo', ('null',), tuple(sorted(d.items(), key=lambda x: str(x[0]))))
def ja(x): return ('ja', tuple(x))
def chars(b): return ''.join(chr(c) for c in b)

class World:
    # what of a state a threshold may be about
    KINDS = {'Bleaching': 'votes votes votes votes label named named labels', 'BBleaching': 'votes label named labels', 'Base64': 'bytes ints', 'BinInput': 'bytes bytes ints',
             'DataSet': 'data data label label named named bytes ints', 'RAMDataHandle': 'rams counts counts addrs ints', 'KernelCanvas': 'kernels ints', 'KernelCanvasWrapper': 'kernels ints',
             'Synthesizer': 'votes votes ints', 'RAM': 'counts counts addrs base pixels entry ints', 'Discriminator': 'counts count count entry rams rams addrs base pixels images ints',
             'Wisard': 'images images images entry label label named named labels counts count addrs base data rams pixels ints',
             'ClusWisard': 'images images images entry label label named named labels counts count addrs base data rams pixels ints discs discs',
             'Cluster': 'counts counts count count discs discs discs entry addrs base pixels votes ints rams',
             '': 'images entry label named labels counts count addrs base data discs votes bytes ints rams pixels kernels'}
    def __init__(self, seed, magic=None):
        r = self.r = random.Random(seed * 2654435761 % (1 << 31))
        self.seed = seed
        self.kind = None; self.c = 0; self.lb = LABELS
        if magic: self.stretch(magic)
        k = r.random()
        self.wide = k < .12
        if self.wide:
            self.base = r.choice((2, 2, 2, 3, 4, 16, 256, 65536, 1 << 31))
            m = 1
            while self.base ** (m + 1) <= 1 << 64: m += 1
            self.n = r.choice((m, max(2, m - 1), max(2, min(m, 33))))
            self.N = self.n if r.random() < .6 else self.n + r.randint(0, 2)
        else:
            self.base = r.choice((2, 2, 2, 2, 3, 3, 4, 5))
            self.N = r.choice((2, 3, 4, 4, 5, 6, 6, 7))
            self.n = r.randint(2, max(2, min(3, self.N)))
        self.iz = r.random() < .4
        self.complete = r.random() < .6
        self.images = [self.image0() for _ in range(r.choice((1, 2, 2, 3)))]
        # rarer shapes come from a stream of their own
        self.r2 = random.Random(seed * 40503 + 77)
        self.many = self.r2.random() < .08
        self.bare = self.r2.random() < .06
        if self.r2.random() < .07 and not self.wide:
            self.N = self.r2.choice((8, 9, 12)); self.n = 2
            self.images = [self.image0() for _ in self.images]
        k = self.kind
        if k in ('entry', 'rams') and 2 <= self.c <= 1200:
            self.n = 2; self.N = self.c if k == 'entry' else min(2 * self.c, 1200); self.wide = False; self.images = [self.image0() for _ in self.images]
        elif k == 'addrs' and 2 <= self.c <= 64:
            self.n = self.c; self.N = self.c + self.r3.choice((0, 0, 1, self.c)); self.base = 2 if self.c > 20 else self.base; self.images = [self.image0() for _ in self.images]
        elif k == 'base' and self.c >= 2:
            self.base = self.c; self.n = 2; self.images = [self.image0() for _ in self.images]
        elif k == 'pixels' and self.images:
            self.base = max(self.base, self.c + 1); self.n = 2 if self.c > 9 else self.n; self.wide = False
            self.images = [im[:i] + (self.c,) + im[i + 1:] for im in self.images for i in (self.r3.randrange(len(im)),)]
        self.r4 = random.Random(seed * 9176 + 13)        # counters of every small value
        self.dumps = {}
        self.files = {}
    def stretch(self, magic):
        r = self.r3 = random.Random(self.seed * 69069 + 5)
        ints, strs, cls = magic
        cls = cls.replace('Wrapper', '')
        ks = [k for k in (self.KINDS.get(cls) or self.KINDS['']).split() if (strs if k == 'named' else ints)]
        if not ks: return
        self.kind = r.choice(ks)
        if ints: self.c = r.choice(ints) + r.choice((0, 1, 1, 2, 2, 3, -1))
        if ints and r.random() < .1: self.c = self.c // 2 * 4
        c = self.c
        if self.kind == 'label' and 0 < c <= 5000:
            l = list(LABELS)
            for i in range(5): l[i] = (l[i] * (c // max(1, len(l[i])) + 1))[:c] if r.random() < .6 else l[i]
            if len(set(l)) == len(l): self.lb = tuple(l)
        elif self.kind == 'named':
            l = list(LABELS)
            for i, x in enumerate(r.sample(strs, min(3, len(strs)))):
                if x not in l: l[i] = x
            self.lb = tuple(l)
    def many_of(self, k, lim=5000):
        """the number asked for where this state is about k"""
        return self.c if self.kind == k and 0 <= self.c <= lim else None
    def p(self, x): return self.r.random() < x
    def image0(self):
        hi = self.base - 1
        return tuple(0 if self.p(.3) else self.r.choice((1, hi, self.r.randint(0, hi))) for _ in range(self.N))
    def img(self): return self.r.choice(self.images)
    # ------------------------------------------------------------- objects
    def mapping(self):
        N, n = self.N, self.n
        ix = list(range(N)); self.r.shuffle(ix)
        nr = N // n + (1 if self.complete and N % n else 0)
        while len(ix) < nr * n: ix.append(self.r.randrange(N))
        return [ix[i * n:(i + 1) * n] for i in range(nr)]
    def index(self, addrs, img):
        s = 0; p = 1
        for a in addrs: s += img[a] * p; p *= self.base
        return s
    def ram(self, addrs=None, empty=False):
        if addrs is None: addrs = [self.r.randrange(self.N) for _ in range(self.n)]
        pos = {}
        if not empty:
            for im in self.images:
                if self.p(.65): pos[self.index(addrs, im)] = 70000 + self.r.randrange(9) if self.p(.1) else self.r.choice((1, 1, 1, 2, 2, 3, 5, 0, -1, 40))
            for _ in range(self.r.choice((0, 1, 2))): pos[self.r.randrange(self.base ** len(addrs))] = self.r.choice((1, 1, 2, 3, 7))
            if self.p(.25): pos[0] = self.r.choice((1, 2, 3))
            if self.wide and self.p(.4): pos[self.base ** len(addrs) - 1] = 2
            if self.r2.random() < .1: pos = {}
            if self.r4.random() < .3:
                for k in list(pos):
                    if self.r4.random() < .5: pos[k] = self.r4.randint(-8, 16)
            if self.kind in ('rams', 'entry') and self.c > 20: pos = dict(list(pos.items())[:self.r3.choice((0, 0, 1))])
            if self.kind == 'counts' and 0 < self.c < 1 << 31:
                for k in list(pos) or [0]:
                    if self.r3.random() < .7: pos[k] = self.c
        return rec(addresses=tuple(addrs), positions=mp(pos), ignoreZero=self.iz, base=self.base)
    def disc(self, empty=False):
        return rec(entrySize=self.N, count=0 if empty else self.c * self.r3.choice((1, 1, 2, 4)) if self.kind == 'count' and 0 < self.c < 1 << 28 else self.r.choice((1, 1, 2, 3, 6)) if self.r4.random() < .8 else self.r4.randint(0, 12), rams=tuple(self.ram(a, empty) for a in self.mapping()))
    def labels(self, k):
        ls = self.r.sample(self.lb, k)
        c = self.many_of('labels', 200)
        if c: return (ls + ['l%d' % i for i in range(c)])[:c]
        if self.many:
            for l in ('',) + self.lb:
                if l not in ls and self.r2.random() < .5: ls.append(l)
        elif ls and self.r2.random() < .07: ls[0] = ''
        return ls
    def wisard(self):
        r = self.r
        ls = self.labels(r.choice((0, 1, 1, 2, 2, 3)))
        mapn = {l: tuple(tuple(a) for a in self.mapping()) for l in self.labels(2)} if self.p(.3) else {}
        ix = list(range(self.N)); r.shuffle(ix)
        n = self.n
        if not ls and not mapn and self.r2.random() < .3: n = self.r2.choice((0, 1, -1, 1 << 20))
        return rec(addressSize=n, bleachingActivated=self.p(.75), verbose=self.p(.15), mapping=mp(mapn), indexes=tuple(ix) if self.p(.3) else (),
                   ignoreZero=self.iz, completeAddressing=self.complete, base=self.base, searchBestConfidence=self.p(.4), returnConfidence=self.p(.4),
                   returnActivationDegree=self.p(.4), returnClassesDegrees=self.p(.4), confidence=r.choice((1, 1, 1, 2, 3)),
                   discriminators=mp({l: self.disc() for l in ls}))
    def cluster(self, k=None):
        r = self.r
        if k is None: k = r.choice((0, 1, 1, 2, 2, 3))
        if self.many_of('discs', 200): k = self.c
        return rec(discriminators=mp({i: self.disc() for i in range(k)}), addressSize=self.n, entrySize=self.N, minScore=self.ms, threshold=self.th,
                   discriminatorsLimit=max(self.lim, k), completeAddressing=self.complete, ignoreZero=self.iz, base=self.base)
    ms = property(lambda s: F([0, 1, 2, 5, 7, 10][s.seed % 6], 10))
    th = property(lambda s: 3 * s.c if s.kind in ('count', 'counts') and 0 < s.c < 1 << 20 and s.seed & 1 else (1, 2, 3, 10, 100)[s.seed // 6 % 5])
    lim = property(lambda s: s.c + s.seed % 4 if s.kind == 'discs' and 0 < s.c <= 5000 else (1, 2, 3, 5)[s.seed // 30 % 4])
    def cluswisard(self):
        r = self.r
        ls = self.labels(r.choice((0, 1, 1, 2, 2)))
        if not ls and self.r2.random() < .3:
            return rec(addressSize=self.r2.choice((0, 1, -1, 1 << 20, self.n)), minScore=self.ms, threshold=self.th, discriminatorsLimit=self.lim, bleachingActivated=self.p(.75), verbose=False,
                   completeAddressing=self.complete, ignoreZero=self.iz, base=self.base, searchBestConfidence=self.p(.4), returnConfidence=self.p(.4),
                   returnActivationDegree=self.p(.4), returnClassesDegrees=self.p(.4), confidence=r.choice((1, 1, 1, 2, 3)), clusters=mp({}), unsupervisedCluster=self.nocluster())
        return rec(addressSize=self.n, minScore=self.ms, threshold=self.th, discriminatorsLimit=self.lim, bleachingActivated=self.p(.75), verbose=self.p(.15),
                   completeAddressing=self.complete, ignoreZero=self.iz, base=self.base, searchBestConfidence=self.p(.4), returnConfidence=self.p(.4),
                   returnActivationDegree=self.p(.4), returnClassesDegrees=self.p(.4), confidence=r.choice((1, 1, 1, 2, 3)),
                   clusters=mp({l: self.cluster(r.choice((1, 1, 2, 3))) for l in ls}),
                   unsupervisedCluster=self.cluster() if self.p(.6) else self.nocluster())
    @staticmethod
    def nocluster(): return rec(discriminators=mp({}), addressSize=2, entrySize=2, minScore=F(0), threshold=1, discriminatorsLimit=1, completeAddressing=True, ignoreZero=False, base=2)
    def bits(self, n):
        if self.base == 2: 
            im = self.img()
            if len(im) == n: return list(im)
        return [self.r.randint(0, 1) for _ in range(n)]
    def bininput(self, n=None):
        if n is None: n = self.r.choice((self.N, self.N, 0, 1, 7, 8, 9, 16))
        if self.kind == 'bytes' and 0 <= self.c <= 3000: n = self.r3.choice((self.c, 8 * self.c, max(0, 8 * self.c - 3)))
        bs = self.bits(n)
        by = []
        for i in range(0, n, 8):
            v = 0
            for j, b in enumerate(bs[i:i + 8]): v |= b << (7 - j)
            by.append(v)
        rem = (8 - n % 8) % 8
        if by and rem and self.p(.15): by[-1] |= self.r.randrange(1 << rem)
        return rec(remain=rem, input=chars(by))
    def dataset(self, same=True):
        k = self.r.choice((0, 1, 2, 2, 3))
        if self.many_of('data') is not None: k = self.c
        d = tuple(self.bininput(self.N if same and self.p(.9) else None) for _ in range(k))
        full = self.p(.7)
        ls = {i: self.r.choice(self.lb[:4]) for i in range(k) if full or self.p(.5)}
        return rec(data=d, labels=mp(ls))
    def handle(self):
        k = self.r.choice((1, 1, 2, 3))
        if self.many_of('rams', 400): k = self.c
        return rec(ramdata=mp({i: getf(self.ram(), 'positions') for i in range(k)}))
    def canvas(self):
        r = self.r
        dim = r.choice((1, 2, 2, 3)); nk = r.choice((1, 2, 3, 4)); ud = self.p(.5)
        amp = dim + 2 * (dim - 1) if ud else 0
        cur = amp * 3 if ud else dim
        self.dim = dim
        return rec(bitsByKernel=r.choice((1, 2, 3)), dim=dim, useDirection=ud, numberOfKernelsToActivate=r.randint(0, nk), amplifyDim=amp,
                   kernels=tuple(tuple(F(r.randint(-10, 10), 10) for _ in range(cur)) for _ in range(nk)))
    def synth(self):
        m = self.r.choice((0, 1, 2, 3))
        cube = []
        for _ in range(self.r.choice((0, 1, 2, 4))):
            k = self.r.randint(0, m)
            cube.append(mp({i: 1 for i in self.r.sample(range(m), k)}))
        return rec(cube=tuple(cube), maxData=m)
    OBJ = {'RAM': 'ram', 'Discriminator': 'disc', 'DiscriminatorWrapper': 'disc', 'Wisard': 'wisard', 'WisardWrapper': 'wisard', 'Cluster': 'cluster',
           'ClusWisard': 'cluswisard', 'ClusWisardWrapper': 'cluswisard', 'BinInput': 'bininput', 'DataSet': 'dataset', 'RAMDataHandle': 'handle',
           'KernelCanvas': 'canvas', 'KernelCanvasWrapper': 'canvas', 'Synthesizer': 'synth'}
    def object(self, cls):
        m = self.OBJ.get(cls)
        if cls == 'BinInput' and self.p(.5): return self.bininput(self.N)
        if m == 'disc' and self.bare: return rec(entrySize=self.N, count=0, rams=())
        return getattr(self, m)() if m else None
    # ------------------------------------------------------------- encodings
    def ramtext(self, ram):
        pos = getf(ram, 'positions')
        out = ''
        for k, v in pos[1:]: out += chars((k & (1 << 64) - 1).to_bytes(8, 'little') + (v & 0xffffffff).to_bytes(4, 'little'))
        return b64(out)
    def ramstext(self, d): return '.'.join(self.ramtext(x) for x in getf(d, 'rams'))
    def bintext(self, b): return b64(chr(getf(b, 'remain')) + getf(b, 'input'))
    def dstext(self, ds):
        ls = dict(getf(ds, 'labels')[1:])
        return '.'.join(b64(ls.get(i, '')) + '#' + self.bintext(b) for i, b in enumerate(getf(ds, 'data')))
    def dumped(self, j):
        s = 'JSON' + repr(j); self.dumps[s] = j; return s
    def filed(self, text, suffix):
        n = 'f%d%s' % (len(self.files), suffix); self.files[n] = text; return n
    def damage(self, j):
        """now and then an item is missing"""
        if self.p(.75): return j
        it = [x for x in j[2]]
        if it: it.pop(self.r.randrange(len(it)))
        return ('jo', j[1], tuple(it))
    def jram(self, ram):
        return jo({'ignoreZero': jv(self.iz), 'base': jv(self.base), 'addresses': ja(getf(ram, 'addresses')), 'data': jv(self.ramtext(ram))})
    def jdisc(self, d, top=True, data=True):
        x = {'entrySize': jv(getf(d, 'entrySize')), 'mapping': ja(getf(r, 'addresses') for r in getf(d, 'rams')), 'count': jv(getf(d, 'count'))}
        if top: x.update(ignoreZero=jv(self.iz), base=jv(self.base))
        if data:
            t = self.ramstext(d)
            x['data'] = jv(self.filed(t, '.wdpkg') if self.p(.25) else t)
        x['version'] = jv('1')
        return jo(x)
    SW = ('bleachingActivated', 'verbose', 'ignoreZero', 'completeAddressing', 'base', 'confidence', 'searchBestConfidence', 'returnConfidence', 'returnActivationDegree', 'returnClassesDegrees')
    def jwis(self, w):
        x = {k: jv(getf(w, k)) for k in self.SW + ('addressSize',)}
        x['mapping'] = jo({l: ja(m) for l, m in getf(w, 'mapping')[1:]}) if len(getf(w, 'mapping')) > 1 else jo({})
        x['indexes'] = ja(getf(w, 'indexes')); x['version'] = jv('1')
        x['classes'] = jo({l: self.jdisc(d, False) for l, d in getf(w, 'discriminators')[1:]}) if len(getf(w, 'discriminators')) > 1 else ('null',)
        return jo(x)
    def jcluster(self, c, top=True):
        ds = getf(c, 'discriminators')[1:]
        x = {'entrySize': jv(self.N), 'discriminators': jo({i: self.jdisc(d, False) for i, d in ds}) if ds else ('null',)}
        if top:
            for k in ('addressSize', 'minScore', 'threshold', 'discriminatorsLimit', 'completeAddressing', 'ignoreZero', 'base'): x[k] = jv(getf(c, k))
        return jo(x)
    def jclus(self, w):
        x = {k: jv(getf(w, k)) for k in self.SW + ('addressSize', 'minScore', 'threshold', 'discriminatorsLimit')}
        x['version'] = jv('1')
        cs = getf(w, 'clusters')[1:]
        if cs: x['clusters'] = jo({l: self.jcluster(c, False) for l, c in cs})
        u = getf(w, 'unsupervisedCluster')
        if len(getf(u, 'discriminators')) > 1: x['unsupervisedCluster'] = self.jcluster(u, False)
        return jo(x)
    def options(self, cls):
        x = {}
        full = self.wisard() if cls.startswith('Wis') else self.cluswisard()
        for k in self.SW:
            if self.p(.5): x[k] = jv(getf(full, k))
        if cls.startswith('Wisard') and self.p(.4): x['indexes'] = ja(getf(full, 'indexes'))
        if cls.startswith('Wisard') and self.p(.3): x['mapping'] = jo({l: ja(tuple(a) for a in self.mapping()) for l in self.labels(1)})
        if cls.startswith('Disc'):
            x = {k: v for k, v in x.items() if k in ('ignoreZero', 'completeAddressing', 'base')}
            if self.p(.3):
                ix = list(range(self.N)); self.r.shuffle(ix); x['indexes'] = ja(ix)
            if self.p(.3): x['mapping'] = ja(tuple(a) for a in self.mapping())
        if cls.startswith('Kernel'):
            x = {}
            if self.p(.5): x['bitsByKernel'] = jv(self.r.choice((0, 1, 2, 4)))
            if self.p(.5): x['activationDegree'] = jv(F(self.r.randint(-1, 11), 10))
            if self.p(.5): x['useDirection'] = jv(self.p(.5))
        return jo(x)
    @staticmethod
    def plainjson(j):
        if j[0] == 'jo': return mp({k: World.plainjson(v) for k, v in j[2]})
        return j[1]
    def keywords(self, cls):
        """keyword arguments of a Python constructor: [(name, value)]"""
        kw = [(k, self.plainjson(v)) for k, v in self.options(cls)[2]]
        if self.p(.1): kw.append((self.r.choice(('', 'Base', 'mappings', 'x')), 1))
        self.r.shuffle(kw)
        return kw
    # ------------------------------------------------------------- arguments
    def image(self):
        im = self.img()
        if self.kind and self.seed % 8: return im
        if self.p(.1): im = im + (0,) * self.r.randint(1, 2) if self.p(.5) else im[:-1]
        if self.p(.1) and im:
            i = self.r.randrange(len(im)); im = im[:i] + (self.r.choice((self.base, -1, self.base + 1, 1 << 20)),) + im[i + 1:]
        return im
    def about(self, tn, nm, v):
        """an argument in a state that is about a certain number"""
        c, r = self.c, self.r3
        if self.kind == 'ints' and tn in ('int', 'unsignedint', 'U', 'unsignedlong') and r.random() < .7 and (tn == 'int' or c >= 0): return c
        if self.kind == 'votes' and v is not None:
            if tn in ('map<S,vector<int>>', 'map<S,int>') and len(v) > 1:
                f = lambda x: c + r.choice((0, 0, -1, 1)) if r.random() < .6 else x
                if tn == 'map<S,int>': return (v[0],) + tuple((k, f(x)) for k, x in v[1:])
                if r.random() < .5 and 0 < c <= 2000: return (v[0],) + tuple((k, tuple((x * c or (1,) * c)[:c])) for k, x in v[1:])
                return (v[0],) + tuple((k, tuple(f(y) for y in x)) for k, x in v[1:])
            if tn == 'vector<int>' and nm in ('votes', 'mentalImage'):
                if r.random() < .5 and 0 < c <= 2000: return tuple((v * c or (1,) * c)[:c])
                return tuple(c if r.random() < .6 else x for x in v)
        if self.kind == 'bytes' and 0 <= c <= 5000:
            if tn == 'vector<short>': return tuple(r.choice((0, 1)) for _ in range(c))
            if tn == 'S' and nm == 'input': return chars(r.choice((0, 65, 255)) for _ in range(c))
        if self.kind == 'kernels' and 0 <= c <= 200:
            if tn == 'vector<vector<double>>': return tuple(tuple(F(r.randint(-6, 6), 4) for _ in range(getattr(self, 'dim', 2))) for _ in range(c))
        return v
    def arguments(self, cls, name, params, ty, isctor):
        """values for the parameters; params: [(name, type node name, kind function)].  None: left to chance"""
        r = self.r
        out = {}
        this = None if isctor else self.object(cls)
        nim = r.choice((0, 1, 2, 2, 3))
        if self.r2.random() < .12: nim = self.r2.choice((4, 5))
        if self.many_of('images') is not None: nim = self.c
        self.nim = nim
        far = None
        if cls == 'BinInput' and not isctor and name in ('get', 'set', 'operator[]') and r.random() < .12:
            # a packed input of more positions than 16 bits can number
            k = r.choice((33, 70001)); far = r.choice((8 * (k - 1), 8 * k - 9, 257, 8 * 32, 8 * 65536 if k > 65536 else 0))
            this = rec(remain=r.choice((0, 0, 3)), input='\x81' + '\0' * (k - 4) + chars(r.randrange(256) for _ in range(3)))
        for nm, t in params:
            v = None
            if far is not None and nm == 'index': out['A:index'] = far; continue
            tn = ty(t)
            if tn == 'vector<int>':
                if nm in ('indexes', 'addresses'):
                    if self.p(.7):
                        ix = list(range(self.N)); r.shuffle(ix); v = tuple(ix)
                    else: v = tuple(r.randint(-1, self.N) for _ in range(r.randint(0, self.N)))
                    if len(v) == self.N > 1 and self.r2.random() < .12: v = v[:-1] + (self.r2.choice(v[:-1]),)
                elif nm == 'mentalImage': v = tuple(r.choice((0, 0, 1, 2, 3, -1)) for _ in range(r.choice((0, 1, 2, 4))))
                elif nm == 'votes': v = tuple(r.choice((0, 0, 1, 2, 3, -1)) for _ in range(r.choice((0, 1, 2, 4))))
                else: v = self.image()
            elif tn == 'vector<short>': v = tuple(r.choice((0, 1, 1, 0, 2, -1)) for _ in range(r.choice((0, 1, 3, 8, 9))))
            elif tn == 'vector<vector<int>>':
                if nm == 'mapping':
                    v = tuple(tuple(a) for a in self.mapping())
                    if self.p(.15): v = v + ((self.N, -1),)
                    if self.p(.1): v = v + ((),)
                else:
                    v = tuple(self.image() for _ in range(nim))
                    if v and self.r2.random() < .06:
                        i = self.r2.choice((0, 0, len(v) - 1)); v = v[:i] + ((),) + v[i + 1:]
            elif tn == 'vector<S>': v = tuple(r.choice(self.lb[:5]) for _ in range(nim if self.p(.85) else r.randint(0, 3)))
            elif tn == 'map<int,S>': v = mp({i: r.choice(self.lb[:4]) for i in range(-1 if self.p(.1) else 0, nim + (1 if self.p(.1) else 0)) if self.p(.55)})
            elif tn == 'map<S,int>': v = mp({l: r.choice((0, 0, 1, 1, 2, 3, 5)) for l in self.labels(r.choice((0, 1, 2, 3)))})
            elif tn == 'map<S,vector<int>>':
                k = r.choice((1, 2, 3))
                far = r.choice((40000, 1 << 20, 9, 17, 33)) if self.p(.2) else 0
                if self.r2.random() < .12: far = self.r2.choice((262, 300))
                v = mp({l: tuple(far + r.choice((0, 0, 1, 1, 2, 2, 3, 5) if not far else (0, 0, 0, 1) if far > 99 else (0, 0, 1, 2, 3)) for _ in range(k if self.p(.85) else r.randint(0, 3))) for l in self.labels(r.choice((0, 1, 2, 3)))})
            elif tn == 'vector<vector<double>>':
                d = getattr(self, 'dim', 2)
                v = tuple(tuple(F(r.randint(-6, 6), 4) for _ in range(d if self.p(.93) else r.randint(0, 3))) for _ in range(r.choice((0, 1, 2, 3, 4))))
            elif tn == 'unordered_map<U,int>': v = getf(self.ram(), 'positions')
            elif tn == 'DataSet': v = self.dataset()
            elif tn == 'BinInput': v = self.bininput(self.N if self.p(.85) else None)
            elif tn == 'RAMDataHandle':
                v = this if this is not None and self.p(.35) else self.handle()
                if v is this and self.p(.5):
                    m = dict(getf(this, 'ramdata')[1:])
                    k = r.choice(sorted(m)); p = dict(m[k][1:])
                    w = self.p(.5)
                    if w: p[r.choice((0, 1, 5))] = r.choice((0, 1, 9))
                    elif p: p.pop(r.choice(sorted(p)))
                    m[k] = mp(p); v = rec(ramdata=mp(m))
            elif tn == 'J':
                if cls.startswith('Discriminator') and len(params) == 1: v = self.damage(self.jdisc(self.disc()))
                elif cls == 'RAM': v = self.damage(self.jram(self.ram()))
                elif cls == 'Cluster': v = self.damage(self.jcluster(self.cluster()))
                else: v = self.options(cls)
            elif tn == 'S':
                if cls == 'Base64':
                    raw = chars(r.choice((0, 1, 65, 255, 128, 200, 127, 46, 35)) for _ in range(r.choice((0, 1, 2, 3, 4, 5, 6, 7))))
                    v = raw if name == 'encode' else b64(raw)
                    if name == 'decode' and self.p(.15): v = r.choice(('A', 'AB=', 'A===', 'AA==AAAA', '....', v[:-1]))
                elif isctor and len(params) == 1:
                    if cls.startswith('Discriminator'): v = self.dumped(self.damage(self.jdisc(self.disc())))
                    elif cls.startswith('Wisard'): v = self.dumped(self.damage(self.jwis(self.wisard())))
                    elif cls.startswith('ClusWisard'): v = self.dumped(self.damage(self.jclus(self.cluswisard())))
                    elif cls == 'BinInput': v = self.bintext(self.bininput()) if self.p(.8) else r.choice((b64('\x09A'), b64('\x03'), '', 'A', '====', b64('\x83A')))
                    elif cls == 'RAMDataHandle':
                        t = '.'.join(self.ramtext(self.ram()) for _ in range(r.choice((1, 1, 2, 3))))
                        if self.p(.15): t = r.choice((b64('abc'), 'x', '..', t + '.', ''))
                        elif self.r2.random() < .08: t = b64(chars(self.r2.choice((0, 0, 1, 3)) for _ in range(self.r2.choice((4, 8, 16, 20, 24, 36)))))
                        v = self.filed(t, '.wdpkg') if self.p(.45) else t
                    elif cls == 'DataSet':
                        t = self.dstext(self.dataset())
                        if self.p(.2): t = r.choice(('a', t + '.', '#', b64('l') + '#', '##'))
                        v = self.filed(t, '.wpkds' if self.p(.9) else '.txt')
                elif nm == 'label': v = r.choice(self.lb[:6])
            elif tn in ('int', 'unsignedint', 'U', 'unsignedlong'):
                if nm == 'addressSize': v = self.n if self.p(.75) else r.choice((1, 0, -1, self.N, self.N + 1))
                elif nm == 'entrySize': v = self.N if self.p(.85) else r.choice((0, 1, -1, 2))
                elif nm in ('base', 'basein'): v = self.base if self.p(.8) else r.choice((1, 0, -2, 2, 1 << 16))
                elif nm == 'index': v = r.randint(-1, 9) if tn == 'int' else r.randint(0, 17)
                elif nm == 'threshold': v = self.th if self.p(.9) else 0
                elif nm == 'discriminatorsLimit': v = self.lim if self.p(.9) else 0
                elif nm == 'r': v = r.choice((0, 0, 1, 2, 3, 5, -1))
                elif nm == 'dim': v = r.choice((1, 2, 3, 0))
                elif nm == 'numberOfKernels': v = r.choice((1, 2, 5, 14, 0, 20))
                elif nm == 'confidence': v = r.choice((1, 1, 2, 3, 0))
                elif nm == 'addr' and self.p(.6):
                    ks = [k for h in ([this] if this else []) for rr in [getf(h, 'ramdata')] if rr for _, q in rr[1:] for k, _ in q[1:]]
                    if ks: v = r.choice(ks)
                if v is not None and tn != 'int' and v < 0: v = 0
                if nm == 'i' and name == 'setMapping': v = r.randint(0, 2)
            elif tn == 'float' and nm == 'minScore': v = self.ms if self.p(.9) else r.choice((F(-1, 2), F(3, 2)))
            if self.kind is not None: v = self.about(tn, nm, v)
            if v is not None: out['A:' + nm] = v
        if name == 'setMapping': out['A:mapping'] = tuple(tuple(range(r.randint(0, 3))) for _ in range(3))
        if this is not None: out['this'] = this
        return out
ADJ = {'confidence', 'minScore', 'threshold', 'bleachingActivated', 'verbose', 'completeAddressing', 'searchBestConfidence', 'returnConfidence',
       'returnActivationDegree', 'returnClassesDegrees', 'count', 'useDirection'}
CLASSARGS = ('DataSet', 'BinInput', 'RAMDataHandle')
def adjustable(objs, classargs):
    def f(key):
        root, path, idx = key
        if root == 'this':
            if 'this' not in objs: return True
            if 'useDirection' in path: return False
            return bool(path) and (path[-1] in ADJ and len(path) == 1 or path[-1] == '{}' and 'positions' in path)
        if root in classargs: return False
        return True
    def ok(key, v):
        # what every constructor establishes about the settings
        if key[0] == 'this' and 'this' in objs and key[1]:
            if key[1][-1] == 'threshold': return v >= 1
            if key[1][-1] == 'minScore': return 0 <= v <= 1
        return True
    f.ok = ok
    return f
