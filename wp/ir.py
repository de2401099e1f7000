"""The extracted program."""
import json, os, subprocess, hashlib, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WP_REPO', '/repo')
BUILD = os.environ.get('WP_BUILD', os.path.join(VERIF, 'build'))

FAST = os.environ.get('WP_FAST')    # development only: skip operations whose text is that of the baseline listed in this file
STREAMS = ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream')
STRM = {'file': 's', 'mode': 'i', 'open': 'b', 'content': 's', 'pos': 'i', 'closed': 'b'}
class Prog:
    def __init__(self, data, name):
        self.name = name
        self._leaves = {}
        self._strip = {}
        self.d = data
        self.types = data['types']
        self.files = data['files']
        self.f = {f['id']: f for f in data['functions']}
        self.records = {}
        self.rec_by_type = {}
        for r in data['records']:
            if r['q'].startswith('std::'): continue
            r['short'] = r['q'].split('::')[-1]
            self.records[r['q']] = r
            self.rec_by_type[self.tyname(r['t'])] = r
        self.globals = {}
        for g in data['globals']:
            if g['id'] not in self.globals or g.get('def'): self.globals[g['id']] = g
        for f in data['functions']:
            f['file'] = self.files[f['l'][0]] if f['l'][0] >= 0 else ''
    # ---- types
    def strip(self, t):
        """without reference and const"""
        r = self._strip.get(t)
        if r is not None: return r
        x = self.types[t]
        while x['k'] == 'ref': t = x['e']; x = self.types[t]
        self._strip[t] = t
        return t
    def ty(self, t): return self.types[self.strip(t)]
    def tyname(self, t):
        n = self.types[self.strip(t)]['n']
        return n[6:] if n.startswith('const ') else n
    def isref(self, t): return self.types[t]['k'] == 'ref'
    def rec(self, t):
        """repo record of type t"""
        return self.rec_by_type.get(self.tyname(t))
    def loc(self, l):
        if not l or l[0] < 0: return '?'
        f = self.files[l[0]]
        for b in (REPO, VERIF):
            if f.startswith(b + '/'): f = f[len(b) + 1:]
        return '%s:%d' % (f, l[1])
    def cls(self, q):
        """record by short name"""
        for r in self.records.values():
            if r['short'] == q: return r
        return None
    def methods(self, r, inherited=False):
        out = [self.f[m] for m in r['methods'] if m in self.f]
        if inherited:
            for b in r['bases']:
                br = self.rec(b)
                if br: out += self.methods(br, True)
        return out
    def allfields(self, r):
        out = []
        for b in r['bases']:
            br = self.rec(b)
            if br: out += self.allfields(br)
        return out + r['fields']
    # ---- leaves of a type: list of (path, sort, idxsorts, type id)
    def sort(self, t):
        x = self.ty(t)
        k = x['k']
        if k == 'bool': return 'b'
        if k in ('int', 'enum'): return 'i'
        if k == 'float': return 'f'
        if k == 'rec':
            if x['q'] == 'std::basic_string': return 's'
            if x['q'] == 'nlohmann::basic_json': return 'j'
        return 'o'
    def kind(self, t):
        x = self.ty(t)
        if x['k'] == 'rec':
            q = x['q']
            if q in ('std::vector', 'std::array', 'std::deque', 'std::initializer_list', 'std::list', 'std::queue', 'std::stack'):
                return 'vec'
            if q in ('std::map', 'std::unordered_map'): return 'map'
            if q in ('std::set', 'std::unordered_set'): return 'set'
            if q in ('std::pair', 'std::tuple'): return 'tup'
            if q in STREAMS: return 'strm'
            if self.rec(t) is not None: return 'rec'
            if x.get('repo') and not x.get('lambda'): return 'rec'
            return 'leaf'
        if x['k'] == 'arr': return 'arr'
        return 'leaf'
    def targs(self, t): return self.ty(t).get('a', [])
    def leaves(self, t):
        t = self.strip(t)
        r = self._leaves.get(t)
        if r is not None: return r
        out = []
        k = self.kind(t)
        if k == 'leaf': out.append(((), self.sort(t), (), t))
        elif k == 'vec' or k == 'arr':
            e = self.targs(t)[0] if k == 'vec' else self.ty(t)['e']
            out.append((('#',), 'i', (), None))
            for p, s, ix, lt in self.leaves(e): out.append((('*',) + p, s, ('i',) + ix, lt))
        elif k in ('map', 'set'):
            a = self.targs(t)
            ks = self.sort(a[0])
            out.append((('{?}',), 'b', (ks,), None))
            if k == 'map':
                for p, s, ix, lt in self.leaves(a[1]): out.append((('{}',) + p, s, (ks,) + ix, lt))
        elif k == 'strm':
            for n, s in STRM.items(): out.append(((n,), s, (), None))
        elif k == 'tup':
            a = self.tupargs(t)
            q = self.ty(t)['q']
            for i, e in enumerate(a):
                n = ('first', 'second')[i] if q == 'std::pair' else str(i)
                for p, s, ix, lt in self.leaves(e): out.append(((n,) + p, s, ix, lt))
        elif k == 'rec':
            r = self.rec(t)
            if r is not None:
                for f in self.allfields(r):
                    for p, s, ix, lt in self.leaves(f['t']): out.append(((f['n'],) + p, s, ix, lt))
        self._leaves[t] = out
        return out
    def tupargs(self, t): return self.targs(t)
    def step(self, t, comp):
        """type after one path component"""
        k = self.kind(t)
        if comp == '*': return self.targs(t)[0] if k == 'vec' else self.ty(t)['e']
        if comp == '{}': return self.targs(t)[1]
        if comp in ('#', '{?}') or k == 'strm': return None
        if k == 'tup':
            i = {'first': 0, 'second': 1}.get(comp)
            if i is None: i = int(comp)
            return self.tupargs(t)[i]
        r = self.rec(t)
        if r is not None:
            for f in self.allfields(r):
                if f['n'] == comp: return f['t']
        raise KeyError((self.tyname(t), comp))

REF = os.path.join(VERIF, 'spec', 'reference')
def source_hash(which):
    h = hashlib.sha256()
    fs = []
    for base in {'src': [REPO + '/src'], 'hdr': [REPO + '/include'], 'ref': [REF + '/src']}[which]:
        for d, _, names in os.walk(base):
            for n in names:
                if n.endswith(('.cc', '.h', '.hpp', '.cpp')): fs.append(os.path.join(d, n))
    fs.append(os.path.join(VERIF, 'extractor', 'extract.cpp'))
    for p in sorted(fs):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

_flags = {}
def pyflags():
    if 'f' not in _flags:
        inc = subprocess.run(['/usr/bin/python3', '-m', 'pybind11', '--includes'], capture_output=True, text=True).stdout.split()
        _flags['f'] = inc
        _flags['r'] = subprocess.run(['/usr/bin/clang-18', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    return _flags['f'], _flags['r']

class ExtractError(Exception): pass

def extract(which):
    """'src': the Python module's translation unit; 'hdr': the single header"""
    h = source_hash(which)
    cache = os.path.join(BUILD, 'ir-%s-%s.json' % (which, h))
    if os.path.exists(cache):
        try:
            return Prog(json.load(open(cache)), which)
        except ValueError: pass
    inc, res = pyflags()
    tool = os.path.join(BUILD, 'wpextract')
    if not os.path.exists(tool):
        subprocess.run(['sh', os.path.join(VERIF, 'setup.sh')], check=True, stdout=subprocess.DEVNULL, env=dict(os.environ, WP_TOOL_ONLY='1'))
    tmp = None
    if which in ('src', 'ref'):
        root = REPO if which == 'src' else REF
        cmd = [tool, root + '/src/wisard_bind.cc', root + '/src/', '--', '-std=c++11'] + inc + ['-resource-dir', res]
    else:
        tmp = tempfile.mkdtemp(prefix='wpx')
        p = os.path.join(tmp, 'all.cc')
        open(p, 'w').write('#include "%s/include/wisardpkg.hpp"\n' % REPO)
        cmd = [tool, p, REPO + '/include/', '--', '-std=gnu++17', '-resource-dir', res]
    r = subprocess.run(cmd, capture_output=True, text=True)
    for std in ('-std=gnu++14', '-std=gnu++17'):
        if r.returncode == 0 or which == 'hdr': break
        # the compiler of the build takes some later constructs as an extension
        r2 = subprocess.run([std if x == '-std=c++11' else x for x in cmd], capture_output=True, text=True)
        if r2.returncode == 0: r = r2
    if tmp:
        os.unlink(p); os.rmdir(tmp)
    if r.returncode != 0: raise ExtractError(r.stderr[-3000:])
    data = json.loads(r.stdout)
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, 'ir-%s-*.json' % which)):
        try: os.unlink(old)
        except OSError: pass
    t = cache + '.%d' % os.getpid()
    open(t, 'w').write(r.stdout); os.replace(t, cache)
    return Prog(data, which)

def canon(prog, x, vm, refs):
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ('l', 'file'): continue
            if k in ('t', 'ret', 'clst', 'e') and isinstance(v, int): out[k] = prog.types[v]['n']
            elif k == 'f' and isinstance(v, int):
                g = prog.f.get(v)
                if g is None: out[k] = '?'
                else:
                    refs.add(v); out[k] = g['q'] + str([prog.types[p['t']]['n'] for p in g['params']])
            elif k == 'id' and isinstance(v, int):
                if x.get('k') in ('gvar', 'global') or v in prog.globals: out[k] = str(prog.globals[v].get('q', prog.globals[v].get('n'))); refs.add(('g', v))
                else: out[k] = vm.setdefault(v, len(vm))
            elif k == 'a' and x.get('k') == 'rec': continue
            else: out[k] = canon(prog, v, vm, refs)
        return out
    if isinstance(x, list): return [canon(prog, y, vm, refs) for y in x]
    return x
def closure(prog, f):
    """text identity of a function and everything of the library it reaches"""
    done = prog.__dict__.setdefault('_clos', {})
    if f['id'] in done: return done[f['id']]
    seen = set(); todo = [f['id']]; out = set()
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        if isinstance(i, tuple):
            refs = set(); g = prog.globals[i[1]]
            out.add(json.dumps(canon(prog, {k: v for k, v in g.items() if k != 'id'}, {}, refs), sort_keys=True)); todo += refs; continue
        g = prog.f.get(i)
        if g is None or not g.get('repo') or g.get('body') is None and not g.get('inits'): continue
        refs = set()
        out.add(json.dumps(canon(prog, {k: v for k, v in g.items() if k != 'id'}, {}, refs), sort_keys=True))
        todo += refs
        if g.get('cls'):
            for r in prog.records.values():
                if r['q'] == g['cls']: out.add(json.dumps(canon(prog, {'fields': r['fields'], 'bases': [prog.tyname(b) for b in r['bases']]}, {}, set()), sort_keys=True))
    h = hashlib.sha256('\n'.join(sorted(out)).encode()).hexdigest()
    done[f['id']] = h
    return h
def clkey(prog, tu, f): return tu + ' ' + f['q'] + str([prog.types[p['t']]['n'] for p in f['params']])
def unchanged(prog, tu, f):
    if not FAST: return False
    if 'base' not in _flags: _flags['base'] = json.load(open(FAST))
    return _flags['base'].get(clkey(prog, tu, f)) == closure(prog, f)
def baseline(path):
    out = {}
    for tu in ('src', 'hdr'):
        p = extract(tu)
        for f in p.f.values():
            if f.get('repo'): out[clkey(p, tu, f)] = closure(p, f)
    json.dump(out, open(path, 'w'))

def align(cur, ref):
    """private fields that only changed their name get the name the reference gives them"""
    ren = {}
    for q, r in cur.records.items():
        rr = next((x for x in ref.records.values() if x['short'] == r['short']), None)
        if rr is None: continue
        have = {f['n'] for f in r['fields']}; want = {f['n'] for f in rr['fields']}
        new = [f for f in r['fields'] if f['n'] not in want]; old = [f for f in rr['fields'] if f['n'] not in have]
        for ty in {cur.tyname(f['t']) for f in new}:
            a = [f for f in new if cur.tyname(f['t']) == ty]; b = [f for f in old if ref.tyname(f['t']).split('::')[-1] == ty.split('::')[-1]]
            if a and len(a) == len(b):
                for x, y in zip(a, b): ren[(r['q'], x['n'])] = y['n']
    if not ren: return
    for (q, n), m in ren.items():
        for f in cur.records[q]['fields']:
            if f['n'] == n: f['n'] = m
    old = {n for q, n in ren}
    cls = {}
    for (q, n), m in ren.items(): cls[(q.split('::')[-1], n)] = m
    def walk(x, own):
        if isinstance(x, dict):
            f = x.get('fld')
            if f in old:
                m = cls.get(((x.get('cls') or own or '').split('<')[0].split('::')[-1], f))
                if m: x['fld'] = m
            for v in x.values(): walk(v, own)
        elif isinstance(x, list):
            for v in x: walk(v, own)
    for f in cur.d['functions']: walk(f, f.get('cls'))

def literals(prog):
    """the whole numbers and texts written in the library's own functions"""
    ints = set(); strs = set()
    def go(x):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'int' and isinstance(x.get('v'), int): ints.add(abs(x['v']))
            elif k == 'str' and isinstance(x.get('v'), str) and len(x['v']) <= 8: strs.add(x['v'])
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
    for f in prog.f.values():
        if f.get('repo') and f.get('body') is not None: go(f['body']); go(f.get('inits'))
    for g in prog.globals.values(): go(g.get('init'))
    return ints, strs
