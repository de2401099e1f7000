"""Entry points: one abstract run per public operation, from symbolic objects and arguments."""
from .term import *
from . import term as tm
from . import ir
from .interp import *

def run_method(prog, cls, name, pick=None, this='this', argfun=None, opts=None, pre=None, ctor=False):
    """returns (interp, outcomes, this place) for a public method; arguments are symbolic"""
    it = Interp(prog, opts)
    r = prog.cls(cls)
    fs = [f for f in prog.methods(r) if (f.get('ctor') if name == cls else f['n'] == name) and f.get('body') is not None]
    if name == cls: fs = [f for f in fs if not (f.get('copy') or f.get('move'))]
    if pick: fs = [f for f in fs if pick(f)]
    if not fs: raise KeyError('%s::%s' % (cls, name))
    f = fs[0]
    return run_function(it, f, prog.rec_by_type and r, this, argfun, pre)

def recty(prog, r): return r['t']
def run_function(it, f, rec=None, this='this', argfun=None, pre=None):
    prog = it.p
    pl = None
    it.st = State({}, ROOT)
    isctor = bool(f.get('ctor'))
    if rec is not None and not f.get('static'):
        if isctor: pl = Place(it.newroot(rec['t'], 'obj'))
        else: pl = Place(it.symroot(this, rec['t']))
    args = []
    for i, p in enumerate(f['params']):
        a = argfun(it, i, p) if argfun else None
        if a is None: a = symarg(it, p)
        args.append(a)
    it.entry = f
    it.thisplace = pl
    it.argvals = args
    if pre: pre(it)
    if isctor:
        it.construct_f(pl, f, args)
        ret = None
    else:
        ret = it.call(f, pl, args, {'t': f['ret']})
    it.ret = ret if it.st is not None else None
    return it
def symarg(it, p):
    name = p['n'] or 'arg'
    root = 'A:' + name
    x = it.p.ty(p['t'])
    if x['k'] == 'ptr':
        it.symroot(root, x['e'])
        return mk('ptr', (root, ()), 'o')
    it.symroot(root, p['t'])
    return Place(root)
def dump(it, cells=True, events=False):
    print('ret:', showval(it.ret))
    if it.st is None: print('no normal exit'); return
    print('pc:', [l for l in it.st.pc.lits()])
    if cells:
        for (r, p), v in sorted(it.st.cells.items()):
            if r[0] == 'L' and (it.thisplace is None or r != it.thisplace.root): continue
            print('  %s%s := %s' % (r, '.' + '.'.join(p), v))
    if events:
        for e in it.events:
            if e.kind in ('call',): continue
            print('  ', e.kind, it.p.loc(e.loc), {k: v for k, v in e.d.items() if k not in ('node', 'ctx')}, 'PC', [l for l in e.pc.lits()])
def showval(v):
    if isinstance(v, Agg): return {'.'.join(k): x for k, x in v.leaves.items()}
    return v
