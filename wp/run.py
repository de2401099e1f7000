"""Running the tasks of a check in parallel and collecting what they found."""
import os, sys, time, json, signal, traceback, multiprocessing

class Finding:
    """one violated instance: rule, construct (file:line, function), text, witness lines"""
    def __init__(self, rule, where, func, text, witness=()):
        self.rule, self.where, self.func, self.text, self.witness = rule, where, func, text, list(witness); self.fixedkey = None
    def key(self): return '%s|%s|%s' % (self.rule, self.func, self.text)
class Result:
    def __init__(self):
        self.obl = 0; self.dis = 0; self.und = []; self.findings = []; self.functions = set(); self.samples = []; self.notes = []; self.tried = 0
    def obligation(self, ok, sample=None, undecided=None):
        self.obl += 1
        if ok: self.dis += 1
        elif undecided: self.und.append(undecided)
        if sample and len(self.samples) < 3: self.samples.append(sample)
    def find(self, *a, key=None):
        f = Finding(*a); f.fixedkey = key; self.findings.append(f)
    def merge(self, o):
        self.obl += o.obl; self.dis += o.dis; self.und += o.und; self.findings += o.findings
        self.functions |= o.functions; self.notes += o.notes; self.tried += o.tried
        self.samples += o.samples

_tasks = []
class Slow(BaseException): pass
def _alarm(*a): raise Slow()
def _one(i):
    label, fn, limit = _tasks[i]
    r = Result()
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try: fn(r)
    except Slow: r.und.append('%s: analysis did not finish in %d s' % (label, limit)); r.obl += 1
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        r.und.append('%s: %s %s (%s:%d)' % (label, type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno)); r.obl += 1
    finally: signal.alarm(0)
    r.time = time.time() - t
    return i, r
def _worker(conn):
    while True:
        i = conn.recv()
        if i is None: os._exit(0)
        conn.send(_one(i))
def _pool(n, total, slow, deadline=None):
    """forked workers; one that dies costs only the task it had"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo = list(range(len(_tasks)))[::-1]
    end = time.time() + (deadline or 1e9)
    live = {}
    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,)); p.start(); b.close()
        live[a] = (p, None); feed(a)
    def feed(a):
        p = live[a][0]
        if todo:
            i = todo.pop(); live[a] = (p, i, time.time()); a.send(i)
        else:
            a.send(None); p.join(); a.close(); del live[a]
    for _ in range(min(n, len(_tasks))): start()
    while live:
        for a in wait(list(live), 30):
            p, i, t0 = live[a]
            try: j, r = a.recv()
            except (EOFError, OSError):
                p.join(); a.close(); del live[a]
                total.und.append('%s: the analysis of this operation broke down' % _tasks[i][0]); total.obl += 1
                if todo: start()
                continue
            total.merge(r); slow.append((r.time, _tasks[i][0]))
            feed(a)
        if todo and time.time() > end:
            for i in todo: total.und.append('%s: not reached in the time of the check' % _tasks[i][0]); total.obl += 1
            todo.clear()
        for a, (p, i, t0) in list(live.items()):
            if time.time() > end + 90 or time.time() - t0 > _tasks[i][2] + 60: p.kill()
def run_tasks(tasks, nproc=None, deadline=None):
    global _tasks
    _tasks = tasks
    total = Result()
    n = nproc or int(os.environ.get('WP_JOBS', '0')) or min(8, os.cpu_count() or 1)
    slow = []
    if n == 1 or len(tasks) == 1:
        for i in range(len(tasks)):
            _, r = _one(i); total.merge(r); slow.append((r.time, tasks[i][0]))
    else: _pool(n, total, slow, deadline)
    slow.sort(reverse=True)
    total.slow = slow[:5]
    return total
