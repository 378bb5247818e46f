"""C16: reads and writes of independent models in two or three threads, under a scheduler
that decides at every line (or bytecode, or call of a stream) which thread runs on."""
import io
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time

import core
import rdf
import p_order
from feat import Features
from rdf import node as N
from p_delivery import Pieces

meta = feats = None
STALL = 1.0


class Scheduler:
    """Runs the bodies under a plan: [(thread, events until the switch or None)].  Only the
    thread of the current segment runs.  A thread that waits for something another one holds
    stalls; then all run freely (the result must be right all the same)."""

    def __init__(self, plan, n):
        self.plan, self.seg = plan, 0
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.count = [0] * n
        self.free = False
        self.beat = 0
        self.switched = 0

    def target(self):
        return self.plan[self.seg]

    def advance(self):
        """Next segment with a live thread; whatever is left runs in order."""
        while True:
            self.seg += 1
            if self.seg >= len(self.plan):
                left = [i for i, d in enumerate(self.done) if not d]
                if not left:
                    return None
                self.plan.append((left[0], None))
            t = self.plan[self.seg][0]
            if not self.done[t]:
                return t

    def event(self, t):
        self.beat += 1
        if self.free:
            return
        self.count[t] += 1
        if self.count[t] == self.plan[self.seg][1]:
            nxt = self.advance()
            self.switched += 1
            if nxt != t:
                self.sem[nxt].release()
                self.sem[t].acquire()

    def finish(self, t):
        self.done[t] = True
        if not self.free:
            nxt = self.advance()
            if nxt is not None:
                self.sem[nxt].release()

    def run(self, bodies, tracer):
        """Results (value or exception) of all bodies."""
        out = [None] * len(bodies)

        def main(t):
            self.sem[t].acquire()
            if tracer:
                sys.settrace(tracer(self, t))
            try:
                out[t] = ('ok', bodies[t](self, t))
            except Exception as e:
                out[t] = ('error', core.exc_name(e))
            finally:
                sys.settrace(None)
                self.finish(t)
        ths = [threading.Thread(target=main, args=(t,), daemon=True) for t in range(len(bodies))]
        for th in ths:
            th.start()
        self.sem[self.plan[0][0]].release()
        beat, since = -1, time.time()
        for th in ths:
            while th.is_alive():
                th.join(0.05 if self.free else 0.2)
                if self.beat != beat:
                    beat, since = self.beat, time.time()
                elif th.is_alive() and time.time() - since > STALL and not all(self.done):
                    if not self.free:
                        self.free = True
                        for s in self.sem:
                            s.release()
                        since = time.time()
                    elif time.time() - since > 30:
                        return ['deadlock'] * len(bodies)
        return out


def line_tracer(opcodes=False, imports=False):
    home = tuple(os.path.join(core.REPO, p) + os.sep for p in ('PyCIM', 'CIM14', 'CIM15'))

    def make(sched, t):
        event = sched.event

        def local(frame, what, arg):
            if what == ('opcode' if opcodes else 'line'):
                if imports:
                    f = frame
                    while f is not None:
                        if f.f_code.co_filename.startswith('<frozen importlib'):
                            return local        # holds an import lock
                        f = f.f_back
                event(t)
            return local

        def start(frame, what, arg):
            if frame.f_code.co_filename.startswith(home):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
        return start
    return make


# ------------------------------------------------------------------- scenarios

class Slow(Pieces):
    """A stream that is a switch point at every read."""

    def bind(self, sched, t):
        self.s, self.t = sched, t
        return self

    def read(self, n=-1):
        self.s.event(self.t)
        return Pieces.read(self, n)


class SlowOut(io.StringIO):
    def bind(self, sched, t):
        self.s, self.t, self.k = sched, t, 0
        return self

    def write(self, x):
        self.k += 1
        if self.k % 8 == 1:
            self.s.event(self.t)
        return io.StringIO.write(self, x)

    def flush(self):
        self.s.event(self.t)


def small(root, k):
    return [N('Substation', 's%d' % k, [('IdentifiedObject.name', 'text', 'S%d é' % k)]),
            N('VoltageLevel', 'v', [('VoltageLevel.Substation', 'ref', 's%d' % k), ('VoltageLevel.lowVoltageLimit', 'text', '%d.5' % k)]),
            N('Breaker', 'b', [('Switch.normalOpen', 'text', 'true' if k % 2 else 'false'), ('Switch.noSuch%d' % k, 'text', '1'), ('Equipment.EquipmentContainer', 'ref', 'v')])]


def tiny(root, k):
    return [N('Substation', 's', [('IdentifiedObject.name', 'text', 'S%d é' % k)])]


def bare(root, k):
    return [N('Substation' if k == 1 else 'BaseVoltage', 's%d' % k)]


class Job:
    """One read or write; fresh for every schedule."""

    def __init__(self, kind, root, k, nodes=small, slow=False, pieces=1, **kw):
        self.kind, self.root, self.k, self.slow, self.kw = kind, root, k, slow, kw
        self.nodes = nodes(root, k)
        self.text = rdf.text(self.nodes, kw.get('ns') or rdf.NSURI[root])
        self.pieces = pieces

    def source(self):
        b = self.text.encode()
        if self.kind == 'read broken':
            b = b[:-30]
        n = -(-len(b) // self.pieces)
        return [b[i:i + n] for i in range(0, len(b), n)]

    def body(self):
        """A function of (scheduler, thread); work outside the measured call is done now."""
        from PyCIM import cimread, cimwrite
        if self.kind.startswith('read'):
            args = ()
            if self.kw.get('ns'):
                args = (meta.pkgs[self.root]['packageMap'], self.kw['ns'])

            def f(s, t):
                src = Slow(self.source()).bind(s, t) if self.slow else io.BytesIO(b''.join(self.source()))
                if self.kind == 'read broken':
                    try:
                        cimread(src, *args)
                    except Exception as e:
                        return type(e).__name__
                return cimread(src, *args)
            return f
        if self.kind == 'write':
            d = rdf.read(self.text)

            def f(s, t):
                out = SlowOut().bind(s, t) if self.slow else io.StringIO()
                return cimwrite(d, out, self.kw.get('enc', 'utf-8')), out.getvalue()
            return f
        from PyCIM.PrettyPrintXML import xmlpp
        return lambda s, t: xmlpp(io.BytesIO(self.text.encode()))

    def canon(self, r):
        if r[0] == 'ok' and isinstance(r[1], dict):
            return ('ok', rdf.snapshot(feats, r[1]))
        return r

    def alone(self):
        class Quiet:
            event = staticmethod(lambda t: None)
        return self.canon(('ok', self.body()(Quiet, 0)))


def scenarios(slow, nodes=small):
    kw = dict(slow=slow, nodes=nodes, pieces=2)
    R = lambda root, k, **o: Job('read', root, k, **dict(kw, **o))
    W = lambda root, k, **o: Job('write', root, k, **dict(kw, **o))
    out = {'read 14, read 15': [R('CIM14', 1), R('CIM15', 2)],
           'read 15, read 15': [R('CIM15', 1), R('CIM15', 2)],
           'read 15, read as a profile': [R('CIM15', 1), R('CIM14', 2, ns='http://x.org/p')],
           'write 14, write 15': [W('CIM14', 1), W('CIM15', 2)],
           'write as ASCII, write as UTF-8': [W('CIM15', 1, enc='us-ascii'), W('CIM15', 2)],
           'read 15, write 15': [R('CIM15', 1), W('CIM15', 2)],
           'read 14, write 15': [R('CIM14', 1), W('CIM15', 2)],
           'read 15, failing read': [R('CIM15', 1), Job('read broken', 'CIM14', 2, **kw)]}
    if not slow:
        out['pretty print, pretty print'] = [Job('pretty', 'CIM14', 1, **kw), Job('pretty', 'CIM15', 2, **kw)]
    return out


def run_plan(jobs, plan, tracer):
    s = Scheduler(list(plan), len(jobs))
    r = s.run([j.body() for j in jobs], tracer)
    return [j.canon(x) for j, x in zip(jobs, r)], s


def check(res, what, jobs, want, plan, tracer):
    res.add('states')
    try:
        got, s = run_plan(jobs, plan, tracer)
    except Exception as e:
        got, s = core.exc_name(e), None
    if s:
        res.add('transitions', s.switched + len(jobs))
        if s.free:
            res.add('stalled')
    if got == want:
        res.add('traces')
        res.outcome(what)
        return True
    diff = []
    for j, a, b in zip(jobs, got, want):
        if a != b:
            same = isinstance(a, tuple) and isinstance(a[1], dict) and isinstance(b[1], dict)
            diff.append('%s: %s' % (j.kind, rdf.difference(a[1], b[1]) if same else '%s instead of %s' % (str(a)[:300], str(b)[:300])))
    res.violation(what, '%s under the schedule %s: %s' % (what, plan, '; '.join(diff) or got), {'what': what, 'plan': [list(p) for p in plan]})
    return False


def lengths(jobs, tracer):
    """Number of switch points of each job when the jobs run one after the other."""
    _, s = run_plan(jobs, [(t, None) for t in range(len(jobs))], tracer)
    return s.count


def u_one(u):
    """One preemption anywhere, in each thread."""
    what, slow, nodes, opcodes, part, of = u
    res = core.Result()
    jobs = scenarios(slow, globals()[nodes])[what]
    tracer = None if slow else line_tracer(opcodes)
    want = [j.alone() for j in jobs]
    n = lengths(jobs, tracer)
    if part == 0:
        res.sample({'scenario': what, 'switch points': n, 'granularity': 'call' if slow else 'bytecode' if opcodes else 'line'}, 1)
    for a, b in ((0, 1), (1, 0)):
        for i in range(1 + part, n[a] + 1, of):
            if not check(res, what, jobs, want, [(a, i), (b, None), (a, None)], tracer):
                return res
    return res


def u_two(u):
    """Two preemptions: first thread to i, second to j, first to its end."""
    what, nodes, part, of = u
    res = core.Result()
    jobs = scenarios(False, globals()[nodes])[what]
    tracer = line_tracer()
    want = [j.alone() for j in jobs]
    n = lengths(jobs, tracer)
    for a, b in ((0, 1), (1, 0)):
        for i in range(1 + part, n[a] + 1, of):
            for j in range(1, n[b] + 1):
                if not check(res, what, jobs, want, [(a, i), (b, j), (a, None), (b, None)], tracer):
                    return res
    return res


def u_calls(u):
    """Up to k preemptions at the calls of the streams."""
    what, k, part, of = u
    res = core.Result()
    jobs = scenarios(True)[what]
    want = [j.alone() for j in jobs]
    n = lengths(jobs, None)
    c = 0
    for first in (0, 1):
        for m in range(1, k + 1):
            # rising switch points of each thread in turn
            mine = [range(1, n[first] + 1), range(1, n[1 - first] + 1)]
            na, nb = (m + 1) // 2, m // 2
            for A in itertools.combinations(mine[0], na):
                for B in itertools.combinations(mine[1], nb):
                    c += 1
                    if c % of != part:
                        continue
                    plan = []
                    for x in range(m):
                        plan.append((first, A[x // 2]) if x % 2 == 0 else (1 - first, B[x // 2]))
                    plan += [(first if m % 2 == 0 else 1 - first, None)]
                    if not check(res, what, jobs, want, plan, None):
                        return res
    return res


def u_three(u):
    """Three threads, every order of segments cut at the calls of the streams."""
    part, of = u
    res = core.Result()
    kw = dict(slow=True, pieces=1)
    jobs = [Job('read', 'CIM14', 1, **kw), Job('read', 'CIM15', 2, **kw), Job('write', 'CIM15', 3, **kw)]
    want = [j.alone() for j in jobs]
    n = lengths(jobs, None)
    c = 0
    for p in itertools.permutations(range(3)):
        for i in range(1, n[p[0]] + 1):
            for j in range(1, n[p[1]] + 1):
                for k in range(1, n[p[2]] + 1):
                    for rest in ((0, 1, 2), (2, 1, 0)):
                        c += 1
                        if c % of == part and not check(res, 'three threads', jobs, want, [(p[0], i), (p[1], j), (p[2], k)] + [(p[x], None) for x in rest], None):
                            return res
    return res


def u_first(u):
    """The same in fresh interpreters, where reading imports the classes."""
    what, part, of = u
    res = core.Result()
    pid_jobs = scenarios(False)[what]
    want = None
    total = None

    def child(plan):
        """(want, got, counts) from a forked process without any class loaded."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                bodies = [j.body() for j in pid_jobs]
                s = Scheduler(list(plan), len(pid_jobs))
                out = s.run(bodies, line_tracer(imports=True))
                got = [j.canon(x) for j, x in zip(pid_jobs, out)]
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((got, s.count, s.switched, s.free), f)
                code = 0
            except BaseException as e:
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((['failed: %s' % core.exc_name(e)], None, 0, False), f)
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else (['died'], None, 0, False)

    want, total, _, _ = child([(0, None), (1, None)])
    if total is None:
        raise RuntimeError(want)
    for a, b in ((0, 1), (1, 0)):
        n = total[a] if a == 0 else child([(1, None), (0, None)])[1][1]
        for i in range(1 + part, n + 1, of):
            got, _, sw, free = child([(a, i), (b, None), (a, None)])
            res.add('states')
            res.add('transitions', sw + 2)
            res.add('stalled', int(free))
            if got != want:
                diff = ['%s instead of %s' % (str(x)[:300], str(y)[:300]) for x, y in zip(got, want) if x != y]
                res.violation('first use: ' + what, '%s in a fresh interpreter, switch at line event %d of thread %d: %s' % (what, i, a + 1, '; '.join(diff)), {'what': what, 'plan': [[a, i], [b, None], [a, None]], 'fresh': True})
                return res
            res.add('traces')
            res.outcome('first use: ' + what)
    # the interpreter must not have loaded classes itself
    if any(m.startswith(('CIM14.', 'CIM15.')) and m.count('.') > 1 for m in sys.modules):
        res.add('classes_loaded_before')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def compile_once(cache, what):
    """Bytecode of what the fresh interpreters import, compiled from the current text."""
    sys.pycache_prefix = cache
    pid = os.fork()
    if pid == 0:
        try:
            sys.dont_write_bytecode = False
            for w in what:
                for j in scenarios(False)[w]:
                    j.alone()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    deep = core.TIER == 'thorough'
    import PyCIM    # noqa: only the reader and the writer, no classes
    first = ['read 14, read 15', 'read 15, read 15', 'read 15, read as a profile']
    of = 8
    cache = tempfile.mkdtemp(prefix='verif-c16-')
    try:
        compile_once(cache, first)
        total = core.run_units(unit, [('first', (w, p, of)) for w in first for p in range(of)], horizon=800, chunk=1)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    S, T = list(scenarios(False)), list(scenarios(True))
    units = [('one', (w, False, 'small', False, p, 8)) for w in S for p in range(8)]
    units += [('two', (w, 'bare', p, 16)) for w in ['read 14, read 15'] + (['write 14, write 15'] if deep else []) for p in range(16)]
    units += [('calls', (w, 4 if deep else 3, p, 8)) for w in T for p in range(8)] + [('three', (p, 8)) for p in range(8)]
    if deep:
        units += [('two', (w, 'tiny', p, 16)) for w in S for p in range(16)]
        units += [('one', (w, False, 'small', True, p, 16)) for w in S for p in range(16)]
        units += [('two', (w, 'small', p, 64)) for w in ('read 14, read 15', 'write 14, write 15') for p in range(64)]
    total.merge(core.run_units(unit, units, horizon=20000 if deep else 800, chunk=1))
    return total, dict(level='model_checking',
                       rule='state = schedule (switch points of the threads); transition = context switch; trace = schedule under which '
                            'all results were those of the operations alone. Nine pairs of reads and writes: every single preemption at '
                            'every line of the library, %severy pair of preemptions for documents of one object, up to %d preemptions at '
                            'the calls of the streams, three threads cut once each; the same from interpreters without any class loaded'
                            % ('and at every bytecode, ' if deep else '', 4 if deep else 3),
                       assumptions=['switches inside an import (which holds its lock) and inside C code are not explored'])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    import PyCIM    # noqa
    jobs = scenarios(False)[data['what']] if data['what'] in scenarios(False) else []
    for tracer, slow in ((line_tracer(), False), (None, True)):
        for nodes in (small, tiny, bare):
            jobs = scenarios(slow, nodes).get(data['what'])
            if jobs:
                want = [j.alone() for j in jobs]
                got, s = run_plan(jobs, [tuple(p) for p in data['plan']], tracer)
                print('call' if slow else 'line', nodes.__name__, 'as alone' if got == want else 'differs')
