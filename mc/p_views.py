"""C09: line segments and their per-length impedance: breadth-first exploration of the
real objects to the fixpoint, every step compared with the map segment -> impedance."""
import collections
import itertools

import core

W = 'CIM15.IEC61970.Wires:'
VIEWS = ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance')
POOLS = [(2, 2, 2), (3, 1, 1)]


class World:
    def __init__(self, pool):
        self.o = {}
        for k, cls, n in (('s', 'ACLineSegment', pool[0]), ('p', 'PerLengthPhaseImpedance', pool[1]),
                          ('q', 'PerLengthSequenceImpedance', pool[2])):
            for i in range(n):
                self.o['%s%d' % (k, i)] = core.load_class(W + cls)()
        self.given = []

    def name(self, v):
        if v is None:
            return None
        return next((n for n, o in self.o.items() if o is v), '?%s' % type(v).__name__)

    def read(self):
        out = {}
        for n, o in self.o.items():
            if n[0] == 's':
                for v in VIEWS:
                    out[n, v] = self.name(getattr(o, v))
            else:
                out[n, 'LineSegments'] = tuple(self.name(x) for x in o.LineSegments)
        return out

    def canon(self):
        return core.heap_canon(list(self.o.values()), {id(o): n for n, o in self.o.items()}, {})

    def apply(self, op):
        verb, n, val = op
        try:
            if verb in VIEWS:
                setattr(self.o[n], verb, self.o[val] if val else None)
            elif verb == 'set':
                l = [self.o[x] for x in val]
                self.given.append((l, list(l)))
                self.o[n].LineSegments = l
            elif verb in ('add', 'remove'):
                getattr(self.o[n], verb + 'LineSegments')(*[self.o[x] for x in val])
            elif verb == 'new':
                K = core.load_class(W + {'s': 'ACLineSegment', 'p': 'PerLengthPhaseImpedance', 'q': 'PerLengthSequenceImpedance'}[n[0]])
                kw = {k: ([self.o[x] for x in v] if k == 'LineSegments' else self.o[v]) for k, v in val}
                self.o[n] = K(**kw)
        except Exception as e:
            return e


def consistent(st):
    """The three views and the lists agree; returns (message, segment -> impedance)."""
    m = {}
    for (n, v), x in st.items():
        if v == 'PerLengthImpedance':
            m[n] = x
            if st[n, 'PhaseImpedance'] != (x if x and x[0] == 'p' else None):
                return '%s.PhaseImpedance is %s with impedance %s' % (n, st[n, 'PhaseImpedance'], x), m
            if st[n, 'SequenceImpedance'] != (x if x and x[0] == 'q' else None):
                return '%s.SequenceImpedance is %s with impedance %s' % (n, st[n, 'SequenceImpedance'], x), m
    for (n, v), x in st.items():
        if v == 'LineSegments':
            for s in set(x) | set(k for k in m if m[k] == n):
                if x.count(s) != (1 if m.get(s) == n else 0):
                    return '%s.LineSegments lists %s %d times, its impedance is %s' % (n, s, x.count(s), m.get(s)), m
    return None, m


def judge(before, op, after, exc):
    """Message if the step is wrong."""
    msg, now = consistent(after)
    if msg:
        return msg
    _, was = consistent(before)
    verb, n, val = op
    want = [dict(was)]
    if verb in VIEWS:
        want[0][n] = val
        if val is None and verb != 'PerLengthImpedance':
            kind = 'p' if verb == 'PhaseImpedance' else 'q'
            if was[n] and was[n][0] != kind:        # clearing a view that shows nothing: either reading
                want.append(dict(was))
    elif verb == 'set':
        want[0] = {s: (None if i == n else i) for s, i in was.items()}
        want[0].update({s: n for s in val})
    elif verb == 'add':
        want[0].update({s: n for s in val})
    elif verb == 'remove':
        want[0].update({s: None for s in val})
    elif verb == 'new':
        many = n[0] == 's' and len(val) > 1
        if many:
            return None if isinstance(exc, ValueError) and now == was else \
                'constructing with %s: %s' % (', '.join(k for k, _ in val), core.exc_name(exc) if exc else 'not rejected')
        if n[0] == 's':
            want[0][n] = val[0][1] if val else None
        else:
            want[0].update({s: n for k, v in val for s in v})
    if exc is not None:
        return 'raised %s' % core.exc_name(exc)
    if now not in want:
        ch = [s for s in now if now[s] != want[0].get(s)]
        return 'impedance of %s is %s, should be %s' % (ch[0], now[ch[0]], want[0].get(ch[0]))
    for (i, v), x in after.items():
        if v != 'LineSegments':
            continue
        b = before.get((i, v), ())
        if verb in ('set', 'new') and i == n:
            args = val if verb == 'set' else val[0][1] if val else ()
            if x != tuple(args):
                return '%s.LineSegments is %s, should be %s' % (i, x, tuple(args))
        else:
            moved = set(s for s in now if now[s] != was.get(s)) | (set(val) if verb == 'add' else {n})
            if [s for s in x if s not in moved] != [s for s in b if s not in moved]:
                return 'the order of %s.LineSegments changed from %s to %s' % (i, b, x)
            new = [s for s in x if s not in b]
            rest = [s for s in x if s in b and s not in moved]      # a member added again may stay or move
            if new and rest and x.index(new[0]) < x.index(rest[-1]):
                return '%s.LineSegments is %s: not appended' % (i, x)
            if verb == 'add' and i == n and new != [s for s in dict.fromkeys(val) if s not in b]:
                return '%s.LineSegments is %s: not in the order given' % (i, x)


def alphabet(pool):
    S = ['s%d' % i for i in range(pool[0])]
    P = ['p%d' % i for i in range(pool[1])]
    Q = ['q%d' % i for i in range(pool[2])]
    ops = []
    for s in S:
        ops += [('PhaseImpedance', s, x) for x in P + [None]]
        ops += [('SequenceImpedance', s, x) for x in Q + [None]]
        ops += [('PerLengthImpedance', s, x) for x in P + Q + [None]]
    seqs = [c for k in range(len(S) + 1) for c in itertools.permutations(S, k)]
    for i in P + Q:
        ops += [('set', i, c) for c in seqs]
        ops += [('add', i, c) for c in seqs if c] + [('add', i, (s, s)) for s in S[:1]]
        ops += [('remove', i, c) for c in seqs if c]
    leaf = [('new', 'sN', ())]
    leaf += [('new', 'sN', (('PhaseImpedance', x),)) for x in P] + [('new', 'sN', (('SequenceImpedance', x),)) for x in Q]
    leaf += [('new', 'sN', (('PerLengthImpedance', x),)) for x in P + Q]
    leaf += [('new', 'sN', (('PhaseImpedance', x), ('SequenceImpedance', y))) for x in P for y in Q]
    leaf += [('new', 'sN', (('PhaseImpedance', x), ('PerLengthImpedance', y))) for x in P for y in P + Q]
    leaf += [('new', 'sN', (('SequenceImpedance', x), ('PerLengthImpedance', y))) for x in Q for y in P + Q]
    leaf += [('new', 'sN', (('PhaseImpedance', x), ('SequenceImpedance', z), ('PerLengthImpedance', y)))
             for x in P for z in Q for y in P + Q]
    leaf += [('new', k, (('LineSegments', c),)) for k in ('pN', 'qN') for c in seqs]
    return ops, leaf


def run_trace(pool, trace):
    w = World(pool)
    before = exc = None
    for i, op in enumerate(trace):
        if i == len(trace) - 1:
            before = w.read()
        exc = w.apply(op)
    return w, before, exc


def unit(pool):
    res = core.Result()
    ops, leaf = alphabet(pool)
    w = World(pool)
    seen = {w.canon()}
    frontier = collections.deque([()])
    while frontier and len(res.violations) < 5:
        hist = frontier.popleft()
        members = run_trace(pool, hist)[0].read()
        for op in ops + leaf:
            if op[0] == 'remove' and not set(op[2]) <= set(members[op[1], 'LineSegments']):
                continue
            trace = hist + (op,)
            w, before, exc = run_trace(pool, trace)
            try:
                msg = judge(before, op, w.read(), exc)
                if not msg and any(l != was for l, was in w.given):
                    msg = 'a list passed in was changed'
            except Exception as e:
                msg = 'reading back raised %s' % core.exc_name(e)
            res.add('transitions')
            if msg:
                res.violation('%s %s' % (op[0], op[1][0]), 'after %s: %s' % ('; '.join(map(show, trace)), msg),
                              {'pool': list(pool), 'trace': [list(o) for o in trace]})
                continue
            res.add('traces')
            res.outcome(op[0])
            if op[0] != 'new':
                c = w.canon()
                if c not in seen:
                    seen.add(c)
                    frontier.append(trace)
    res.add('states', len(seen))
    res.sample({'pool': list(pool), 'states': len(seen), 'alphabet': len(ops) + len(leaf), 'last': '; '.join(map(show, trace))}, 1)
    return res


def show(op):
    verb, n, val = op
    if verb in VIEWS:
        return '%s.%s = %s' % (n, verb, val)
    if verb == 'new':
        return '%s = new(%s)' % (n, ', '.join('%s=%s' % kv for kv in val))
    return '%s.%s%s(%s)' % (n, verb, 'LineSegments', ', '.join(val))


def run(prop):
    pools = POOLS + ([(3, 2, 2), (4, 1, 1), (2, 3, 3)] if core.TIER == 'thorough' else [])
    res = core.run_units(unit, pools, horizon=1500, chunk=1)
    return res, dict(level='model_checking',
                     rule='breadth-first to the fixpoint over pools of segments, phase and sequence impedances; state = canonical '
                          'heap of the real objects, transition = operation judged against the map segment -> impedance',
                     assumptions=['setting the view of the other kind to None may clear the impedance or leave it'])


def replay(prop, data):
    w = World(data['pool'])
    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    for op in data['trace']:
        before = w.read()
        exc = w.apply(tup(op))
        after = w.read()
        print(' ', show(tup(op)), core.exc_name(exc) if exc else '', {k: v for k, v in after.items() if before.get(k) != v},
              judge(before, tup(op), after, exc) or 'ok')
