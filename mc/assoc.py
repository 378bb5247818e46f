"""Explicit-state exploration of one association: breadth-first over every
sequence of public operations on small pools of real objects, every step
compared with a reference model (a set of links)."""
import collections
from core import load_class, heap_canon, exc_name, Result, Hang


class Assoc:
    """One association: two ends (class, ref name, many)."""

    def __init__(self, a, b, many_a, many_b, cls_a=None, cls_b=None):
        self.a, self.b = a, b                      # (declaring class, ref)
        self.many = (many_a, many_b)
        self.ref = (a[1], b[1])
        self.cls = (cls_a or a[0], cls_b or b[0])  # classes instantiated
        self.selfassoc = a[0] == b[0]
        self.mix = (None, None)                    # classes of the objects of a pool, in turn

    @property
    def kind(self):
        return {(0, 0): '1-1', (1, 1): 'm-n'}.get((int(self.many[0]), int(self.many[1])), '1-n')

    def __str__(self):
        return '%s.%s <-> %s.%s' % (self.cls[0], self.ref[0], self.cls[1], self.ref[1])

    def spec(self):
        return {'a': list(self.a), 'b': list(self.b), 'many': [bool(m) for m in self.many],
                'cls': list(self.cls), 'mix': [m and list(m) for m in self.mix]}


def from_spec(s):
    a = Assoc(tuple(s['a']), tuple(s['b']), s['many'][0], s['many'][1], s['cls'][0], s['cls'][1])
    a.mix = tuple(s.get('mix') or (None, None))
    return a


class World:
    """Fresh real objects; ops are applied through the public API only."""

    def __init__(self, asc, sizes, uuids=None):
        self.asc = asc
        self.uuids = uuids
        self.objs = {}
        self.side = ([], [])
        self.caller = []           # (list handed in, its contents then)
        ca, cb = load_class(asc.cls[0]), load_class(asc.cls[1])
        self.k = (ca, cb)
        turn = [[load_class(c) for c in m or [asc.cls[e]]] for e, m in enumerate(asc.mix)]
        if asc.selfassoc:
            for i in range(max(sizes)):
                o = turn[0][i % len(turn[0])]()
                self.objs['n%d' % i] = o
                self.side[0].append('n%d' % i)
                self.side[1].append('n%d' % i)
        else:
            for s in (0, 1):
                for i in range(sizes[s]):
                    n = 'ab'[s] + str(i)
                    self.objs[n] = turn[s][i % len(turn[s])]()
                    self.side[s].append(n)
        self.name = {id(o): n for n, o in self.objs.items()}
        if uuids == 'desc':        # identifiers in the reverse order of creation
            for i, o in enumerate(self.objs.values()):
                o.UUID = '_%d' % (len(self.objs) - i)

    def nm(self, o):
        return self.name.get(id(o), '?%s' % type(o).__name__)

    def state(self):
        """(side, object) -> tuple of names, as the getters show it."""
        out = {}
        for s in (0, 1):
            ref, many = self.asc.ref[s], self.asc.many[s]
            for n in self.side[s]:
                v = getattr(self.objs[n], ref)
                if many:
                    out[s, n] = tuple(self.nm(x) for x in v)
                else:
                    out[s, n] = () if v is None else (self.nm(v),)
        return out

    def canon(self):
        marks = {id(l): '!%d' % i for i, (l, c) in enumerate(self.caller)}
        return heap_canon(list(self.objs.values()), self.name, marks)

    def method(self, o, verb, s):
        m = getattr(o, verb + self.asc.ref[s], None)
        return m if m is not None else getattr(o, verb + '_' + self.asc.ref[s])

    def apply(self, op):
        """op = (verb, side, object, args). Returns an exception or None."""
        verb, s, n, args = op
        ref = self.asc.ref[s]
        try:
            if verb == 'new':      # construct a further object with the keyword
                val = self.value(s, args)
                o = self.k[s](**{ref: val})
                self.objs[n] = o
                self.name[id(o)] = n
                self.side[s].append(n)
                if self.asc.selfassoc:
                    self.side[1 - s].append(n)
                return None
            o = self.objs[n]
            if verb == 'get':
                getattr(o, ref)
                return None
            if verb in ('set', 'setm'):
                val = self.value(s, args)
                if verb == 'set':
                    setattr(o, ref, val)
                else:
                    self.method(o, 'set', s)(val)
            else:
                self.method(o, verb, s)(*[self.objs[x] for x in args])
        except Exception as e:      # noqa: the outcome is judged by the caller
            return e
        return None

    def value(self, s, args):
        if not self.asc.many[s]:
            return self.objs[args[0]] if args else None
        if args and args[0] == '@live':       # the other owner's own list
            return getattr(self.objs[args[1]], self.asc.ref[s])
        lst = [self.objs[x] for x in args]
        self.caller.append((lst, list(lst)))
        return lst

    def poison(self):
        """The lists handed in still belong to the caller: unchanged by later
        operations, and changing them changes no object. Returns a message."""
        for lst, then in self.caller:
            if len(lst) != len(then) or any(x is not y for x, y in zip(lst, then)):
                return 'a list passed to the API was modified by it: %r -> %r' % (
                    [self.nm(x) for x in then], [self.nm(x) for x in lst])
        if not self.caller:
            return None
        before = self.state()
        for lst, then in self.caller:
            if lst:
                del lst[:]
            else:
                lst.append(next(iter(self.objs.values())))
        if self.state() != before:
            return 'modifying a list that was passed to the API earlier modified the model'
        return None


# ------------------------------------------------------------- reference model

class Model:
    """A set of links (x of side 0, y of side 1), each list in order."""

    def __init__(self, asc, st):
        self.asc = asc
        self.st = {k: list(v) for k, v in st.items()}

    def unlink(self, x, y):
        self.st[0, x].remove(y)
        self.st[1, y].remove(x)

    def link(self, x, y):
        if y in self.st[0, x]:
            return
        if not self.asc.many[0] and self.st[0, x]:
            self.unlink(x, self.st[0, x][0])
        if not self.asc.many[1] and self.st[1, y]:
            self.unlink(self.st[1, y][0], y)
        self.st[0, x].append(y)
        self.st[1, y].append(x)

    def lk(self, s, n, m):
        self.link(*((n, m) if s == 0 else (m, n)))

    def un(self, s, n, m):
        self.unlink(*((n, m) if s == 0 else (m, n)))

    def apply(self, op, live):
        verb, s, n, args = op
        if verb == 'new':
            for side in ((0, 1) if self.asc.selfassoc else (s,)):
                self.st[side, n] = []
            verb = 'set'
        if verb == 'get':
            return
        if verb in ('set', 'setm'):
            vals = live if live is not None else list(args)
            for m in list(self.st[s, n]):
                if m not in vals:
                    self.un(s, n, m)
            for m in vals:
                self.lk(s, n, m)
        elif verb == 'add':
            for m in args:
                self.lk(s, n, m)
        elif verb == 'remove':
            for m in args:
                if m in self.st[s, n]:
                    self.un(s, n, m)


def judge(asc, before, op, after, exc, sides):
    """Is `after` an allowed successor of `before` under op? Message or None."""
    verb, s, n, args = op
    # 1. invariant: symmetric, no duplicates, only known objects
    for (t, x), ys in after.items():
        if len(set(ys)) != len(ys):
            return '%s lists an object twice: %r' % (show(asc, t, x), ys)
        for y in ys:
            if (1 - t, y) not in after:
                return '%s refers to an object outside the world: %r' % (show(asc, t, x), ys)
            if x not in after[1 - t, y]:
                return 'not symmetric: %s = %r but %s = %r' % (
                    show(asc, t, x), ys, show(asc, 1 - t, y), after[1 - t, y])
    # 2. outcome
    live = None
    if verb in ('set', 'setm', 'new') and args and args[0] == '@live':
        live = list(before[s, args[1]])
    clean = list(args)
    foreign = verb == 'remove' and any(
        m not in before[s, n] or clean.index(m) != i for i, m in enumerate(clean))
    if exc is not None and not foreign:
        return 'valid operation raised %s' % exc_name(exc)
    if foreign:
        # removing what is not there: rejected, ignored, or detaching the named
        # object from its own owner; never touching anything that is not named
        named = set(clean) | {n}
        for (t, x), ys in after.items():
            was = before[t, x]
            if t == s and x != n:
                gone = set(was) - set(ys)
                if not gone <= set(clean) or set(ys) - set(was):
                    return 'remove of a non-member changed %s: %r -> %r' % (show(asc, t, x), was, ys)
            if t == s and x == n and (set(was) - set(ys)) - set(clean) or set(ys) - set(was):
                return 'remove changed %s: %r -> %r' % (show(asc, t, x), was, ys)
        return None
    mod = Model(asc, before)
    mod.apply((verb, s, n, clean if live is None else args), live)
    touched = set(clean) | {n} if live is None else set(live) | {n, args[1]}
    for key, want in mod.st.items():
        got = after.get(key)
        if got is None or sorted(got) != sorted(want):
            return '%s is %r, should be %r' % (show(asc, *key), got, tuple(want))
        t, x = key
        was = before.get(key, ())
        # order: untouched members keep their order and stay in front of new ones
        keep = [m for m in was if m in want and m not in touched]
        if [m for m in got if m in keep] != keep:
            return '%s reordered %r -> %r' % (show(asc, t, x), was, got)
        new = [m for m in got if m not in was]
        if keep and new and got.index(new[0]) < max(got.index(m) for m in keep):
            return '%s: new member not appended: %r -> %r' % (show(asc, t, x), was, got)
    if verb in ('set', 'setm', 'new', 'add') and asc.many[s]:
        vals = live if live is not None else clean
        vals = [v for i, v in enumerate(vals) if v not in vals[:i]]
        if verb == 'add':
            vals = [v for v in vals if v not in before[s, n]]
        got = [m for m in after[s, n] if m in vals]
        if got != vals:
            return '%s: given in order %r, reads %r' % (show(asc, s, n), vals, got)
    return None


def show(asc, s, n):
    return '%s.%s' % (n, asc.ref[s])


def alphabet(asc, sides, full):
    """Every operation of the bounded alphabet on the pool."""
    ops = []
    for s in (0, 1):
        others = sides[1 - s]
        for n in sides[s]:
            if not asc.many[s]:
                for v in [()] + [(o,) for o in others]:
                    ops.append(('set', s, n, v))
                    if full:
                        ops.append(('setm', s, n, v))
            else:
                subs = [()] + [(o,) for o in others] + [
                    (p, q) for p in others for q in others if p != q]
                if full and len(others) > 2:
                    subs.append(tuple(others))
                    subs.append(tuple(reversed(others)))
                dup = [(others[0], others[0])]
                for v in subs + dup:
                    ops.append(('set', s, n, v))
                for v in subs[:2] if not full else subs:
                    ops.append(('setm', s, n, v))
                for m in sides[s]:
                    ops.append(('set', s, n, ('@live', m)))
                for v in subs + dup:
                    ops.append(('add', s, n, v))
                for v in subs + (dup if full else []):
                    ops.append(('remove', s, n, v))
    return ops


def spawns(asc, sides):
    ops = []
    for s in (0, 1):
        others = sides[1 - s]
        n = 'z%d' % s
        if asc.many[s]:
            vals = [(), (others[0],), tuple(others), tuple(reversed(others)),
                    ('@live', sides[s][0])]
        else:
            vals = [()] + [(o,) for o in others]
        for v in vals:
            ops.append(('new', s, n, v))
    return ops


def wide(asc, sides):
    """A coarser alphabet for larger pools."""
    ops = []
    for s in (0, 1):
        others = sides[1 - s]
        for n in sides[s][:2]:
            if not asc.many[s]:
                for v in [()] + [(o,) for o in others[:2]]:
                    ops.append(('set', s, n, v))
            else:
                h = len(others) // 2
                vals = [tuple(others), tuple(reversed(others)), tuple(others[:h]), tuple(others[h:]),
                        tuple(others[1:]), tuple(others[::2])]
                for v in [()] + vals:
                    ops.append(('set', s, n, v))
                for v in vals:
                    ops.append(('add', s, n, v))
                for v in vals + [(others[h],)]:
                    ops.append(('remove', s, n, v))
    return ops


def populated(asc, sides):
    """A history after which most objects are linked."""
    h = []
    s = 0 if asc.many[0] else 1
    if not asc.many[s]:
        return ((('set', 0, sides[0][0], (sides[1][0],))), ('set', 0, sides[0][-1], (sides[1][-1],)))
    others = sides[1 - s]
    h.append(('add', s, sides[s][0], tuple(others[:-1]) or tuple(others)))
    h.append(('add', s, sides[s][-1], (others[-1],)))
    return tuple(h)


def run_trace(asc, sizes, ops, uuids=None):
    """Replays ops on a fresh world; the last step is judged."""
    w = World(asc, sizes, uuids)
    for op in ops[:-1]:
        w.apply(op)
    before = w.state()
    exc = w.apply(ops[-1]) if ops else None
    return w, before, exc


def explore(asc, sizes, kind, depth, res, max_states=100000, uuids=None, start=()):
    """BFS to `depth` operations after `start` (or to the fixpoint): every
    reachable heap, every operation of the alphabet; each step judged."""
    def rep(ops):
        return {'assoc': asc.spec(), 'sizes': list(sizes), 'uuids': uuids, 'ops': [list(o) for o in ops]}
    w0 = World(asc, sizes, uuids)
    try:
        st0 = w0.state()
    except Exception as e:
        res.violation('%s: initial' % asc, '%s: reading a new object raised %s' % (asc, exc_name(e)), rep(()))
        return
    for (t, x), ys in st0.items():
        if ys:
            res.violation('%s: initial' % asc, '%s: a new object already has links: %s = %r' % (
                asc, show(asc, t, x), ys), rep(()))
            return
    ops = wide(asc, w0.side) if kind == 'wide' else alphabet(asc, w0.side, kind == 'full')
    leaf = spawns(asc, w0.side)
    seen = {run_trace(asc, sizes, start, uuids)[0].canon() if start else w0.canon()}
    frontier = collections.deque([start])
    reached = len(start)
    fix = True
    bad = 0
    if start:                       # the prefix itself is judged, too
        for i in range(1, len(start)):
            w, before, exc = run_trace(asc, sizes, start[:i], uuids)
            msg = judge(asc, before, start[i - 1], w.state(), exc, w.side)
            if msg:
                res.violation('%s: %s' % (asc, opstr(asc, start[i - 1])), '%s: %s' % (asc, msg), rep(start[:i]))
                return
    while frontier:
        hist = frontier.popleft()
        for op in ops + leaf:
            trace = hist + (op,)
            w, before, exc = run_trace(asc, sizes, trace, uuids)
            msg = None
            try:
                after = w.state()
                msg = judge(asc, before, op, after, exc, w.side)
            except Exception as e:
                msg = 'reading the references back raised %s' % exc_name(e)
            res.add('transitions')
            if msg is None and op[0] != 'new':
                c = w.canon()
                if c not in seen:
                    seen.add(c)
                    reached = max(reached, len(trace))
                    if len(trace) - len(start) < depth and len(seen) < max_states:
                        frontier.append(trace)
                    else:
                        fix = False
            if msg is None:
                msg = w.poison()
            if msg is not None:
                res.violation('%s: %s' % (asc, opstr(asc, op)), '%s: after %s: %s' % (
                    asc, '; '.join(opstr(asc, o) for o in trace), msg), rep(trace))
                bad += 1
                if bad >= 3:
                    return
            else:
                res.outcome('%s %s ok' % (asc.kind, op[0]) if exc is None else '%s %s rejected' % (asc.kind, op[0]))
    res.add('states', len(seen))
    res.add('spaces_closed' if fix else 'spaces_cut_at_depth')
    res.sample({'association': str(asc), 'pool': list(sizes), 'alphabet': len(ops), 'states': len(seen),
                'closed': fix, 'last_history': '; '.join(opstr(asc, o) for o in trace)}, 1)
    res.n['traces'] += 1


def opstr(asc, op):
    verb, s, n, args = op
    ref = asc.ref[s]
    a = ', '.join(args)
    if verb == 'new':
        return '%s = %s(%s=[%s])' % (n, asc.cls[s].split(':')[1], ref, a)
    if verb == 'set':
        return '%s.%s = %s' % (n, ref, '[%s]' % a if asc.many[s] else a or 'None')
    return '%s.%s%s(%s)' % (n, {'setm': 'set'}.get(verb, verb), ref, a)


def replay(data):
    asc = from_spec(data['assoc'])
    ops = [(o[0], o[1], o[2], tuple(o[3])) for o in data['ops']]
    w = World(asc, data['sizes'], data.get('uuids'))
    print('association', asc, 'pool', sorted(w.objs))
    for op in ops:
        before = w.state()
        exc = w.apply(op)
        print(' ', opstr(asc, op), '->', exc_name(exc) if exc else 'ok')
        after = w.state()
        for k, v in sorted(after.items()):
            if before.get(k) != v:
                print('      %s = %r' % (show(asc, *k), v))
        msg = judge(asc, before, op, after, exc, w.side)
        if msg:
            print('  VIOLATED:', msg)
    print('  caller lists:', w.poison() or 'ok')
