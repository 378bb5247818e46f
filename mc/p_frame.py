"""C04: an operation changes nothing but the feature it names.  For every class: a
history over all its features, forward and backward, on an empty and on a fully
set object; after every operation all features of all objects are compared with
the model."""
import assoc
import core
from feat import Features, Snap, values, FALSY, add_method

meta = feats = None


def build(q, full):
    s = Snap(feats)
    o, t = s.new('o', q), s.new('t', q)
    partners = {}
    for r, spec in feats.refs(q).items():
        if spec.get('view') == 'PerLengthImpedance' and r == 'PerLengthImpedance':
            continue
        partners[r] = ['%s%d' % (r, i) for i in range(4)]
        for i, n in enumerate(partners[r]):
            s.new(n, feats.partner(spec, i % 3))
    return s, partners


def ops_for(name, f, partners):
    kind, spec, _ = f
    if kind == 'attr':
        v = values(spec)
        return [('set', name, x) for x in (v[0], FALSY[spec['type']][0], None, v[1])]
    p = partners[name]
    if not spec['many']:
        return [('set', name, (p[0],)), ('set', name, (p[3],)), ('set', name, ()), ('set', name, (p[1],))]
    out = [('set', name, (p[0], p[1])), ('add', name, (p[2],)), ('remove', name, (p[0],)), ('set', name, ()),
           ('add', name, (p[3],)), ('set', name, (p[1], p[0]))]
    return out


def expected(s, before, q, who, op):
    """Features that the operation sets, and the model's value for them."""
    verb, name, val = op
    kind, spec, decl = feats.of(q)[name]
    if kind == 'attr':
        return {(who, name): (type(val).__name__, val)}
    cur = list(before[who, name])
    if not spec.get('opp'):
        new = tuple(val) if verb == 'set' else tuple(cur) + tuple(val) if verb == 'add' else tuple(
            x for x in cur if x not in val)
        return {(who, name): new}
    # bidirectional: the link-set model over every object that has either end
    A = assoc.Assoc((decl, name), (spec['target'], spec['opp']), spec['many'],
                    meta.ref(spec['target'], spec['opp'])['many'])
    st = {}
    for n in s.objs:
        f = feats.of(s.cls[n])
        for side, (k, r) in enumerate((A.a, A.b)):
            if k in meta.chain(s.cls[n]) and f[r][2] == k:
                st[side, n] = before[n, r]
    m = assoc.Model(A, st)
    m.apply((verb, 0, who, list(val)), None)
    return {(n, (A.a, A.b)[side][1]): tuple(v) for (side, n), v in m.st.items()}


def do(s, who, op, many):
    verb, name, val = op
    o = s.objs[who]
    if isinstance(val, tuple):
        objs = [s.objs[x] for x in val]
        if verb == 'set':
            setattr(o, name, objs if many else (objs[0] if objs else None))
            objs.append(o)          # the list is still the caller's own
            objs.reverse()
        else:
            add_method(o, name, verb)(*objs)
    else:
        setattr(o, name, val)


def set_level(s, level):
    for n, o in s.objs.items():
        for k, a in feats.attrs(s.cls[n]).items():
            if k != 'UUID':
                setattr(o, k, values(a)[level])


def unit(q):
    res = core.Result()
    fs = feats.of(q)
    names = [n for n in fs if n != 'PerLengthImpedance' or not fs[n][1].get('view')]
    skip = set()
    viewed = [n for n in names if fs[n][1].get('view')]
    for full in (False, True, 'levels'):
        try:
            s, partners = build(q, full)
        except Exception as e:
            res.violation('%s: construct' % q, '%s: cannot be constructed: %s' % (q, core.exc_name(e)), {'cls': q})
            return res
        hist = []
        if full:
            for n in names:
                if n in viewed[1:]:
                    continue
                kind, spec, _ = fs[n]
                for who, i in (('o', 0), ('t', 2)):
                    if kind == 'attr':
                        hist.append((who, ('set', n, values(spec)[i // 2])))
                    else:
                        hist.append((who, ('set', n, tuple(partners[n][i:i + 2]) if spec['many'] else (partners[n][i],))))
        order = names + names[::-1]
        if full == 'levels':            # every reference operation while all attributes of all objects have one value, then another
            order = [n for n in names if fs[n][0] == 'ref']
            order = [0] + order + [1] + order[::-1]
        for n in order:
            if n in (0, 1):
                hist.append((None, ('attrs', None, n)))
                continue
            ops = ops_for(n, fs[n], partners)
            if n in viewed:                 # leave the shared impedance clear
                ops = ops + [('set', n, ())]
            hist += [('o', op) for op in ops]
            # the other object takes over a partner of the first, and gives it back
            if fs[n][0] == 'ref' and fs[n][1].get('opp') and n not in viewed:
                p = partners[n]
                hist += [('t', ('set', n, (p[1],))), ('o', ('set', n, (p[1],)))]
        before = s.all()
        res.add('states')
        for i, (who, op) in enumerate(hist):
            if who is None:
                set_level(s, op[2])
                before = s.all()
                continue
            kind, spec, _ = fs[op[1]]
            want = dict(before)
            ex = expected(s, before, q, who, op)
            want.update(ex)
            for n, k in ex:             # the generic view of a line segment follows the specific one
                if feats.of(s.cls[n])[k][1].get('view') and (n, 'PerLengthImpedance') in want and ex[n, k] != before[n, k]:
                    want[n, 'PerLengthImpedance'] = ex[n, k]
            msg = None
            try:
                do(s, who, op, kind == 'ref' and spec['many'])
                after = s.all()
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            res.add('transitions')
            if msg is None and after != want:
                for k in want:
                    if after[k] != want[k] and not (k in ex and isinstance(ex[k], tuple) and kind == 'ref'
                                                    and sorted(after[k]) == sorted(want[k])):
                        msg = '%s.%s became %r, should be %r (was %r)' % (k[0], k[1], after[k], want[k], before[k])
                        break
                before = after
            elif msg is None:
                before = after
            if msg:
                res.violation('%s: %s.%s' % (q, op[0], op[1]), '%s: %s %s.%s %r (step %d): %s' % (
                    q, op[0], who, op[1], op[2], i, msg),
                    {'cls': q, 'full': full, 'steps': [[w, list(x)] for w, x in hist[:i + 1]], 'what': msg})
                return res
            res.add('comparisons', len(want))
        res.add('traces')
        res.outcome('%s background ok' % (full if full == 'levels' else 'full' if full else 'empty'))
        if full:
            res.sample({'class': q, 'objects': len(s.objs), 'operations': len(hist), 'features_compared': len(before)}, 1)
    # objects share no state: lists of fresh objects are distinct objects
    a, b = core.load_class(q)(), core.load_class(q)()
    seen = {}
    for n, f in fs.items():
        if f[0] == 'ref' and f[1]['many']:
            for o, w in ((a, 'first'), (b, 'second')):
                l = getattr(o, n)
                if isinstance(l, list) and id(l) in seen:
                    res.violation('%s: shared %s' % (q, n), '%s: new objects share a list: %s and %s' % (q, n, seen[id(l)]),
                                  {'cls': q})
                seen[id(l)] = '%s.%s' % (w, n)
    return res


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    res = core.run_units(unit, sorted(meta.classes), horizon=300)
    return res, dict(level='model_checking',
                     rule='one history per class and background (nothing set / everything set / every reference operation with all attributes of all objects at one value, then another): every operation on every '
                          'feature, in declaration order and in reverse, so that every ordered pair of features occurs; '
                          'state = background world, transition = operation after which all features of all objects are '
                          'compared with the model, trace = completed history',
                     assumptions=['interference is a function of the pair of features and of whether the others are set'])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    if 'steps' not in data:
        print(data)
        return
    q = data['cls']
    s, _ = build(q, data['full'])
    fs = feats.of(q)
    for who, (verb, name, val) in data['steps']:
        if who is None:
            set_level(s, val)
            continue
        before = s.all()
        op = (verb, name, tuple(val) if isinstance(val, list) else val)
        try:
            do(s, who, op, fs[name][0] == 'ref' and fs[name][1]['many'])
        except Exception as e:
            print(' ', verb, who, name, val, core.exc_name(e))
            continue
        after = s.all()
        print(' ', verb, '%s.%s' % (who, name), val, {k: after[k] for k in after if after[k] != before[k]})
