"""C05: keyword construction against default construction plus assignment, for every
class and every subset of keywords of size 0, 1, 2 and all."""
import itertools

import core
from feat import Features, Snap, values, FALSY

meta = feats = None


def variants(name, f):
    """Values to pass: ('val', x) for attributes, tuple of partner indices for references."""
    kind, spec, _ = f
    if kind == 'attr':
        vs = []
        for v in values(spec) + FALSY[spec['type']] + [spec['default'], None]:
            if not any(type(v) is type(x) and v == x for x in vs):
                vs.append(v)
        return vs
    return [(0,), (0, 1), (), None, (1, 0)] if spec['many'] else [(0,), None] + ([(1,)] if spec.get('view') == name else [])


def target(fs, n, i):
    """Class of a partner; where a reference is a view of others, one of theirs."""
    if fs[n][1].get('view') == n:
        others = sorted(k for k in fs if k != n and fs[k][1].get('view') == n)
        if others:
            return fs[others[i % len(others)]][1]['target']
    return feats.partner(fs[n][1], i)


def world(q, used, owned=False):
    """Partner objects for the used reference features; owned: another object holds them."""
    s = Snap(feats)
    fs = feats.of(q)
    for n in used:
        if fs[n][0] == 'ref':
            for i in (0, 1):
                s.new('%s%d' % (n, i), target(fs, n, i))
    if owned:
        t = s.new('t', q)
        for n in used:
            if fs[n][0] == 'ref':
                setattr(t, n, arg(s, n, fs[n], (0, 1) if fs[n][1]['many'] else (0,)))
    return s


def arg(s, n, f, v):
    if f[0] == 'attr' or v is None:
        return v
    objs = [s.objs['%s%d' % (n, i)] for i in v]
    return objs if f[1]['many'] else objs[0]


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, core.exc_name(e)


def by_keywords(q, case, owned):
    s = world(q, [n for n, _ in case], owned)
    fs = feats.of(q)
    kw = {n: arg(s, n, fs[n], v) for n, v in case}
    lists = [(v, list(v)) for v in kw.values() if isinstance(v, list)]
    s.put('o', q, core.load_class(q)(**kw))
    for l, was in lists:
        if l != was:
            raise RuntimeError('the list passed in was changed')
        l.append(None)
    return s.all()


def by_assignment(q, case, owned):
    s = world(q, [n for n, _ in case], owned)
    fs = feats.of(q)
    o = s.put('o', q, core.load_class(q)())
    for n, v in case:
        v = arg(s, n, fs[n], v)
        if v is None and fs[n][0] == 'ref':
            continue                # not given
        setattr(o, n, v)
    return s.all()


def compare(q, case, owned, res):
    a, ea = outcome(lambda: by_keywords(q, case, owned))
    b, eb = outcome(lambda: by_assignment(q, case, owned))
    res.add('transitions')
    res.add('traces')
    if ea or eb:
        if ea == eb:
            return True             # the assignments themselves fail: another property's business
        msg = 'constructor: %s, assignment: %s' % (ea or 'ok', eb or 'ok')
    elif a == b:
        return True
    else:
        d = [k for k in b if a[k] != b[k]]
        msg = '; '.join('%s.%s is %r, after assignment %r' % (k[0], k[1], a[k], b[k]) for k in d[:3])
    res.violation('%s: %s' % (q, ','.join(n for n, _ in case) if len(case) < 3 else 'all'),
                  '%s(%s)%s: %s' % (q, ', '.join('%s=%r' % c for c in case), ' [owned]' if owned else '', msg),
                  {'cls': q, 'case': [[n, list(v) if isinstance(v, tuple) else v] for n, v in case], 'owned': owned})
    return False


def unit(q):
    res = core.Result()
    fs = {n: f for n, f in feats.of(q).items()}
    K = core.load_class(q)
    # no argument
    res.add('states')
    o, e = outcome(lambda: K())
    if e:
        res.violation('%s: ()' % q, '%s() fails: %s' % (q, e), {'cls': q, 'case': [], 'owned': False})
        return res
    for n, (kind, spec, _) in fs.items():
        v, e = outcome(lambda: getattr(o, n))
        if kind == 'attr':
            good = e is None and type(v) is type(spec['default']) and v == spec['default']
        elif spec['many']:
            good = e is None and isinstance(v, list) and not v
        else:
            good = e is None and v is None
        if not good:
            res.violation('%s: default %s' % (q, n), '%s().%s is %r, should be %s' % (
                q, n, e or v, repr(spec['default']) if kind == 'attr' else 'nothing'), {'cls': q, 'case': [], 'owned': False})
    o2 = K()
    for n, (kind, spec, _) in fs.items():
        if kind == 'ref' and spec['many'] and getattr(o, n) is getattr(o2, n):
            res.violation('%s: shared %s' % (q, n), '%s: two objects share the list %s' % (q, n), {'cls': q, 'case': [], 'owned': False})
    # unknown arguments
    for bad in ('noSuchFeature', 'uuid', 'Name', '_attrs', '_refs', 'getUUID'):
        if bad in fs:
            continue
        x, e = outcome(lambda: K(**{bad: 'x'}))
        res.add('transitions')
        if e is None or not e.startswith('TypeError'):
            res.violation('%s: accepts %s' % (q, bad), '%s(%s=...) %s, should be rejected with TypeError' % (q, bad, e or 'is accepted'),
                          {'cls': q, 'case': [[bad, 'x']], 'owned': False})
    views = [n for n in fs if fs[n][1].get('view')]
    # each feature alone, each value
    for n, f in fs.items():
        for v in variants(n, f):
            for owned in ((False, True) if f[0] == 'ref' and v else (False,)):
                compare(q, [(n, v)], owned, res)
                res.add('states')
    # each pair
    def ok(c):
        return len([n for n in c if n in views]) < 2
    for c in itertools.combinations(list(fs), 2):
        if ok(c):
            compare(q, [(n, variants(n, fs[n])[0]) for n in c], False, res)
            res.add('states')
            if core.TIER == 'thorough':
                for i in range(1, 4):
                    compare(q, [(n, variants(n, fs[n])[(i >> j & 1) * 2 % len(variants(n, fs[n]))]) for j, n in enumerate(c)], i == 3, res)
                    res.add('states')
    # all together, and all but one
    names = [n for n in fs if n not in views[1:]]
    for owned in (False, True):
        for k in range(3):
            compare(q, [(n, variants(n, fs[n])[k % len(variants(n, fs[n]))]) for n in names], owned, res)
            res.add('states')
    for miss in names:
        compare(q, [(n, variants(n, fs[n])[0]) for n in names if n != miss], False, res)
        res.add('states')
    res.sample({'class': q, 'features': len(fs), 'constructions': res.n['traces']}, 1)
    res.outcome('%s features' % (len(fs) // 10 * 10))
    return res


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    qs = sorted(meta.classes, key=lambda q: -len(feats.of(q)))
    res = core.run_units(unit, qs, horizon=600, chunk=4)
    return res, dict(level='model_checking',
                     rule='state = (class, keyword subset, values, partners free or held by another object); transition = '
                          'construction by keywords compared with construction plus assignment on all features of all objects; '
                          'trace = such a lock-step pair run on the real classes',
                     assumptions=['keyword subsets of size 0, 1, 2, all and all but one stand for every subset'])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    case = [(n, tuple(v) if isinstance(v, list) else v) for n, v in data['case']]
    print('keywords  :', outcome(lambda: by_keywords(data['cls'], case, data['owned'])))
    print('assignment:', outcome(lambda: by_assignment(data['cls'], case, data['owned'])))
