"""C18: write and read back: every class, feature and value, link configurations, networks."""
import glob
import io
import itertools
import os

import core
import rdf
import p_order
from feat import Features, values, add_method, FALSY
from p_order import in_map, name, args_for

meta = feats = None
VALUES = {'str': ['x', '', '0', 'None', 'False', ' y\n', '#x', 'a.b'], 'int': [0, 1, -1, 7, 10 ** 20],
          'float': [0.0, 1.0, 0.1, -2.5e-300, 1e22, 1.7976931348623157e308, 5e-324, 1 / 3., float('inf'), float('-inf'), float('nan')], 'bool': [True, False]}


def read_args(root):
    return (args_for(root)[0], meta.pkgs['CIM14' if root.startswith('CIM14') else 'CIM15']['nsURI']) if '.' in root else ()


def new(q, i, **kw):
    return core.load_class(q)(UUID=i, **kw)


def vals(a):
    if a['type'] == 'enum':
        return list(a['literals'])[:3] + ['other', '', 'a_b'] + ([a['default']] if a['default'] is not None else [])
    out = list(VALUES[a['type']])
    d = a['default']
    if d is not None and not any(type(d) is type(v) and d == v for v in out):
        out.append(d)
    return out


class Trip:
    def __init__(self, root, res, key):
        self.root, self.res, self.key, self.bad = root, res, key, 0

    def check(self, objs, what, d=None):
        """Objects (or a model) written and read."""
        from PyCIM import cimwrite
        res = self.res
        if self.bad > 2:
            return
        d = {o.UUID: o for o in objs} if d is None else d
        res.add('states')
        res.add('transitions', 2)
        want = rdf.snapshot(feats, d)
        t = ''
        try:
            out = io.StringIO()
            cimwrite(d, out)
            t = out.getvalue()
            r = rdf.read(t, *read_args(self.root))
            msg = rdf.difference(rdf.snapshot(feats, r), want)
            if not msg and any(o.UUID != i for i, o in r.items()):
                msg = 'objects do not have their identifiers'
        except Exception as e:
            msg = 'raised %s' % core.exc_name(e)
        if msg:
            self.bad += 1
            res.violation('%s: %s' % (self.key, what.split(' = ')[0]), '%s, %s: %s' % (self.key, what, msg), {'text': t[-4000:], 'root': self.root})
        else:
            res.add('traces')
            res.outcome(what.split(':')[0])


def usable(q, k, spec):
    T = spec['target']
    return in_map(T) and k != 'UUID'


def target(q, k, spec, i=0):
    """Class of the i-th partner: the target, then subclasses of it."""
    if k == 'PerLengthImpedance' and spec.get('view'):
        return q.split(':')[0] + ':PerLengthPhaseImpedance'
    t = feats.partner(spec, i)
    return t if in_map(t) else spec['target']


def link(o, k, spec, x):
    if spec['many']:
        add_method(o, k)(x)
    else:
        setattr(o, k, x)


def u_class(q):
    res = core.Result()
    if not in_map(q):
        res.outcome('class not reachable through the map')
        return res
    T = Trip(meta.root[q], res, q)
    T.check([new(q, 'o')], 'bare')
    F = feats.of(q)
    for k, (kind, spec, _) in F.items():
        if k == 'UUID':
            continue
        if kind == 'attr':
            for v in vals(spec):
                o = new(q, 'o')
                setattr(o, k, v)
                T.check([o], 'value: %s = %r' % (k, v))
        elif usable(q, k, spec):
            for n, j in ((1, 0), (2, 0), (1, 1)) if spec['many'] else ((1, 0), (1, 1)):
                o = new(q, 'o')
                ps = [new(target(q, k, spec, i + j), 'p%d' % i) for i in range(n)]
                for p in ps:
                    link(o, k, spec, p)
                for order in itertools.permutations([o] + ps):
                    T.check(order, 'links: %s = %d' % (k, n))
    attrs = [(k, f[1]) for k, f in F.items() if f[0] == 'attr' and k != 'UUID']
    refs = [(k, f[1]) for k, f in F.items() if f[0] == 'ref' and usable(q, k, f[1])]
    views = ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance')
    for pick in range(3):
        o = new(q, 'o')
        for k, s in attrs:
            setattr(o, k, values(s)[pick % 2] if pick < 2 else vals(s)[1])
        ps = []
        for k, s in refs:
            if s.get('view') and k != views[pick]:
                continue
            for i in range(2 if s['many'] else 1):
                ps.append(new(target(q, k, s, i + pick), '%s_%d' % (k, i)))
                link(o, k, s, ps[-1])
        for objs in ([o] + ps, ps + [o], ps[::2] + [o] + ps[1::2]):
            T.check(objs, 'all features')
        if pick == 0:
            # every feature taken away from the full object
            for k, s in attrs:
                old = getattr(o, k)
                setattr(o, k, s['default'])
                T.check([o] + ps, 'all features but one: %s' % k)
                setattr(o, k, old)
    if core.TIER == 'thorough':
        for (k, a), (l, b) in itertools.combinations(attrs, 2):
            for v in vals(a)[:3]:
                for w in vals(b)[:3]:
                    o = new(q, 'o')
                    setattr(o, k, v)
                    setattr(o, l, w)
                    T.check([o], 'values: %s, %s = %r, %r' % (k, l, v, w))
        for (k, a), (l, b) in itertools.combinations(refs, 2):
            if a.get('view') or b.get('view'):
                continue
            o, x, y = new(q, 'o'), new(a['target'], 'x'), new(b['target'], 'y')
            link(o, k, a, x)
            link(o, l, b, y)
            T.check([y, o, x], 'links: %s, %s' % (k, l))
    res.sample({'class': q, 'round trips': res.n['traces']}, 1)
    return res


def u_link(u):
    """Every set of links between two and two objects that the multiplicities admit."""
    (a, ra), (b, rb) = u
    res = core.Result()
    if not (in_map(a) and in_map(b)):
        return res
    sa = feats.of(a)[ra][1]
    sb = feats.of(b)[rb][1] if rb else None
    T = Trip(meta.root[a], res, '%s.%s - %s.%s' % (a, ra, b, rb))
    same = a == b
    sizes = [(2, 2)] if not same else [(2, 0), (3, 0)] if core.TIER == 'thorough' else [(2, 0)]
    for na, nb in sizes:
        As = ['A%d' % i for i in range(na)]
        Bs = ['B%d' % i for i in range(nb)] or As
        cells = [(x, y) for x in As for y in Bs]
        for bits in itertools.product((0, 1), repeat=len(cells)):
            links = [c for c, on in zip(cells, bits) if on]
            if not sa['many'] and any(len([1 for l in links if l[0] == x]) > 1 for x in As):
                continue
            if sb and not sb['many'] and any(len([1 for l in links if l[1] == y]) > 1 for y in Bs):
                continue
            if same and ra == rb and any((y, x) not in links for x, y in links):
                continue
            objs = {x: new(a, x) for x in As}
            for y in Bs:
                if y not in objs:
                    objs[y] = new(b, y)
            for x, y in links:
                if not sa['many'] or not any(z is objs[y] for z in getattr(objs[x], ra)):
                    link(objs[x], ra, sa, objs[y])
            for order in (list(objs), list(objs)[::-1]):
                T.check([objs[n] for n in order], 'link sets: %s' % (links,))
    return res


def u_sub(u):
    """Links between instances of every pair of subclasses: the declaring classes differ."""
    (a, ra), (b, rb) = u
    res = core.Result()
    sa = feats.of(a)[ra][1]
    T = Trip(meta.root[a], res, '%s.%s with subclasses' % (a, ra))
    subs = lambda q, r: [s for s in meta.subclasses(q) if in_map(s) and feats.of(s)[r][2] == feats.of(q)[r][2] and feats.of(s)[r][1] == feats.of(q)[r][1]]
    A, B = subs(a, ra), subs(b, rb) if rb else [s for s in meta.subclasses(b) if in_map(s)]
    if core.TIER != 'thorough':
        pairs = [(x, B[0]) for x in A] + [(A[0], y) for y in B] if A and B else []
    else:
        pairs = itertools.product(A, B)
    for x, y in pairs:
        o, p = new(x, 'o'), new(y, 'p')
        try:
            link(o, ra, sa, p)
        except Exception:
            continue        # the associations' own properties
        T.check([o, p], 'subclasses: %s, %s' % (x, y))
    return res


def u_network(k):
    """A network in every order of its objects; written and read three times over."""
    from PyCIM import cimwrite
    root, nodes = p_order.mixed(k)
    res = core.Result()
    T = Trip(root, res, '%s network' % root)
    base = rdf.read(rdf.text(nodes, rdf.NSURI[root]))
    items = list(base.items())
    for p in itertools.permutations(items):
        T.check(None, 'permutation of a network', dict(p))
    d, want = base, rdf.snapshot(feats, base)
    for i in range(4):
        out = io.StringIO()
        cimwrite(d, out)
        d = rdf.read(out.getvalue())
        res.add('states')
        res.add('transitions', 2)
        msg = rdf.difference(rdf.snapshot(feats, d), want)
        if msg:
            res.violation('%s repeated' % root, 'round trip %d: %s' % (i + 1, msg), {'text': out.getvalue(), 'root': root})
            break
        res.add('traces')
    return res


def u_file(path):
    """The sample data."""
    from PyCIM import cimread
    res = core.Result()
    d = cimread(path)
    T = Trip('CIM15', res, os.path.basename(path))
    T.check(None, 'sample file', d)
    T.check(None, 'sample file', dict(reversed(list(d.items()))))
    return res


def u_size(u):
    """Models of n objects, by pairs and in a star."""
    root, n = u
    res = core.Result()
    for shape, members, owners, links, single, many in p_order.shapes(n):
        T = Trip(root, res, '%s, %d objects' % (root, n))
        d = {i: new('%s:%s' % (meta.pkgs[root]['packageMap'][c], c), i, name=i) for c, i in members + owners}
        for m, o in links:
            setattr(d[m], single.split('.')[1], d[o])
        objs = list(d.values())
        for order in (objs, objs[::-1], objs[::2] + objs[1::2]):
            T.check(order, shape)
    return res


def u_length(u):
    """Values and identifiers of n characters."""
    root, n = u
    res = core.Result()
    T = Trip(root, res, '%s, length %d' % (root, n))
    s = ''.join(chr(97 + i % 26) for i in range(n))
    q = root + '.IEC61970.Core:'
    for v in (s, s[:-1] + '&', s[:-1] + '\u20ac', s.replace('a', ' ')):
        T.check([new(q + 'Substation', 'o', name=v, aliasName=v)], 'value of n characters')
        a = new(q + 'Substation', v + 'y')
        T.check([new(q + 'VoltageLevel', v + 'x', Substation=a), a], 'identifier of n characters')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    one = [((q, r['name']), (r['target'], None)) for q, c in sorted(meta.classes.items()) for r in c['refs'] if 'opp' not in r and not r.get('view')]
    units = [('file', p) for p in sorted(glob.glob(os.path.join(core.REPO, 'PyCIM', 'Test', 'Data', '*.xml')))]
    units += [('network', k) for k in (0, 1)]
    units += [('class', q) for q in sorted(meta.classes)]
    units += [('link', p) for p in meta.pairs() + one] + [('sub', p) for p in meta.pairs() + one]
    units += [('size', (root, n)) for root in ('CIM14', 'CIM15') for n in p_order.SIZES]
    units += [('length', (root, n)) for root in ('CIM14', 'CIM15')
              for n in sorted(set(range(1, 301)) | {2 ** k + i for k in range(9, 18) for i in (-1, 0, 1)})]
    res = core.run_units(unit, units, horizon=1500)
    return res, dict(level='model_checking',
                     rule='state = model; transitions = writing it and reading the text; trace = model that came back with the same '
                          'identifiers, classes, values and links. Per class: bare, every attribute with each of its values, every '
                          'reference with one and two partners in every object order, all features together and all but one; per '
                          'association: every admissible link set on 2x2 objects, and all subclasses; models of each size up to 66 and around round '
                          'numbers up to 2049, values and identifiers of each length up to 300 and around powers of two; a network in all '
                          '720 object orders; the sample files',
                     assumptions=['attributes set to None, which are not written, are not compared'])


def replay(prop, data):
    print(data['text'])
