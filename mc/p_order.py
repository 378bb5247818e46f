"""C10: every order of the objects and statements of small documents, and every choice of
the end that states a link, against the model the document denotes."""
import itertools
import importlib

import core
import rdf
from feat import Features, values

meta = feats = None
EXTRA = {}


def args_for(root):
    if '.' not in root:
        return ()
    if root not in EXTRA:
        EXTRA[root] = (importlib.import_module(root).packageMap, 'http://x.org/profile')
    return EXTRA[root]


def ns_for(root):
    return rdf.NSURI[root] if '.' not in root else 'http://x.org/profile'


def in_map(q):
    return meta.pkgs[meta.root[q]]['packageMap'].get(q.split(':')[1]) == q.split(':')[0]


def name(q):
    return q.split(':')[1]


class Reader:
    def __init__(self, root, res, key):
        self.root, self.res, self.key = root, res, key
        self.map = meta.pkgs[root]['packageMap']
        self.dead = False

    def expected(self, nodes):
        return rdf.Expected(feats, self.map).read(nodes).snapshot()

    def check(self, nodes, want, what):
        if self.dead:
            return
        t = rdf.text(nodes, ns_for(self.root))
        self.res.add('transitions')
        try:
            d = rdf.read(t, *args_for(self.root))
            msg = rdf.difference(rdf.snapshot(feats, d), want)
        except Exception as e:
            msg = 'reading raised %s' % core.exc_name(e)
        if msg:
            self.dead = True
            self.res.violation('%s %s' % (self.key, what), '%s (%s): %s\n%s' % (self.key, what, msg, t),
                               {'root': self.root, 'nodes': nodes, 'want': [[list(k), v] for k, v in want.items()]})
        else:
            self.res.add('traces')
            self.res.outcome(what)


def links_unit(pair):
    """One association: which end states a link x order of objects x order of statements."""
    res = core.Result()
    (a, ra), (b, rb) = pair
    root = meta.root[a]
    if not (in_map(a) and in_map(b)):
        res.outcome('class not reachable through the map')
        return res
    sa = feats.of(a)[ra][1]
    sb = feats.of(b)[rb][1] if rb else None
    R = Reader(root, res, '%s.%s - %s' % (a, ra, rb or 'no inverse'))
    if rb is None:
        scen = [('one way', ['A'], ['B', 'C'], [('A', 'B'), ('A', 'C')] if sa['many'] else [('A', 'B')])]
    elif not sa['many'] and not sb['many']:
        scen = [('1-1', ['A', 'D'], ['B', 'C'], [('A', 'B'), ('D', 'C')])]
    elif sa['many'] and sb['many']:
        scen = [('m-n', ['A', 'D'], ['B', 'C'], [('A', 'B'), ('A', 'C'), ('D', 'B')])]
    elif sa['many']:
        scen = [('1-n', ['A'], ['B', 'C'], [('A', 'B'), ('A', 'C')])]
    else:
        scen = [('n-1', ['A', 'D'], ['B'], [('A', 'B'), ('D', 'B')])]
    if a == b and rb:
        scen.append(('to itself', ['A'], ['A'], [('A', 'A')]))
        if core.TIER == 'thorough' and sa['many'] != sb['many']:
            one, two = (['A'], ['B']) if sa['many'] else (['B'], ['A'])
            scen.append(('chain', [], [], [('A', 'B'), ('B', 'C')]))
    for what, As, Bs, links in scen:
        if what == 'chain':
            cls = {x: a for x in 'ABC'}
        else:
            cls = {x: a for x in As}
            for x in Bs:
                cls.setdefault(x, b)
        for ends in itertools.product((0, 1, 2) if rb else (0,), repeat=len(links)):
            st = {x: [] for x in cls}
            for (x, y), e in zip(links, ends):
                if e != 1:
                    st[x].append(('%s.%s' % (name(a), ra), 'ref', y))
                if e != 0:
                    st[y].append(('%s.%s' % (name(b), rb), 'ref', x))
            want = None
            for rev in ((False, True) if any(len(s) > 1 for s in st.values()) else (False,)):
                nodes = [rdf.node(name(cls[x]), x, st[x][::-1] if rev else st[x]) for x in cls]
                want = want or R.expected(nodes)
                perms = list(itertools.permutations(nodes))
                if len(perms) > 6 and core.TIER != 'thorough' and (0 in ends and 1 in ends and 2 in ends):
                    perms = perms[::5] + [perms[-1]]    # mixed ends: the thorough tier has every order
                for p in perms:
                    R.check(list(p), want, what)
                    res.add('states')
    res.sample({'association': R.key, 'documents': res.n['traces']}, 1)
    return res


def full_nodes(q, pick=0, partners=2):
    """An object of class q with a statement for every feature, and its partners."""
    o = rdf.node(name(q), 'o', [])
    nodes = []
    for k, (kind, spec, decl) in feats.of(q).items():
        if k == 'UUID' or spec.get('view') and k != ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance')[pick % 3]:
            continue
        prop = '%s.%s' % (name(decl), k)
        if kind == 'attr':
            v = values(spec)[pick % 2]
            if spec['type'] == 'enum':
                o['st'].append((prop, 'enum', '%s.%s' % (spec['enum'], v)))
            else:
                o['st'].append((prop, 'text', v if spec['type'] == 'str' else str(v).lower()))
        else:
            for i in range(partners if spec['many'] else 1):
                T = feats.partner(spec, i + pick)
                if k == 'PerLengthImpedance':
                    T = q.split(':')[0] + ':PerLengthPhaseImpedance'
                if not in_map(T):
                    T = spec['target']
                if not in_map(T):
                    break
                nodes.append(rdf.node(name(T), '%s_%d' % (k, i)))
                o['st'].append((prop, 'ref', '%s_%d' % (k, i)))
    return o, nodes


def class_unit(q):
    res = core.Result()
    if not in_map(q):
        res.outcome('class not reachable through the map')
        return res
    R = Reader(meta.root[q], res, q)
    for pick in (0, 1, 2) if any(f[1].get('view') for f in feats.of(q).values()) else (0, 1):
        o, ps = full_nodes(q, pick)
        want = R.expected([o] + ps)
        rev = dict(o, st=o['st'][::-1])
        h = len(ps) // 2
        s = len(o['st']) // 2
        rot = dict(o, st=o['st'][s:] + o['st'][:s])
        for n in (o, rev, rot):
            for ns in ([n] + ps, ps + [n], ps[:h] + [n] + ps[h:], ps[::-1] + [n]):
                R.check(ns, want, 'all features')
                res.add('states')
        # the statements in two places: under the identifier and about it
        first, second = dict(o, st=o['st'][::2]), dict(o, st=o['st'][1::2], about=True)
        for ns in ([first] + ps + [second], [second] + ps + [first], ps + [first, second], ps + [second, first]):
            R.check(ns, want, 'statements in two places')
            res.add('states')
        # about it under the name of a base class
        bases = [x for x in meta.chain(q) if x != q and in_map(x)]
        for x in bases if core.TIER == 'thorough' else bases[:1] + bases[-1:] if len(bases) > 1 else bases:
            base = dict(second, cls=name(x))
            for ns in ([first] + ps + [base], [base] + ps + [first]):
                R.check(ns, want, 'statements under the name of a base class')
                res.add('states')
        ab = dict(o, about=True)
        R.check([ab] + [dict(p, about=True) for p in ps], want, 'all by rdf:about')
        res.add('states')
        # links stated from the other side only
        mine = [x for x in o['st'] if x[1] != 'ref']
        back = []
        ok = True
        for x in o['st']:
            if x[1] == 'ref':
                f = feats.of(q)[x[0].rsplit('.', 1)[1]]
                p = next(p for p in ps if p['id'] == x[2])
                opp = f[1].get('opp')
                if opp:
                    back.append(dict(p, st=[('%s.%s' % (name(f[1]['target']), opp), 'ref', 'o')]))
                else:
                    mine.append(x)
                    back.append(p)
        for ns in ([dict(o, st=mine)] + back, back + [dict(o, st=mine)]):
            R.check(ns, want, 'links from the other side')
            res.add('states')
    res.sample({'class': q, 'statements': len(o['st']), 'objects': 1 + len(ps)}, 1)
    return res


def one_statement(q, k, i, target):
    """A statement of feature k of an object of class q (and the identifier it needs)."""
    kind, spec, decl = feats.of(q)[k]
    prop = '%s.%s' % (name(decl), k)
    if kind == 'attr':
        v = values(spec)[i % 2]
        if spec['type'] == 'enum':
            return (prop, 'enum', '%s.%s' % (spec['enum'], v))
        return (prop, 'text', v if spec['type'] == 'str' else str(v).lower())
    return (prop, 'ref', target)


def target_class(q, spec):
    T = spec['target']
    if T.endswith(':PerLengthLineParameter'):
        T = q.split(':')[0] + ':PerLengthPhaseImpedance'
    return T


def foreign_unit(q):
    """Each property of q stated about an object of q, of an ancestor that lacks it and of an
    unrelated class: where it is unknown it is ignored, and where it is known it reads, in every order."""
    res = core.Result()
    root = meta.root[q]
    pool = [x for x in sorted(meta.classes) if meta.root[x] == root and in_map(x)]
    if not in_map(q):
        res.outcome('class not reachable through the map')
        return res
    subs = [x for x in pool if q in meta.chain(x)[:-1]]
    for k, (kind, spec, decl) in sorted(feats.of(q).items()):
        if decl != q or k == 'UUID' or k == 'PerLengthImpedance' and spec.get('view'):
            continue
        if kind == 'ref' and not in_map(target_class(q, spec)):
            continue
        R = Reader(root, res, '%s.%s and classes without it' % (q, k))
        lack = [x for x in meta.chain(q)[-2::-1] if in_map(x) and k not in feats.of(x)][:1]
        lack += [x for x in pool if k not in feats.of(x) and x not in meta.chain(q)][:1]
        objs = [('a', q), ('b', subs[0] if subs else q)] + [('f%d' % i, x) for i, x in enumerate(lack)]
        nodes, ps = [], []
        for i, (o, c) in enumerate(objs):
            nodes.append(rdf.node(name(c), o, [one_statement(q, k, i, 'p' + o)]))
            if kind == 'ref':
                ps.append(rdf.node(name(target_class(q, spec)), 'p' + o))
        want = R.expected(nodes + ps)
        for perm in itertools.permutations(nodes):
            R.check(list(perm) + ps, want, 'property of another class')
            res.add('states')
    return res


def clash_unit(u):
    """A local name that classes declare differently: objects of both, in both orders."""
    root, k, qs = u
    res = core.Result()
    R = Reader(root, res, '%s of %s' % (k, ', '.join(name(q) for q in qs)))
    nodes, ps = [], []
    for i, q in enumerate(qs):
        kind, spec, _ = feats.of(q)[k]
        nodes.append(rdf.node(name(q), 'o%d' % i, [one_statement(q, k, i, 'p%d' % i)]))
        if kind == 'ref':
            ps.append(rdf.node(name(target_class(q, spec)), 'p%d' % i))
    want = R.expected(nodes + ps)
    for perm in itertools.permutations(nodes) if len(nodes) < 6 else [nodes[i:] + nodes[:i] for i in range(len(nodes))]:
        R.check(list(perm) + ps, want, 'same name, declared differently')
        res.add('states')
    return res


def clashes():
    """(root, name, one class per way of declaring the name) for names declared in more than one way."""
    seen = {}
    for q in sorted(meta.classes):
        if not in_map(q):
            continue
        for k, (kind, spec, decl) in feats.of(q).items():
            if decl != q or k == 'UUID' or spec.get('view') or kind == 'ref' and not in_map(target_class(q, spec)):
                continue
            sig = (kind, spec.get('type'), spec.get('enum'), spec.get('target'), spec.get('opp'), spec.get('many'))
            seen.setdefault((meta.root[q], k), {}).setdefault(sig, q)
    return [(root, k, tuple(d.values())) for (root, k), d in sorted(seen.items()) if len(d) > 1]


def mixed(k):
    """A small network; every permutation of its objects, and of one object's statements."""
    root = ('CIM14', 'CIM15')[k]
    N = rdf.node
    nodes = [N('Substation', 's', [('IdentifiedObject.name', 'text', 'S & "1"')]),
             N('VoltageLevel', 'v', [('VoltageLevel.Substation', 'ref', 's'), ('VoltageLevel.highVoltageLimit', 'text', '1.5'),
                                     ('VoltageLevel.BaseVoltage', 'ref', 'b')]),
             N('BaseVoltage', 'b', [('BaseVoltage.nominalVoltage', 'text', '20')]),
             N('Breaker', 'k', [('Equipment.EquipmentContainer', 'ref', 'v'), ('Switch.normalOpen', 'text', 'true'),
                                ('IdentifiedObject.name', 'text', ''), ('ConductingEquipment.BaseVoltage', 'ref', 'b')]),
             N('Terminal', 't', [('Terminal.ConductingEquipment', 'ref', 'k'), ('Terminal.ConnectivityNode', 'ref', 'c')]),
             N('ConnectivityNode', 'c', [('ConnectivityNode.Terminals', 'ref', 't')])]
    return root, nodes


def mixed_unit(u):
    k, what, part = u
    res = core.Result()
    root, nodes = mixed(k)
    R = Reader(root, res, root + ' network')
    want = R.expected(nodes)
    if what == 'objects':
        for p in itertools.permutations(nodes):
            if p[0] is nodes[part]:
                R.check(list(p), want, 'permutation of objects')
                res.add('states')
    else:
        n = nodes[3]
        sts = n['st'] + [('Equipment.normallyInService' if root == 'CIM14' else 'Equipment.normallyInService', 'text', '1'),
                         ('Switch.Nonexistent', 'text', '1')]
        first = sts[part]
        want = R.expected(nodes[:3] + [dict(n, st=sts)] + nodes[4:])
        for p in itertools.permutations(sts):
            if p[0] is first:
                for pos in (0, 5):
                    rest = nodes[:3] + nodes[4:]
                    R.check(rest[:pos] + [dict(n, st=list(p))] + rest[pos:], want, 'permutation of statements')
                    res.add('states')
    return res


SIZES = sorted(set(range(1, 67)) | {k + d for k in (100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048) for d in (-1, 0, 1)})


def shapes(n):
    """Objects by pairs and in a star: (class, identifier), links (member, owner), names of the two ends."""
    k = (n + 1) // 2
    yield ('pairs', [('VoltageLevel', 'v%d' % i) for i in range(n - k)], [('Substation', 's%d' % i) for i in range(k)],
           [('v%d' % i, 's%d' % (k - 1 - i)) for i in range(n - k)], 'VoltageLevel.Substation', 'Substation.VoltageLevels')
    yield ('star', [('Terminal', 't%d' % i) for i in range(n - 1)], [('ConnectivityNode', 'c')],
           [('t%d' % i, 'c') for i in range(n - 1)], 'Terminal.ConnectivityNode', 'ConnectivityNode.Terminals')


def size_unit(u):
    """Documents of n objects, for every n up to 66 and around powers and round numbers."""
    root, n = u
    res = core.Result()
    for shape, members, owners, links, single, many in shapes(n):
        R = Reader(root, res, '%s, %d objects' % (root, n))
        by_member = {m: (single, 'ref', o) for m, o in links}
        st = {i: [] for _, i in owners}
        for m, o in links:
            st[o].append((many, 'ref', m))
        want = None
        for end in ('member', 'owner', 'both'):
            ms = [rdf.node(c, i, [('IdentifiedObject.name', 'text', i)] + ([by_member[i]] if end != 'owner' and i in by_member else []))
                  for c, i in members]
            os = [rdf.node(c, i, ([] if end == 'member' else st[i]) + [('IdentifiedObject.name', 'text', i)]) for c, i in owners]
            want = want or R.expected(ms + os)
            mixed = [x for p in itertools.zip_longest(os, ms) for x in p if x is not None]
            for nodes in (ms + os, os + ms, mixed, mixed[::-1]):
                R.check(nodes, want, '%s, stated by %s' % (shape, end))
                res.add('states')
    return res


def unit(u):
    return {'size': size_unit, 'link': links_unit, 'class': class_unit, 'mixed': mixed_unit, 'foreign': foreign_unit, 'clash': clash_unit}[u[0]](u[1])


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    units = [('link', p) for p in meta.pairs()]
    units += [('link', ((q, r['name']), (r['target'], None))) for q, c in sorted(meta.classes.items()) for r in c['refs']
              if 'opp' not in r and not r.get('view')]
    units += [('class', q) for q in sorted(meta.classes)]
    units += [('foreign', q) for q in sorted(meta.classes)]
    units += [('clash', u) for u in clashes()]
    units += [('mixed', (k, w, i)) for k in (0, 1) for w in ('objects', 'statements') for i in range(6)]
    units += [('size', (root, n)) for root in ('CIM14', 'CIM15') for n in SIZES]
    units.sort(key=lambda u: -u[1][1] if u[0] == 'size' and u[1][1] > 400 else 0)
    res = core.run_units(unit, units)
    return res, dict(level='model_checking',
                     rule='state = document; transition = read compared with the model the statements denote (independent oracle '
                          'on the committed metamodel); trace = read that agreed. Per association: every choice of stating end per '
                          'link x every object order x statement orders; per class: an object with every feature stated, object and '
                          'statement orders, split in two, and links stated from the other side; each property stated about objects '
                          'that have it and objects that lack it, and each name that classes declare in several ways about objects '
                          'of each, in every order; documents of n objects by pairs and in a star, for each n up to 66 and around round numbers '
                          'up to 2049; a network in all 720 object orders '
                          'and an object in all 720 statement orders per CIM version',
                     assumptions=['documents of up to 6 objects per question, sizes apart; order effects are pairwise or within one network'])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    nodes = data['nodes']
    t = rdf.text(nodes, ns_for(data['root']))
    print(t)
    want = {tuple(k): tuple(v) if isinstance(v, list) else v for k, v in data['want']}
    print(rdf.difference(rdf.snapshot(feats, rdf.read(t, *args_for(data['root']))), want))
