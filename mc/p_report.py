"""C25: what a read leaves out is reported in the log, and nothing else is."""
import io
import itertools
import logging
import re

import core
import rdf
import p_junk
import p_order
from feat import Features
from p_order import in_map, name, full_nodes, target_class

meta = feats = None


class Capture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.out = []

    def emit(self, record):
        self.out.append((record.levelno, record.getMessage()))

    def handleError(self, record):
        raise


def reports(fn):
    """The messages of level WARNING or above that fn causes."""
    h = Capture()
    root, lg = logging.getLogger(), logging.getLogger('PyCIM')
    old = root.level, lg.level
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    lg.setLevel(logging.NOTSET)
    try:
        fn()
    finally:
        root.removeHandler(h)
        root.setLevel(old[0])
        lg.setLevel(old[1])
    return [m for l, m in h.out if l >= logging.WARNING]


def mentions(m, words):
    return all(w in m for w in words) and all(re.search(r'(?<![\w])%s(?![\w])' % re.escape(w), m) for w in words)


def judge(got, want):
    """want: list of tuples of words, one per thing left out."""
    kinds = {}
    for w in want:
        kinds[w] = kinds.get(w, 0) + 1
    for w, n in kinds.items():
        ms = [m for m in got if mentions(m, w)]
        if not ms:
            return 'no report mentions %s' % ' and '.join(w)
        if w[0] == 'class':
            continue
        if n > 1 and len(ms) < n and not any(re.search(r'(?<!\d)%d(?!\d)' % n, m) for m in ms):
            return '%d times %s, reported as %r' % (n, ' and '.join(w), ms[:3])
        for m in ms:
            c = re.search(r'(?<!\d)(\d+) times', m)
            if c and int(c.group(1)) != (n if len(ms) == 1 else 1):
                return '%d times %s, reported as %r' % (n, ' and '.join(w), ms[:3])
    for m in got:
        if not any(mentions(m, w) for w in kinds):
            return 'a report about nothing that was left out: %r' % m
    return None


# (text, what must be reported)
PROPS = {
    'property': ('<cim:Breaker.noSuchThing>7</cim:Breaker.noSuchThing>', [('CLASS', 'noSuchThing')]),
    'property again': ('<cim:Breaker.noSuchThing/>', [('CLASS', 'noSuchThing')]),
    'reference property': ('<cim:Breaker.NoSuchRef rdf:resource="#v1"/>', [('CLASS', 'NoSuchRef')]),
    'enumeration property': ('<cim:Switch.noSuchKind rdf:resource="http://x.org/cim#Kind.a"/>', [('CLASS', 'noSuchKind')]),
    'missing object': ('<cim:IdentifiedObject.DiagramObjects rdf:resource="#gone"/>', [('gone',)]),
    'other missing object': ('<cim:IdentifiedObject.DiagramObjects rdf:resource="#_lost-2"/>', [('_lost-2',)]),
    'foreign property': ('<x:Breaker.other>7</x:Breaker.other>', []),
    'comment': ('<!-- <cim:Breaker.noSuchComment/> -->', []),
    'foreign element': ('<x:e rdf:ID="e"><cim:Breaker.noSuchInner/></x:e>', []),
}
TOPS = {
    'class': ('<cim:Nope rdf:ID="n1"><cim:Nope.a>1</cim:Nope.a></cim:Nope>', [('Nope', 'n1')]),
    'other class': ('<cim:Nada rdf:ID="_n-2"/>', [('Nada', '_n-2')]),
    'class about': ('<cim:Nope rdf:about="#n3"><cim:Breaker.noSuchThing>1</cim:Breaker.noSuchThing></cim:Nope>', [('Nope', 'n3')]),
    'foreign class': ('<x:Nope rdf:ID="n4"><x:a/></x:Nope>', []),
    'known': ('<cim:Breaker rdf:ID="k9"/>', []),
    'unknown statement about known': ('<cim:VoltageLevel rdf:about="#v1"><cim:VoltageLevel.noSuchThing/></cim:VoltageLevel>',
                                      [('VoltageLevel', 'noSuchThing')]),
}
DOC = [('VoltageLevel', 'v1'), ('Breaker', 'k1'), ('Breaker', 'k2')]


def places():
    out = [('top', 0), ('top', 3)]
    return out + [('prop', i) for i in range(3)]


def build(root, junk):
    ns = rdf.NSURI[root]
    parts = ['<rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#" %s>' % (rdf.RDF, ns, p_junk.X)]
    want = []

    def put(kind, i, cls=None):
        for k, j, (t, w) in junk:
            if (k, j) == (kind, i):
                parts.append(t)
                want.extend(tuple(cls if x == 'CLASS' else x for x in y) for y in w)
    for i, (c, d) in enumerate(DOC):
        put('top', i)
        parts.append('<cim:%s rdf:ID="%s"><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name>' % (c, d))
        put('prop', i, c)
        parts.append('</cim:%s>' % c)
    put('top', len(DOC))
    parts.append('</rdf:RDF>')
    return '\n'.join(parts), want


def pieces(root):
    out = []
    for k, i in places():
        for n, (t, w) in (TOPS if k == 'top' else PROPS).items():
            if 'DiagramObjects' in t and root == 'CIM14':
                t = t.replace('IdentifiedObject.DiagramObjects', 'Equipment.OperationalLimitSet')
                if DOC[i][0] == 'VoltageLevel':
                    t = t.replace('Equipment.OperationalLimitSet', 'VoltageLevel.Bays')
            out.append(((k, i), n, t, w))
    return out


class Check:
    def __init__(self, res, key):
        self.res, self.key, self.bad = res, key, 0

    def read(self, text, want, what, fn=None, args=()):
        if self.bad > 2:
            return
        self.res.add('transitions')
        self.res.add('states')
        got = []
        try:
            got = reports(fn or (lambda: rdf.read(text, *args)))
            msg = judge(got, want)
        except Exception as e:
            msg = 'raised %s' % core.exc_name(e)
        if msg:
            self.bad += 1
            self.res.violation('%s %s' % (self.key, what), '%s, %s: %s\n%s' % (self.key, what, msg, text),
                               {'text': text, 'want': want, 'got': got})
        else:
            self.res.add('traces')
            self.res.outcome('%d reports' % len(got))


def u_pieces(u):
    root, first = u
    res = core.Result()
    C = Check(res, root)
    P = pieces(root)
    for n in range(3 if core.TIER != 'thorough' else 4):
        for more in itertools.combinations_with_replacement(range(first, len(P)), n):
            case = [P[first]] + [P[i] for i in more]
            # an identifier defined twice is not judged
            ids = [x[1] for x in case if x[0][0] == 'top' and 'ID=' in x[2]]
            if len(ids) != len(set(ids)):
                continue
            t, want = build(root, [(k, i, (t, w)) for (k, i), _, t, w in case])
            C.read(t, want, '+'.join(x[1] for x in case))
    if first == 0:
        C.read(build(root, [])[0], [], 'clean')
    res.sample({'root': root, 'piece': P[first][1], 'documents': res.n['states']}, 1)
    return res


def u_class(q):
    """Clean documents, an unknown property, and every reference of the class to a missing object."""
    res = core.Result()
    if not in_map(q):
        res.outcome('class not reachable through the map')
        return res
    root = meta.root[q]
    args, ns = p_order.args_for(root), p_order.ns_for(root)
    C = Check(res, q)
    for pick in (0, 1):
        o, ps = full_nodes(q, pick)
        C.read(rdf.text([o] + ps, ns), [], 'all features', args=args)
    nope = ('%s.noSuchThing' % name(q), 'text', '1')
    for st in ([nope], [nope] * 3):
        C.read(rdf.text([rdf.node(name(q), 'o', st)], ns), [(name(q), 'noSuchThing')] * len(st), 'unknown property', args=args)
    u_own_names(C, q, args, ns)
    for k, (kind, spec, decl) in feats.of(q).items():
        if kind == 'ref' and decl == q:
            st = [('%s.%s' % (name(decl), k), 'ref', 'gone-%d' % i) for i in range(2 if spec['many'] else 1)]
            C.read(rdf.text([rdf.node(name(q), 'o', st)], ns), [(s[2],) for s in st], 'reference to a missing object', args=args)
    o, ps = full_nodes(q, 0)
    if ps:
        for p in {x['id']: x for x in ps[:6]}.values():
            rest = [x for x in ps if x is not p]
            C.read(rdf.text([o] + rest, ns), [(p['id'],)], 'a partner is missing', args=args)
    return res


def u_own_names(C, q, args, ns):
    """What the class has for its own use (methods, private names) is no property of CIM: reported, and the object is as it was."""
    F, klass = feats.of(q), core.load_class(q)
    methods = sorted(n for n in dir(klass) if not n.startswith('_') and n not in F and callable(getattr(klass, n, None)))
    names = methods + sorted(n for n in dir(klass(UUID='x')) if n not in F and re.match(r'_[A-Za-z0-9_]*$', n))
    forms = [('text', '7'), ('text', ''), ('ref', 'o'), ('enum', '%s#Kind.a' % ns)]

    def judged(sts, what):
        text = rdf.text([rdf.node(name(q), 'o', sts)], ns)
        bad = C.bad
        box = []
        C.read(text, [(name(q), s[0].split('.', 1)[1]) for s in sts], what, lambda: box.append(rdf.read(text, *args)))
        if C.bad == bad:
            d = box[0]
            o = d.get('o')
            msg = rdf.difference(rdf.snapshot(feats, d), clean)
            if not msg and [n for n in methods if not callable(getattr(o, n, None))]:
                msg = 'these are no methods any more: %s' % [n for n in methods if not callable(getattr(o, n, None))][:5]
            if msg:
                C.bad += 1
                C.res.violation('%s %s' % (q, what), '%s, %s: %s' % (q, what, msg), {'text': text, 'want': [], 'got': []})
        return C.bad == bad
    clean = rdf.snapshot(feats, rdf.read(rdf.text([rdf.node(name(q), 'o', [])], ns), *args))
    for kind, v in forms:
        sts = [('%s.%s' % (name(q), n), kind, v) for n in names]
        C.res.add('own names', len(sts))
        if not judged(sts, 'names the class has for its own use, as %s' % kind):
            for s in sts:
                if not judged([s], 'a name the class has for its own use'):
                    return


def u_history(root):
    """Reports of a read are about that read."""
    res = core.Result()
    C = Check(res, root + ' history')
    P = {(pl, n): (t, w) for pl, n, t, w in pieces(root)}
    docs = [build(root, []), build(root, [('prop', 1, P[('prop', 1), 'property'])]),
            build(root, [('prop', 1, P[('prop', 1), 'property']), ('prop', 2, P[('prop', 2), 'property'])]),
            build(root, [('prop', 1, P[('prop', 1), 'missing object'])]),
            build(root, [('top', 0, P[('top', 0), 'class'])])]
    bad = '<rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#"><cim:Breaker rdf:ID="b"><cim:Breaker.noSuchThing/></cim:Breaker>' % (
        rdf.RDF, rdf.NSURI[root])

    def one(i, start=None):
        if i == len(docs):
            try:
                rdf.read(bad)
            except SyntaxError:
                pass
        else:
            rdf.read(docs[i][0])
    for n in (1, 2, 3):
        for seq in itertools.product(range(len(docs) + 1), repeat=n):
            for i in seq[:-1]:
                one(i)
            if seq[-1] < len(docs):
                t, want = docs[seq[-1]]
                C.read(t, want, 'after %s' % (seq[:-1],))
    return res


def u_count(u):
    """n pieces of one kind, and n of each."""
    root, n = u
    res = core.Result()
    C = Check(res, '%s, %d pieces' % (root, n))
    ref = 'VoltageLevel.Bays' if root == 'CIM14' else 'IdentifiedObject.DiagramObjects'
    kinds = [
        ('prop', lambda j: ('<cim:Breaker.noSuchThing/>', [('CLASS', 'noSuchThing')])),
        ('prop', lambda j: ('<cim:Breaker.noSuch%dThing/>' % j, [('CLASS', 'noSuch%dThing' % j)])),
        ('prop', lambda j: ('<cim:%s rdf:resource="#gone-%d-x"/>' % (ref, j), [('gone-%d-x' % j,)])),
        ('top', lambda j: ('<cim:Nope rdf:ID="n-%d-x"/>' % j, [('Nope', 'n-%d-x' % j)])),
        ('top', lambda j: ('<cim:Nope%dX rdf:ID="m-%d-x"/>' % (j, j), [('Nope%dX' % j, 'm-%d-x' % j)])),
    ]
    cases = [[(k, f)] for k, f in kinds] + [kinds[:1] + kinds[2:4]]
    for case in cases if n < 130 else cases[:1]:
        t, want = build(root, [(k, 0, f(j)) for k, f in case for j in range(n)])
        C.read(t, want, '%d kinds' % len(case))
    # the same property of n objects
    parts = ['<rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#">' % (rdf.RDF, rdf.NSURI[root])]
    parts += ['<cim:Breaker rdf:ID="b%d"><cim:Breaker.noSuchThing/></cim:Breaker>' % j for j in range(n)] + ['</rdf:RDF>']
    C.read('\n'.join(parts), [('Breaker', 'noSuchThing')] * n, 'n objects')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    units = [('pieces', (r, i)) for r in ('CIM14', 'CIM15') for i in range(len(pieces(r)))]
    units += [('history', r) for r in ('CIM14', 'CIM15')]
    units += [('class', q) for q in sorted(meta.classes)]
    units += [('count', (r, n)) for r in ('CIM14', 'CIM15') for n in p_junk.SIZES[1:] + [1000]]
    res = core.run_units(unit, units, horizon=1500)
    return res, dict(level='model_checking',
                     rule='state = document with every combination of up to %d pieces of unknown content at its places, or of one '
                          'class (clean, unknown properties, every reference to a missing object, each partner missing), of n pieces of a kind for n up to 40 and round numbers to 1000, or history '
                          'of reads; transition = read with the log captured; trace = reports that name exactly what was left out'
                          % (4 if core.TIER == 'thorough' else 3),
                     assumptions=['a report names the class and identifier, the class and property (with the count, or once '
                                  'each), or the missing identifier; its wording is free'])


def replay(prop, data):
    print(data['text'])
    got = reports(lambda: rdf.read(data['text']))
    print(got, judge(got, [tuple(w) for w in data['want']]))
