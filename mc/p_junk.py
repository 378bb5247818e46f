"""C12: junk of every kind at every position of a document, alone and in pairs."""
import io
import itertools
import xml.etree.ElementTree as ET

import core
import rdf
from feat import Features
from rdf import node as N

meta = feats = None
X = 'xmlns:x="http://x.org/other#"'


def doc(root):
    return [N('VoltageLevel', 'v1', [('IdentifiedObject.name', 'text', 'V'), ('VoltageLevel.highVoltageLimit', 'text', '2.5')]),
            N('Breaker', 'k1', [('IdentifiedObject.name', 'text', 'K'), ('Switch.normalOpen', 'text', 'true'),
                                ('Equipment.EquipmentContainer', 'ref', 'v1')]),
            N('Terminal', 't1', [('Terminal.ConductingEquipment', 'ref', 'k1')])]


# unknown things inside an object
PROPS = {
    'unknown property': '<cim:Breaker.noSuchThing>7</cim:Breaker.noSuchThing>',
    'unknown empty property': '<cim:Breaker.noSuchThing/>',
    'unknown property, no dot': '<cim:nothing>true</cim:nothing>',
    'unknown reference': '<cim:Breaker.NoSuchRef rdf:resource="#v1"/>',
    'unknown reference to nothing': '<cim:Breaker.NoSuchRef rdf:resource="#gone"/>',
    'unknown enumeration': '<cim:Breaker.kind rdf:resource="http://iec.ch/TC57/2010/CIM-schema-cim15#Kind.a"/>',
    'reference to nothing': '<cim:Equipment.EquipmentContainer rdf:resource="#gone"/>',
    'list reference to nothing': '<cim:ConductingEquipment.Terminals rdf:resource="#gone"/>',
    'reference elsewhere': '<cim:Equipment.EquipmentContainer rdf:resource="http://x.org/a.xml#b"/>',
    'reference by urn': '<cim:ConductingEquipment.Terminals rdf:resource="urn:uuid:0f-1"/>',
    'empty reference': '<cim:Equipment.EquipmentContainer rdf:resource=""/>',
    'reference to a foreign object': '<cim:Equipment.EquipmentContainer rdf:resource="#foreign"/>',
    'foreign text': '<x:IdentifiedObject.name>other</x:IdentifiedObject.name>',
    'foreign reference': '<x:Equipment.EquipmentContainer rdf:resource="#t1"/>',
    'foreign, same local name and identifier': '<x:Breaker rdf:ID="k1"><x:Switch.normalOpen>false</x:Switch.normalOpen></x:Breaker>',
    'foreign holding known properties': '<x:e><cim:IdentifiedObject.name>other</cim:IdentifiedObject.name><cim:Switch.normalOpen>false</cim:Switch.normalOpen></x:e>',
    'unknown property holding known ones': '<cim:Breaker.extra><cim:Extra><cim:Extra.name>other</cim:Extra.name></cim:Extra></cim:Breaker.extra>',
    'unknown class inside': '<cim:Nope rdf:ID="inner"><cim:IdentifiedObject.name>other</cim:IdentifiedObject.name></cim:Nope>',
    'unknown class inside, no identifier': '<cim:Nope><cim:Nope.name>other</cim:Nope.name></cim:Nope>',
    'rdf element': '<rdf:type rdf:resource="http://iec.ch/TC57/2010/CIM-schema-cim15#Breaker"/>',
    'comment': '<!-- <cim:IdentifiedObject.name>other</cim:IdentifiedObject.name> -->',
    'processing instruction': '<?cim IdentifiedObject.name="other"?>',
    'CDATA': '<![CDATA[<cim:IdentifiedObject.name>other</cim:IdentifiedObject.name>]]>',
    'stray text': 'stray &lt;text&gt;',
    'no namespace': '<name>other</name>',
    'similar namespace': '<y:IdentifiedObject.name xmlns:y="%sX#">other</y:IdentifiedObject.name>',
    'namespace without #': '<y:IdentifiedObject.name xmlns:y="%s">other</y:IdentifiedObject.name>',
}
# unknown properties with the names of things that the classes have for their own use
for _n in ('__class__', '__dict__', '__init__', '__doc__', '_attrs', '_refs', '_attr_types', '_EquipmentContainer', '_Terminals',
           'addTerminals', 'removeTerminals', 'getTerminals', 'setEquipmentContainer', 'mro', '__weakref__', '__module__'):
    PROPS['unknown property %s' % _n] = '<cim:Breaker.%s>7</cim:Breaker.%s>' % (_n, _n)
    PROPS['unknown reference %s' % _n] = '<cim:Breaker.%s rdf:resource="#t1"/>' % _n
    PROPS['unknown enumeration %s' % _n] = '<cim:Breaker.%s rdf:resource="http://x.org/cim#Kind.a"/>' % _n
SINGLE_ONLY = {k for k in PROPS if k.split()[-1].strip('_') in ('dict', 'init', 'doc', 'attrs', 'refs', 'attr_types', 'mro', 'weakref',
                                                               'module') or k.split()[-1] in ('removeTerminals', 'getTerminals')}

# unknown things between objects
TOPS = {
    'unknown class': '<cim:Nope rdf:ID="foreign"><cim:IdentifiedObject.name>other</cim:IdentifiedObject.name></cim:Nope>',
    'unknown class, empty': '<cim:Nope rdf:ID="foreign"/>',
    'unknown class about': '<cim:Nope rdf:about="#foreign"><cim:IdentifiedObject.name>other</cim:IdentifiedObject.name></cim:Nope>',
    'unknown class referring to known objects': '<cim:Nope rdf:ID="foreign"><cim:Terminal.ConductingEquipment rdf:resource="#k1"/><cim:Equipment.EquipmentContainer rdf:resource="#v1"/></cim:Nope>',
    'unknown class with nested known names': '<cim:Nope rdf:ID="foreign"><cim:Nope.a><cim:Nope.b>1</cim:Nope.b></cim:Nope.a></cim:Nope>',
    'no identifier': '<cim:Breaker><cim:IdentifiedObject.name>other</cim:IdentifiedObject.name></cim:Breaker>',
    'property outside objects': '<cim:IdentifiedObject.name>other</cim:IdentifiedObject.name>',
    'reference outside objects': '<cim:Terminal.ConductingEquipment rdf:resource="#k1"/>',
    'foreign object': '<x:Breaker rdf:ID="foreign"><x:IdentifiedObject.name>other</x:IdentifiedObject.name></x:Breaker>',
    'foreign object, same identifier': '<x:Breaker rdf:ID="k1"><x:IdentifiedObject.name>other</x:IdentifiedObject.name></x:Breaker>',
    'foreign about known object': '<x:Note rdf:about="#k1"><x:text>other</x:text></x:Note>',
    'model header': '<x:FullModel rdf:about="urn:uuid:1-2"><x:Model.created>2010</x:Model.created><x:Model.DependentOn rdf:resource="urn:uuid:3"/></x:FullModel>',
    'rdf description': '<rdf:Description rdf:about="#k1"><x:p>1</x:p></rdf:Description>',
    'comment': '<!-- <cim:Breaker rdf:ID="foreign"/> -->',
    'processing instruction': '<?cim <cim:Breaker rdf:ID="foreign"/>?>',
    'stray text': 'stray &amp; text',
    'no namespace': '<Breaker rdf:ID="foreign"><name>other</name></Breaker>',
    'attribute of another namespace': '<cim:Nope x:ID="k1" rdf:ID="foreign"/>',
    'similar namespace': '<y:Breaker xmlns:y="%sX#" rdf:ID="foreign"/>',
}


def build(root, junk):
    """junk: list of (position, text); position = index into the list of slots."""
    ns = rdf.NSURI[root]
    S = rdf.PLAIN
    slots, parts = [], []
    at = {}
    for p, t in junk:
        at.setdefault(p, []).append(t % ns if '%s' in t else t)

    def slot(kind):
        slots.append(kind)
        parts.extend(at.get(len(slots) - 1, ()))
    parts.append('<?xml version="1.0"?>\n<rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#" %s>' % (rdf.RDF, ns, X))
    for n in doc(root):
        slot('top')
        parts.append('<cim:%s rdf:ID="%s">' % (n['cls'], n['id']))
        for s in n['st']:
            slot('prop')
            parts.append(S.statement(s, ns))
        slot('prop')
        parts.append('</cim:%s>' % n['cls'])
    slot('top')
    parts.append('</rdf:RDF>')
    return '\n'.join(parts), slots


SIZES = sorted(set(range(1, 41)) | {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500})


def nest(n, outer, inner):
    return ''.join('<%s>' % outer[i % len(outer)] for i in range(n)) + inner + ''.join(
        '</%s>' % outer[i % len(outer)] for i in reversed(range(n)))


def size_unit(root, n):
    """Unknown content nested n deep and repeated n times, at every place."""
    res = core.Result()
    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(doc(root)).snapshot()
    _, slots = build(root, [])
    inner = '<cim:IdentifiedObject.name>other</cim:IdentifiedObject.name><cim:Switch.normalOpen>false</cim:Switch.normalOpen>'
    deep = [nest(n, o, inner) for o in (['x:e'], ['cim:Nope.extra'], ['x:e', 'cim:Nope.extra'], ['cim:Breaker.extra', 'cim:Extra'])]
    for i, s in enumerate(slots):
        texts = [('nested', t) for t in deep]
        if s == 'top':
            texts += [('nested', '<cim:Nope rdf:ID="foreign">%s</cim:Nope>' % t) for t in deep]
            texts += [('repeated', ''.join('<cim:Nope rdf:ID="foreign%d"/>' % j for j in range(n))),
                      ('repeated', '<!-- c -->' * n), ('repeated', '<x:e rdf:ID="k1"/>' * n)]
        else:
            texts += [('repeated', PROPS[k] * n) for k in ('unknown property', 'reference to nothing', 'foreign text', 'comment')]
            texts += [('repeated', ''.join('<cim:Breaker.p%d>1</cim:Breaker.p%d>' % (j, j) for j in range(n)))]
        for what, x in texts:
            t, _ = build(root, [(i, x)])
            res.add('states')
            res.add('transitions')
            try:
                msg = rdf.difference(rdf.snapshot(feats, rdf.read(t)), want)
            except Exception as e:
                msg = 'reading raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s %s' % (what, x[:20]), '%s, unknown content %s %d times at place %d: %s' % (root, what, n, i, msg),
                              {'root': root, 'text': t})
                return res
            res.add('traces')
            res.outcome(what)
    return res


def near(k):
    """Names that are nearly k."""
    out = [k[:1].swapcase() + k[1:], k.lower(), k.upper(), k.swapcase(), k + 's', k + '_', k + '1', k[:-1], k[:-2], k[1:], 'x' + k, 'get' + k, 'is' + k,
           k.replace('_', ''), k + '-' + k, k[:1] + '_' + k[1:], k[::-1], 'the.' + k + '.x']
    out += [k[:i] + k[i].swapcase() + k[i + 1:] for i in range(len(k))]
    return sorted(set(x for x in out if x and (x[0].isalpha() or x[0] == '_')))


def near_unit(q):
    """Statements whose property is nearly one of the class, before and after those of the class."""
    from p_order import full_nodes, in_map, args_for, ns_for
    import p_order
    p_order.meta, p_order.feats = meta, feats
    res = core.Result()
    if not in_map(q):
        return res
    root, F = meta.root[q], feats.of(q)
    cls = q.split(':')[1]
    o, ps = full_nodes(q, 0, 1)
    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read([o] + ps).snapshot()
    lit = {'str': 'other', 'int': '77', 'float': '7.5', 'bool': 'true'}
    junk = {}
    for k, (kind, spec, _) in F.items():
        c = []
        for x in near(k):
            if x in F or x.rsplit('.', 1)[-1] in F or hasattr(core.load_class(q), x):
                continue
            P = '%s.%s' % (cls, x)
            if kind == 'ref':
                c.append((P, 'ref', ps[-1]['id'] if ps else 'o'))
            elif spec['type'] == 'enum':
                c.append((P, 'enum', '%s.other' % spec['enum']))
            else:
                c.append((P, 'text', lit.get(spec['type'], 'other')))
        junk[k] = c
    allof = [x for c in junk.values() for x in c]

    def judge(extra, what):
        for st in (extra + o['st'], o['st'] + extra):
            res.add('states')
            res.add('transitions')
            t = rdf.text([dict(o, st=st)] + ps, ns_for(root))
            try:
                msg = rdf.difference(rdf.snapshot(feats, rdf.read(t, *args_for(root))), want)
            except Exception as e:
                msg = 'reading raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s near %s' % (q, what), '%s, names near %s: %s' % (q, what, msg), {'root': root, 'text': t})
                return False
            res.add('traces')
            res.add('near names', len(extra))
        return True
    if not judge(allof, 'all'):
        bad = 0
        for k, c in junk.items():
            if not all(judge([x], '%s: %s' % (k, x[0])) for x in c):
                bad += 1
            if bad > 2:
                break
    res.outcome('near names')
    return res


FROOTS = ['rdf:RDF', 'RDF', 'x:model', 'cim', 'html', 'rdf:Description', 'Breaker', '_']
FDECLS = {'rdf': rdf.RDF, 'x': 'http://example.org/x#', '': 'http://example.org/d#', 'cimx': 'http://iec.ch/TC57/CIM-schema-other#', 'xsi': 'http://www.w3.org/2001/XMLSchema-instance'}
FBODY = ['', ' ', 'text', '<!-- c -->', '<?pi x?>', '<b/>', '<Breaker/>', '<Breaker ID="a"/>', '<Breaker><IdentifiedObject.name>n</IdentifiedObject.name></Breaker>',
         '<Substation><Substation><Substation/></Substation></Substation>', '<x:Breaker rdf:ID="a"/>', '<rdf:Description rdf:about="#a"><x:n>1</x:n></rdf:Description>',
         '<Breaker rdf:ID="b"><Switch.normalOpen>true</Switch.normalOpen></Breaker>', '<x:Breaker xmlns:rdf="%s" rdf:ID="a"><x:IdentifiedObject.name>n</x:IdentifiedObject.name></x:Breaker>' % rdf.RDF]


def foreign_unit(name):
    """Documents that hold nothing of CIM read as no objects, and leave a given model as it is."""
    from PyCIM import cimread
    res = core.Result()
    bad = 0
    givens = {}
    for ver in ('CIM14', 'CIM15'):
        givens[ver] = rdf.text([rdf.node('Substation', 's', [('IdentifiedObject.name', 'text', 'North')]),
                                rdf.node('VoltageLevel', 'v', [('VoltageLevel.Substation', 'ref', 's')])], rdf.NSURI[ver])
    import importlib
    maps = [()] + [(importlib.import_module(r).packageMap, rdf.NSURI[r]) for r in ('CIM14', 'CIM15')]
    for k in range(len(FDECLS) + 1):
        for decls in itertools.combinations(FDECLS, k):
            head = name + ''.join(' xmlns%s="%s"' % (p and ':' + p, FDECLS[p]) for p in decls)
            for n in (1, 2):
                for body in itertools.product(FBODY, repeat=n):
                    t = ''.join(body)
                    t = '<%s>%s</%s>' % (head, t, name) if t else '<%s/>' % head
                    try:
                        ET.fromstring(t)
                    except ET.ParseError:
                        continue        # a prefix that is not declared
                    res.add('states')
                    for args in maps if n == 1 else maps[:1]:
                        for given in (None, 'CIM14', 'CIM15') if n == 1 else (None,):
                            res.add('transitions')
                            d = {}
                            try:
                                if given:
                                    d = rdf.read(givens[given])
                                before, ids = rdf.snapshot(feats, d), {i: id(o) for i, o in d.items()}
                                r = cimread(io.BytesIO(t.encode()), *args, **({'start_dict': d} if given else {}))
                                msg = rdf.difference(rdf.snapshot(feats, r), before)
                                if not msg and ids != {i: id(o) for i, o in r.items()}:
                                    msg = 'objects of the given model were replaced'
                            except Exception as e:
                                msg = 'reading raised %s' % core.exc_name(e)
                            if msg:
                                bad += 1
                                res.violation('foreign', 'a document without CIM content, %s, given model %s: %s\n%s' % (
                                    'override' if args else 'no override', given, msg, t), {'root': 'CIM15', 'text': t})
                                if bad > 4:
                                    return res
                            else:
                                res.add('traces')
    res.outcome('foreign documents')
    return res


def unit(u):
    root, first, depth = u
    if depth == 'foreign':
        return foreign_unit(root)
    if depth == 'near':
        return near_unit(root)
    if depth == 'size':
        return size_unit(root, first)
    res = core.Result()
    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(doc(root)).snapshot()
    _, slots = build(root, [])
    singles = [(i, k, t) for i, s in enumerate(slots) for k, t in (TOPS if s == 'top' else PROPS).items()]
    mine = singles[first]
    bad = 0
    if depth == 2 and core.TIER != 'thorough':
        if mine[1] in SINGLE_ONLY:
            return res
        singles = singles[:first] + [x for x in singles[first:] if x[1] not in SINGLE_ONLY]
    base = [mine] if depth == 1 else []
    cases = [[mine]] if depth == 1 else [[mine, o] for o in singles[first:]]
    for case in cases:
        if bad > 2:
            break
        t, _ = build(root, [(i, x) for i, k, x in case])
        res.add('states')
        for how in ('stream', 'byte by byte') if depth == 1 else ('stream',):
            res.add('transitions')
            try:
                if how == 'stream':
                    d = rdf.read(t)
                else:
                    from p_delivery import Pieces
                    from PyCIM import cimread
                    d = cimread(Pieces([t.encode()], 1))
                msg = rdf.difference(rdf.snapshot(feats, d), want)
            except Exception as e:
                msg = 'reading raised %s' % core.exc_name(e)
            if msg:
                bad += 1
                res.violation(' + '.join(k for _, k, _ in case), '%s, %s: %s\n%s' % (
                    root, ' and '.join('%s at place %d' % (k, i) for i, k, _ in case), msg, t), {'root': root, 'text': t})
            else:
                res.add('traces')
                res.outcome('%d pieces of junk' % len(case))
    if depth == 1:
        # all kinds together at one place
        i = mine[0]
        t, _ = build(root, [(i, x) for x in (TOPS if slots[i] == 'top' else PROPS).values()])
        res.add('transitions')
        try:
            msg = rdf.difference(rdf.snapshot(feats, rdf.read(t)), want)
        except Exception as e:
            msg = 'reading raised %s' % core.exc_name(e)
        if msg:
            res.violation('all at place %d' % i, '%s: all kinds of junk at place %d: %s' % (root, i, msg), {'root': root, 'text': t})
        else:
            res.add('traces')
    res.sample({'root': root, 'junk': mine[1], 'place': mine[0]}, 1)
    return res


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    _, slots = build('CIM15', [])
    n = sum(len(TOPS if s == 'top' else PROPS) for s in slots)
    units = [(r, i, 1) for r in ('CIM14', 'CIM15') for i in range(n)]
    units += [(r, i, 2) for r in (('CIM14', 'CIM15') if core.TIER == 'thorough' else ('CIM15',)) for i in range(n)]
    units += [(r, k, 'size') for r in ('CIM14', 'CIM15') for k in SIZES]
    units += [(r, 0, 'foreign') for r in FROOTS]
    units += [(q, 0, 'near') for q in sorted(meta.classes)]
    res = core.run_units(unit, units, chunk=4)
    return res, dict(level='model_checking',
                     rule='state = document: a model document with junk at places (every junk kind at every place; every pair of '
                          '(kind, place); all kinds at one place; content nested n deep and repeated n times at every place, n up to 40 and around '
                          'powers of two to 500; for every class, statements whose names differ slightly from those of the class; every document of up to two pieces that holds nothing of CIM, under every set of other namespaces, '
                          'with every override and given model); transition = read compared with the model without junk',
                     assumptions=['junk pieces interact at most pairwise; names of Python internals are placed singly (the thorough tier pairs them too)'])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    print(data['text'])
    want = rdf.Expected(feats, meta.pkgs[data['root']]['packageMap']).read(doc(data['root'])).snapshot()
    print(rdf.difference(rdf.snapshot(feats, rdf.read(data['text'])), want))
