"""C28: memory while and after documents are read and written, at every read of the stream."""
import gc
import io
import itertools
import tracemalloc

import core
import rdf
from feat import Features
from p_delivery import Pieces

meta = feats = None
N = 3000            # pieces of a document
SLACK = 100000      # bytes: read buffers, tables that grow by doubling; one retained element per piece takes more than thrice that
EXT = 'http://example.org/extension#'

# Pieces of a document at the top level; %d: the number of the piece.
KINDS = {
    'object': '<cim:Substation rdf:ID="o%d"><cim:IdentifiedObject.name>North</cim:IdentifiedObject.name></cim:Substation>',
    'linked object': '<cim:VoltageLevel rdf:ID="o%d"><cim:VoltageLevel.Substation rdf:resource="#first"/></cim:VoltageLevel>',
    'bare object': '<cim:Breaker rdf:ID="o%d"/>',
    'statement about an object': '<cim:Substation rdf:about="#first"><cim:IdentifiedObject.aliasName>a</cim:IdentifiedObject.aliasName></cim:Substation><!--%d-->',
    'bare statement about an object': '<cim:Substation rdf:about="#first"/><!--%d-->',
    'bare element without identifier': '<cim:Substation/><!--%d-->',
    'bare statement about an unknown object': '<cim:NoSuchClass rdf:about="#u%d"/>',
    'unknown class': '<cim:NoSuchClass rdf:ID="u%d"><cim:IdentifiedObject.name>x</cim:IdentifiedObject.name></cim:NoSuchClass>',
    'bare unknown class': '<cim:NoSuchClass rdf:ID="u%d"/>',
    'statement about an unknown object': '<cim:NoSuchClass rdf:about="#u%d"><cim:IdentifiedObject.name>x</cim:IdentifiedObject.name></cim:NoSuchClass>',
    'element without identifier': '<cim:Substation><cim:IdentifiedObject.name>n%d</cim:IdentifiedObject.name></cim:Substation>',
    'foreign element': '<x:thing rdf:ID="x%d"><x:name>n</x:name></x:thing>',
    'bare foreign element': '<x:thing n="%d"/>',
    'RDF description': '<rdf:Description rdf:about="#o%d"><x:name>n</x:name></rdf:Description>',
    'comment': '<!-- a comment on nothing in particular: %d --><x:t/>',
    'processing instruction': '<?pi some instruction for someone, number %d?><x:t/>',
    'text': 'some text between the elements, number %d<x:t/>',
    'unknown property': '<cim:Substation rdf:about="#first"><cim:Substation.noSuchThing>n%d</cim:Substation.noSuchThing></cim:Substation>',
    'missing reference': '<cim:VoltageLevel rdf:about="#level"><cim:VoltageLevel.Substation rdf:resource="#gone%d"/></cim:VoltageLevel>',
    'nested elements': '<x:a><x:b><x:c>%d</x:c><cim:Breaker/></x:b><x:b/></x:a>',
    'nested property': '<cim:Substation rdf:about="#first"><cim:IdentifiedObject.name>n<x:b>%d</x:b></cim:IdentifiedObject.name></cim:Substation>',
    'long text': '<x:thing>' + 'long ' * 60 + '%d</x:thing>',
}


def pieces(kinds, n=N, root='CIM15'):
    if root == 'late':      # the namespace is declared at the end only
        head = '<rdf:RDF xmlns:rdf="%s" xmlns:x="%s">' % (rdf.RDF, EXT)
        tail = '<c:Substation xmlns:c="%s#" rdf:ID="last"><c:IdentifiedObject.name>n</c:IdentifiedObject.name></c:Substation></rdf:RDF>' % rdf.NSURI['CIM15']
        return [p.encode('utf-8') for p in [head] + [KINDS[kinds[i % len(kinds)]] % i + '\n' for i in range(n)] + [tail]]
    head = ('<rdf:RDF xmlns:rdf="%s" xmlns:cim="%s#" xmlns:x="%s"><cim:Substation rdf:ID="first"/><cim:VoltageLevel rdf:ID="level"/>' % (rdf.RDF, rdf.NSURI[root], EXT))
    out = [head] + [KINDS[kinds[i % len(kinds)]] % i + '\n' for i in range(n)] + ['</rdf:RDF>']
    return [p.encode('utf-8') for p in out]


class Watched(Pieces):
    """Notes the memory in use at every read."""

    def __init__(self, ps):
        super().__init__(ps)
        self.peak, self.at, self.count = 0, 0, 0

    def read(self, n=-1):
        m = tracemalloc.get_traced_memory()[0]
        self.count += 1
        if m > self.peak:
            self.peak, self.at = m, self.count
        return super().read(n)


def traced():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def measure(res, root, kinds):
    from PyCIM import cimread
    what = ', '.join(kinds)
    d = cimread(Watched(pieces(kinds, 40, root)))           # everything that is loaded once
    del d
    ps = pieces(kinds, root=root)
    src = Watched(ps)
    tracemalloc.start()
    try:
        base = traced()
        src.seek(0)
        d = cimread(src)
        reads = src.count
        src.rest = []
        model = traced() - base
        size = len(d)
        need = src.peak - base
        del d
        left = traced() - base
    finally:
        tracemalloc.stop()
    res.add('states')
    res.add('transitions', reads)
    msg = None
    if need > model + SLACK:
        msg = 'takes %d bytes at read %d of %d, the model of %d objects takes %d' % (need, src.at, reads, size, model)
    elif left > SLACK:
        msg = 'keeps %d bytes after the model was dropped' % left
    if msg:
        res.violation('%s: %s' % (root, what), 'reading %d pieces (%s) of %s %s' % (N, what, root, msg), {'kinds': kinds, 'root': root})
    else:
        res.add('traces', reads)
        res.outcome('reading: ' + ('model' if size > 2 else 'nothing'))
    res.sample({'kinds': kinds, 'root': root, 'reads': reads, 'peak': need, 'model': model, 'left': left}, 1)


def u_read(u):
    res = core.Result()
    for kinds in u[1]:
        measure(res, u[0], kinds)
    return res


def u_repeat(u):
    """One operation, again and again: nothing piles up."""
    root, op = u
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    import p_order
    res = core.Result()
    _, nodes = p_order.mixed(0 if root == 'CIM14' else 1)
    text = rdf.text(nodes, rdf.NSURI[root])
    extra = text.replace('</rdf:RDF>', '<cim:Nope rdf:ID="n%d"/><cim:Breaker rdf:ID="kk%d"><cim:Breaker.nope%d>1</cim:Breaker.nope%d></cim:Breaker></rdf:RDF>')
    model = rdf.read(text)

    def once(i):
        if op == 'read':
            cimread(io.BytesIO(text.encode('utf-8')))
        elif op == 'read other names':      # identifiers, unknown names that differ every time
            t = (extra % ((i,) * 4)).replace('rdf:ID="', 'rdf:ID="%d_' % i).replace('"#', '"#%d_' % i)
            cimread(io.BytesIO(t.encode('utf-8')))
        elif op == 'failing read':
            try:
                cimread(io.BytesIO(text[:-20 - i % 50].encode('utf-8')))
            except Exception:
                pass
        elif op == 'extend':
            cimread(io.BytesIO(text.replace('rdf:ID="', 'rdf:about="#').encode('utf-8')), start_dict=model)
        elif op == 'write':
            cimwrite(model, io.StringIO())
        elif op == 'write other names':
            d = rdf.read(text.replace('rdf:ID="', 'rdf:ID="%d_' % i).replace('"#', '"#%d_' % i))
            cimwrite(d, io.StringIO(), ('utf-8', 'us-ascii', 'iso-8859-1')[i % 3])
        elif op == 'failing write':
            class F(io.StringIO):
                n = 0

                def write(self, s):
                    self.n += 1
                    if self.n > 3 + i % 40:
                        raise OSError(28, 'full')
                    return super().write(s)
            try:
                cimwrite(model, F())
            except OSError:
                pass
        elif op == 'pretty':
            xmlpp(io.BytesIO(text.encode('utf-8')))
        else:
            d = rdf.read(text)
            for o in d.values():
                for k, (kind, spec, _) in feats.of('%s:%s' % (type(o).__module__.rpartition('.')[0], type(o).__name__)).items():
                    if kind == 'ref':
                        setattr(o, k, [] if spec['many'] else None)
    n = 1000
    tracemalloc.start()
    try:
        for i in range(1500):       # until the interpreter's own tables and free lists are full
            once(i)
        base = traced()
        for i in range(n):
            once(2000 + i)
            res.add('transitions')
        left = traced() - base
    finally:
        tracemalloc.stop()
    res.add('states')
    if left > 25000:            # the least that can pile up, one reference to an object each time, takes more
        res.violation('%s: %s' % (root, op), '%s: %d bytes are left after %d times: %s' % (root, left, n, op), {'op': op, 'root': root})
    else:
        res.add('traces')
        res.outcome('again and again')
    res.sample({'op': op, 'root': root, 'times': n, 'left': left}, 1)
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


OPS = ('read', 'read other names', 'failing read', 'extend', 'write', 'write other names', 'failing write', 'pretty', 'unlink')


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    import p_order
    p_order.meta, p_order.feats = meta, feats
    deep = core.TIER == 'thorough'
    seqs = [t for n in range(1, 4 if deep else 3) for t in itertools.permutations(sorted(KINDS), n)]
    units = [('repeat', (r, op)) for r in ('CIM14', 'CIM15') for op in OPS]
    for i in range(0, len(seqs), 4):
        units.append(('read', ('CIM15', seqs[i:i + 4])))
    units += [('read', ('CIM14', [(k,)])) for k in sorted(KINDS)]
    units.append(('read', ('late', [(k,) for k in sorted(KINDS) if 'cim:' not in KINDS[k]])))
    res = core.run_units(unit, units, horizon=1500, chunk=1)
    return res, dict(level='model_checking',
                     rule='state = document of %d pieces of one kind or several kinds in turn (every sequence of up to %d of %d kinds), or operation '
                          'repeated 1000 times; transition = read of the stream at which the memory in use is compared with that of the finished '
                          'model; trace = read within the bound' % (N, 3 if deep else 2, len(KINDS)),
                     assumptions=['memory as Python accounts it (tracemalloc); up to %d bytes more are allowed' % SLACK])


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    res = core.Result()
    if 'kinds' in data:
        measure(res, data['root'], tuple(data['kinds']))
    print(res.violations or 'ok')
