"""C11: every way of cutting the stream, every source kind, every spelling."""
import io
import itertools
import os
import pathlib
import shutil
import tempfile

import core
import rdf
from feat import Features
from rdf import node as N, Spelling

meta = feats = None
scratch = None


class Pieces:
    """A stream that returns the given pieces, one per read (or less if asked for less)."""

    def __init__(self, pieces, chunk=None):
        self.pieces, self.empty, self.chunk = pieces, pieces[0][:0], chunk
        self.seek(0)
        self.reads = 0

    def seek(self, pos, whence=0):
        assert pos == 0 and whence == 0
        self.rest, self.pos = list(self.pieces), 0
        return 0

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    readable = seekable

    def read(self, n=-1):
        if n is None or n < 0: # all that is left, piece by piece
            parts = []
            while not parts or parts[-1]:
                parts.append(self.read(1 << 30))
            return self.empty.join(parts)
        self.reads += 1
        while self.rest and not self.rest[0]:
            self.rest.pop(0)
        if not self.rest:
            return self.empty
        p = self.rest[0]
        k = min(n, len(p))
        if self.chunk:
            k = min(k, self.chunk)
        self.rest[0] = p[k:]
        self.pos += k
        return p[:k]


def small():
    return [N('Breaker', 'k1', [('IdentifiedObject.name', 'text', 'é<&>"\u20ac \U0001d11e'),
                                ('Switch.normalOpen', 'text', 'true'), ('Equipment.EquipmentContainer', 'ref', 'v1')]),
            N('VoltageLevel', 'v1', [('VoltageLevel.highVoltageLimit', 'text', '2.5')])]


def doc(root):
    nodes = [N('Substation', 's1', [('IdentifiedObject.name', 'text', 'North "1" & \'2\' <é€>')]),
             N('VoltageLevel', 'v1', [('VoltageLevel.Substation', 'ref', 's1'), ('VoltageLevel.highVoltageLimit', 'text', '2.5e1')]),
             N('Breaker', 'k1', [('IdentifiedObject.name', 'text', ' a  b '), ('IdentifiedObject.aliasName', 'text', ''),
                                 ('Switch.normalOpen', 'text', 'true'), ('Equipment.EquipmentContainer', 'ref', 'v1')]),
             N('Terminal', 't1', [('Terminal.ConductingEquipment', 'ref', 'k1'), ('Terminal.ConnectivityNode', 'ref', 'c1')]),
             N('ConnectivityNode', 'c1', [('ConnectivityNode.ConnectivityNodeContainer', 'ref', 'v1')]),
             N('Analog', 'a1', [('Measurement.unitSymbol', 'enum', 'UnitSymbol.VA'), ('Analog.maxValue', 'text', '-0.5')])]
    if root == 'CIM14':
        nodes[5]['st'][0] = ('Measurement.measurementType', 'text', 'x')
    return nodes


class Case:
    def __init__(self, root, nodes, res):
        self.root, self.nodes, self.res = root, nodes, res
        self.want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(nodes).snapshot()
        self.bad = 0

    def check(self, what, source, shown, *args, **kw):
        from PyCIM import cimread
        self.res.add('transitions')
        try:
            msg = rdf.difference(rdf.snapshot(feats, cimread(source, *args, **kw)), self.want)
        except Exception as e:
            msg = 'reading raised %s' % core.exc_name(e)
        if msg:
            self.bad += 1
            if self.bad < 4:
                self.res.violation('%s' % what, '%s, %s (%s): %s' % (self.root, what, shown if len(str(shown)) < 300 else str(shown)[:300], msg),
                                   {'what': what, 'shown': shown, 'root': self.root})
        else:
            self.res.add('traces')
            self.res.outcome(what)
        self.res.add('states')


def u_chunks(root):
    """Reads of every fixed size."""
    res = core.Result()
    c = Case(root, doc(root), res)
    t = rdf.PLAIN.doc(c.nodes, rdf.NSURI[root])
    for data in (t.encode('utf-8'), t):
        for n in range(1, len(data) + 1):
            c.check('%s stream, fixed read size' % type(data).__name__, Pieces([data], n), n)
    return res


def u_cuts(u):
    """One or two cuts anywhere (first cut fixed per unit)."""
    root, part, of, kind, two = u
    res = core.Result()
    c = Case(root, small(), res)
    t = Spelling(nl='', indent='', text='plain').doc(c.nodes, rdf.NSURI[root])
    data = t.encode('utf-8') if kind == 'bytes' else t
    n = len(data)
    for i in range(1 + part, n, of):
        c.check('%s stream cut once' % kind, Pieces([data[:i], data[i:]]), i)
        if two:
            for j in range(i + 1, n):
                c.check('%s stream cut twice' % kind, Pieces([data[:i], data[i:j], data[j:]]), (i, j))
    if part == 0:
        res.sample({'document_bytes': n, 'kind': kind, 'root': root}, 1)
    return res


def u_pad(u):
    """Padding so that the boundary of a 64 KiB block falls on every byte of the document."""
    root, part, of = u
    res = core.Result()
    c = Case(root, doc(root), res)
    t = Spelling(nl='', indent='', decl='').doc(c.nodes, rdf.NSURI[root])
    n = len(t.encode('utf-8'))
    for i in range(part, n + 1, of):
        pad = 65536 - i
        for what, d in (('comment before', '<!--' + 'x' * (pad - 7) + '-->' + t), ('white space before', '<?xml version="1.0"?>' + ' ' * (pad - 21) + t),
                        ('comment inside', t.replace('><', '><!--' + 'x' * (pad - 7) + '--><', 1))):
            c.check('document across the block boundary', io.BytesIO(d.encode('utf-8')), (what, i))
    return res


def u_sources(root):
    """Kinds of source, with every encoding."""
    res = core.Result()
    c = Case(root, doc(root), res)
    for enc, decl in (('utf-8', ''), ('utf-8', '<?xml version="1.0"?>'), ('utf-8', '<?xml version="1.0" encoding="UTF-8"?>\n'),
                      ('utf-8-sig', '<?xml version="1.0" encoding="utf-8"?>\n'), ('utf-16', '<?xml version="1.0" encoding="utf-16"?>\n'),
                      ('utf-8', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<!-- c -->\n<?pi x?>\n'),
                      ('iso-8859-1', '<?xml version="1.0" encoding="iso-8859-1"?>\n'), ('us-ascii', '<?xml version="1.0" encoding="us-ascii"?>\n'),
                      ('cp1252', '<?xml version="1.0" encoding="windows-1252"?>\n')):
        for sp in (Spelling(decl=decl), Spelling(decl=decl, text='hexref')):
            t = sp.doc(c.nodes, rdf.NSURI[root])
            data = t.encode(enc, 'xmlcharrefreplace')
            dec = data.decode(enc)
            p = os.path.join(scratch, '%s %s é.xml' % (root, enc))
            with open(p, 'wb') as f:
                f.write(data)
            shown = (enc, decl)
            c.check('path', p, shown)
            c.check('path again', p, shown)
            with open(p, 'rb') as f:
                c.check('binary file', f, shown)
                f.seek(0)
                c.check('binary file again', f, shown)
            with open(p, 'rb', buffering=0) as f:
                c.check('unbuffered file', f, shown)
            with open(p, 'r', encoding=enc, newline='') as f:
                c.check('text file', f, shown)
            c.check('bytes stream', io.BytesIO(data), shown)
            c.check('text stream', io.StringIO(dec.lstrip('\ufeff')), shown)
            c.check('byte by byte', Pieces([data], 1), shown)
            c.check('character by character', Pieces([dec.lstrip('\ufeff')], 1), shown)
            c.check('buffered reader', io.BufferedReader(io.BytesIO(data), 1), shown)
    return res


NAMES = ['a.xml', './a.xml', '../%s/a.xml', ' a.xml', 'a.xml ', 'a\n.xml', 'http:x.xml', 'file:a', '%%61.xml', 'a', '.x', '~', '$HOME', 'é€.xml', '-', 'a#b.xml',
         'a?b', '*', '[a].xml', '<x>', 'x' * 250, '0', 'A.XML', 'x.xml.gz', 'x.zip', 'x.tar', "'q'", '{0}', '%%s', 'a\\b', 'None', '\udc80.xml', 'True', 'x.rdf', 'a.xml.bak']


def u_names(root):
    """Names of files, as strings and path objects, relative and absolute."""
    res = core.Result()
    c = Case(root, small(), res)
    data = Spelling().doc(c.nodes, rdf.NSURI[root]).encode('utf-8')
    w = tempfile.mkdtemp(dir=scratch)
    here = os.getcwd()
    os.chdir(w)
    try:
        for n in NAMES:
            n = n % ((os.path.basename(w),) if '%s/' in n else ())
            for how, p in (('relative', n), ('absolute', os.path.join(w, n)), ('path object', pathlib.Path(n)), ('absolute path object', pathlib.Path(w) / n)):
                with open(n, 'wb') as f:
                    f.write(data)
                c.check('file name, %s' % how, p, ascii(n)[:40])
                os.remove(n)
    finally:
        os.chdir(here)
    return res


DIMS = dict(q=['"', "'"], text=['plain', 'cdata', 'charref', 'hexref', 'mixed', 'comment'], empty=[True, False],
            ws=[('\n', '  '), ('', ''), ('\r\n', '\t')], comments=['', '<!-- <cim:x/> -->', '<?pi y?>'], prefix=['cim', 'c', ''],
            rdfprefix=['rdf', 'r'], attrspace=[' ', '\n   '], decl=["<?xml version='1.0' encoding='utf-8'?>\n", ''])


def u_spell(u):
    root, first = u
    res = core.Result()
    c = Case(root, doc(root), res)
    keys = [k for k in DIMS if k != 'text']
    for combo in itertools.product(*[DIMS[k] for k in keys]):
        o = dict(zip(keys, combo), text=first)
        ws = o.pop('ws')
        t = Spelling(nl=ws[0], indent=ws[1], **o).doc(c.nodes, rdf.NSURI[root])
        c.check('spelling', io.BytesIO(t.encode('utf-8')), o)
        if core.TIER == 'thorough':
            c.check('spelling', Pieces([t.encode('utf-8')], 1), o)
            c.check('spelling', io.StringIO(t), o)
    return res


def u_tight(u):
    """Spellings inside tags and around values that the table above does not reach."""
    root = u
    res = core.Result()
    c = Case(root, small(), res)
    t = Spelling(nl='\n').doc(c.nodes, rdf.NSURI[root])
    alts = [('>true<', ['>\n true\t<', '>true<!--x--><', '><?p?>true<', '><![CDATA[true]]><', '>t&#114;ue<']),
            ('"#v1"', ['"&#35;v1"', '"#v&#49;"', "'#v1'"]), ('rdf:ID=', ['rdf:ID =', 'rdf:ID\n= ']),
            ('>2.5<', ['> 2.5\n<', '>2&#46;5<', '><!---->2.5<', '>2.5<?x?><', '>2<![CDATA[.]]>5<']),
            ('</cim:Breaker>', ['</cim:Breaker\n>', '<!--e--></cim:Breaker>', 'text </cim:Breaker>']),
            ('</rdf:RDF>', ['</rdf:RDF >', '</rdf:RDF>\n<!-- end -->\n<?end?>\n', '\n\n</rdf:RDF>   '])]
    # all combinations, each alternative or the original
    for combo in itertools.product(*[[None] + a for _, a in alts]):
        d = t
        for (old, _), new in zip(alts, combo):
            if new is not None:
                if old not in d:
                    raise RuntimeError(old)
                d = d.replace(old, new, 1 if old != 'rdf:ID=' else -1)
        c.check('tight spelling', io.BytesIO(d.encode('utf-8')), [x for x in combo if x])
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    scratch = tempfile.mkdtemp(prefix='verif-c11-')
    try:
        deep = core.TIER == 'thorough'
        units = []
        for root in ('CIM14', 'CIM15'):
            units += [('sources', root), ('names', root), ('chunks', root), ('tight', root)]
            units += [('cuts', (root, p, 24, k, deep or (root, k) in (('CIM15', 'bytes'), ('CIM14', 'str')))) for p in range(24) for k in ('bytes', 'str')]
            units += [('pad', (root, p, 8)) for p in range(8)]
            units += [('spell', (root, x)) for x in DIMS['text']]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (document, delivery, spelling); transition = read compared with the model the document denotes; '
                          'trace = read that agreed. All fixed read sizes 1..length, all single and double cut positions (binary and '
                          'text), the 64 KiB block boundary on every byte, all source kinds x encodings, the full product of spelling '
                          'dimensions',
                     assumptions=['streams can be rewound to their start (the reader makes several passes)'])


def replay(prop, data):
    print(data)
