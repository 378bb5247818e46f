"""CIM RDF/XML documents as data, their spellings, and the model they denote: an
oracle for the reader that shares nothing with it but the committed metamodel.

document  = [node]
node      = {'cls': class name, 'id': identifier, 'about': bool, 'st': [statement]}
statement = (property name as written, 'text' | 'ref' | 'enum', value)"""
import io
import xml.etree.ElementTree as ET

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
NSURI = {'CIM14': 'http://iec.ch/TC57/2009/CIM-schema-cim14', 'CIM15': 'http://iec.ch/TC57/2010/CIM-schema-cim15'}


def node(cls, id, st=(), about=False):
    return {'cls': cls, 'id': id, 'about': about, 'st': [tuple(s) for s in st]}


def esc(s, q=None):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if q:
        s = s.replace('\n', '&#10;').replace('\t', '&#9;')
        s = s.replace('"', '&quot;') if q == '"' else s.replace("'", '&apos;')
    return s


class Spelling:
    """How to write a document; every spelling denotes the same model."""

    def __init__(self, q='"', nl='\n', indent='  ', prefix='cim', decl="<?xml version='1.0' encoding='utf-8'?>\n",
                 empty=True, text='plain', comments='', attrspace=' ', rdfprefix='rdf', base=''):
        self.__dict__.update(locals())

    def txt(self, s):
        if self.text == 'cdata' and s and ']]>' not in s:
            return '<![CDATA[' + s + ']]>' if '\r' not in s else esc(s)
        if self.text == 'charref':
            return ''.join('&#%d;' % ord(c) for c in s)
        if self.text == 'hexref':
            return ''.join('&#x%X;' % ord(c) for c in s)
        if self.text == 'mixed' and s and '\r' not in s:
            h = len(s) // 2
            return esc(s[:h]) + ('<![CDATA[' + s[h:] + ']]>' if ']]>' not in s[h:] else esc(s[h:]))
        if self.text == 'comment' and s:
            h = (len(s) + 1) // 2
            return esc(s[:h]) + '<!-- c -->' + esc(s[h:])
        return esc(s)

    def attr(self, name, v):
        q = self.q
        v = ''.join('&#%d;' % ord(c) for c in v) if self.text == 'charref' else esc(v, q)
        return '%s%s=%s%s%s' % (self.attrspace, name, q, v, q)

    def elem(self, tag, attrs, content=None):
        a = ''.join(self.attr(*x) for x in attrs)
        if content is None and self.empty:
            return '<%s%s/>' % (tag, a)
        return '<%s%s>%s</%s>' % (tag, a, content or '', tag)

    def statement(self, s, ns):
        name, kind, v = s
        tag = self.prefix + ':' + name if self.prefix else name
        if kind == 'text':
            return self.elem(tag, (), self.txt(v) if v or not self.empty else None)
        if kind == 'ref':
            return self.elem(tag, [(self.rdfprefix + ':resource', '#' + v)])
        return self.elem(tag, [(self.rdfprefix + ':resource', v if '#' in v else '%s#%s' % (ns, v))])

    def node(self, n, ns):
        tag = self.prefix + ':' + n['cls'] if self.prefix else n['cls']
        a = [(self.rdfprefix + (':about' if n['about'] else ':ID'), ('#' if n['about'] else '') + n['id'])]
        if not n['st']:
            return self.elem(tag, a)
        nl, i = self.nl, self.indent
        body = ''.join(nl + i * 2 + self.comments + self.statement(s, ns) for s in n['st']) + nl + i
        return self.elem(tag, a, body)

    def doc(self, nodes, ns):
        nl, i = self.nl, self.indent
        p = 'xmlns:' + self.prefix if self.prefix else 'xmlns'
        head = '%s<%s:RDF%s%s>' % (self.decl, self.rdfprefix, self.attr('xmlns:' + self.rdfprefix, RDF), self.attr(p, ns + '#'))
        return head + ''.join(nl + i + self.comments + self.node(n, ns) for n in nodes) + nl + '</%s:RDF>' % self.rdfprefix + nl


PLAIN = Spelling()


def text(nodes, ns):
    return PLAIN.doc(nodes, ns)


def parse(data, ns):
    """Statements of a document, through a full tree (for the sample data)."""
    root = ET.fromstring(data)
    b = '{%s#}' % ns
    out = []
    for e in root:
        if not isinstance(e.tag, str) or not e.tag.startswith(b):
            continue
        i, ab = e.get('{%s}ID' % RDF), False
        if i is None:
            i = e.get('{%s}about' % RDF)
            if i is None:
                continue
            i, ab = i[1:], True
        st = []
        for p in e:
            if not isinstance(p.tag, str) or not p.tag.startswith(b):
                continue
            r = p.get('{%s}resource' % RDF)
            if r is None:
                st.append((p.tag[len(b):], 'text', p.text or ''))
            elif r.startswith('#'):
                st.append((p.tag[len(b):], 'ref', r[1:]))
            else:
                st.append((p.tag[len(b):], 'enum', r))
        out.append(node(e.tag[len(b):], i, st, ab))
    return out


def value(typ, s):
    if typ in ('str', 'enum'):
        return s
    if typ == 'int':
        return int(s)
    if typ == 'float':
        return float(s)
    return s.strip().lower() in ('true', '1')


class Expected:
    """The model that documents denote, read one after the other."""

    def __init__(self, feats, packageMap):
        self.f = feats
        self.map = packageMap
        self.cls = {}
        self.val = {}

    def copy(self):
        e = Expected(self.f, self.map)
        e.cls = dict(self.cls)
        e.val = {k: dict(v) for k, v in self.val.items()}
        return e

    def read(self, nodes):
        mine = []
        for n in nodes:
            if n['about'] and n['id'] in self.cls:
                continue
            q = '%s:%s' % (self.map.get(n['cls'], '?'), n['cls'])
            if n['cls'] not in self.map or q not in self.f.meta.classes:
                continue
            self.create(n['id'], q)
        for n in nodes:
            if n['id'] in self.cls:
                for s in n['st']:
                    self.state(n['id'], s)
        return self

    def create(self, i, q):
        self.cls[i] = q
        self.val[i] = {}
        for k, (kind, spec, _) in self.f.of(q).items():
            self.val[i][k] = spec['default'] if kind == 'attr' else [] if spec['many'] else None
        if 'UUID' in self.val[i]:
            self.val[i]['UUID'] = i

    def state(self, i, s):
        name, kind, v = s
        k = name.rsplit('.', 1)[-1]
        f = self.f.of(self.cls[i]).get(k)
        if f is None:
            return
        if kind == 'text':
            if f[0] == 'attr':
                self.val[i][k] = value(f[1]['type'], v)
        elif kind == 'enum':
            if f[0] == 'attr':
                self.val[i][k] = v.rsplit('.', 1)[1]
        elif v in self.cls and f[0] == 'ref':
            self.link(i, k, f[1], v)

    def link(self, i, k, spec, j):
        cur = self.val[i][k]
        if spec['many']:
            if j in cur and spec.get('opp'):
                return
            cur.append(j)
        else:
            if cur == j:
                return
            if cur is not None:
                raise ValueError('two values for %s.%s: the document is ambiguous' % (i, k))
            self.val[i][k] = j
            self.views(i, k, j)
            if k == 'PerLengthImpedance' and spec.get('view'):
                self.val[j]['LineSegments'].append(i)
        if spec.get('opp'):
            o = self.f.of(self.cls[j])[spec['opp']][1]
            w = self.val[j][spec['opp']]
            if o['many']:
                if i not in w:
                    w.append(i)
            elif w is None:
                self.val[j][spec['opp']] = i
                self.views(j, spec['opp'], i)
            elif w != i:
                raise ValueError('two values for %s.%s: the document is ambiguous' % (j, spec['opp']))

    def views(self, i, k, j):
        """The other views of the per-length impedance of a line segment."""
        fs = self.f.of(self.cls[i])
        if fs[k][1].get('view'):
            for other in ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance'):
                if other != k and (other == 'PerLengthImpedance' or self.cls[j] == fs[other][1]['target']):
                    self.val[i][other] = j

    def snapshot(self):
        out = {}
        for i in self.cls:
            out[i, ''] = self.cls[i]
            for k, (kind, spec, _) in self.f.of(self.cls[i]).items():
                v = self.val[i][k]
                out[i, k] = (type(v).__name__, repr(v)) if kind == 'attr' else tuple(sorted(v)) if spec['many'] else v
        return out


def snapshot(feats, d):
    """The same form for a model of the library: identifier -> object."""
    names = {id(o): i for i, o in d.items()}
    out = {}
    for i, o in d.items():
        q = '%s:%s' % (type(o).__module__.rpartition('.')[0], type(o).__name__)
        if q not in feats.meta.classes:
            q = '%s:%s' % (type(o).__module__, type(o).__name__)
        out[i, ''] = q
        for k, (kind, spec, _) in feats.of(q).items():
            v = getattr(o, k)
            if kind == 'attr':
                out[i, k] = (type(v).__name__, repr(v))
            elif spec['many']:
                out[i, k] = tuple(sorted(names.get(id(x), '?outside') for x in v))
            else:
                out[i, k] = None if v is None else names.get(id(v), '?outside')
    return out


def difference(got, want):
    """Message about the first differences, or None."""
    if got == want:
        return None
    out = []
    for k in sorted(set(got) | set(want), key=str):
        if got.get(k, '-') != want.get(k, '-'):
            if k[1] == '':
                out.append('object %s is %s, should be %s' % (k[0], got.get(k, 'missing'), want.get(k, 'absent')))
            elif k in got and k in want:
                out.append('%s.%s is %s, should be %s' % (k[0], k[1], got[k], want[k]))
    return '; '.join(out[:3]) or 'differ'


def read(data, *args, **kw):
    from PyCIM import cimread
    src = io.BytesIO(data) if isinstance(data, bytes) else io.BytesIO(data.encode('utf-8'))
    return cimread(src, *args, **kw)
