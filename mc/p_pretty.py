"""C23: pretty printing of all small trees, of every class, of the sample data."""
import glob
import io
import itertools
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import core
import rdf
import p_order
from feat import Features
from p_order import in_map, full_nodes, args_for, ns_for
from rdf import Spelling

meta = feats = None
scratch = None


def trees(n):
    """Shapes of ordered trees with n nodes, as nested tuples."""
    if n == 1:
        return [()]
    return [f for f in forests(n - 1)]


def forests(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for t in trees(k):
            for f in forests(n - k):
                out.append((t,) + f)
    return out


def size(t):
    return 1 + sum(size(c) for c in t)


NAMES = ['a', 'b', '{urn:x}c', 'd', '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}e', 'a', 'f']


def build(shape, opts, it):
    i = next(it)
    e = ET.Element(NAMES[i % len(NAMES)])
    text, tail = opts[i]
    if i % 2:
        e.set('k', 'v & "\n\t é')
        e.set('{urn:x}l', str(i))
        e.set('a', '')
    e.text, e.tail = text, tail
    for c in shape:
        e.append(build(c, opts, it))
    return e


def blank(s):
    return not s or not s.strip()


def judge(a, b, depth=0):
    """Message if b is not a pretty printed a (parsed trees)."""
    if a.tag != b.tag:
        return 'element %s is %s' % (a.tag, b.tag)
    if list(a.attrib.items()) != list(b.attrib.items()):
        return 'attributes %s of %s are %s' % (a.attrib, a.tag, b.attrib)
    if len(a) != len(b):
        return '%s has %d children instead of %d' % (a.tag, len(b), len(a))
    if not len(a):
        return None if (a.text or '') == (b.text or '') else 'text %r of %s is %r' % (a.text, a.tag, b.text)
    for i, (old, new) in enumerate([(a.text, b.text)] + [(x.tail, y.tail) for x, y in zip(a, b)]):
        if blank(old):
            want = '\n' + '  ' * (depth if i == len(a) else depth + 1)
            if new != want:
                return 'white space %d in %s at depth %d is %r' % (i, a.tag, depth, new)
        elif old != new:
            return 'text %r in %s is %r' % (old, a.tag, new)
    for x, y in zip(a, b):
        m = judge(x, y, depth + 1)
        if m:
            return m


def pretty(source):
    from PyCIM.PrettyPrintXML import xmlpp
    return xmlpp(source)


def check(res, data, what, source=None):
    """data: bytes of a document."""
    res.add('states')
    res.add('transitions', 2)
    out = None
    try:
        out = pretty(source if source is not None else io.BytesIO(data))
        msg = judge(ET.fromstring(data), ET.fromstring(out))
        if not msg:
            again = pretty(io.BytesIO(out if isinstance(out, bytes) else out.encode()))
            if again != out:
                msg = 'pretty printing again gives %r' % again[:300]
    except Exception as e:
        msg = 'raised %s' % core.exc_name(e)
    if msg:
        res.violation(what, '%s: %s\n%s\n%s' % (what, msg, ascii(data[:600]), ascii(out and out[:600])), {'data': data.decode('utf-8', 'replace')})
        return None
    res.add('traces')
    res.outcome(what)
    return out


FULL = [(t, u) for t in (None, ' ', '\n', 'x', ' x\n ') for u in (None, '\n  ', 'y', ' y ')]
SOME = [(None, None), ('x', None), (' ', 'y'), (None, '\n '), ('\n', ' ')]
FEW = [(None, None), (' ', '\n'), ('x', 'y'), ('x', None)]


def u_trees(u):
    n, k, opts = u
    opts = globals()[opts]
    res = core.Result()
    shape = trees(n)[k]
    for combo in itertools.product(opts, repeat=n):
        root = build(shape, combo, iter(range(n)))
        root.tail = None
        check(res, ET.tostring(root), 'trees of %d elements' % n)
        if len(res.violations) > 3:
            break
    return res


def u_deep(_):
    res = core.Result()
    for n in list(range(1, 60)) + [150]:
        for text in ('', 'x'):
            for leaf in ('', ' ', 'x', '<z/>', '<z/><z/>'):
                check(res, ('<a>' * n + leaf + ('</a>' + text) * (n - 1) + '</a>').encode(), 'nesting')
        for inner in ('<b/>', '<b>x</b>', '<b><c/></b>', ' <b> </b> '):
            check(res, ('<a>' + inner * n + '</a>').encode(), 'width')
    return res


def u_size(n):
    """n children, characters, attributes, levels of white space."""
    res = core.Result()
    for inner in ('<b/>', '<b>x</b>', '<b><c/></b>', ' <b> </b> ', '<b a="1"/>\n', '<b/><c>t</c>'):
        check(res, ('<a>' + inner * n + '</a>').encode(), 'width')
        check(res, ('<a><d>' + inner * n + '</d><e/></a>').encode(), 'width below')
    for c in ('x', ' ', '\n', 'é', 'x ', ' x', '&lt;', '\t', '&#13;', '\u00a0', '\U0001f600'):
        check(res, ('<a>%s</a>' % (c * n)).encode('utf-8'), 'length of text')
        check(res, ('<a><b>%s</b><c v="%s"/></a>' % (c * n, c * n)).encode('utf-8'), 'length of text')
        check(res, ('<a>%s<b/><c>x</c>%s</a>' % (c * n, c * n)).encode('utf-8'), 'length of text between')
    check(res, ('<a%s><b/></a>' % ''.join(' a%d="%d"' % (i, i) for i in range(n))).encode(), 'attributes')
    check(res, ('<%s><%s/></%s>' % (('n' * n,) * 3)).encode(), 'length of a name')
    if n <= 257:
        for leaf in ('', 'x', '<z/><z/>'):
            check(res, ('<a>' * n + leaf + '</a>' * n).encode(), 'nesting')
    return res


SIZES = sorted(set(range(1, 66)) | {k + d for k in (100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096) for d in (-1, 0, 1)})


def same_model(res, data, root, what, want=None):
    out = check(res, data, what)
    if out is None:
        return
    try:
        want = want or rdf.snapshot(feats, rdf.read(data, *args_for(root)))
        msg = rdf.difference(rdf.snapshot(feats, rdf.read(out, *args_for(root))), want)
    except Exception as e:
        msg = 'raised %s' % core.exc_name(e)
    if msg:
        res.violation(what, '%s: the model of the result: %s' % (what, ascii(msg)), {'data': data.decode('utf-8', 'replace')})


def u_class(q):
    from PyCIM import cimwrite
    res = core.Result()
    if not in_map(q):
        return res
    root = meta.root[q]
    for pick in (0, 1):
        o, ps = full_nodes(q, pick)
        o = dict(o, st=[(a, b, '\n  x é ' if b == 'text' and feats.of(q)[a.rsplit('.', 1)[1]][1].get('type') == 'str' else c) for a, b, c in o['st']])
        want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read([o] + ps).snapshot()
        for sp in (rdf.PLAIN, Spelling(nl='', indent='')):
            same_model(res, sp.doc([o] + ps, ns_for(root)).encode(), root, 'documents of every class', want)
    for blanks in ('', ' ', '\n', '\n    ', '\t'):
        o = dict(o, st=[(a, b, blanks) for a, b, c in o['st'] if b == 'text' and feats.of(q)[a.rsplit('.', 1)[1]][1].get('type') == 'str'])
        want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read([o]).snapshot()
        same_model(res, rdf.text([o], ns_for(root)).encode(), root, 'blank values', want)
    return res


def u_sources(_):
    """Kinds of source and encodings."""
    res = core.Result()
    for enc in ('utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig'):
        for ws in ('', '\n ', '\r\n\t'):
            body = '<r>%s<a k="é&amp;&#10;">é &lt; </a>%s<!-- c --><b/>%s<?p i?></r>\n' % (ws, ws, ws)
            data = ("<?xml version='1.0' encoding='%s'?>%s" % (enc.replace('-sig', ''), body)).encode(enc, 'xmlcharrefreplace')
            p = os.path.join(scratch, 'p é.xml')
            with open(p, 'wb') as f:
                f.write(data)
            outs = [check(res, data, 'sources', p)]
            with open(p, 'rb') as f:
                outs.append(check(res, data, 'sources', f))
            outs.append(check(res, data, 'sources'))
            outs.append(check(res, data, 'sources', io.StringIO(body.replace('\r\n', '\n'))))
            if len(set(outs)) != 1:
                res.violation('sources', 'results differ between sources: %s' % ascii(outs), {'data': body})
            with open(p, 'rb') as f:
                if f.read() != data:
                    res.violation('sources', 'the source was changed', {'data': body})
    return res


def u_file(path):
    res = core.Result()
    with open(path, 'rb') as f:
        data = f.read()
    same_model(res, data, 'CIM15', 'sample data')
    check(res, data, 'sample data', path)
    from PyCIM import cimread, cimwrite
    d = cimread(path)
    s = io.StringIO()
    cimwrite(d, s)
    same_model(res, s.getvalue().encode(), 'CIM15', 'written sample data', rdf.snapshot(feats, d))
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    deep = core.TIER == 'thorough'
    scratch = tempfile.mkdtemp(prefix='verif-c23-')
    try:
        units = [('file', p) for p in sorted(glob.glob(os.path.join(core.REPO, 'PyCIM', 'Test', 'Data', '*.xml')))]
        units += [('deep', 0), ('sources', 0)]
        for n, o in ((1, 'FULL'), (2, 'FULL'), (3, 'FULL'), (4, 'SOME'), (5, 'FEW')) + ((((6, 'FEW')),) if deep else ()):
            units += [('trees', (n, k, o)) for k in range(len(trees(n)))]
        if deep:
            units += [('trees', (5, k, 'SOME')) for k in range(len(trees(5)))]
        units += [('size', n) for n in SIZES]
        units += [('class', q) for q in sorted(meta.classes)]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = document; transitions = pretty printing it and printing the result; trace = same elements, attributes '
                          'and text, indentation by depth, nothing changed the second time (and the same model). All ordered trees of up '
                          'to %d elements with every choice of text and tail (20 choices per element up to 3 elements), nesting up to '
                          '256; n children, attributes and characters of text and white space for n up to 4097; documents of every class, the sample data' % (6 if deep else 5),
                     assumptions=['comments and processing instructions are not kept and not judged'])


def replay(prop, data):
    print(data['data'])
    print(pretty(io.BytesIO(data['data'].encode())))
