"""C17: every prefix of documents, every pass cut short, a fault at every read."""
import io
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import core
import rdf
from feat import Features
from rdf import Spelling
from p_delivery import Pieces, doc, small
import p_delivery

meta = feats = None
scratch = None

SPELLINGS = {
    'plain': (dict(), 'utf-8'),
    'one line': (dict(nl='', indent='', decl=''), 'utf-8'),
    'cdata, comments': (dict(text='cdata', comments='<!-- <cim:Breaker rdf:ID="no"/> -->'), 'utf-8'),
    'character references': (dict(text='hexref', decl=''), 'us-ascii'),
    'byte order mark': (dict(empty=False), 'utf-8-sig'),
    'utf-16': (dict(decl="<?xml version='1.0' encoding='utf-16'?>", nl=''), 'utf-16'),
    'no prefix': (dict(prefix='', q="'", text='mixed'), 'utf-8'),
}
TAIL = {'plain': '', 'one line': '<!-- end -->\n<?pi end?>', 'no prefix': '\n\n'}


def complete(data):
    try:
        ET.fromstring(data)
        return True
    except (ET.ParseError, UnicodeError):
        return False


class Err(Exception):
    pass


FAULTS = [OSError(5, 'fault'), ValueError('fault'), KeyError('fault'), TypeError('fault'), EOFError('fault'),
          AttributeError('fault'), Err('fault'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'fault'), KeyboardInterrupt('fault')]


class Pass(Pieces):
    """A stream whose p-th pass ends at n; notes whether that end was seen."""

    def __init__(self, data, p, n, chunk):
        self.full, self.p, self.n, self.count, self.seen = data, p, n, -1, False
        Pieces.__init__(self, [data], chunk)

    def seek(self, pos, whence=0):
        self.count += 1
        self.pieces = [self.full[:self.n] if self.count == self.p else self.full]
        return Pieces.seek(self, pos)

    def read(self, n=-1):
        r = Pieces.read(self, n)
        if not r and self.count == self.p:
            self.seen = True
        return r


class Failing(Pieces):
    """A stream whose k-th read fails (and those after it, if broken)."""

    def __init__(self, data, chunk, k, fault, broken):
        self.k, self.fault, self.broken, self.fired = k, fault, broken, False
        Pieces.__init__(self, [data], chunk)

    def read(self, n=-1):
        if self.reads == self.k or self.broken and self.reads > self.k:
            self.reads += 1
            self.fired = True
            raise self.fault
        return Pieces.read(self, n)


class Case:
    def __init__(self, root, nodes, res):
        self.root, self.nodes, self.res = root, nodes, res
        self.want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(nodes).snapshot()
        self.bad = 0

    def fail(self, key, what):
        self.bad += 1
        if self.bad < 4:
            self.res.violation(key, '%s, %s: %s' % (self.root, key, what), {'root': self.root, 'what': what})

    def same(self, d):
        return rdf.difference(rdf.snapshot(feats, d), self.want)

    def whole(self, key, what, source):
        from PyCIM import cimread
        try:
            msg = self.same(cimread(source))
        except Exception as e:
            msg = 'raised %s' % core.exc_name(e)
        if msg:
            self.fail(key, '%s: the complete document read afterwards: %s' % (what, msg))

    def rejected(self, key, what, source, **kw):
        from PyCIM import cimread
        self.res.add('states')
        self.res.add('transitions')
        try:
            d = cimread(source, **kw)
        except Exception:
            self.res.add('traces')
            self.res.outcome(key)
            return
        self.fail(key, '%s: returned a model of %d objects' % (what, len(d)))


def u_prefix(u):
    root, name, part, of = u
    res = core.Result()
    c = Case(root, small() if core.TIER != 'thorough' else doc(root), res)
    o, enc = SPELLINGS[name]
    t = Spelling(**o).doc(c.nodes, rdf.NSURI[root]) + TAIL.get(name, '')
    data = t.encode(enc, 'xmlcharrefreplace')
    path = os.path.join(scratch, '%s-%s-%d.xml' % (root, name.replace(' ', '_').replace(',', ''), part))
    if complete(data[:0]) or not complete(data):
        raise RuntimeError('document')
    for n in range(part, len(data), of):
        p = data[:n]
        what = 'cut at byte %d of %d (%s)' % (n, len(data), name)
        if complete(p):
            c.whole('whole prefix', what, io.BytesIO(p))
            res.outcome('only the tail is cut')
            continue
        c.rejected('binary stream cut', what, io.BytesIO(p))
        c.rejected('small reads, cut', what, Pieces([p], 3))
        with open(path, 'wb') as f:
            f.write(p)
        c.rejected('file cut', what, path)
        with open(path, 'rb') as f:
            c.rejected('open file cut', what, f)
        if n % 7 == 0:
            c.rejected('cut, with a start model', what, io.BytesIO(p), start_dict={})
        c.whole('after a cut', what, io.BytesIO(data))
        with open(path, 'wb') as f:
            f.write(data)
        c.whole('after a cut', what + ' (same path)', path)
    s = data.decode(enc).lstrip('\ufeff') if enc.startswith('utf') else t
    for n in range(part, len(s), of):
        if not complete(s[:n] if 'encoding=' not in s[:60] else s[:n].replace('utf-16', 'utf-8', 1).encode()):
            c.rejected('text stream cut', 'cut at character %d (%s)' % (n, name), io.StringIO(s[:n]))
            c.rejected('text stream cut, small reads', 'cut at character %d (%s)' % (n, name), Pieces([s[:n]], 5))
    return res


def u_pass(u):
    """One pass of several ends early."""
    root, part, of = u
    res = core.Result()
    c = Case(root, small(), res)
    data = Spelling(nl='', indent='').doc(c.nodes, rdf.NSURI[root]).encode()
    from PyCIM import cimread
    for p in range(0, 4):
        for n in range(part, len(data), of):
            for chunk in (None, 64, 1):
                s = Pass(data, p, n, chunk)
                res.add('states')
                res.add('transitions')
                what = 'pass %d cut at byte %d of %d' % (p + 1, n, len(data))
                try:
                    d = cimread(s)
                    msg = 'returned a model though the end came early' if s.seen else c.same(d)
                except Exception:
                    msg = None if s.count >= p else 'raised though nothing was cut'
                if msg:
                    c.fail('one pass cut', '%s: %s' % (what, msg))
                else:
                    res.add('traces')
                    res.outcome('pass %d cut' % (p + 1) if s.seen else 'cut not reached')
                if n % 5 == 0:
                    c.whole('after a cut pass', what, io.BytesIO(data))
    return res




def u_fault(u):
    """A fault at every read, for every read size of the stream and every kind of fault."""
    root, chunk, broken = u
    res = core.Result()
    c = Case(root, small(), res)
    text = Spelling(nl='', indent='').doc(c.nodes, rdf.NSURI[root])
    from PyCIM import cimread
    for data in (text.encode(), text):
        s = Pieces([data], chunk)
        if c.same(cimread(s)):
            raise RuntimeError('no fault')
        total = s.reads
        for k in range(total):
            for fault in FAULTS if chunk and chunk > 8 or not chunk or k % 9 == 0 else FAULTS[:1]:
                s = Failing(data, chunk, k, fault, broken)
                res.add('states')
                res.add('transitions')
                what = '%s at read %d of %d (read size %s%s)' % (type(fault).__name__, k + 1, total, chunk, ', all after it' if broken else '')
                try:
                    d = cimread(s)
                    msg = 'returned a model of %d objects' % len(d) if s.fired else c.same(d)
                except BaseException as e:
                    msg = None
                    if not s.fired or e is not fault and fault not in (e.__cause__, e.__context__):
                        msg = 'raised %s, not the error of the source' % core.exc_name(e)
                    elif not isinstance(e, type(fault)):
                        msg = 'raised %s instead of the error of the source' % core.exc_name(e)
                if msg:
                    c.fail('fault at a read', '%s: %s' % (what, msg))
                else:
                    res.add('traces')
                    res.outcome('%s reported' % type(fault).__name__ if s.fired else 'read not reached')
            c.whole('after a fault', what, io.BytesIO(text.encode()))
    return res


def u_large(u):
    """Documents of several blocks: cut, and failing, around every block boundary and the end."""
    root, kind = u
    res = core.Result()
    c = Case(root, doc(root), res)
    fill = '<!--%s-->' % ('x' * 1000)
    t = Spelling().doc(c.nodes, rdf.NSURI[root])
    head, tail = t[:t.index('<cim:Breaker')], t[t.index('<cim:Breaker'):]
    data = (head + fill * 160 + tail).encode()
    if not complete(data):
        raise RuntimeError('document')
    from PyCIM import cimread
    if kind == 'cut':
        cuts = set(range(len(data) - 250, len(data) - 1)) | set(range(0, len(data), 4099))
        for b in range(0, len(data), 16384):
            cuts |= set(range(max(0, b - 2), b + 3))
        for n in sorted(cuts):
            if n < len(data) and not complete(data[:n]):
                c.rejected('large document cut', 'at byte %d of %d' % (n, len(data)), io.BytesIO(data[:n]))
        c.whole('after a cut', 'large', io.BytesIO(data))
    else:
        s = Pieces([data])
        if c.same(cimread(s)):
            raise RuntimeError('no fault')
        for k in range(s.reads):
            for fault in FAULTS:
                for broken in (False, True):
                    f = Failing(data, None, k, fault, broken)
                    res.add('states')
                    res.add('transitions')
                    try:
                        d = cimread(f)
                        msg = 'returned a model' if f.fired else c.same(d)
                    except BaseException as e:
                        msg = None if isinstance(e, type(fault)) and f.fired else 'raised %s' % core.exc_name(e)
                    if msg:
                        c.fail('fault at a read', 'large document, read %d: %s' % (k + 1, msg))
                    else:
                        res.add('traces')
                        res.outcome('%s reported' % type(fault).__name__)
            c.whole('after a fault', 'large', io.BytesIO(data))
    return res


def u_none(_):
    """No document at all."""
    res = core.Result()
    c = Case('CIM15', small(), res)
    c.rejected('missing file', 'a path that does not exist', os.path.join(scratch, 'nothing.xml'))
    c.rejected('directory', 'a directory', scratch)
    for what, b in (('empty', b''), ('white space', b' \n'), ('declaration only', b'<?xml version="1.0"?>'), ('text', b'no document'),
                    ('comment only', b'<!-- x -->'), ('zero bytes', b'\0' * 20)):
        c.rejected('no document', what, io.BytesIO(b))
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_delivery.meta, p_delivery.feats = meta, feats
    scratch = tempfile.mkdtemp(prefix='verif-c17-')
    try:
        units = [('none', 0)]
        for root in ('CIM14', 'CIM15'):
            units += [('large', (root, k)) for k in ('cut', 'fault')]
            units += [('fault', (root, c, b)) for c in (1, 2, 3, 5, 16, 50, 200, 700, None) for b in (False, True)]
            units += [('pass', (root, p, 4)) for p in range(4)]
            units += [('prefix', (root, s, p, 4)) for s in SPELLINGS for p in range(4)]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (document, point at which a pass over the source ends or fails, kind of source and fault); transition '
                          '= read that must be rejected (with the error of the source, if it raised one); trace = one that was. All byte '
                          'and character prefixes of the small documents in every spelling, all cuts of each single pass, a fault at '
                          'every read for every read size; the complete document is read after them',
                     assumptions=['cuts that leave a complete document (only the tail is missing) are not truncations'])


def replay(prop, data):
    print(data)
