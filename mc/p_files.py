"""C26: files given by path are released, streams stay open, sources stay as they are."""
import gc
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile

import core
import rdf
import p_order
from feat import Features

meta = feats = None
scratch = None


def fds():
    """Open files of this process."""
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


class Bomb(Exception):
    pass


class World:
    """A directory with documents and the models to write."""

    def __init__(self, root):
        self.dir = tempfile.mkdtemp(prefix='w', dir=scratch)
        self.root = root
        _, nodes = p_order.mixed(0 if root == 'CIM14' else 1)
        self.text = rdf.text(nodes, rdf.NSURI[root])
        self.model = rdf.read(self.text)
        self.put('doc.xml', self.text)

    def path(self, n):
        return os.path.join(self.dir, n)

    def put(self, n, t):
        with open(self.path(n), 'wb') as f:
            f.write(t.encode('utf-8') if isinstance(t, str) else t)
        return self.path(n)

    def bytes(self, n):
        with open(self.path(n), 'rb') as f:
            return f.read()


def quietly(fn):
    """Name of the exception of fn, or None; the exception itself is dropped."""
    try:
        fn()
        return None
    except Exception as e:
        return type(e).__name__
    finally:
        try:
            del sys.last_value
        except AttributeError:
            pass


class Broken(dict):
    """A model in which the n-th object cannot be read."""


def broken_model(model, n):
    import copy
    d = dict(model)
    k = list(d)[n]

    class Trap(type(d[k])):
        def __getattribute__(self, a):
            if a == 'name':
                raise Bomb()
            return object.__getattribute__(self, a)
    t = Trap(UUID=k)
    Trap.__name__ = type(model[k]).__name__
    d[k] = t
    return d


def judge(res, what, fn, w, files=(), data=None, ok=True):
    """Runs fn; no file of the library may be open after it, and `files` must be as they were."""
    before, was = fds(), {f: w.bytes(f) for f in files}
    res.add('states')
    res.add('transitions')
    gc.disable()
    e = quietly(fn)
    after = fds()
    gc.enable()
    if e and after != before:   # what the traceback held may be collected first
        gc.collect()
        after = fds()
    left = {k: v for k, v in after.items() if before.get(k) != v}
    msg = None
    if left:
        msg = 'left open: %s' % sorted(left.values())[:3]
    elif set(before) - set(after):
        msg = 'closed files that it did not open: %s' % sorted(before[k] for k in set(before) - set(after))[:3]
    elif any(w.bytes(f) != was[f] for f in files):
        msg = 'changed its source'
    elif ok and e:
        msg = 'raised %s' % e
    if msg:
        res.violation('%s: %s' % (w.root, what.split(',')[0]), '%s, %s: %s' % (w.root, what, msg), data or {'what': what})
    else:
        res.add('traces')
        res.outcome('%s %s' % (what.split(',')[0], 'failed' if e else 'done'))
    return not msg


def u_read(root):
    from PyCIM import cimread
    from PyCIM.PrettyPrintXML import xmlpp
    res = core.Result()
    w = World(root)
    doc = w.path('doc.xml')
    keep = []
    for i in range(5):
        judge(res, 'read of a path', lambda: keep.append(cimread(doc)), w, ['doc.xml'])
    judge(res, 'pretty print of a path', lambda: keep.append(xmlpp(doc)), w, ['doc.xml'])
    for what, args in (('map only', ({'Breaker': 'x'}, None)), ('namespace only', (None, 'http://x')), ('map of nothing', ({'Breaker': 'no.such.module'}, rdf.NSURI[root]))):
        judge(res, 'read with arguments %s' % what, lambda: cimread(doc, *args), w, ['doc.xml'], ok=False)
    judge(res, 'read of nothing', lambda: cimread(w.path('none.xml')), w, ok=False)
    judge(res, 'read of a directory', lambda: cimread(w.dir), w, ok=False)
    b = w.bytes('doc.xml')
    for n in range(len(b)):
        w.put('cut.xml', b[:n])
        if not judge(res, 'read of a path, cut at %d' % n, lambda: cimread(w.path('cut.xml')), w, ['cut.xml'], ok=False):
            break
    for n in range(0, len(b), 7):
        w.put('cut.xml', b[:n] + b'<' + b[n:])
        if not judge(res, 'read of a path, broken at %d' % n, lambda: cimread(w.path('cut.xml')), w, ['cut.xml'], ok=False):
            break
    # streams of the caller: still open, usable, and at their end or rewound
    for n in list(range(0, len(b) + 1, 5)) + [len(b)]:
        w.put('cut.xml', b[:n])
        for kind in ('file', 'bytes', 'text file'):
            f = io.BytesIO(b[:n]) if kind == 'bytes' else open(w.path('cut.xml'), 'rb') if kind == 'file' else open(w.path('cut.xml'), encoding='utf-8')
            try:
                if not judge(res, 'read of a stream, %s of %d' % (kind, n), lambda: cimread(f), w, ['cut.xml'], ok=n == len(b)):
                    return res
                if f.closed:
                    res.violation('closed', '%s: reading closed the %s of the caller' % (root, kind), {'what': kind})
                    return res
                f.seek(0)
                r = f.read()
                if (r.encode('utf-8') if kind == 'text file' else r) != b[:n]:
                    res.violation('changed', '%s: reading changed the %s of the caller' % (root, kind), {'what': kind})
            finally:
                f.close()
    return res


def u_write(root):
    from PyCIM import cimread, cimwrite
    res = core.Result()
    w = World(root)
    out = w.path('out.xml')
    for enc in ('utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'):
        for old in (b'', b'x' * 50000):
            w.put('out.xml', old)

            def write():
                if cimwrite(w.model, out, enc) is not True:
                    raise Bomb()
                n = len(w.bytes('out.xml'))
                os.rename(out, w.path('moved.xml'))     # complete and released at once
                if n != len(w.bytes('moved.xml')):
                    raise Bomb()
            judge(res, 'write to a path, %s' % enc, write, w)
            if rdf.difference(rdf.snapshot(feats, cimread(w.path('moved.xml'))), rdf.snapshot(feats, w.model)):
                res.violation('incomplete', '%s: the file written is not complete' % root, {'what': enc})
    for n in range(len(w.model)):
        d = broken_model(w.model, n)
        if not judge(res, 'write to a path, object %d fails' % n, lambda: cimwrite(d, out), w, ok=False):
            break
    judge(res, 'write to no directory', lambda: cimwrite(w.model, w.path('no/out.xml')), w, ok=False)
    judge(res, 'write to a directory', lambda: cimwrite(w.model, w.dir), w, ok=False)
    judge(res, 'write in an unknown encoding', lambda: cimwrite(w.model, out, 'no-such-encoding'), w, ok=False)
    judge(res, 'write to /dev/full', lambda: cimwrite(w.model, '/dev/full'), w, ok=False) if os.path.exists('/dev/full') else None
    for n in [-1] + list(range(len(w.model))):
        d = broken_model(w.model, n) if n >= 0 else w.model
        for kind in ('file', 'string'):
            f = io.StringIO() if kind == 'string' else open(w.path('s.xml'), 'w', encoding='utf-8')
            try:
                if not judge(res, 'write to a stream, %s' % kind, lambda: cimwrite(d, f), w, ok=n < 0):
                    return res
                if f.closed:
                    res.violation('closed', '%s: writing closed the %s of the caller' % (root, kind), {'what': kind})
                    return res
                f.write('\n<!-- more -->')      # the stream is still the caller's
            finally:
                f.close()
    return res


def u_names(root):
    """Files of every kind of name, and paths of other types, in a directory of their own: nothing else appears in it."""
    import p_delivery
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    res = core.Result()
    w = World(root)
    d = os.path.join(w.dir, 'sub')
    os.mkdir(d)
    want = rdf.snapshot(feats, w.model)
    here = os.getcwd()
    os.chdir(d)
    try:
        for n in p_delivery.NAMES:
            n = n % (('sub',) if '%s/' in n else ())
            for how, p in (('relative', n), ('absolute', os.path.join(d, n)), ('path object', pathlib.Path(n)), ('absolute path object', pathlib.Path(d) / n)):
                def go():
                    if cimwrite(w.model, p) is not True:
                        raise Bomb('no success')
                    base = os.path.basename(n)
                    if os.listdir(d) != [base]:
                        raise Bomb('directory')
                    b = w.bytes(os.path.join('sub', base))
                    if rdf.difference(rdf.snapshot(feats, cimread(p)), want):
                        raise Bomb('model')
                    xmlpp(p)
                    if os.listdir(d) != [base] or w.bytes(os.path.join('sub', base)) != b:
                        raise Bomb('changed')
                judge(res, 'write and read, %s name %s' % (how, ascii(n)[:40]), go, w, ['doc.xml'])
                for x in os.listdir(d):
                    os.remove(os.path.join(d, x))
    finally:
        os.chdir(here)
    return res


def u_history(u):
    """Sequences of operations on one path: each sees what the one before left."""
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    root, first, depth = u
    res = core.Result()
    w = World(root)
    names = list(w.model)
    models = [w.model, {k: w.model[k] for k in names[:1]}, {}]
    ops = [('write', i) for i in range(3)] + [('read', 0), ('pretty', 0), ('fail', 0), ('bad read', 0), ('delete', 0)]
    for tail in itertools.product(ops, repeat=depth):
        seq = (ops[first],) + tail
        p = w.path('h.xml')
        if os.path.exists(p):
            os.remove(p)
        cur = None          # index of the model in the file; 'cut' after a failure
        before = fds()
        msg = None
        for op, i in seq:
            res.add('transitions')
            if op == 'write':
                if cimwrite(models[i], p) is not True:
                    msg = 'write did not succeed'
                cur = i
            elif op == 'fail':
                old = w.bytes('h.xml') if os.path.exists(p) else None
                e = quietly(lambda: cimwrite(broken_model(w.model, 2), p))
                if e != 'Bomb':
                    msg = 'the failing write gave %s' % e
                if (w.bytes('h.xml') if os.path.exists(p) else None) != old:
                    cur = 'cut' # it may as well leave the file as it was
            elif op == 'delete':
                if os.path.exists(p):
                    os.remove(p)
                cur = None
            elif op == 'bad read':
                w.put('b.xml', '<rdf:RDF')
                if quietly(lambda: cimread(w.path('b.xml'))) is None:
                    msg = 'a broken file was read'
            elif op == 'pretty':
                if cur in (0, 1, 2):
                    xmlpp(p)
            else:
                got = []
                e = quietly(lambda: got.append(cimread(p)))
                if cur in (0, 1, 2):
                    # links to objects outside the model written cannot come back
                    want = set(models[cur])
                    if e or set(got[0]) != want:
                        msg = 'read gave %s' % (e or sorted(got[0]))
                elif e is None:
                    msg = 'read %s gave a model' % ('of a file that is not there' if cur is None else 'after a failed write')
            if msg:
                break
        if msg is None and fds() != before:
            if any(op in ('fail', 'bad read', 'read') for op, _ in seq):
                gc.collect()
            if fds() != before:
                msg = 'files are left open: %s' % sorted(set(fds().values()) - set(before.values()))[:3]
        res.add('states')
        if msg:
            res.violation('%s history %s' % (root, seq[-1][0]), '%s, after %s: %s' % (root, seq, msg), {'seq': seq})
            break
        res.add('traces')
        res.outcome('history')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    scratch = tempfile.mkdtemp(prefix='verif-c26-')
    try:
        units = [(k, r) for k in ('read', 'write', 'names') for r in ('CIM14', 'CIM15')]
        depth = 4 if core.TIER == 'thorough' else 3
        units += [('history', (r, i, depth)) for r in (('CIM14', 'CIM15') if core.TIER == 'thorough' else ('CIM15',)) for i in range(8)]
        res = core.run_units(unit, units, chunk=1, horizon=1500)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (operation, source or destination, point of failure) or history of operations on one path; '
                          'transition = operation judged by the table of open files of the process, the file and the stream of the '
                          'caller; trace = one that left them as it should. Every cut of a document, a failure at every object, every '
                          'history of %d operations' % (depth + 1),
                     extra={'history_bound': depth + 1},
                     assumptions=['CPython releases objects by reference counting; files held only by an exception are released with it'])


def replay(prop, data):
    print(data)
