"""C24: a fault at every write and flush of the output; files that fill up at every size."""
import gc
import io
import os
import resource
import shutil
import signal
import tempfile

import core
import rdf
import p_order
import p_write
import p_roundtrip
from feat import Features
from p_order import in_map, full_nodes

meta = feats = None
scratch = None


class Err(Exception):
    pass


FAULTS = [OSError(28, 'fault'), ValueError('fault'), KeyError('fault'), TypeError('fault'), AttributeError('fault'), AssertionError('fault'),
          UnicodeEncodeError('ascii', 'x', 0, 1, 'fault'), UnicodeDecodeError('ascii', b'x', 0, 1, 'fault'), Err('fault'), KeyboardInterrupt('fault')]


class Out:
    """Counts the calls; the k-th fails (and those after it, if broken)."""

    def __init__(self, k=-1, fault=None, broken=False, partial=False):
        self.k, self.fault, self.broken, self.partial = k, fault, broken, partial
        self.n, self.text, self.fired = 0, [], False

    def call(self, s):
        k = self.n
        self.n += 1
        if k == self.k or self.broken and self.k >= 0 and k > self.k:
            if self.partial and s:
                self.text.append(s[:len(s) // 2])
            self.fired = True
            raise self.fault
        if s is not None:
            self.text.append(s)
            return len(s)

    def write(self, s):
        return self.call(s)

    def flush(self):
        self.call(None)



def models():
    M = p_write.models()
    M.pop('empty')
    from CIM15.IEC61970.Core import Substation, VoltageLevel, Terminal
    from CIM15.IEC61970.Wires import Breaker
    s = Substation(name='no')
    M['no identifier'] = {'a': s, 'b': VoltageLevel(Substation=s, name='identifier'), 'c': Breaker(name='x', retained=True)}
    M['other keys'] = {'n%d' % i: o for i, o in enumerate(M['CIM15'].values())}
    M['unset'] = {'t': Terminal(UUID='t', name=None, phases=None, connected=None, sequenceNumber=None), 'k': Breaker(UUID='k', ratedCurrent=None)}
    return M


def judge_fault(res, d, k, fault, out, key, encoding, before, text):
    from PyCIM import cimwrite
    res.add('states')
    res.add('transitions', 2)
    msg = None
    try:
        r = cimwrite(d, out, *encoding)
        if out.fired:
            msg = 'returned %r' % (r,)
        elif ''.join(out.text) != text:
            msg = 'another text'
    except BaseException as e:
        if not out.fired:
            msg = 'raised %s without a fault' % core.exc_name(e)
        elif e is not fault and not isinstance(e, type(fault)):
            msg = 'raised %s instead of the error of the output' % core.exc_name(e)
    if not msg and p_write.state(d) != before:
        msg = 'the model was changed'
    if not msg:
        o = io.StringIO()
        try:
            r = cimwrite(d, o, *encoding)
            if r is not True or o.getvalue() != text:
                msg = 'writing it again gives %s' % ('an incomplete document' if r is True else repr(r))
        except Exception as e:
            msg = 'writing it again raised %s' % core.exc_name(e)
    if msg:
        res.violation('%s' % key, '%s, fault %s at call %d of the output: %s' % (key, type(fault).__name__, k + 1, msg), {'key': key, 'k': k, 'fault': type(fault).__name__})
        return False
    res.add('traces')
    res.outcome('%s reported' % type(fault).__name__ if out.fired else 'no fault')
    return True


def every(res, d, key, faults, encoding=()):
    from PyCIM import cimwrite
    o = io.StringIO()
    cimwrite(d, o, *encoding)
    text = o.getvalue()
    before = p_write.state(d)
    plain = Out()
    cimwrite(d, plain, *encoding)
    for k in range(plain.n + 1):
        for fault in faults:
            for broken, partial in ((False, False), (True, False), (False, True)):
                if not judge_fault(res, d, k, fault, Out(k, fault, broken, partial), key, encoding, before, text):
                    return


def u_model(u):
    k, enc = u
    res = core.Result()
    d = models()[k]
    every(res, d, 'model %s' % k, FAULTS, (enc,) if enc else ())
    return res


def u_class(q):
    res = core.Result()
    if not in_map(q):
        return res
    o, ps = full_nodes(q, 0, 1)
    root = meta.root[q]
    d = rdf.read(rdf.text([o] + ps, p_order.ns_for(root)), *p_order.args_for(root))
    d = {'o': d['o']}
    every(res, d, q, FAULTS[:1] if core.TIER != 'thorough' else FAULTS)
    return res


def u_limit(u):
    """A file that cannot grow beyond n bytes, for every n."""
    from PyCIM import cimwrite
    k, part, of = u
    res = core.Result()
    d = models()[k]
    p = os.path.join(scratch, 'l-%s-%d.xml' % (k.replace(' ', ''), part))
    cimwrite(d, p)
    with open(p, 'rb') as f:
        want = f.read()
    before = p_write.state(d)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    held = []
    try:
        for n in range(part, len(want) + 40, of):
            for hold in (False, True):
                for old_content in (b'', b'<old/>' * 1000):
                    with open(p, 'wb') as f:
                        f.write(old_content)
                    res.add('states')
                    res.add('transitions', 2)
                    msg = None
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                    try:
                        r = cimwrite(d, p)
                        ok = True
                    except OSError as e:
                        ok = False
                        if hold:
                            held.append(e)      # a caller that keeps the error
                    except Exception as e:
                        ok = False
                        msg = 'raised %s' % core.exc_name(e)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                    with open(p, 'rb') as f:
                        got = f.read()
                    if ok and (r is not True or got != want):
                        msg = 'returned %r with %d of %d bytes written' % (r, len(got), len(want))
                    if not ok and n >= len(want) and not msg:
                        msg = 'failed though there was room'
                    if not msg and p_write.state(d) != before:
                        msg = 'the model was changed'
                    if not msg:
                        cimwrite(d, p)
                        del held[:]
                        gc.collect()
                        with open(p, 'rb') as f:
                            got = f.read()
                        if got != want:
                            msg = 'writing it again gives %d bytes instead of %d%s' % (len(got), len(want), ' (the error of the first attempt was kept meanwhile)' if hold else '')
                    if msg:
                        res.violation('file limit %s' % k, 'model %s, file limited to %d bytes: %s' % (k, n, msg), {'n': n})
                        return res
                    res.add('traces')
                    res.outcome('file limit: written' if ok else 'file limit: reported')
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)
    return res


def u_paths(_):
    """Outputs that cannot be opened or are not for writing."""
    from PyCIM import cimwrite
    res = core.Result()
    ro = os.path.join(scratch, 'ro.xml')
    open(ro, 'w').close()
    closed = open(os.path.join(scratch, 'c.xml'), 'w')
    closed.close()
    reading = open(ro, 'r')
    for k, d in models().items():
        before = p_write.state(d)
        for what, out in (('missing directory', os.path.join(scratch, 'no', 'x.xml')), ('directory', scratch), ('closed file', closed), ('file for reading', reading),
                          ('NUL in the path', os.path.join(scratch, 'a\0b')), ('empty path', '')):
            res.add('states')
            res.add('transitions')
            try:
                msg = 'returned %r' % cimwrite(d, out)
            except Exception:
                msg = None
            if not msg and p_write.state(d) != before:
                msg = 'the model was changed'
            if msg:
                res.violation('paths', 'model %s to %s: %s' % (k, what, msg), {'what': what})
            else:
                res.add('traces')
                res.outcome(what)
        for enc in ('no such encoding',):
            res.add('states')
            try:
                msg = 'returned %r' % cimwrite(d, io.StringIO(), enc)
            except Exception:
                msg = None
            if msg:
                res.violation('encoding', 'model %s as %s: %s' % (k, enc, msg), {'what': enc})
    reading.close()
    return res


def u_writer(_):
    """The XML writer on its own: every fault in a sequence of all calls."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    res = core.Result()

    def calls(w, done):
        w.declaration(); done.append('declaration')
        a = w.start('a', {'x': '1'}, y='2'); done.append('start')
        w.data('text'); done.append('data')
        w.comment('c'); done.append('comment')
        w.element('b', 'x', {'k': 'v'}); done.append('element')
        w.element('c'); done.append('element')
        w.start('d'); done.append('start')
        w.data('more'); done.append('data')
        w.start('e'); done.append('start')
        w.close(a); done.append('close')
        w.flush(); done.append('flush')
    o = Out()
    calls(XMLWriter(o, 'utf-8'), [])
    for k in range(o.n):
        for fault in FAULTS:
            for broken in (False, True):
                f = Out(k, fault, broken)
                res.add('states')
                res.add('transitions')
                try:
                    calls(XMLWriter(f, 'utf-8'), [])
                    msg = 'no call reported it'
                except BaseException as e:
                    msg = None if isinstance(e, type(fault)) else 'raised %s' % core.exc_name(e)
                if msg:
                    res.violation('writer', 'writer, fault %s at call %d of the output: %s' % (type(fault).__name__, k + 1, msg), {'k': k})
                else:
                    res.add('traces')
                    res.outcome('writer: reported')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    for m in (p_order, p_write, p_roundtrip):
        m.meta, m.feats = meta, feats
    scratch = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        names = ('CIM14', 'CIM15', 'other', 'outside', 'odd strings', 'no identifier', 'other keys', 'unset')
        units = [('model', (k, e)) for k in names for e in (None, 'us-ascii', 'iso-8859-1')]
        units += [('limit', (k, i, 4)) for k in names for i in range(4)] + [('paths', 0), ('writer', 0)]
        units += [('class', q) for q in sorted(meta.classes)]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (model, point of failure: call of the output or size at which the file is full, kind of error, '
                          'transient or lasting, nothing or half of the piece written); transitions = failing write and the write '
                          'repeated to a working output; trace = failure reported, model unchanged, second document complete. Every '
                          'call and every file size for the models, every call for an object of every class')


def replay(prop, data):
    print(data)
