"""C21: every sequence of writer calls, against the tree the calls describe."""
import io
import itertools
import xml.etree.ElementTree as ET

import core

NL = '\n'
SHARED = {'k': 'v', 'l': '<"&\'> \n\t\r\xe9\u20ac'}

# name -> (arguments); the model below gives the meaning
OPS = {
    'start a': ('start', 'a', (), {}),
    'start b dict': ('start', 'b', ({'x': '1<&"\''},), {}),
    'start c keywords': ('start', 'c', (), {'y': '\n\t ', 'x': '2'}),
    'start d both': ('start', 'd', ({'x': '3', 'z': ''},), {'x': '4', 'y': '\xe9\u20ac'}),
    'start shared': ('start', 's', 'SHARED', {'m': 'w'}),
    'data': ('data', 'one'),
    'data markup': ('data', '<&>"\' ]]>\r\n \xe9\u20ac\U0001d11e'),
    'data empty': ('data', ''),
    'data space': ('data', ' \n'),
    'end': ('end', None),
    'end name': ('end', 'TOP'),
    'close last': ('close', -1),
    'close below': ('close', 1),
    'element': ('element', 'e', None, (), {}),
    'element text': ('element', 'f', 't <', (), {}),
    'element all': ('element', 'g', 'u', ({'x': '5'},), {'y': '6'}),
    'element shared': ('element', 'h', '', 'SHARED', {}),
    'comment': ('comment', ' note '),
    'flush': ('flush',),
    'bad end': ('bad', 'zz'),
}
ALL = list(OPS)
SMALL = ['start a', 'start c keywords', 'data', 'data markup', 'data empty', 'end', 'end name', 'close last', 'close below', 'element', 'element text', 'comment', 'flush', 'bad end']


SIZES = sorted(set(range(1, 34)) | {k + d for k in (64, 100, 128, 200, 256, 512, 1000, 1024, 2000, 2048, 4096) for d in (-1, 0, 1)})


class Model:
    """The tree: [tag, attributes, children]; text is a str child, a comment a 1-tuple."""

    def __init__(self):
        self.top = []
        self.open = []

    def put(self, x):
        kids = self.open[-1][2] if self.open else self.top
        if isinstance(x, str):
            if not x:
                return
            if kids and isinstance(kids[-1], str):
                kids[-1] += x
                return
        kids.append(x)

    def start(self, tag, attrs):
        e = [tag, attrs, []]
        self.put(e)
        self.open.append(e)

    def end(self):
        self.open.pop()


def norm(kids):
    """Text joined, the line end that follows a comment dropped."""
    out = []
    for k in kids:
        if isinstance(k, list):
            out.append((k[0], tuple(sorted(k[1].items())), norm(k[2])))
        elif isinstance(k, tuple):
            out.append(k)
        elif k:
            if out and isinstance(out[-1], str):
                out[-1] += k
            else:
                out.append(k)
    return tuple(out)


class Builder:
    """Independent parse into the same form."""

    def __init__(self):
        self.m = Model()
        self.after = False

    def start(self, tag, attrs):
        self.after = False
        self.m.start(tag, dict(attrs))

    def end(self, tag):
        self.after = False
        self.m.end()

    def data(self, s):
        if self.after and s[:1] == '\n':
            s = s[1:]
        self.after = False
        if self.m.open:
            self.m.put(s)

    def comment(self, s):
        self.m.put((s.strip(),))
        self.after = True

    def pi(self, target, text=None):
        pass

    def close(self):
        return self.m.top


def parsed(text):
    p = ET.XMLParser(target=Builder())
    p.feed(text)
    return norm(p.close())


def run_calls(*args, **kw):
    """Returns (text, expected) or raises what the writer raised."""
    g = steps(*args, **kw)
    while True:
        try:
            next(g)
        except StopIteration as e:
            return e.value


def steps(calls, enc, decl, pre=False, post=False, by_close=False):
    """The calls one by one."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    out = io.StringIO()
    w = XMLWriter(out, enc) if enc else XMLWriter(out)
    m = Model()
    ids = []
    shared = dict(SHARED)
    if decl:
        w.declaration()
    if pre:
        w.comment('before')
        m.put(('before',))
    root = w.start('r', {'v': '1'})
    m.start('r', {'v': '1'})
    ids.append(root)
    for c in calls:
        yield
        op = OPS[c]
        if op[0] == 'start':
            pos = (shared,) if op[2] == 'SHARED' else op[2]
            ids.append(w.start(op[1], *pos, **op[3]))
            m.start(op[1], dict(pos[0] if pos else {}, **op[3]))
        elif op[0] == 'data':
            w.data(op[1])
            m.put(op[1])
        elif op[0] == 'end':
            if len(m.open) == 1:
                return None         # would close the root
            ids.pop()
            tag = m.open[-1][0]
            w.end(tag) if op[1] else w.end()
            m.end()
        elif op[0] == 'close':
            if op[1] == 1 and len(m.open) < 3 or len(m.open) == 1:
                return None
            at = len(m.open) - 1 if op[1] == -1 else 1
            w.close(ids[at])
            while len(m.open) > at:
                m.end()
                ids.pop()
        elif op[0] == 'element':
            pos = (shared,) if op[3] == 'SHARED' else op[3]
            w.element(op[1], op[2], *pos, **op[4])
            m.start(op[1], dict(pos[0] if pos else {}, **op[4]))
            m.put(op[2] or '')
            m.end()
        elif op[0] == 'comment':
            w.comment(op[1])
            m.put((op[1].strip(),))
        elif op[0] == 'flush':
            w.flush()
        else:
            try:
                w.end(op[1])
            except AssertionError:
                continue
            raise RuntimeError('end under a wrong name was accepted')
    yield
    if by_close:
        w.close(root)
        m.open = []
    else:
        while m.open:
            w.end(m.open[-1][0])
            m.end()
    if post:
        w.comment('after')
        m.put(('after',))
    for args in ((), ('r',)):
        try:
            w.end(*args)
        except AssertionError:
            continue
        raise RuntimeError('end of what is not open was accepted')
    if shared != SHARED:
        raise RuntimeError('the dictionary given was changed')
    return out.getvalue(), norm(m.top)


def check(res, calls, enc='utf-8', **kw):
    kw.setdefault('decl', True)
    try:
        r = run_calls(calls, enc, **kw)
        if r is None:
            return False
        text, want = r
        got = parsed(text)
        msg = None if got == want else 'the document is %s, the calls describe %s' % (ascii(got), ascii(want))
        if not msg and enc in (None, 'us-ascii') and not text.isascii():
            msg = 'the text is not ASCII'
    except Exception as e:
        msg = 'raised %s' % core.exc_name(e)
    res.add('states')
    res.add('transitions', len(calls))
    if msg:
        res.violation('%s' % (calls[-1:],), 'calls %s (%s): %s' % (list(calls), enc, msg), {'calls': list(calls), 'enc': enc, 'kw': kw})
        return False
    res.add('traces')
    res.outcome('ends with %s' % (calls[-1:],))
    return True


def u_seq(u):
    prefix, n, ops, enc = u
    res = core.Result()
    for tail in itertools.product(ops, repeat=n):
        check(res, prefix + tail, enc)
        if len(res.violations) > 5:
            break
    return res


def u_short(n):
    res = core.Result()
    for enc in (None, 'us-ascii', 'utf-8', 'iso-8859-1', 'utf-16', 'cp1252'):
        for k in range(n + 1):
            for calls in itertools.product(ALL, repeat=k):
                for decl, pre, post, bc in itertools.product((0, 1), repeat=4):
                    check(res, calls, enc, decl=bool(decl), pre=bool(pre), post=bool(post), by_close=bool(bc))
                if len(res.violations) > 5:
                    return res
    return res


def u_deep(_):
    res = core.Result()
    for n in range(0, 120):
        for fill in ((), ('data',), ('element text', 'comment'), ('bad end', 'flush')):
            for how in (('end',), ('end name',), ('close last',)):
                calls = (('start b dict',) + fill) * n + (how + fill) * n
                check(res, calls)
            check(res, (('start shared',) + fill) * n, by_close=True)
            if n > 2:
                check(res, (('start a',) + fill) * n + ('close below',) + fill)
    return res


def u_size(n):
    """n siblings, attributes, pieces of text; text, names and values of length n."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    res = core.Result()
    for calls in (('element text',) * n, ('comment',) * n, ('data',) * n, ('start a', 'end') * n, ('data', 'element text') * n, ('flush', 'data') * n):
        for enc in ('utf-8', 'us-ascii'):
            check(res, calls, enc)
    for unit in ('a', '<', '&', '\r', 'é', '€', '\U0001f600', ' ', '\n', '"', "'", ']]>', '--a'):
        long = unit * n
        for enc in (None, 'utf-8', 'us-ascii', 'utf-16', 'iso-8859-1'):
            out = io.StringIO()
            res.add('states')
            res.add('transitions')
            msg = None
            try:
                w = XMLWriter(out, enc) if enc else XMLWriter(out)
                w.declaration()
                w.start('r', {'v': long, 'w': '1'})
                w.data('x')
                w.data(long)
                w.element('e', long, {'v': long})
                w.end()
                r = ET.fromstring(out.getvalue().encode(enc or 'us-ascii'))
                if (r.get('v'), r.text, r[0].text, r[0].get('v')) != (long, 'x' + long, long, long):
                    msg = 'the text read back differs'
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('length', '%d times %r in %s: %s' % (n, unit, enc, msg), {'calls': [], 'enc': enc, 'kw': {}})
                return res
            res.add('traces')
    out = io.StringIO()
    w = XMLWriter(out, 'utf-8')
    attrs = {'a%d' % i: str(i) for i in range(n)}
    name = 'n' * n
    w.start('r')
    w.element('e', '', attrs)
    w.start('f', attrs, **{'b%d' % i: str(-i) for i in range(n)})
    w.end('f')
    w.element(name, 'x', {name: 'y'})
    w.end('r')
    r = ET.fromstring(out.getvalue())
    res.add('states')
    res.add('transitions')
    if r[0].attrib != attrs or r[1].attrib != dict(attrs, **{'b%d' % i: str(-i) for i in range(n)}) or r[2].tag != name or r[2].get(name) != 'y':
        res.violation('attributes', '%d attributes, a name of length %d: not those given' % (n, n), {'calls': [], 'enc': 'utf-8', 'kw': {}})
    else:
        res.add('traces')
        res.outcome('size')
    return res


def merges(a, b):
    if not a or not b:
        yield (0,) * a + (1,) * b
        return
    for m in merges(a - 1, b):
        yield (0,) + m
    for m in merges(a, b - 1):
        yield (1,) + m


def u_two(u):
    """Two writers at a time, their calls interleaved in every way."""
    first, n = u
    res = core.Result()
    for rest in itertools.product(SMALL, repeat=2 * n - 1):
        A, B = (first,) + rest[:n - 1], rest[n - 1:]
        for m in merges(n + 3, n + 3) if n == 1 else merges(n + 1, n + 1):
            res.add('states')
            res.add('transitions', len(m))
            msg = None
            try:
                gs = [steps(A, 'utf-8', True), steps(B, 'us-ascii', True)]
                out = [False, False]
                if n > 1:
                    next(gs[0]), next(gs[1])
                for k in m + (0, 1) * (n + 3):
                    if out[k] is False:
                        try:
                            next(gs[k])
                        except StopIteration as e:
                            out[k] = e.value
                for o in out:
                    if o and parsed(o[0]) != o[1]:
                        msg = 'the document is %s, the calls describe %s' % (ascii(parsed(o[0])), ascii(o[1]))
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('two writers', 'calls %s to one and %s to another writer, interleaved %s: %s' % (A, B, m, msg), {'calls': list(A), 'enc': 'utf-8', 'kw': {}})
                return res
            res.add('traces')
    res.outcome('two writers')
    return res


def u_wrong(_):
    """Ends that match nothing, at every state of up to two open elements."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    res = core.Result()
    for k in range(3):
        for tags in itertools.product(('a', 'b', 'ab'), repeat=k):
            for between in ('', 'data', 'child', 'comment'):
                for bad in ('a', 'b', 'ab', 'A', 'a ', None):
                    if tags and bad in (tags[-1], None):
                        continue
                    out = io.StringIO()
                    w = XMLWriter(out, 'utf-8')
                    for t in tags:
                        w.start(t)
                    if k:
                        if between == 'data':
                            w.data('x')
                        elif between == 'child':
                            w.element('b', 'x')
                        elif between == 'comment':
                            w.comment('x')
                    res.add('states')
                    res.add('transitions')
                    try:
                        w.end() if bad is None else w.end(bad)
                        msg = 'was accepted'
                    except AssertionError:
                        msg = None
                    except Exception as e:
                        msg = 'raised %s' % core.exc_name(e)
                    if not msg and k:
                        for t in tags[::-1]:
                            w.end(t)
                        try:
                            e = ET.fromstring(out.getvalue())
                            if e.tag != tags[0]:
                                msg = 'spoilt the document'
                        except ET.ParseError as e:
                            msg = 'spoilt the document: %s' % e
                    if msg:
                        res.violation('wrong end', 'end(%s) with %s open: %s' % (bad, tags, msg), {'tags': tags, 'bad': bad})
                    else:
                        res.add('traces')
                        res.outcome('rejected')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    deep = core.TIER == 'thorough'
    units = [('short', 2), ('deep', 0), ('wrong', 0)]
    units += [('two', (c, k)) for c in SMALL for k in (1, 2)]
    units += [('size', n) for n in SIZES]
    units += [('seq', ((a, b), 2, ALL, e)) for a in ALL for b in ALL for e in ('utf-8', 'us-ascii')]
    units += [('seq', ((a, b), 5 if deep else 4, SMALL, 'utf-8')) for a in SMALL for b in SMALL]
    if deep:
        units += [('seq', ((a, b), 3, ALL, 'utf-8')) for a in ALL for b in ALL]
    res = core.run_units(unit, units, horizon=2000, chunk=1)
    return res, dict(level='model_checking',
                     rule='state = sequence of calls; transition = call; trace = sequence whose text, parsed independently, is the tree '
                          'the calls describe. All sequences of %d calls up to length %d and of %d calls up to length %d (those that '
                          'would close the root apart), every encoding, declaration, comments outside the root and way of closing up '
                          'to length 2, nesting up to 120, every wrong end; n siblings, attributes, pieces and characters of text for n up to 4097; the '
                          'calls of two writers (up to two each) interleaved in every way' % (len(ALL), 5 if deep else 4, len(SMALL), 7 if deep else 6),
                     assumptions=['the line end that the writer puts after a comment is not counted as text',
                                  'comments are ASCII without markup'])


def replay(prop, data):
    if 'calls' in data:
        print(run_calls(tuple(data['calls']), data['enc'], **data['kw'])[0])
    print(data)
