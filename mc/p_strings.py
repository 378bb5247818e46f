"""C19: strings as values and identifiers, written and read back."""
import io
import itertools
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import core
import rdf
import p_order
import p_roundtrip
from feat import Features
from p_order import in_map
from p_roundtrip import read_args

meta = feats = None
scratch = None
TOKENS = ['&', '<', '>', '"', "'", ' ', '\n', '\r', '\t', ']]>', '&amp;', '&#10;', '&lt', ';', 'a', '0', 'é', '€', '\U0001d11e', '\ufeff',
          '\x85', '\u2028', '\xa0', '<!--', '-->', '<?', '?>', '#', '.', '%s', '{', '\\', '=', '/', 'None']
NASTY = '\r\n &amp;<"\'>\t]]>é€\U0001d11e&#x41; '
OUTS = [('stream', 'utf-8'), ('stream', 'us-ascii'), ('file', 'utf-8'), ('file', 'us-ascii'), ('file', 'iso-8859-1'), ('stream', None), ('file', None)]


def write(d, out):
    from PyCIM import cimwrite
    kind, enc = out
    args = (enc,) if enc else ()
    if kind == 'stream':
        s = io.StringIO()
        cimwrite(d, s, *args)
        return s.getvalue(), s.getvalue()
    p = os.path.join(scratch, 'w%d.xml' % os.getpid())
    cimwrite(d, p, *args)
    with open(p, 'rb') as f:
        return p, f.read()


def check(res, d, out, key, want=None):
    from PyCIM import cimread
    res.add('states')
    res.add('transitions', 2)
    want = want or rdf.snapshot(feats, d)
    try:
        src, data = write(d, out)
        ET.fromstring(data)
        r = cimread(src) if out[0] == 'file' else rdf.read(src)
        msg = rdf.difference(rdf.snapshot(feats, r), want)
    except Exception as e:
        msg = 'raised %s' % core.exc_name(e)
    if msg:
        res.violation('%s to %s as %s' % ((key,) + out), '%s, %s as %s: %s' % ((key,) + out + (ascii(msg),)), {'key': key, 'out': out})
        return False
    res.add('traces')
    res.outcome('%s %s' % out)
    return True


def model(strings, ident):
    """One object per string; every object refers to one of them."""
    from CIM15.IEC61970.Core import Substation
    from CIM15.IEC61970.Core import VoltageLevel
    d = {}
    last = None
    for i, s in enumerate(strings):
        n = s if ident else 'i%d' % i
        if n in d:
            continue
        o = d[n] = Substation(UUID=n)
        if not ident:
            o.name = s
            o.aliasName = s + 'z'
            o.mRID = 'z' + s
        v = d[n + '+v'] = VoltageLevel(UUID=n + '+v', Substation=o)
    return d


def u_tokens(u):
    first, n, outs, ident = u
    res = core.Result()
    ss = [first + ''.join(t) for t in itertools.product(TOKENS, repeat=n)]
    step = 400
    for out in outs:
        for i in range(0, len(ss), step):
            part = ss[i:i + step]
            if not check(res, model(part, ident), out, '%s of tokens' % ('identifiers' if ident else 'values')):
                for s in part:
                    if not check(res, model([s], ident), out, 'string %s' % ascii(s)):
                        return res
            res.add('strings', len(part))
    return res


def u_single(u):
    """One object per document: nothing else in it can hide or cause the effect."""
    first, ident = u
    res = core.Result()
    for t in [''] + TOKENS:
        for out in OUTS:
            check(res, model([first + t], ident), out, 'string %s' % ascii(first + t))
            res.add('strings')
    return res


def u_chars(u):
    lo, hi, pack, ident = u
    res = core.Result()
    cs = [chr(c) for c in range(lo, hi) if c in (9, 10, 13) or 32 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or c >= 0x10000]
    if pack:
        ss = [''.join(cs[i:i + 64]) for i in range(0, len(cs), 64)]
    else:
        ss = cs
    for out in (('stream', 'utf-8'), ('file', 'us-ascii')) if not ident else (('file', 'utf-8'),):
        for i in range(0, len(ss), 512):
            if not check(res, model(ss[i:i + 512], ident), out, 'characters %x-%x' % (ord(ss[i][0]), ord(ss[min(i + 511, len(ss) - 1)][0]))):
                return res
            res.add('characters', sum(map(len, ss[i:i + 512])))
    return res


def u_entities(u):
    """Texts that look like character or entity references: numbers of every size, names known and unknown."""
    what, lo, hi, step = u
    res = core.Result()
    if what == 'names':
        import html.entities
        names = sorted(set(n.rstrip(';') for n in html.entities.html5) | set(['lt', 'gt', 'amp', 'quot', 'apos', 'LT', 'nbsp1', 'x', 'unknown', '_a', 'cim:a', 'a.b']))
        ss = [f % n for n in names[lo:hi] for f in ('&%s;', '&%s', '%%%s;', '&amp;%s;', '%s;')]
    else:
        ss = [f % n for n in range(lo, hi, step) for f in ('&#%d;', '&#x%x;', '&#x%X;', '&#%05d;')]
        ss += [f % n for n in range(lo, min(hi, lo + 8 * step), step) for f in ('&#%d', '#%d;', '&#X%x;', '&%d;', '&# %d;', '&#%d ;', '\\u%04x', '%%%02X', '\\x%02x', '=%02X', '&#0%d;')]
    for ident in (False, True):
        for out in (('stream', 'utf-8'), ('file', 'us-ascii')):
            for i in range(0, len(ss), 800):
                part = ss[i:i + 800]
                if not check(res, model(part, ident), out, 'look-alikes of references'):
                    for s in part:
                        if not check(res, model([s], ident), out, 'string %s' % ascii(s)):
                            return res
                res.add('strings', len(part))
    return res


def u_class(q):
    """The strings of every class."""
    res = core.Result()
    if not in_map(q):
        return res
    from PyCIM import cimwrite
    root = meta.root[q]
    for k, (kind, spec, _) in feats.of(q).items():
        if kind != 'attr' or spec['type'] != 'str' or k == 'UUID':
            continue
        for s in (NASTY, '', ' ', '\n', '<b/>', '0'):
            o = core.load_class(q)(UUID='o' + NASTY)
            setattr(o, k, s)
            d = {o.UUID: o}
            res.add('states')
            res.add('transitions', 2)
            try:
                out = io.StringIO()
                cimwrite(d, out)
                r = rdf.read(out.getvalue(), *read_args(root))
                msg = None if list(r) == [o.UUID] and getattr(r[o.UUID], k) == s else 'read as %s' % ascii([(i, getattr(x, k)) for i, x in r.items()])
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s.%s' % (q, k), '%s.%s = %s: %s' % (q, k, ascii(s), msg), {'key': '%s.%s' % (q, k)})
                break
            res.add('traces')
    return res


def u_long(n):
    """Lengths around the buffers."""
    res = core.Result()
    for c in ('x', 'é', '€', '\U0001d11e', '&', ' ', '\r', '\n'):
        for k in range(n - 3, n + 4):
            check(res, model([c * k], False), ('file', 'utf-8'), 'long strings')
            check(res, model(['a' * (k - 1) + c], False), ('file', 'utf-8'), 'long strings')
    return res


def u_lengths(u):
    """Every length up to a bound, as value, identifier and both; whole ranges of lengths in one document too."""
    lo, hi = u
    res = core.Result()
    for ident in (False, True):
        for make in (lambda k: 'x' * k, lambda k: ('n%d' % k).ljust(k, 'y')[:k], lambda k: '\u20ac' * k, lambda k: ('a b&' * k)[:k]):
            if not check(res, model([make(k) for k in range(max(lo, 1 if ident else 0), hi)], ident), ('stream', 'utf-8'), 'lengths %d to %d' % (lo, hi)):
                break
            # alike but for the last character
            if not check(res, model([make(k) + c for k in range(lo, hi, 5) for c in 'AB'], ident), ('stream', 'us-ascii'), 'lengths %d to %d' % (lo, hi)):
                break
        for k in range(max(lo, 1), hi, 7):
            if not check(res, model(['x' * k], ident), ('file', 'utf-8'), 'length %d' % k):
                break
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    p_roundtrip.meta = meta
    scratch = tempfile.mkdtemp(prefix='verif-c19-')
    deep = core.TIER == 'thorough'
    try:
        units = []
        for t in TOKENS:
            units += [('single', (t, i)) for i in (False, True)]
            units += [('tokens', (t, 1, OUTS, i)) for i in (False, True)]
            units += [('tokens', (t, 2, OUTS if deep else OUTS[:1] + OUTS[3:4], i)) for i in (False, True)]
            if deep:
                units += [('tokens', (t + s, 2, OUTS[:1], i)) for s in TOKENS for i in (False, True)]
        units += [('chars', (lo, lo + 0x1000, False, False)) for lo in range(0, 0x10000, 0x1000)]
        units += [('chars', (lo, lo + 0x1000, not deep and lo >= 0x1000, True)) for lo in range(0, 0x10000, 0x1000)]
        units += [('chars', (lo, lo + 0x8000, not deep, i)) for lo in range(0x10000, 0x110000, 0x8000) for i in (False, True)]
        units += [('entities', ('names', lo, lo + 300, 1)) for lo in range(0, 2400, 300)]
        units += [('entities', ('numbers', lo, lo + 0x1000, 1 if deep or lo < 0x3000 else 7)) for lo in range(0, 0x10000, 0x1000)]
        units += [('entities', ('numbers', lo, lo + 0x10000, 1 if deep else 251)) for lo in range(0x10000, 0x120000, 0x10000)]
        units += [('class', q) for q in sorted(meta.classes)]
        units += [('lengths', (lo, lo + 50)) for lo in range(0, 1100 if not deep else 4200, 50)]
        units += [('long', n) for n in (8192, 16384, 65536)]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (set of strings used as values or identifiers, output, encoding); transitions = writing, parsing '
                          'independently and reading back; trace = all came back. All sequences of %d tokens (markup, quotes, white '
                          'space, line ends, entity look-alikes, non-ASCII, astral) up to length %d, every XML character of the basic '
                          'plane alone, all others%s, every string attribute of every class' % (
                              len(TOKENS), 4 if deep else 3, '' if deep else ' in runs of 64'))


def replay(prop, data):
    print(data)
