"""C22: bytes under every encoding, character by character."""
import codecs
import io
import itertools
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import core
import rdf
from feat import Features

meta = feats = None
scratch = None
ENCS = ['utf-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'cp1252', 'iso-8859-15', 'koi8-r', 'iso-8859-5', 'gb18030', 'big5', 'UTF-8', 'US-ASCII', 'cp437']
# The same encodings (and some others) by other names.
ALIASES = ['utf8', 'UTF8', 'utf_8', 'U8', 'utf-8-sig', 'ascii', 'ASCII', 'ansi_x3.4-1968', 'utf16', 'UTF-16', 'utf_16', 'U16', 'utf-16-le', 'utf-16be', 'UTF-16LE',
           'latin-1', 'latin1', 'Latin-1', 'l1', 'iso8859-1', 'iso_8859_1', 'ISO-8859-1', 'cp819', 'iso8859_15', 'latin9', 'l9', 'windows-1252', 'windows_1252', 'Windows-1252',
           'koi8_r', 'KOI8-R', 'koi8-u', 'ibm437', 'IBM850', 'mac-roman', 'macroman', 'iso-8859-2', 'latin2', 'iso-8859-7', 'iso-8859-9', 'windows-1250', 'windows-1251', 'cp1253', 'GB18030', 'Big5', 'tis-620', 'hp-roman8', 'kz1048']
MULTI = ('gb18030', 'big5')      # expat does not know these
DECL = re.compile(r"""^<\?xml\s+version=['"]1\.[01]['"](?:\s+encoding=['"]([A-Za-z0-9._-]+)['"])?(?:\s+standalone=['"](?:yes|no)['"])?\s*\?>""")


def lacks(s, enc):
    out = set()
    for c in set(s):
        try:
            c.encode(enc)
        except UnicodeError:
            out.add(c)
    return out


def decode(data, enc):
    """Decoded as the document itself says; message or text."""
    if data[:2] in (b'\xff\xfe', b'\xfe\xff') or data[:4] in (b'<\0?\0', b'\0<\0?'):
        enc16 = 'utf-16' if data[0] >= 0xfe else 'utf-16-le' if data[0] else 'utf-16-be'
        t = data.decode(enc16)
        m = DECL.match(t)
        if not m or codecs.lookup(m.group(1) or 'utf-16').name not in ('utf-16', enc16):
            raise RuntimeError('UTF-16 bytes, declared as %r' % t[:60])
        return t
    if data.startswith(codecs.BOM_UTF8):
        t = data.decode('utf-8-sig')
        m = DECL.match(t)
        if not m or codecs.lookup(m.group(1) or 'utf-8').name not in ('utf-8', 'utf-8-sig'):
            raise RuntimeError('UTF-8 bytes with a mark, declared as %r' % t[:60])
        return t
    head = data[:200].split(b'?>')[0].decode('ascii') + '?>' if data.startswith(b'<?xml') else ''
    m = DECL.match(head)
    if not m:
        raise RuntimeError('no declaration: %r' % data[:60])
    said = m.group(1) or 'utf-8'
    return data.decode(said)


def judge(text, strings, enc):
    """The document of XMLWriter calls with these strings."""
    root = ET.fromstring(DECL.sub('', text, count=1))
    if len(root) != len(strings):
        return 'has %d elements instead of %d' % (len(root), len(strings))
    for s, e in zip(strings, root):
        if (e.text or '') != s:
            return 'text %s is %s' % (ascii(s), ascii(e.text))
        if e.get('v') != s:
            return 'attribute %s is %s' % (ascii(s), ascii(e.get('v')))
    gone = lacks(''.join(strings), enc)
    body = DECL.sub('', text, count=1)
    if gone & set(body):
        return 'contains %s' % ascii(sorted(gone & set(body))[:5])
    refs = set(int(x[1:], 16) if x[:1] in 'xX' else int(x) for x in re.findall('&#(x[0-9a-fA-F]+|[0-9]+);', body))
    for c in sorted(gone):
        if ord(c) not in refs:
            return 'has no character reference for %s' % ascii(c)


def write(strings, enc, kind, comment=False):
    """XMLWriter calls; returns the bytes (files) or the text (streams)."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    p = os.path.join(scratch, 'e%d' % os.getpid())
    f = None
    if kind == 'path':
        w = XMLWriter(p, enc)
    elif kind == 'file':
        f = open(p, 'w', encoding=enc)
        w = XMLWriter(f, enc)
    else:
        f = io.StringIO()
        w = XMLWriter(f, enc)
    w.declaration()
    w.start('r')
    for s in strings:
        w.element('e', s, {'v': s})
    w.end()
    w.flush()
    if kind == 'stream':
        return f.getvalue()
    if f:
        f.close()
    with open(p, 'rb') as g:
        return g.read()


def one(res, strings, enc, kind, what):
    res.add('states')
    res.add('transitions', len(strings))
    try:
        data = write(strings, enc, kind)
        if kind == 'stream':
            text = data
            m = DECL.match(text)
            said = m and (m.group(1) or 'utf-8')
            have = codecs.lookup(enc).name
            if not m or codecs.lookup(said).name != have and not (codecs.lookup(said).name == 'utf-8' and have in ('utf-8', 'utf-8-sig', 'ascii')):
                raise RuntimeError('the declaration is %r' % text[:60])
            msg = judge(text, strings, enc)
            if not msg and codecs.lookup(enc).name == 'ascii' and not text.isascii():
                msg = 'is not ASCII'
        else:
            msg = judge(decode(data, enc), strings, enc)
            if not msg and codecs.lookup(enc).name == 'ascii' and not data.isascii():
                msg = 'is not ASCII'
            if not msg and enc.lower() not in MULTI:
                root = ET.fromstring(data)
                if [(e.text or '', e.get('v')) for e in root] != [(s, s) for s in strings]:
                    msg = 'is read differently by an XML parser'
    except Exception as e:
        msg = 'raised %s' % core.exc_name(e)
    if msg:
        res.violation('%s %s' % (enc, kind), '%s as %s to %s: the document %s' % (what, enc, kind, msg), {'strings': strings[:5], 'enc': enc, 'kind': kind})
        return False
    res.add('traces')
    res.outcome('%s %s' % (enc, kind))
    return True


def u_chars(u):
    enc, lo, hi, pack = u
    res = core.Result()
    cs = [chr(c) for c in range(lo, hi) if c in (9, 10, 13) or 32 <= c < 0xD800 or 0xE000 <= c < 0xFFFE or c >= 0x10000]
    if pack:
        cs = [''.join(cs[i:i + 64]) for i in range(0, len(cs), 64)]
    for i in range(0, len(cs), 512):
        for kind in ('path', 'stream'):
            if not one(res, cs[i:i + 512], enc, kind, 'characters from U+%04X' % (ord(cs[i][0]))):
                return res
    return res


TOKENS = ['a', '&', '<', ' ', '\n', '\r', 'é', '€', 'ж', '日', '\U0001d11e', '\x85', '\xa0', ']]>', '"', '&#233;']


def u_words(u):
    enc, n = u
    res = core.Result()
    words = [''.join(t) for k in range(n + 1) for t in itertools.product(TOKENS, repeat=k)]
    for kind in ('path', 'file', 'stream'):
        for i in range(0, len(words), 300):
            if not one(res, words[i:i + 300], enc, kind, 'words'):
                break
        for w in words[:1 + len(TOKENS) + len(TOKENS) ** 2]:
            if not one(res, [w], enc, kind, ascii(w)):
                return res
    return res


def u_sizes(enc):
    """Sizes around the buffers, over a longer file that was there before."""
    res = core.Result()
    p = os.path.join(scratch, 'e%d' % os.getpid())
    for n in (8192, 65536):
        for c in ('a', 'é', '€', '\U0001d11e'):
            for k in range(n - 60, n - 20):
                with open(p, 'wb') as f:
                    f.write(b'<old/>' * 200000 if k == n - 60 else b'x' * (n * 9))
                one(res, ['a' * (k if c == 'a' else k - 8) + c * 9], enc, 'path', 'length %d' % k)
    return res


def u_model(enc):
    """Models: values and identifiers, read back from the file."""
    from PyCIM import cimread, cimwrite
    from CIM15.IEC61970.Core import Substation, VoltageLevel
    from CIM14.IEC61970.Core import Substation as Substation14
    res = core.Result()
    p = os.path.join(scratch, 'm%d é.xml' % os.getpid())
    for S, V in ((Substation, VoltageLevel), (Substation14, None)):
        for n in range(3):
            for t in itertools.product(TOKENS, repeat=n):
                s = ''.join(t)
                o = S(UUID='s' + s, name=s, aliasName='x')
                d = {o.UUID: o}
                if V:
                    d['v'] = V(UUID='v', Substation=o)
                want = rdf.snapshot(feats, d)
                for kind in ('path', 'file', 'stream'):
                    res.add('states')
                    res.add('transitions', 2)
                    try:
                        if kind == 'path':
                            r = cimwrite(d, p, enc)
                        elif kind == 'file':
                            with open(p, 'w', encoding=enc) as f:
                                r = cimwrite(d, f, encoding=enc)
                        else:
                            f = io.StringIO()
                            r = cimwrite(d, f, enc)
                        if kind == 'stream':
                            text = f.getvalue()
                            if lacks(text, enc):
                                raise RuntimeError('the text cannot be encoded')
                            DECL.match(text).group(1)
                            back = rdf.read(DECL.sub('', text, count=1))
                        else:
                            with open(p, 'rb') as f:
                                data = f.read()
                            text = decode(data, enc)
                            if codecs.lookup(enc).name == 'ascii' and not data.isascii():
                                raise RuntimeError('the file is not ASCII')
                            back = rdf.read(DECL.sub('', text, count=1)) if enc.lower() in MULTI else cimread(p)
                        msg = rdf.difference(rdf.snapshot(feats, back), want)
                    except Exception as e:
                        msg = 'raised %s' % core.exc_name(e)
                    if msg:
                        res.violation('model %s %s' % (enc, kind), 'model with %s as %s to %s: %s' % (ascii(s), enc, kind, ascii(msg)), {'string': s, 'enc': enc, 'kind': kind})
                        return res
                    res.add('traces')
                    res.outcome('model %s %s' % (enc, kind))
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    deep = core.TIER == 'thorough'
    scratch = tempfile.mkdtemp(prefix='verif-c22-')
    try:
        units = []
        for e in ENCS:
            units += [('model', e), ('words', (e, 3 if deep else 2)), ('sizes', e)]
            units += [('chars', (e, lo, lo + 0x2000, False)) for lo in range(0, 0x10000, 0x2000)]
            units += [('chars', (e, lo, lo + 0x10000, not deep)) for lo in range(0x10000, 0x110000, 0x10000)] if deep or e in ENCS[:4] else [('chars', (e, 0x10000, 0x20000, True))]
        for e in ALIASES:
            units += [('model', e), ('words', (e, 2 if deep else 1)), ('chars', (e, 0, 0x600, False)), ('chars', (e, 0x600, 0x10000, True)), ('chars', (e, 0x10000, 0x20000, True))]
        res = core.run_units(unit, units, horizon=1500, chunk=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (strings, encoding, output); transition = element or model written; trace = bytes that decode as '
                          'declared to the document described, with references exactly for the characters the encoding lacks. %d '
                          'encodings x every character of the basic plane and all words of up to %d of %d tokens, as text, attribute, '
                          'value and identifier; %d more names of encodings' % (len(ENCS), 3 if deep else 2, len(TOKENS), len(ALIASES)),
                     assumptions=['encodings that contain ASCII (or UTF-16) and whose Python codec is one-to-one (not Shift_JIS: it writes the yen sign as a backslash); element names are ASCII'])


def replay(prop, data):
    print(ascii(data))
