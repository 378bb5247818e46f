"""C13: every attribute of every class with every literal of its type, on objects that
hold nothing or something else before; every character; every short string."""
import io
import itertools

import core
import rdf
from feat import Features
from p_order import ns_for, args_for, name
import p_order

meta = feats = None
MAXINT = str(2 ** 64 + 1)
LITS = {
    'str': ['', ' ', 'x', ' lead', 'trail ', 'two  blanks', '\n', 'a\nb', '\ttab', 'a\rb', 'a\r\nb', '0', '007', '1.50', 'true', 'True',
            'None', '#v1', '<b>&amp;</b>', '"', "'", ']]>', '\u00e9\u20ac', '\U0001d11e', '&#10;', '%s', 'a.b.c', 'http://x.org/a#b', '\u00a0', '\u2028'],
    'int': ['0', '1', '-1', '+5', '007', '-0', '12345678901', MAXINT, ' 7 ', '\n-42\t'],
    'float': ['0', '1', '-1.5', '+2.5', '.5', '5.', '1e3', '1E-3', '-0.0', '0.1', '123456789.123456789', '1e400', 'INF', '-INF', 'NaN', ' 2.5 ', '\n3\n',
              '1e-320', '10000000000000000000000'],
    'bool': ['true', 'false', 'True', 'False', 'TRUE', 'FALSE', '1', '0', ' true ', '\nfalse\n', '\t1 '],
}
KEEP = object()
PRE = ['<none>', None, '', 'other', 0, 7, 2.5, True, False]


def truth(typ, s):
    return rdf.value(typ, s)


def same(x, y):
    return type(x) is type(y) and (x == y and repr(x) == repr(y) or x != x and y != y)


def read_into(root, nodes, start=None):
    t = rdf.text(nodes, ns_for(root))
    a = args_for(root)
    return rdf.read(t, *a, **({'start_dict': start} if start is not None else {})), t


def unit_class(q):
    res = core.Result()
    root = meta.root[q]
    if not p_order.in_map(q):
        return res
    K = core.load_class(q)
    own = core.TIER != 'thorough'
    for k, (kind, a, decl) in feats.of(q).items():
        if kind != 'attr' or k == 'UUID':
            continue
        prop = '%s.%s' % (name(decl), k)
        if a['type'] == 'enum':
            lits = [('enum', '%s.%s' % (a['enum'], x), x) for x in a['literals'] + ['notDefined', 'with-dash', 'a_1']]
            lits += [('enum', u % a['enum'], 'abc') for u in (
                'http://x.org/o.t.h#%s.abc', 'http://x.org/o.t.h/%s.abc', 'urn:x.y:%s.abc', 'http://x.org/o#p.%s.abc')]
            lits += [('text', 'plain', 'plain'), ('text', '', '')]
        else:
            lits = [('text', s, truth(a['type'], s)) for s in LITS[a['type']]]
            if a['type'] != 'str':
                lits.insert(0, ('text', '', KEEP))      # no literal: nothing to set
        if own and decl != q:
            lits = lits[:3]
        nodes = [rdf.node(name(q), 'o%d' % i, [(prop, how, s)]) for i, (how, s, _) in enumerate(lits)]
        pres = PRE if decl == q or not own else PRE[:3]
        for pre in pres:
            start = None
            if pre != '<none>':
                start = {}
                for i in range(len(lits)):
                    o = start['o%d' % i] = K(UUID='o%d' % i)
                    setattr(o, k, pre)
            res.add('states')
            try:
                d, t = read_into(root, [dict(n, about=True) for n in nodes] if start else nodes, start)
            except Exception as e:
                res.violation('%s.%s raised' % (q, k), '%s.%s before %r: reading raised %s' % (q, k, pre, core.exc_name(e)),
                              {'q': q, 'attr': k, 'pre': repr(pre)})
                continue
            for i, (how, s, v) in enumerate(lits):
                res.add('transitions')
                g = getattr(d['o%d' % i], k)
                if v is KEEP:
                    v = getattr(K(), k) if pre == '<none>' else pre
                if not same(g, v):
                    res.violation('%s.%s' % (q, k), '%s.%s: literal %r (%s) reads as %r, should be %r%s' % (
                        q, k, s, how, g, v, '' if pre == '<none>' else ', when it was %r before' % (pre,)),
                        {'q': q, 'attr': k, 'pre': repr(pre), 'literal': s})
                    break
                res.add('traces')
            else:
                res.outcome(a['type'])
    # a literal does not depend on the other attributes: all together, and each absent
    attrs = [(k, f[1], f[2]) for k, f in feats.of(q).items() if f[0] == 'attr' and k != 'UUID']
    for r in range(4):
        st, want = [], {}
        for j, (k, a, decl) in enumerate(attrs):
            prop = '%s.%s' % (name(decl), k)
            if a['type'] == 'enum':
                x = (a['literals'] or ['x'])[(r + j) % max(1, len(a['literals']))]
                st.append((prop, 'enum', '%s.%s' % (a['enum'], x)))
                want[k] = x
            else:
                s = LITS[a['type']][(r * 3 + j) % len(LITS[a['type']])]
                st.append((prop, 'text', s))
                want[k] = truth(a['type'], s)
        for st2 in (st, st[::-1]):
            res.add('transitions')
            d, t = read_into(root, [rdf.node(name(q), 'o', st2)])
            for k, v in want.items():
                if not same(getattr(d['o'], k), v):
                    res.violation('%s.%s with others' % (q, k), '%s.%s with all others reads as %r, should be %r\n%s' % (
                        q, k, getattr(d['o'], k), v, t), {'q': q, 'attr': k, 'text': t})
                    break
            else:
                res.add('traces')
    res.sample({'class': q, 'literals': res.n['transitions']}, 1)
    return res


def xml_chars():
    yield from (9, 10, 13)
    yield from range(0x20, 0xd800)
    yield from range(0xe000, 0xfffe)
    yield from range(0x10000, 0x110000, 1 if core.TIER == 'thorough' else 37)


def unit_chars(u):
    """Every character of XML, on its own, first, last, and between letters."""
    root, part, of = u
    res = core.Result()
    cs = list(xml_chars())[part::of]
    for i in range(0, len(cs), 400):
        blk = cs[i:i + 400]
        vals = [f % chr(c) for c in blk for f in ('%s', 'a%sb')]
        nodes = [rdf.node('Breaker', 'n%d' % j, [('IdentifiedObject.name', 'text', v)]) for j, v in enumerate(vals)]
        for sp in (rdf.PLAIN, rdf.Spelling(text='cdata'), rdf.Spelling(text='hexref')):
            d = rdf.read(sp.doc(nodes, ns_for(root)))
            for j, v in enumerate(vals):
                res.add('transitions')
                if d['n%d' % j].name != v:
                    res.violation('character %x' % ord(v[len(v) // 2]), 'name %r reads as %r' % (v, d['n%d' % j].name), {'value': v})
                    return res
                res.add('traces')
        res.add('states', len(vals))
    res.outcome('characters')
    return res


ALPHA = ['a', ' ', '\n', '\t', '\r', '<', '&', '>', ']', ';', '"', '\u00e9']


def unit_strings(u):
    first, n = u
    res = core.Result()
    vals = [first + ''.join(t) for t in core.tuples(ALPHA, n)]
    for i in range(0, len(vals), 500):
        blk = vals[i:i + 500]
        nodes = [rdf.node('Breaker', 'n%d' % j, [('IdentifiedObject.name', 'text', v), ('Switch.normalOpen', 'text', 'true')]) for j, v in enumerate(blk)]
        for sp in (rdf.PLAIN, rdf.Spelling(text='mixed', nl='', indent='')):
            d = rdf.read(sp.doc(nodes, ns_for('CIM15')))
            for j, v in enumerate(blk):
                res.add('transitions')
                o = d['n%d' % j]
                if o.name != v or o.normalOpen is not True:
                    res.violation('string', 'name %r reads as %r' % (v, o.name), {'value': v})
                    return res
                res.add('traces')
    res.add('states', len(vals))
    res.outcome('strings')
    return res


def unit(u):
    return {'class': unit_class, 'chars': unit_chars, 'strings': unit_strings}[u[0]](u[1])


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    units = [('class', q) for q in sorted(meta.classes)]
    units += [('chars', ('CIM15', i, 16)) for i in range(16)]
    n = 3 if core.TIER != 'thorough' else 5
    units += [('strings', (a, n)) for a in ALPHA] + [('strings', ('', 0))]
    res = core.run_units(unit, units, horizon=1200, chunk=8)
    return res, dict(level='model_checking',
                     rule='state = (attribute, value held before); transition = literal read and compared with the value it denotes, '
                          'type included; trace = one that agreed. Every attribute of every class x every literal form of its type x '
                          'nine values held before (own attributes; inherited ones with a subset), every XML character, every string '
                          'up to the bound over %d characters' % len(ALPHA),
                     extra={'string_bound': n + 1},
                     assumptions=['outside the basic plane every 37th character stands for all (thorough: all)'])


def replay(prop, data):
    print(data)
