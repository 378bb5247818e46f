"""C15: every way of declaring the CIM version, every override, every sequence of them."""
import io
import itertools

import core
import rdf
import p_order
from feat import Features
from rdf import node as N, Spelling

meta = feats = None
NS = {'14': rdf.NSURI['CIM14'], '15': rdf.NSURI['CIM15'], '16': 'http://iec.ch/TC57/2013/CIM-schema-cim16',
      'unknown': 'http://iec.ch/TC57/2003/CIM-schema-cim10', 'odd': 'urn:some other?cim&version'}
ROOT = {'14': 'CIM14', '15': 'CIM15', '16': 'CIM15', 'unknown': 'CIM15', 'odd': 'CIM15'}
OTHER = {'x': 'http://example.org/extension#', 'md': 'http://iec.ch/TC57/61970-552/ModelDescription/1#', 'a': 'urn:a', 'zz': 'http://iec.ch/TC57/CIM-generic#',
         '': 'http://example.org/', 'ext': 'http://iec.ch/TC57/2010/CIM-schema-cim15-ext#', 'Cim': 'http://iec.ch/TC57/2009/CIM-schema-cim14/profile#'}


def nodes():
    """In both versions; PhaseTapChanger, say, differs between them."""
    return [N('Substation', 's', [('IdentifiedObject.name', 'text', 'North')]),
            N('VoltageLevel', 'v', [('VoltageLevel.Substation', 'ref', 's'), ('VoltageLevel.lowVoltageLimit', 'text', '1.5')]),
            N('Breaker', 'k', [('Equipment.EquipmentContainer', 'ref', 'v'), ('Switch.normalOpen', 'text', 'true'), ('Switch.retained', 'text', 'true')]),
            N('Company', 'c', [('Company.companyType', 'enum', 'CompanyType.pool')]), N('Asset', 'a'), N('Location', 'l'), N('NoSuchClass', 'n')]


def document(ns, prefix='cim', rdfprefix='rdf', order=(), extra=(), where='root', body=None):
    """The declarations in the given order; where: on the root or on every class element."""
    sp = Spelling(prefix=prefix, rdfprefix=rdfprefix, decl='')
    decls = [('xmlns:' + rdfprefix, rdf.RDF)]
    mine = ('xmlns:' + prefix if prefix else 'xmlns', ns + '#')
    if where == 'root':
        decls.append(mine)
    decls += [('xmlns:' + p if p else 'xmlns', u) for p, u in extra]
    decls = [decls[i] for i in order] if order else decls
    out = '<%s:RDF%s>' % (rdfprefix, ''.join(sp.attr(*x) for x in decls))
    for n in nodes() if body is None else body:
        t = sp.node(n, ns)
        if where == 'class':
            i = t.index(' ')
            t = t[:i] + sp.attr(*mine) + t[i:]
        out += '\n' + t
    return out + '</%s:RDF>' % rdfprefix


class Check:
    def __init__(self, res):
        self.res, self.bad = res, 0

    def expected(self, packageMap, body=None):
        return rdf.Expected(feats, packageMap).read(nodes() if body is None else body).snapshot()

    def check(self, key, what, text, want, *args, **kw):
        self.res.add('states')
        self.res.add('transitions')
        try:
            msg = rdf.difference(rdf.snapshot(feats, rdf.read(text, *args, **kw)), want)
        except Exception as e:
            msg = 'reading raised %s' % core.exc_name(e)
        if msg:
            self.bad += 1
            if self.bad < 4:
                self.res.violation(key, '%s: %s: %s' % (key, what, msg), {'text': text, 'args': repr(args)[:200]})
        else:
            self.res.add('traces')
            self.res.outcome(key)
        return not msg


PREFIXES = ['cim', '', 'c', 'CIM', 'cim14', 'cim15', 'cim16', 'x-cim', 'rdfs', 'ns0', 'é', '_']


def u_declare(u):
    ver, prefix = u
    res = core.Result()
    c = Check(res)
    if ver in ('unknown', 'odd') and prefix != 'cim':
        return res          # nothing says that this is CIM
    want = c.expected(meta.pkgs[ROOT[ver]]['packageMap'])
    for n in range(0, 3):
        for extra in itertools.combinations(OTHER.items(), n):
            if not prefix and '' in dict(extra):
                continue
            for perm in itertools.permutations(range(n + 2)):
                for rp in ('rdf', 'r'):
                    t = document(NS[ver], prefix, rp, perm, extra)
                    c.check('declaration of version %s' % ver, 'prefix %r' % prefix, t, want)
    c.check('declaration of version %s' % ver, 'empty document, prefix %r' % prefix, document(NS[ver], prefix, body=[]), {})
    return res


def u_classes(ver):
    """Each class of each version, and each name of the other versions' classes only."""
    res = core.Result()
    c = Check(res)
    names = sorted(set(n for p in meta.pkgs.values() for n in p['packageMap']))
    body = [N(n, 'id%d' % i) for i, n in enumerate(names)]
    m = meta.pkgs[ROOT[ver]]['packageMap']
    c.check('all classes', 'version %s' % ver, document(NS[ver], body=body), c.expected(m, body))
    for b in body:
        c.check('one class', 'version %s, %s' % (ver, b['cls']), document(NS[ver], body=[b]), c.expected(m, [b]))
    return res


def u_sequence(n):
    """Versions in every order, one read after the other."""
    res = core.Result()
    c = Check(res)
    for seq in itertools.product(sorted(NS), repeat=n):
        for prefixes in itertools.product(('cim', 'q'), repeat=n if core.TIER == 'thorough' else 1):
            prefixes *= n // len(prefixes)
            for v, p in zip(seq, prefixes):
                if v in ('unknown', 'odd'):
                    p = 'cim'
                if not c.check('sequence of versions', '%s of %s' % (v, seq), document(NS[v], p), c.expected(meta.pkgs[ROOT[v]]['packageMap'])):
                    return res
    return res


FRONT = {'header': '<h:FullModel xmlns:h="urn:h#" rdf:about="urn:uuid:1"><h:Model.created>2010</h:Model.created></h:FullModel>',
         'description': '<rdf:Description rdf:about="#s"><rdf:value>1</rdf:value></rdf:Description>', 'empty': '<h:e xmlns:h="urn:h#"/>',
         'comment': '<!-- <e/> -->', 'text': 'text', 'default': '<e xmlns="urn:e"><f/></e>', 'nested': '<h:e xmlns:h="urn:h#"><h:e><h:e/></h:e><h:e/></h:e>',
         'many': '<h:e xmlns:h="urn:h#"><h:f/></h:e>' * 40, 'no namespace': '<e><f>1</f></e>', 'instruction': '<?cim version="14"?>'}


def u_where(u):
    """The namespace is declared by the root, by every class element, or by the property elements too, behind other content."""
    ver, prefix = u
    res = core.Result()
    c = Check(res)
    want = c.expected(meta.pkgs[ROOT[ver]]['packageMap'])
    for n in (0, 1, 2, 3):
        for front in itertools.product(sorted(FRONT), repeat=n):
            for where in ('class', 'root') if n < 3 or core.TIER == 'thorough' else ('class',):
                t = document(NS[ver], prefix, 'rdf', where=where)
                i = t.index('>') + 1
                body = t[i:]
                for split in (False, True) if n < 3 else (False,):
                    if split:       # between the objects as well
                        body = body.replace('\n<', '\n%s\n<' % ''.join(FRONT[f] for f in front))
                    c.check('declared by the %s' % where, 'version %s, prefix %r, behind %s' % (ver, prefix, front), t[:i] + ''.join(FRONT[f] for f in front) + body, want)
    return res


def u_override(root):
    """The map of every version and profile, under every namespace, whatever is declared."""
    res = core.Result()
    c = Check(res)
    import importlib
    real = importlib.import_module(root).packageMap
    m = meta.pkgs[root]['packageMap']
    names = [k for k in sorted(m)]
    body = nodes() + [N(k, 'all%d' % i) for i, k in enumerate(names)]
    own = meta.pkgs[root]['nsURI']
    for ns in sorted(NS.values()) + [own, 'http://x.org/profile', 'urn:p', 'p']:
        for prefix in ('cim', 'q', ''):
            for extra in ((), (('old', NS['14'] + '#'),), (('new', NS['15'] + '#'),)) + (() if prefix == 'cim' else ((('cim', NS['15'] + '#'),), (('cim', NS['14'] + '#'),), (('cim', 'urn:z#'),))):
                t = document(ns, prefix, extra=extra, body=body)
                try:
                    want = c.expected(m, body)
                except ValueError:
                    continue
                c.check('override', '%s under %s, prefix %r, also %s' % (root, ns, prefix, extra), t, want, real, ns)
    t = document('http://x.org/profile', body=body)
    want = c.expected(m, body)
    c.check('override', 'by keyword', t, want, packageMap=real, nsURI='http://x.org/profile')
    c.check('override', 'copy of the map', t, want, dict(real), 'http://x.org/profile')
    # exactly the map given: each class alone, and all but each class
    for b in body:
        k = b['cls']
        if k not in m:
            continue
        mm = {k: m[k]}
        c.check('override', 'map of %s only' % k, t, c.expected(mm, body), mm, 'http://x.org/profile')
    for k in [b['cls'] for b in nodes() if b['cls'] in m]:
        mm = dict(m)
        del mm[k]
        c.check('override', 'map without %s' % k, t, c.expected(mm, body), mm, 'http://x.org/profile')
    # exactly the namespace given: elements of another one are not objects
    for ns in ('http://x.org/profile', NS['14'], NS['15'], NS['16']):
        for other in ('http://x.org/profile', 'http://x.org/profil', 'http://x.org/profile#', NS['14'], NS['15'], NS['16']):
            if other != ns:
                c.check('override', 'namespace %s for a document of %s' % (ns, other), document(other, body=body), {}, real, ns)
    return res


def u_mixed(_):
    """Overrides that mix the modules of two versions."""
    res = core.Result()
    c = Check(res)
    m14, m15 = meta.pkgs['CIM14']['packageMap'], meta.pkgs['CIM15']['packageMap']
    ks = [b['cls'] for b in nodes() if b['cls'] in m14 and b['cls'] in m15]
    body = [dict(n, st=[s for s in n['st'] if s[1] != 'ref']) for n in nodes()]
    for pick in itertools.product((None, m14, m15), repeat=len(ks)):
        mm = {k: p[k] for k, p in zip(ks, pick) if p}
        if not mm:
            continue
        for ns in ('14', '15', '16'):
            c.check('mixed map', str({k: v for k, v in mm.items()}), document(NS[ns], body=body), c.expected(mm, body), mm, NS[ns])
    return res


def u_one(ver):
    """Only one of the two: rejected, and the model given is as before."""
    res = core.Result()
    import CIM14
    import CIM15
    from PyCIM import cimread
    t = document(NS[ver])
    for what, kw in [('packageMap', {'packageMap': m.packageMap}) for m in (CIM14, CIM15)] + \
                    [('packageMap', {'packageMap': {'Breaker': 'CIM15.IEC61970.Wires'}})] + \
                    [('nsURI', {'nsURI': n}) for n in sorted(NS.values()) + ['x']]:
        for start in (None, '14', '15', 'empty'):
            for positional in (False, True):
                res.add('states')
                res.add('transitions')
                d = None
                if start is not None:
                    d = rdf.read(document(NS['14' if start == '14' else '15'], body=[] if start == 'empty' else
                                          [dict(n, id=n['id'] if i % 2 else 'w%d' % i, st=[s for s in n['st'] if s[1] != 'ref']) for i, n in enumerate(nodes())]))
                before, ids = d and rdf.snapshot(feats, d), d and {k: id(v) for k, v in d.items()}
                args = (kw.get('packageMap'), kw.get('nsURI'))
                msg = None
                try:
                    if positional:
                        r = cimread(io.BytesIO(t.encode()), *args, **({} if d is None else {'start_dict': d}))
                    else:
                        r = cimread(io.BytesIO(t.encode()), **dict(kw, **({} if d is None else {'start_dict': d})))
                    msg = 'returned %s' % str(type(r))
                except ValueError:
                    if d is not None and (before or {}) != rdf.snapshot(feats, d):
                        msg = 'the model given was changed'
                    elif d is not None and {k: id(v) for k, v in d.items()} != (ids or {}):
                        msg = 'objects of the model given were replaced'
                except Exception as e:
                    msg = 'raised %s instead of ValueError' % core.exc_name(e)
                if msg:
                    res.violation('only %s' % what, 'only %s passed (%s, start model %s): %s' % (what, ver, start, msg), {'text': t, 'kw': repr(kw)[:200]})
                else:
                    res.add('traces')
                    res.outcome('rejected')
    return res


def u_start(ver):
    """A given model of any version or profile does not decide which classes are used, nor is it converted."""
    res = core.Result()
    import importlib
    c = Check(res)
    roots = sorted(meta.pkgs)
    how = [(None, None)] + [(r, n) for r in roots for n in (NS['14'], NS['15'], 'http://x.org/profile')]
    starts = [()] + [(a,) for a in roots] + [p for p in itertools.permutations(('CIM14', 'CIM15'), 2)]
    for start in starts:
        for over, ns in how:
            if over is None:
                text, want, args = document(NS[ver]), c.expected(meta.pkgs[ROOT[ver]]['packageMap']), ()
            else:
                m = meta.pkgs[over]['packageMap']
                b = [n for n in nodes() if n['cls'] in m]
                b = [dict(n, st=[s for s in n['st'] if s[1] == 'text' and s[0].startswith('Ident')]) for n in b]
                text, want = document(ns, body=b, extra=(('own', NS[ver] + '#'),)), c.expected(m, b)
                args = (importlib.import_module(over).packageMap, ns)
            d, before = {}, {}
            for r in start:
                m = meta.pkgs[r]['packageMap']
                ks = [k for k in ('Substation', 'Terminal', 'Breaker', 'Asset', 'Location') if k in m] or sorted(m)[:3]
                for k in ks:
                    i = 'w-%s-%s' % (r, k)
                    d[i] = core.load_class('%s:%s' % (m[k], k))(UUID=i)
            before = dict(d)
            want = dict(want)
            want.update(rdf.snapshot(feats, d))
            if not c.check('given model of %s' % (', '.join(start) or 'no version'), 'version %s, override %s, %s' % (ver, over, ns), text, want, *args, start_dict=d):
                continue
            if any(d.get(i) is not o for i, o in before.items()):
                res.violation('given model', 'version %s, start %s: objects of the given model were replaced' % (ver, start), {'text': text, 'args': ''})
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    units = [('override', r) for r in meta.pkgs] + [('declare', (v, p)) for v in NS for p in PREFIXES]
    units += [('where', (v, p)) for v in ('14', '15', '16') for p in PREFIXES]
    units += [('classes', v) for v in NS] + [('sequence', n) for n in ((1, 2, 3, 4) if core.TIER == 'thorough' else (1, 2, 3))]
    units += [('mixed', 0)] + [('one', v) for v in NS] + [('start', v) for v in NS]
    res = core.run_units(unit, units, horizon=900, chunk=1)
    return res, dict(level='model_checking',
                     rule='state = (declarations of a document, arguments of the call, versions read before); transition = read compared '
                          'with the model the document denotes under the version or map that applies, or rejection of a half override; '
                          'trace = one that agreed',
                     assumptions=['a namespace of an unknown version is recognised by the prefix cim only'])


def replay(prop, data):
    print(data['text'])
