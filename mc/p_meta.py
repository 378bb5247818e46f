"""C06: every class against the information model.  C07: every package map entry.
The state space is finite and small: classes x features, maps x entries."""
import importlib
import io

import core
from feat import Features, values, FALSY

meta = feats = None
enums = {}          # (model, name) -> class, over all packages of the model
TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'enum': str}
NS = {
    'CIM14': 'http://iec.ch/TC57/2009/CIM-schema-cim14',
    'CIM15': 'http://iec.ch/TC57/2010/CIM-schema-cim15',
    'CIM14.CDPSM.Balanced': '?profile=http://iec.ch/TC57/2007/profile/CDPSM/Balanced',
    'CIM14.CDPSM.GIS_Connectivity': '?profile=http://iec.ch/TC57/2007/profile/CDPSM/GIS_Connectivity',
    'CIM14.CDPSM.Unbalanced': '?profile=http://iec.ch/TC57/2007/profile/CDPSM/Unbalanced',
    'CIM14.CPSM.Equipment': '?profile=http://iec.ch/TC57/2007/profile/CPSM/Equipment',
    'CIM14.CPSM.StateVariables': '?profile=http://iec.ch/TC57/2007/profile/CPSM/StateVariables',
    'CIM14.CPSM.Topology': '?profile=http://iec.ch/TC57/2007/profile/CPSM/Topology',
    'CIM14.ENTSOE.Dynamics': '?profile=http://iec.ch/TC57/2007/profile/ENTSOE/Dynamics',
    'CIM14.ENTSOE.Equipment': '?profile=http://iec.ch/TC57/2007/profile/ENTSOE/Equipment',
    'CIM14.ENTSOE.StateVariables': '?profile=http://iec.ch/TC57/2007/profile/ENTSOE/StateVariables',
    'CIM14.ENTSOE.Topology': '?profile=http://iec.ch/TC57/2007/profile/ENTSOE/Topology',
    'CIM15.CDPSM.Asset': '?profile=http://iec.ch/TC57/2011/iec61968-4/CDPSM/Asset',
    'CIM15.CDPSM.Balanced': '?profile=http://iec.ch/TC57/2011/iec61968-13/CDPSM/Balanced',
    'CIM15.CDPSM.Connectivity': '?profile=http://iec.ch/TC57/2011/iec61968-13/CDPSM/Connectivity',
    'CIM15.CDPSM.Geographical': '?profile=http://iec.ch/TC57/2011/iec61968-13/CDPSM/Geographical',
}


def ns(root):
    v = NS[root]
    return NS[root.split('.')[0]] + v if v.startswith('?') else v


class Bad(Exception):
    pass


def need(cond, key, msg):
    if not cond:
        raise Bad(key, msg)


def steps_c06(q):
    """One check per yielded feature; raises Bad."""
    K = core.load_class(q)
    c = meta.classes[q]
    mod, name = q.split(':')
    fs = feats.of(q)
    yield 'name', lambda: need(isinstance(K, type) and K.__name__ == name, 'name', 'is %r' % (K,))

    def base():
        root = meta.root[q]
        b = [x for x in K.__mro__[1:] if x is not object]
        sup = c.get('super')
        if sup:
            need(b and b[0] is core.load_class(sup), 'base', 'base class is %s, should be %s' % (b[:1], sup))
            need(K.__bases__ == (b[0],), 'base', 'has bases %r' % (K.__bases__,))
        elif b:
            need(b[0].__name__ == 'Element' and b[0].__module__.startswith(root), 'base', 'base class is %s' % b[0])
    yield 'base', base

    want_a = {a['name']: a for a in c['attrs']}
    want_r = {r['name']: r for r in c['refs'] if not r.get('view') == r['name']}

    def declared():
        got = list(K.__dict__.get('_attrs', []))
        need(sorted(got) == sorted(want_a), 'declared attributes', 'declares attributes %s, should be %s' % (
            diff(got, want_a), 'exactly those of the model'))
        for t in ('_attr_types', '_defaults'):
            need(set(K.__dict__[t]) == set(want_a), t, 'declares %s for %s' % (t, diff(K.__dict__[t], want_a)))
        en = {a for a in want_a if want_a[a]['type'] == 'enum'}
        need(set(K.__dict__['_enums']) == en, '_enums', 'declares enumerations for %s' % diff(K.__dict__['_enums'], en))
        got = [r for r in K.__dict__.get('_refs', []) if not is_view(q, r)]
        need(sorted(got) == sorted(want_r), 'declared references', 'declares references %s' % diff(got, want_r))
        many = [r for r in want_r if want_r[r]['many']]
        got = list(K.__dict__['_many_refs'])
        need(sorted(got) == sorted(many), 'declared lists', 'declares list references %s' % diff(got, many))
    yield 'declared', declared

    def attr(a):
        n, T = a['name'], TYPES[a['type']]
        need(K._attr_types[n] is T, 'type ' + n, 'declares %s as %s, should be %s' % (n, K._attr_types[n], T))
        d = K._defaults[n]
        need(same(d, a['default']), 'default ' + n, 'declares default %r for %s, should be %r' % (d, n, a['default']))
        v = getattr(K(), n)
        need(same(v, a['default']), 'value ' + n, '%s of a new object is %r, should be %r' % (n, v, a['default']))
        if a['type'] == 'enum':
            need(K._enums[n] == a['enum'], 'enum ' + n, 'declares enumeration %r for %s, should be %r' % (K._enums[n], n, a['enum']))
            E = enums.get((meta.root[q], a['enum']))
            need(isinstance(E, type) and issubclass(E, str), 'enum class ' + n, 'no package provides the enumeration %s' % a['enum'])
        for x in values(a) + FALSY[a['type']]:
            o = K()
            setattr(o, n, x)
            need(same(getattr(o, n), x), 'set ' + n, 'after assigning %r, %s is %r' % (x, n, getattr(o, n)))
    for a in c['attrs']:
        if fs[a['name']][2] == q:
            yield 'attr ' + a['name'], lambda a=a: attr(a)

    def ref(r):
        n = r['name']
        o, P = K(), core.load_class(r['target'])
        v = getattr(o, n)
        need(v == [] and isinstance(v, list) if r['many'] else v is None, 'empty ' + n, '%s of a new object is %r' % (n, v))
        p = P()
        setattr(o, n, [p] if r['many'] else p)
        v = getattr(o, n)
        need(len(v) == 1 and v[0] is p if r['many'] else v is p, 'set ' + n, 'after assigning, %s is %r' % (n, v))
        if r.get('opp'):
            s = next(x for x in meta.classes[r['target']]['refs'] if x['name'] == r['opp'])
            w = getattr(p, r['opp'])
            need(len(w) == 1 and w[0] is o if s['many'] else w is o, 'inverse ' + n,
                 'after assigning %s, %s of the object referred to is %r' % (n, r['opp'], w))
        else:
            for k, (kind, spec, _) in feats.of(r['target']).items():
                w = getattr(p, k)
                need(not (kind == 'ref' and (o in w if spec['many'] else w is o)), 'inverse ' + n,
                     '%s has no inverse, but assigning it set %s' % (n, k))
        if r['many']:
            for verb in ('add', 'remove'):
                m = getattr(o, verb + n, None) or getattr(o, verb + '_' + n, None)
                need(callable(m), verb + ' ' + n, 'has no method to %s %s' % (verb, n))
    for r in c['refs']:
        if fs[r['name']][2] == q and r.get('view') != r['name']:
            yield 'ref ' + r['name'], lambda r=r: ref(r)

    def nothing_else():
        o = K()
        got = set()
        for n in dir(o):
            if n.startswith('_'):
                continue
            v = getattr(K, n, None)
            if n in vars(o) or isinstance(v, property) or not callable(v):
                got.add(n)
        need(got == set(fs), 'features', 'has features %s' % diff(got, fs))
        # a slot or typo must not swallow values silently: data attributes are the features
        for n in fs:
            need(hasattr(o, n), 'feature ' + n, 'has no %s' % n)
    yield 'features', nothing_else


def is_view(q, name):
    f = feats.of(q).get(name)
    return f and f[1].get('view') == name


def same(x, y):
    return type(x) is type(y) and x == y


def diff(got, want):
    got, want = list(got), list(want)
    out = []
    for x in sorted(set(got) | set(want)):
        if got.count(x) > want.count(x):
            out.append('too many: ' + x)
        elif got.count(x) < want.count(x):
            out.append('missing: ' + x)
    return ', '.join(out) or 'as in the model'


def unit06(q):
    res = core.Result()
    res.add('states')
    try:
        gen = list(steps_c06(q))
    except Exception as e:
        res.violation('%s: load' % q, '%s does not exist: %s' % (q, core.exc_name(e)), {'cls': q, 'step': ''})
        return res
    for name, fn in gen:
        res.add('transitions')
        try:
            fn()
            res.add('traces')
            res.outcome(name.split()[0])
        except Bad as b:
            res.violation('%s: %s' % (q, b.args[0]), '%s: %s' % (q, b.args[1]), {'cls': q, 'step': name})
        except Exception as e:
            res.violation('%s: %s raised' % (q, name), '%s: %s: %s' % (q, name, core.exc_name(e)), {'cls': q, 'step': name})
    res.sample({'class': q, 'checks': [n for n, _ in gen][:6]}, 1)
    return res


def doc(uri, cls, ident='x'):
    return ('<?xml version="1.0"?>\n<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="%s#">'
            '<cim:%s rdf:ID="%s"/></rdf:RDF>' % (uri, cls, ident)).encode()


def unit07(root):
    res = core.Result()
    from PyCIM import cimread
    pk = importlib.import_module(root)
    want = meta.pkgs[root]['packageMap']
    got = pk.packageMap
    res.add('states')

    def viol(key, msg):
        res.violation('%s: %s' % (root, key), '%s: %s' % (root, msg), {'root': root, 'key': key})
    if got != want:
        ch = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        viol('map', 'package map differs at %s' % ', '.join('%s: %s, should be %s' % (k, got.get(k), want.get(k)) for k in ch[:5]))
    uri = getattr(pk, 'nsURI', None)
    if uri != ns(root):
        viol('nsURI', 'namespace URI is %r, should be %r' % (uri, ns(root)))
    uri = ns(root)
    mapped = {}
    for name in sorted(set(want) | set(got)):
        res.add('states')
        for how in ('import', 'read', 'read detected') if '.' not in root else ('import', 'read'):
            res.add('transitions')
            try:
                mod = got.get(name)
                if mod is None:
                    continue
                K = getattr(importlib.import_module(mod), name)
                if how == 'import':
                    if not (isinstance(K, type) and K.__name__ == name):
                        viol(name, '%s.%s is %r, no class of that name' % (mod, name, K))
                    elif want.get(name) and K is not core.load_class(want[name] + ':' + name):
                        viol(name, '%s.%s is not the class of the model' % (mod, name))
                    elif name in want and not K.__module__.startswith(root + '.') and K.__module__ != root:
                        viol(name, '%s comes from %s' % (name, K.__module__))
                    mapped[name] = K
                else:
                    m = cimread(io.BytesIO(doc(uri, name))) if how == 'read detected' else \
                        cimread(io.BytesIO(doc(uri, name)), got, uri)
                    if list(m) != ['x'] or type(m['x']) is not K or m['x'].UUID != 'x':
                        viol(name, 'reading a %s (%s) gives %r' % (name, how, m))
                res.add('traces')
                res.outcome(how)
            except Exception as e:
                viol(name, '%s (%s): %s' % (name, how, core.exc_name(e)))
    res.sample({'package': root, 'entries': len(want)}, 1)
    return res


def run(prop):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    if prop == 'C06':
        for q in meta.classes:
            pk = q.split(':')[0]
            while pk:
                try:
                    for n, v in vars(importlib.import_module(pk)).items():
                        if isinstance(v, type) and issubclass(v, str):
                            enums.setdefault((meta.root[q], n), v)
                except Exception:
                    pass
                pk = pk.rpartition('.')[0]
        for root in meta.pkgs:
            for dom in ('Domain', 'IEC61970.Domain'):
                try:
                    for n, v in vars(importlib.import_module(root + '.' + dom)).items():
                        if isinstance(v, type) and issubclass(v, str):
                            enums.setdefault((root, n), v)
                except Exception:
                    pass
        res = core.run_units(unit06, sorted(meta.classes))
        return res, dict(level='model_checking',
                         rule='state = class; transition = one feature of the class compared with the information model, by its '
                              'declaration and by reading, writing and linking real instances; trace = transition that was executed',
                         assumptions=['spec/metamodel.json, derived from the Ecore models of the repository plus reviewed hand-written extensions, is the published model'])
    res = core.run_units(unit07, sorted(meta.pkgs), chunk=1)
    uris = {}
    for root in sorted(meta.pkgs):
        u = importlib.import_module(root).nsURI
        if u in uris:
            res.violation('nsURI %s' % root, '%s and %s publish the same namespace URI' % (root, uris[u]), {'root': root, 'key': 'nsURI'})
        uris[u] = root
    return res, dict(level='model_checking',
                     rule='state = package map entry; transition = import of the entry, read of a one-object document through the map '
                          '(explicit, and by detection for CIM14 and CIM15); trace = transition executed')


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    if prop == 'C06':
        for name, fn in steps_c06(data['cls']):
            try:
                fn()
            except Exception as e:
                print(name, e.args)
    else:
        for v in unit07(data['root']).violations:
            print(v[1])
