"""C20: what writing emits, against the statements that the model consists of; purity and
repeatability over histories of writes."""
import collections
import io
import itertools
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import core
import rdf
import p_order
from feat import Features, values, typed
from p_order import in_map, name
from p_roundtrip import vals, link, target, usable
import p_roundtrip

meta = feats = None
scratch = None
R = '{%s}' % rdf.RDF


def qname(o):
    q = '%s:%s' % (type(o).__module__.rpartition('.')[0], type(o).__name__)
    return q if q in feats.meta.classes else '%s:%s' % (type(o).__module__, type(o).__name__)


def judge(text, d, ns):
    """Message if the text is not the document of the model."""
    root = ET.fromstring(text)
    if root.tag != R + 'RDF':
        return 'the root is %s' % root.tag
    b = '{%s#}' % ns
    seen = {}
    for e in root:
        i = e.get(R + 'ID')
        if i is None:
            return 'element %s without identifier' % e.tag
        if i in seen:
            return 'object %s is written twice' % i
        seen[i] = e
    extra = sorted(set(seen) - set(d))
    if extra:
        return 'objects %s are not in the model' % extra[:3]
    said = {}
    for i, o in d.items():
        if i not in seen:
            return 'object %s is missing' % i
        e = seen[i]
        q = qname(o)
        if e.tag != b + name(q):
            return 'object %s is written as %s' % (i, e.tag)
        if list(e.keys()) != [R + 'ID']:
            return 'object %s has attributes %s' % (i, list(e.keys()))
        F = feats.of(q)
        for p in e:
            if not p.tag.startswith(b) or '.' not in p.tag[len(b):]:
                return '%s has a property %s' % (i, p.tag)
            cl, _, k = p.tag[len(b):].rpartition('.')
            if k not in F or not any(name(c) == cl and any(x['name'] == k for x in meta.classes[c]['attrs'] + meta.classes[c]['refs']) for c in meta.chain(q)):
                return '%s has a property %s' % (i, p.tag[len(b):])
            if len(p):
                return '%s.%s has elements' % (i, k)
            kind, spec, _ = F[k]
            v = getattr(o, k)
            r = p.get(R + 'resource')
            if list(p.keys()) not in ([], [R + 'resource']):
                return '%s.%s has attributes %s' % (i, k, list(p.keys()))
            if (i, p.tag, r if kind == 'ref' else None) in said:
                return '%s.%s is written twice' % (i, k)
            said[i, p.tag, r if kind == 'ref' else None] = 1
            if kind == 'attr':
                if spec['type'] == 'enum':
                    ok = r == '%s#%s.%s' % (ns, spec['enum'], v)
                else:
                    try:
                        ok = r is None and typed(rdf.value(spec['type'], p.text or '')) == typed(v)
                    except ValueError:
                        ok = False
                if not ok:
                    return '%s.%s = %r is written as %r' % (i, k, v, r or p.text)
                said[i, k] = 1
            else:
                here = [x.UUID for x in v] if spec['many'] else [] if v is None else [v.UUID]
                if r is None or r[:1] != '#' or r[1:] not in here or p.text:
                    return '%s.%s is written as %r, refers to %s' % (i, k, r or p.text, here)
                said[i, k, r[1:]] = 1
    for i, o in d.items():
        for k, (kind, spec, _) in feats.of(qname(o)).items():
            v = getattr(o, k)
            if kind == 'attr':
                if k != 'UUID' and v is not None and typed(v) != typed(spec['default']) and (i, k) not in said:
                    return '%s.%s = %r is not written' % (i, k, v)
            elif not spec['many']:
                if v is not None and (i, k, v.UUID) not in said:
                    return '%s.%s is not written' % (i, k)
            else:
                for x in v:
                    opp = spec.get('opp')
                    back = opp and feats.of(qname(x)).get(opp)
                    if (i, k, x.UUID) in said or back and not back[1]['many'] or (opp and (x.UUID, opp, i) in said):
                        continue
                    return '%s.%s -> %s is not written' % (i, k, x.UUID)


def tables(objs):
    """What the classes of the objects say about themselves."""
    return [(c, k, repr(v)) for c in {c for o in objs for c in type(o).__mro__}
            for k, v in vars(c).items() if isinstance(v, (list, dict, tuple, set, str, int, float))]


def state(d):
    """All that can be seen of the model and its objects: values, links, the order of lists."""
    out = [(i, id(o)) for i, o in d.items()]
    for i, o in d.items():
        for k, (kind, spec, _) in feats.of(qname(o)).items():
            v = getattr(o, k)
            out.append((i, id(o), k, typed(v) if kind == 'attr' else [id(x) for x in v] if spec['many'] else id(v)))
    return out


class Write:
    def __init__(self, root, res, key):
        self.res, self.key, self.bad = res, key, 0
        self.ns = rdf.NSURI['CIM14' if root.startswith('CIM14') else 'CIM15']

    def check(self, objs, what, out='stream', repeat=False):
        from PyCIM import cimwrite
        if self.bad > 2:
            return
        d = objs if isinstance(objs, dict) else {o.UUID: o for o in objs}
        outside = set()
        for o in d.values():
            for k, (kind, spec, _) in feats.of(qname(o)).items():
                if kind == 'ref':
                    v = getattr(o, k)
                    outside |= set(v) if spec['many'] else set([v])
        far = {'%d' % id(o): o for o in outside if o is not None}
        res = self.res
        res.add('states')
        res.add('transitions')
        b = [state(d), state(far)]
        tb = tables(d.values()) if repeat else None
        t = ''
        try:
            if out == 'stream':
                s = io.StringIO()
                r = cimwrite(d, s)
                t = s.getvalue()
            else:
                p = os.path.join(scratch, 'w%d' % os.getpid())
                if out == 'path':
                    r = cimwrite(d, p)
                else:
                    with open(p, 'w', encoding='utf-8') as f:
                        r = cimwrite(d, f, encoding='utf-8')
                        if f.closed:
                            raise RuntimeError('the file given was closed')
                with open(p, 'rb') as f:
                    t = f.read()
            msg = judge(t, {o.UUID: o for o in d.values()}, self.ns)
            if not msg and r is not True:
                msg = 'returned %r' % (r,)
            if not msg and b != [state(d), state(far)]:
                msg = 'writing changed an object or the model'
            if not msg and repeat and tb != tables(d.values()):
                msg = 'writing changed a class'
            if not msg and repeat:
                s = io.StringIO()
                cimwrite(d, s)
                if s.getvalue() != (t if out == 'stream' else t.decode()):
                    msg = 'writing again gives another text'
        except Exception as e:
            msg = 'raised %s' % core.exc_name(e)
        if msg:
            self.bad += 1
            res.violation('%s: %s' % (self.key, what.split(' = ')[0]), '%s, %s: %s' % (self.key, what, msg), {'text': t if isinstance(t, str) else t.decode('utf-8', 'replace')})
        else:
            res.add('traces')
            res.outcome(what.split(':')[0])


def new(q, i):
    return core.load_class(q)(UUID=i)


def u_class(q):
    res = core.Result()
    W = Write(meta.root[q], res, q)
    W.check([new(q, 'o')], 'bare', repeat=True)
    F = feats.of(q)
    for k, (kind, spec, _) in F.items():
        if k == 'UUID':
            continue
        if kind == 'attr':
            for v in vals(spec) + [None]:
                o = new(q, 'o')
                setattr(o, k, v)
                W.check([o], 'value: %s = %r' % (k, v))
        else:
            T = target(q, k, spec)
            for n in (1, 2) if spec['many'] else (1,):
                o = new(q, 'o')
                ps = [new(T, 'p%d' % i) for i in range(n)]
                for p in ps:
                    link(o, k, spec, p)
                for m in range(n + 1):
                    for sub in itertools.combinations(ps, m):
                        W.check([o] + list(sub), 'links: %s = %d, %d in the model' % (k, n, m))
                W.check(ps, 'links: %s = %d, the object itself not in the model' % (k, n))
    attrs = [(k, f[1]) for k, f in F.items() if f[0] == 'attr' and k != 'UUID']
    refs = [(k, f[1]) for k, f in F.items() if f[0] == 'ref' and k != 'UUID']
    views = ('PhaseImpedance', 'SequenceImpedance', 'PerLengthImpedance')
    for pick in range(3):
        o = new(q, 'o')
        for k, s in attrs:
            setattr(o, k, values(s)[pick % 2] if pick < 2 else vals(s)[1])
        ps = []
        for k, s in refs:
            if s.get('view') and k != views[pick]:
                continue
            for i in range(2 if s['many'] else 1):
                ps.append(new(target(q, k, s), '%s_%d' % (k, i)))
                link(o, k, s, ps[-1])
        for objs in ([o] + ps, ps + [o], [o], ps, [o] + ps[::2], ps[1::2] + [o]):
            W.check(objs, 'all features', repeat=True)
        W.check([o] + ps, 'all features', 'path')
        W.check([o] + ps, 'all features', 'file')
    return res


def u_version(n):
    """Full objects of the class of this name in each version and profile, written one after the other."""
    res = core.Result()
    qs = [q for q in sorted(meta.classes) if q.split(':')[1] == n]
    for a in qs:
        for b in qs:
            for q in (a, b, a) if a != b else ():
                o, ps = new(q, 'o'), []
                for k, (kind, spec, _) in feats.of(q).items():
                    if k == 'UUID' or kind == 'ref' and spec.get('view') and k != 'PhaseImpedance':
                        continue
                    if kind == 'attr':
                        setattr(o, k, values(spec)[0])
                    else:
                        ps.append(new(target(q, k, spec), 'p' + k))
                        link(o, k, spec, ps[-1])
                Write(meta.root[q], res, q).check([o] + ps, 'class of several versions: %s, %s and %s in turn' % (a, b, a))
    return res


def models():
    """Models that differ in what writing might carry over."""
    out = {'empty': {}}
    for root in ('CIM14', 'CIM15'):
        _, nodes = p_order.mixed(0 if root == 'CIM14' else 1)
        out[root] = rdf.read(rdf.text(nodes, rdf.NSURI[root]))
    out['other'] = rdf.read(rdf.text([dict(n, st=[s for s in n['st'] if s[1] == 'text']) for n in p_order.mixed(1)[1]], rdf.NSURI['CIM15']))
    from CIM15.IEC61970.Core import Substation, VoltageLevel
    s = Substation(UUID='s')
    v = VoltageLevel(UUID='v', Substation=s)
    out['outside'] = {'v': v}
    out['odd strings'] = {'s': Substation(UUID='s', name='<&>', aliasName='é')}
    return out


SIZES = sorted(set(range(1, 34)) | {k + d for k in (64, 100, 128, 200, 256, 500, 512, 1000, 1024) for d in (-1, 0, 1)} | {2048})


class Boom(Exception):
    pass


class Full(io.StringIO):
    def __init__(self, n):
        io.StringIO.__init__(self)
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise Boom()
        return io.StringIO.write(self, s)


def u_history(u):
    """The text of a model does not depend on what was written, read or failed before."""
    from PyCIM import cimwrite
    first, n = u
    res = core.Result()
    M = models()
    want = {}
    for k, d in M.items():
        s = io.StringIO()
        cimwrite(d, s)
        want[k] = s.getvalue()
        msg = judge(want[k], d, rdf.NSURI['CIM14' if k == 'CIM14' else 'CIM15']) if d else None
        if msg:
            res.violation('history %s' % k, 'model %s: %s' % (k, msg), {'text': want[k]})
    ops = [('write', k) for k in M] + [('fail', k) for k in ('CIM14', 'CIM15')] + [('ascii', k) for k in ('odd strings', 'CIM15')] + [('read', 'CIM14'), ('read', 'CIM15')]
    for tail in itertools.product(ops, repeat=n):
        seq = (ops[first],) + tail
        out = io.StringIO()
        total = ''
        for op, k in seq:
            res.add('transitions')
            if op == 'write':
                cimwrite(M[k], out)     # one stream for all of them
                total += want[k]
            elif op == 'fail':
                try:
                    cimwrite(M[k], Full(17))
                except Boom:
                    pass
            elif op == 'ascii':
                cimwrite(M[k], io.StringIO(), 'us-ascii')
            else:
                rdf.read(want[k])
        res.add('states')
        if out.getvalue() != total:
            res.violation('history', 'after %s: the texts are not those of the models written alone' % (seq,), {'text': out.getvalue()})
            break
        res.add('traces')
        res.outcome('history')
    return res


def u_network(k):
    """Every subset of a network as the model, in two orders."""
    res = core.Result()
    root, nodes = p_order.mixed(k)
    W = Write(root, res, root + ' network')
    d = rdf.read(rdf.text(nodes, rdf.NSURI[root]))
    for n in range(len(d) + 1):
        for sub in itertools.permutations(d, n) if n < 4 else itertools.combinations(d, n):
            if n:
                W.check({i: d[i] for i in sub}, 'subset of a network', repeat=True)
    return res


def u_keys(k):
    """Models under keys that are not the identifiers, and objects without identifier."""
    res = core.Result()
    root, nodes = p_order.mixed(k)
    W = Write(root, res, root + ' network')
    for how in range(10):
        d = rdf.read(rdf.text(nodes, rdf.NSURI[root]))
        keys = list(d)
        if how == 0:
            m = {'key of ' + i: d[i] for i in keys}
        elif how == 1:
            m = {i: d[j] for i, j in zip(keys, keys[1:] + keys[:1])}    # keyed by the identifiers of others
        elif how == 2:
            m = {n: d[i] for n, i in enumerate(keys)}
        elif how == 3:
            m = {'#' + i: d[i] for i in keys}
        elif how == 6:                                                  # keys of all kinds, that have no order
            odd = [None, 0, 'a', (1, 'b'), 2.5, frozenset('c'), b'd', object(), True, Ellipsis]
            m = {(odd[n] if n < len(odd) else i): d[i] for n, i in enumerate(keys)}
        elif how == 7:
            m = {d[i]: d[i] for i in keys}
        elif how == 8:
            m = collections.OrderedDict((i, d[i]) for i in keys[::-1])
        elif how == 9:
            m = collections.defaultdict(lambda: d[keys[0]], d)
        elif how == 4:
            for n, i in enumerate(keys):                                # identifiers changed after reading
                d[i].UUID = 'new %d' % n
            m = d
        else:
            for i in keys:                                              # each in turn without identifier
                d[i].UUID, old = '', d[i].UUID
                W.check(d, 'keys: object without identifier', repeat=True)
                d[i].UUID = old
            m = d
        W.check(m, 'keys: kind %d' % how, repeat=True)
    return res


def u_size(u):
    """Models of n objects, some of them with n references, identifiers and values of length n."""
    root, n = u
    res = core.Result()
    W = Write(root, res, '%s: %d objects' % (root, n))
    M = __import__('%s.IEC61970.Core' % root, fromlist=['x'])
    s = M.Substation(UUID='s', name='n' * n)
    d = {'s': s}
    for i in range(n):
        v = M.VoltageLevel(UUID='v%d' % i, name='level %d' % i, lowVoltageLimit=float(i))
        v.Substation = s
        d[v.UUID] = v
        if i % 3 == 0:
            b = M.Bay(UUID='b' * n + str(i), VoltageLevel=v, bayEnergyMeasFlag=bool(i % 2))
            d[b.UUID] = b
    W.check(d, 'objects', repeat=True)
    part = {i: d[i] for i in list(d)[::2]}
    W.check(part, 'every other object', repeat=True)
    return res


def u_many(k):
    """The same and other models written hundreds of times."""
    from PyCIM import cimwrite
    res = core.Result()
    M = models()
    want = {}
    for i in range(400):
        for name in list(M)[i % 2::2 if k else 1]:
            s = io.StringIO()
            if k == 2:
                M[name] = dict(M[name])
            cimwrite(M[name], s, 'utf-8' if i % 3 else 'us-ascii')
            res.add('states')
            res.add('transitions')
            if want.setdefault((name, bool(i % 3)), s.getvalue()) != s.getvalue():
                res.violation('again', 'write %d of model %s differs from the first one' % (i, name), {'text': s.getvalue()})
                return res
            res.add('traces')
    res.outcome('again')
    return res


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    p_roundtrip.meta, p_roundtrip.feats = meta, feats
    scratch = tempfile.mkdtemp(prefix='verif-c20-')
    try:
        units = [(w, k) for w in ('network', 'keys') for k in (0, 1)] + [('history', (i, 3 if core.TIER == 'thorough' else 2)) for i in range(12)]
        units += [('many', k) for k in (0, 1, 2)]
        units += [('size', (r, n)) for r in ('CIM14', 'CIM15') for n in SIZES]
        units += [('version', n) for n in sorted(set(q.split(':')[1] for q in meta.classes))]
        units += [('class', q) for q in sorted(meta.classes)]
        res = core.run_units(unit, units, horizon=1500)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = (model, output); transition = write judged: the parsed document against the statements of the objects '
                          '(each object once, every non-default value, every reference, nothing else), True returned, no instance '
                          'dictionary changed, same text again; trace = one that passed. Per class: every attribute value, every '
                          'reference with every subset of its partners in the model, all features; every subset of a network; models under other keys; the classes of one name in all versions in turn; models of n objects, references and characters for n up to 2048; 400 writes in a row; every '
                          'history of %d writes, failures and reads' % (4 if core.TIER == 'thorough' else 3),
                     assumptions=['links to objects outside the model that the outside object states are not required'])


def replay(prop, data):
    print(data['text'])
