"""Features of classes as the model gives them, values for them, and snapshots."""
import core

NEW = {'str': ['x', 'y z'], 'int': [7, -3], 'float': [2.5, -0.125], 'bool': [True, False]}
FALSY = {'str': [''], 'int': [0], 'float': [0.0], 'bool': [False], 'enum': ['']}


class Features:
    """Effective features of every class: the nearest declaration of a name wins."""

    def __init__(self, meta):
        self.meta = meta
        self._c = {}
        self._p = {}

    def of(self, q):
        """name -> ('attr', spec, declaring class) or ('ref', spec, declaring class)"""
        if q not in self._c:
            d = {}
            for k, a in self.meta.all_attrs(q):
                d[a['name']] = ('attr', a, k)
            for k, r in self.meta.all_refs(q):
                d[r['name']] = ('ref', r, k)
            self._c[q] = d
        return self._c[q]

    def hidden(self, q):
        """(declaring class, ref) inherited by q under a name redeclared nearer."""
        f = self.of(q)
        return [(k, r['name']) for k, r in self.meta.all_refs(q) if f[r['name']][2] != k]

    def partner(self, spec, i):
        """Class of the i-th partner for a reference: its target, then subclasses of it
        that have the inverse as the target has it."""
        t, opp = spec['target'], spec.get('opp')
        key = t, opp
        if key not in self._p:
            ok = [t]
            for c in sorted(self.meta.subclasses(t)):
                if c != t and not self.meta.classes[c].get('abstract') and (
                        not opp or self.of(c).get(opp) == self.of(t).get(opp)):
                    ok.append(c)
            self._p[key] = ok
        ok = self._p[key]
        return ok[0] if not i else ok[1 + (len(spec['name']) + i) % (len(ok) - 1)] if len(ok) > 1 else t

    def attrs(self, q):
        return {n: f[1] for n, f in self.of(q).items() if f[0] == 'attr'}

    def refs(self, q):
        return {n: f[1] for n, f in self.of(q).items() if f[0] == 'ref'}


def values(a):
    """Two values of the attribute that differ from each other; the first differs from the default."""
    if a['type'] == 'enum':
        lits = [x for x in a['literals'] if x != a['default']] + ['other literal', 'third']
        return lits[:2]
    vs = [v for v in NEW[a['type']] if v != a['default']]
    return (vs + [v for v in NEW[a['type']] if v not in vs])[:2]


def read(o, name, many):
    v = getattr(o, name)
    return tuple(v) if many else v


def typed(v):
    """A value together with its type (0 == False == 0.0 otherwise)."""
    return (type(v).__name__, "not a number" if isinstance(v, float) and v != v else v)


class Snap:
    """Names objects; reads all features of all of them."""

    def __init__(self, feats):
        self.f = feats
        self.objs = {}
        self.cls = {}
        self.name = {}
        self._plan = {}

    def new(self, name, q, **kw):
        o = core.load_class(q)(**kw)
        return self.put(name, q, o)

    def put(self, name, q, o):
        self.objs[name] = o
        self.cls[name] = q
        self.name[id(o)] = name
        return o

    def nm(self, v):
        return self.name.get(id(v)) or '?' + repr(v)[:60]

    def plan(self, n):
        p = self._plan.get(n)
        if p is None:
            p = self._plan[n] = [((n, k), k, f[0] == 'attr', f[0] == 'ref' and f[1]['many'])
                                 for k, f in self.f.of(self.cls[n]).items()]
        return p

    def one(self, n):
        return {k[1]: v for k, v in self._read(n)}

    def _read(self, n):
        o, name, nm = self.objs[n], self.name, self.nm
        for key, k, attr, many in self.plan(n):
            v = getattr(o, k)
            if attr:
                yield key, (type(v).__name__, v)
            elif many:
                yield key, tuple([name.get(id(x)) or nm(x) for x in v])
            else:
                yield key, () if v is None else (name.get(id(v)) or nm(v),)

    def all(self):
        out = {}
        for n in self.objs:
            out.update(self._read(n))
        return out


def add_method(o, name, verb='add'):
    return getattr(o, verb + name, None) or getattr(o, verb + '_' + name)
