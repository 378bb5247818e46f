"""C14: sequences of reads, mutations and writes; extension of a given model; documents
read in parts."""
import io
import itertools
import os
import shutil
import tempfile

import core
import rdf
from feat import Features
import p_order
from p_order import ns_for, args_for, name, full_nodes
from rdf import node as N

meta = feats = scratch = None


def docs():
    D = {}
    D['base'] = ('CIM15', [N('VoltageLevel', 'v', [('IdentifiedObject.name', 'text', 'V')]),
                           N('Breaker', 'k', [('IdentifiedObject.name', 'text', 'K'), ('Equipment.EquipmentContainer', 'ref', 'v')]),
                           N('Terminal', 't', [('Terminal.ConductingEquipment', 'ref', 'k')])])
    D['same ids'] = ('CIM15', [N('Substation', 'k', [('IdentifiedObject.name', 'text', 'other')]),
                               N('VoltageLevel', 't', [('VoltageLevel.Substation', 'ref', 'k')]), N('Breaker', 'v')])
    D['version 14'] = ('CIM14', [N('VoltageLevel', 'v', [('IdentifiedObject.name', 'text', 'V14')]),
                                 N('Breaker', 'k', [('Equipment.EquipmentContainer', 'ref', 'v')])])
    D['about'] = ('CIM15', [N('Breaker', 'k', [('Switch.normalOpen', 'text', 'true'), ('IdentifiedObject.aliasName', 'text', 'alias')], True),
                            N('VoltageLevel', 'v', [('VoltageLevel.lowVoltageLimit', 'text', '1')], True)])
    D['about base class'] = ('CIM15', [N('ConductingEquipment', 'k', [('IdentifiedObject.mRID', 'text', 'm')], True)])
    D['adds'] = ('CIM15', [N('BaseVoltage', 'b', [('BaseVoltage.nominalVoltage', 'text', '20'),
                                                   ('BaseVoltage.ConductingEquipment', 'ref', 'k')]),
                           N('Terminal', 't2', [('Terminal.ConductingEquipment', 'ref', 'k')])])
    D['adds by list'] = ('CIM15', [N('Breaker', 'k', [('ConductingEquipment.Terminals', 'ref', 't3')], True), N('Terminal', 't3')])
    D['clears'] = ('CIM15', [N('Breaker', 'k', [('IdentifiedObject.name', 'text', ''), ('Switch.normalOpen', 'text', 'false')], True)])
    D['empty'] = ('CIM15', [])
    D['broken'] = ('CIM15', None)
    return D


EXTENDS = ('about', 'about base class', 'adds', 'adds by list', 'clears', 'empty')


def of_model(d):
    """The Expected that a real model is."""
    e = rdf.Expected(feats, None)
    names = {id(o): i for i, o in d.items()}
    for i, o in d.items():
        q = '%s:%s' % (type(o).__module__.rpartition('.')[0], type(o).__name__)
        e.cls[i], e.val[i] = q, {}
        for k, (kind, spec, _) in feats.of(q).items():
            v = getattr(o, k)
            if kind == 'ref':
                v = [names.get(id(x), '?outside') for x in v] if spec['many'] else None if v is None else names.get(id(v), '?outside')
            e.val[i][k] = v
    return e


class Session:
    def __init__(self):
        self.last = None            # model used by the extending operations
        self.kept = []              # (model, snapshot) of earlier results
        self.D = docs()

    def text(self, k):
        root, nodes = self.D[k]
        if nodes is None:
            return rdf.text(self.D['base'][1], rdf.NSURI['CIM15'])[:-20]
        return rdf.text(nodes, rdf.NSURI[root])

    def do(self, op):
        """Message if the operation is wrong."""
        verb, k = op
        if verb == 'read':
            root, nodes = self.D[k]
            if nodes is None:
                try:
                    rdf.read(self.text(k))
                except Exception:
                    return None
                return 'a truncated document was read without error'
            want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(nodes).snapshot()
            self.last = rdf.read(self.text(k))
            msg = rdf.difference(rdf.snapshot(feats, self.last), want)
            self.kept.append([self.last, want])
            return msg
        if self.last is None:
            return None
        if verb == 'extend':
            root, nodes = self.D[k]
            if set(n['id'] for n in nodes if not n['about']) & set(self.last):
                return None         # would define an identifier again
            e = of_model(self.last)
            e.map = meta.pkgs[root]['packageMap']
            try:
                want = e.read(nodes).snapshot()
            except (ValueError, KeyError):
                return None         # two values, or an object of a class without the feature
            ids = {i: id(o) for i, o in self.last.items()}
            r = rdf.read(self.text(k), start_dict=self.last)
            if r is not self.last:
                return 'the model passed in is not the one returned'
            for i in ids:
                if i not in r or id(r[i]) != ids[i]:
                    return 'object %s did not keep its identity' % i
            for x in self.kept:
                if x[0] is self.last:
                    x[1] = want
            return rdf.difference(rdf.snapshot(feats, self.last), want)
        if verb == 'mutate':
            for o in list(self.last.values()):
                if k == 'values' and hasattr(o, 'name'):
                    o.name = 'mutated'
                if k == 'none' and hasattr(o, 'name'):
                    o.name = None
                    if hasattr(o, 'normalOpen'):
                        o.normalOpen = None
                if k == 'links' and getattr(o, 'Terminals', None):
                    o.Terminals = []
            if k == 'drop':
                self.last.pop(next(iter(self.last), None), None)
            if k == 'lists':
                for o in self.last.values():
                    for f, (kind, spec, _) in feats.of('%s:%s' % (type(o).__module__.rpartition('.')[0], type(o).__name__)).items():
                        if kind == 'ref' and spec['many']:
                            setattr(o, f, [])
            for x in self.kept:
                if x[0] is self.last:
                    x[1] = rdf.snapshot(feats, self.last)
            return None
        if verb == 'write':
            from PyCIM import cimwrite
            before = rdf.snapshot(feats, self.last)
            try:
                cimwrite(self.last, io.StringIO())
            except Exception:
                return None         # another property's business
            return rdf.difference(rdf.snapshot(feats, self.last), before)

    def earlier(self):
        for i, (d, want) in enumerate(self.kept[:-1]):
            if d is self.last:
                continue
            msg = rdf.difference(rdf.snapshot(feats, d), want)
            if msg:
                return 'the result of read %d changed: %s' % (i + 1, msg)


def alphabet():
    ops = [('read', k) for k in ('base', 'same ids', 'version 14', 'about', 'broken')]
    ops += [('extend', k) for k in EXTENDS]
    ops += [('mutate', k) for k in ('values', 'none', 'links', 'drop', 'lists')] + [('write', '')]
    return ops


def u_seq(u):
    prefix, n = u
    res = core.Result()
    for tail in itertools.product(alphabet(), repeat=n):
        seq = prefix + tail
        s = Session()
        for i, op in enumerate(seq):
            res.add('transitions')
            try:
                msg = s.do(op) or s.earlier()
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s %s' % op, 'after %s: %s' % ('; '.join('%s %s' % o for o in seq[:i + 1]), msg), {'seq': [list(o) for o in seq[:i + 1]]})
                break
        else:
            res.add('traces')
            res.outcome('history')
        res.add('states')
        if len(res.violations) > 3:
            break
    return res


def read_parts(root, parts):
    d = None
    for p in parts:
        t = rdf.text(p, ns_for(root))
        r = rdf.read(t, *args_for(root), **({} if d is None else {'start_dict': d}))
        if d is not None and r is not d:
            raise RuntimeError('another model was returned')
        d = r
    return d


def u_class(q):
    """The object of a class read in parts, after or together with its partners."""
    res = core.Result()
    if not p_order.in_map(q):
        return res
    root = meta.root[q]
    o, ps = full_nodes(q, 0)
    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(ps + [o]).snapshot()
    s = len(o['st']) // 2
    h = len(ps) // 2
    first, second = dict(o, st=o['st'][:s]), dict(o, st=o['st'][s:], about=True)
    odd, even = dict(o, st=o['st'][1::2]), dict(o, st=o['st'][::2], about=True)
    attrs = dict(o, st=[x for x in o['st'] if x[1] != 'ref'], about=False)
    refs = dict(o, st=[x for x in o['st'] if x[1] == 'ref'], about=True)
    bare = dict(o, st=[])
    plans = {'partners, object': [ps, [o]], 'two parts of partners': [ps[:h], ps[h:] + [o]], 'object in two': [ps + [first], [second]],
             'alternate': [ps + [odd], [even]], 'values, partners, links': [[attrs], ps, [refs]], 'bare, partners, all': [[bare], ps, [dict(o, about=True)]],
             'three': [ps[:h], [bare] + ps[h:], [dict(o, about=True)]]}
    back = [dict(o, st=[x], about=True) for x in o['st']]
    plans['one statement at a time'] = [ps + [bare]] + [[b] for b in back]
    for what, parts in plans.items():
        res.add('states')
        res.add('transitions', len(parts))
        try:
            msg = rdf.difference(rdf.snapshot(feats, read_parts(root, parts)), want)
        except Exception as e:
            msg = 'raised %s' % core.exc_name(e)
        if msg:
            res.violation('%s: %s' % (q, what), '%s (%s): %s' % (q, what, msg), {'root': root, 'parts': parts})
        else:
            res.add('traces')
            res.outcome(what)
    return res


def u_cut(root):
    """A network in every division into consecutive parts, whatever order keeps references backward."""
    res = core.Result()
    _, nodes = p_order.mixed(0 if root == 'CIM14' else 1)
    nodes = [dict(n, st=[s for s in n['st'] if s[0] != 'ConnectivityNode.Terminals']) for n in nodes]
    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(nodes).snapshot()
    for order in itertools.permutations(nodes):
        seen, ok = set(), True
        for n in order:
            seen.add(n['id'])
            ok = ok and all(s[2] in seen for s in n['st'] if s[1] == 'ref')
        if not ok:
            continue
        for cuts in itertools.product((0, 1), repeat=len(order) - 1):
            parts = [[order[0]]]
            for c, n in zip(cuts, order[1:]):
                if c:
                    parts.append([])
                parts[-1].append(n)
            res.add('states')
            res.add('transitions', len(parts))
            try:
                msg = rdf.difference(rdf.snapshot(feats, read_parts(root, parts)), want)
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s parts' % root, '%s in parts %s: %s' % (root, [[n['id'] for n in p] for p in parts], msg), {'root': root, 'parts': parts})
                return res
            res.add('traces')
            res.outcome('division of a network')
    return res


def u_place(u):
    """One place (a path, a stream of the caller) that holds one document after the other."""
    kind, n = u
    res = core.Result()
    s = Session()
    names = ['base', 'same ids', 'version 14', 'empty', 'broken', 'base, other prefixes', 'base of 14, other prefixes']
    text, want = {}, {}
    for k in names:
        root, nodes = s.D[k.split(' of')[0].split(',')[0]]
        if k == 'base of 14, other prefixes':
            root, nodes = 'CIM14', s.D['version 14'][1]
        if nodes is not None:
            want[k] = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(nodes).snapshot()
        text[k] = rdf.Spelling(prefix='c', rdfprefix='r').doc(nodes, rdf.NSURI[root]) if 'other' in k else s.text(k)
    size = max(len(t.encode('utf-8')) for t in text.values())
    from PyCIM import cimread
    d = tempfile.mkdtemp(dir=scratch)
    p = os.path.join(d, 'place.xml')
    stream = None
    for seq in itertools.product(names, repeat=n):
        kept = []
        if kind == 'stream':
            stream = io.BytesIO()
        for i, k in enumerate(seq):
            data = text[k].encode('utf-8')
            if k != 'broken':
                data = data.ljust(size)         # the size says nothing about the content
            if kind == 'stream':
                stream.seek(0)
                stream.truncate()
                stream.write(data)
                stream.seek(0)
            elif kind == 'replaced':            # another file under the name
                with open(p + '.new', 'wb') as f:
                    f.write(data)
                os.rename(p + '.new', p)
            else:
                with open(p, 'wb') as f:
                    f.write(data)
            if kind != 'stream':
                os.utime(p, (10 ** 9, 10 ** 9))
            res.add('transitions')
            msg = None
            try:
                r = cimread(stream if kind == 'stream' else p)
            except Exception as e:
                msg = None if k == 'broken' else 'raised %s' % core.exc_name(e)
            else:
                if k == 'broken':
                    msg = 'a truncated document was read without error'
                else:
                    kept.append((r, want[k]))
                    msg = next((m for m in (rdf.difference(rdf.snapshot(feats, x), y) for x, y in kept[::-1]) if m), None)
            if msg:
                res.violation('%s: %s' % (kind, k), 'one %s that held in turn %s: %s' % (kind, '; '.join(seq[:i + 1]), msg), {'seq': []})
                return res
        res.add('states')
        res.add('traces')
        res.outcome('one %s' % kind)
    return res


def u_long(u):
    """Hundreds of reads in a row: of one document, of all in turn, of parts into one model."""
    kind, root = u
    res = core.Result()
    pm = meta.pkgs[root]['packageMap']
    ns = rdf.NSURI[root]
    n = 2500 if core.TIER == 'thorough' else 600

    def part(i):
        return [N('Substation', 's%d' % i, [('IdentifiedObject.name', 'text', 'S%d' % i)]),
                N('VoltageLevel', 'v%d' % i, [('VoltageLevel.Substation', 'ref', 's%d' % (i if i % 5 else 0)), ('VoltageLevel.lowVoltageLimit', 'text', str(i))]),
                N('Breaker', 'k%d' % i, [('Equipment.EquipmentContainer', 'ref', 'v%d' % (i // 2))])]

    def judge(i, d, nodes):
        res.add('states')
        res.add('transitions')
        want = rdf.Expected(feats, pm).read(nodes).snapshot()
        msg = rdf.difference(rdf.snapshot(feats, d), want)
        if msg:
            res.violation('many reads', '%s: read %d of %s: %s' % (root, i, kind, msg), {'seq': []})
            return False
        res.add('traces')
        return True
    try:
        if kind == 'one document':
            first = None
            for i in range(n):
                d = rdf.read(rdf.text(part(0), ns))
                if not judge(i, d, part(0)):
                    return res
                first = first or d
            judge(n, first, part(0))
        elif kind == 'other documents':
            kept = []
            for i in range(n):
                p = [dict(x, st=[s for s in x['st'] if s[1] == 'text' or s[2][1:] == x['id'][1:]]) for x in part(i)]
                d = rdf.read(rdf.text(p, ns))
                if not judge(i, d, p):
                    return res
                kept.append((d, p))
            for i, (d, p) in enumerate(kept):
                if not judge(n + i, d, p):
                    return res
        elif kind == 'parts into one model':
            d, nodes = {}, []
            for i in range(n // 3):
                nodes += part(i)
                r = rdf.read(rdf.text(part(i), ns), start_dict=d)
                if r is not d:
                    res.violation('many reads', '%s: read %d returned another model than the one given' % (root, i), {'seq': []})
                    return res
                if i < 40 or i % 16 in (0, 1) or i > n // 3 - 3:
                    if not judge(i, d, nodes):
                        return res
        else:       # statements about one object, a value each, the last one stays
            d = rdf.read(rdf.text(part(0), ns))
            for i in range(n):
                st = [N('VoltageLevel', 'v0', [('VoltageLevel.lowVoltageLimit', 'text', str(i))], True), N('Terminal', 't%d' % i)]
                d = rdf.read(rdf.text(st, ns), start_dict=d)
                if d['v0'].lowVoltageLimit != i or len(d) != 4 + i:
                    res.violation('many reads', '%s: statement %d about one object: %r, %d objects' % (root, i, d['v0'].lowVoltageLimit, len(d)), {'seq': []})
                    return res
                res.add('transitions')
                res.add('traces')
    except Exception as e:
        res.violation('many reads', '%s: %s: raised %s' % (root, kind, core.exc_name(e)), {'seq': []})
    res.outcome('many reads')
    return res


def u_version(n):
    """Full objects of the class of this name in each version and profile, read one after the other."""
    res = core.Result()
    qs = [q for q in sorted(meta.classes) if q.split(':')[1] == n and p_order.in_map(q)]
    for a in qs:
        for b in qs:
            if a == b:
                continue
            for q in (a, b, a):
                root = meta.root[q]
                o, ps = full_nodes(q, 0)
                res.add('states')
                res.add('transitions')
                try:
                    want = rdf.Expected(feats, meta.pkgs[root]['packageMap']).read(ps + [o]).snapshot()
                    msg = rdf.difference(rdf.snapshot(feats, rdf.read(rdf.text(ps + [o], ns_for(root)), *args_for(root))), want)
                except Exception as e:
                    msg = 'raised %s' % core.exc_name(e)
                if msg:
                    res.violation('class %s of several versions' % n, 'objects of %s, %s and %s read in turn: %s' % (a, b, a, msg), {'seq': []})
                    return res
                res.add('traces')
            res.outcome('classes of versions in turn')
    return res


def u_roots(a):
    """Documents of this version or profile read before and after those of each other one."""
    res = core.Result()

    def doc(root):
        m = meta.pkgs[root]['packageMap']
        common = sorted(c for c in m if '%s:%s' % (m[c], c) in meta.classes and c not in ('Element',))
        nodes = [N(c, 'i%d' % i, [('IdentifiedObject.name', 'text', c)]) for i, c in enumerate(common)]
        return nodes, rdf.Expected(feats, m).read(nodes).snapshot()
    docs = {r: doc(r) for r in roots()}
    for b in roots():
        kept = []
        for k, root in enumerate((a, b, a, b)):
            nodes, want = docs[root]
            res.add('states')
            res.add('transitions')
            try:
                d = rdf.read(rdf.text(nodes, ns_for(root)), *args_for(root))
                kept.append((root, d))
                msg = next((m for m in (rdf.difference(rdf.snapshot(feats, x), docs[r][1]) for r, x in kept) if m), None)
            except Exception as e:
                msg = 'raised %s' % core.exc_name(e)
            if msg:
                res.violation('%s %s' % (a, b), 'documents of %s and %s read in turn, %d: %s' % (a, b, k + 1, msg), {'seq': []})
                return res
            res.add('traces')
        res.outcome('versions and profiles in turn')
    return res


def roots():
    return sorted(r for r, p in meta.pkgs.items() if p.get('packageMap'))


def unit(u):
    return globals()['u_' + u[0]](u[1])


def run(prop):
    global meta, feats, scratch
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    A = alphabet()
    depth = 3 if core.TIER != 'thorough' else 4
    units = [('roots', r) for r in roots()]
    units += [('cut', 'CIM14'), ('cut', 'CIM15')]
    units += [('seq', ((a, b), depth - 2)) for a in A for b in A]
    units += [('seq', ((('read', 'base'), b, c), depth - 2)) for b in A for c in A]
    units += [('version', n) for n in sorted(set(q.split(':')[1] for q in meta.classes))]
    units += [('class', q) for q in sorted(meta.classes)]
    units = [('long', (k, r)) for k in ('one document', 'other documents', 'parts into one model', 'statements') for r in ('CIM14', 'CIM15')] + units
    units = [('place', (k, depth)) for k in ('path', 'replaced', 'stream')] + units
    scratch = tempfile.mkdtemp(prefix='verif-c14-')
    try:
        res = core.run_units(unit, units, horizon=1200)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = history of reads (5 documents), extensions of the last result (6 documents), mutations (5) and '
                          'writes, every sequence up to the bound; transition = operation judged (result against the document alone, '
                          'or against the model before plus the statements; identity kept; earlier results unchanged); plus every '
                          'pair of versions or profiles read in turn; one path and one stream with 7 documents in every sequence; the classes of one name in all versions in turn; every '
                          'class in 8 divisions into parts and a network in every division of every admissible order',
                     extra={'history_bound': depth + 1})


def replay(prop, data):
    global meta, feats
    meta = core.Meta()
    feats = Features(meta)
    p_order.meta, p_order.feats = meta, feats
    if 'seq' in data:
        s = Session()
        for op in data['seq']:
            print(op, s.do(tuple(op)) or s.earlier() or 'ok')
    else:
        d = read_parts(data['root'], data['parts'])
        for k, v in sorted(rdf.snapshot(feats, d).items()):
            print(k, v)
