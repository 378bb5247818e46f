"""C01, C02, C03: the three kinds of bidirectional association."""
import assoc
import core

KIND = {'C01': '1-n', 'C02': '1-1', 'C03': 'm-n'}


def units(prop, meta, tier):
    out = []
    for a, b in meta.pairs():
        A = assoc.Assoc(a, b, meta.ref(*a)['many'], meta.ref(*b)['many'])
        if A.kind != KIND[prop]:
            continue
        out.append((A.spec(), 'own'))
        for s, (q, r) in enumerate((a, b)):
            for c in meta.subclasses(q):
                if c != q and not meta.classes[c].get('abstract'):
                    sp = A.spec()
                    sp['cls'] = list(sp['cls'])
                    sp['cls'][s] = c
                    if A.selfassoc:
                        sp['cls'] = [c, c]
                        if s == 1:
                            continue
                    sp['mix'] = [[c, q, c] if e == s or A.selfassoc else None for e in (0, 1)]
                    near = [k for k in meta.chain(c) if any(x['name'] == r for x in meta.classes[k]['refs'])][-1]
                    out.append((sp, 'inherited' if near == q else 'hidden'))
    return out


def unit(u):
    spec, how = u
    asc = assoc.from_spec(spec)
    asc.selfassoc = asc.selfassoc and asc.cls[0] == asc.cls[1]
    res = core.Result()
    thorough = core.TIER == 'thorough'
    k = asc.kind
    n1 = (2, 3) if asc.many[0] else (3, 2)         # more members than owners
    big = (2, 5) if asc.many[0] else (5, 2)
    ex = assoc.explore
    if how == 'hidden':
        # a class between redeclares the reference: its name leads to the other association
        asc.mix = (None, None)
        ex(asc, (2, 2), 'small', 1, res)
        res.violations = [('redeclared: %s' % asc, m, r) for f, m, r in res.violations[:1]]
        return res
    if how == 'inherited':
        # the pool mixes objects of the class with one of the class that has the reference
        size = tuple(3 if m else 2 for m in asc.mix)
        start = assoc.populated(asc, assoc.World(asc, size).side)
        if thorough:
            ex(asc, size, 'small', 1, res)
        ex(asc, size, 'small', 9 if thorough and k != 'm-n' else 1, res, start=start, uuids='desc')
        return res
    if k == '1-1':
        ex(asc, (2, 3), 'full', 99, res)
        ex(asc, (3, 3), 'full' if thorough else 'small', 99, res, uuids='desc')
    elif k == '1-n':
        if asc.selfassoc and not thorough:
            ex(asc, (2, 2), 'full', 99, res)
            ex(asc, n1, 'small', 2, res)
        else:
            ex(asc, n1, 'full' if thorough else 'small', 99, res)
        ex(asc, big, 'wide', 3 if thorough else 2, res, uuids='desc')
        many = (2, 40) if asc.many[0] else (40, 2)
        ex(asc, many, 'wide', 2 if thorough else 1, res, start=assoc.populated(asc, assoc.World(asc, many).side))
    else:
        ex(asc, (2, 2), 'full' if thorough else 'small', 99, res)
        ex(asc, (2, 3), 'small', (3 if asc.selfassoc else 99) if thorough else 1, res,
           start=() if thorough else assoc.populated(asc, assoc.World(asc, (2, 3)).side))
        ex(asc, (3, 4), 'wide', 3 if thorough else 2, res, uuids='desc')
        ex(asc, (3, 30), 'wide', 1, res, start=assoc.populated(asc, assoc.World(asc, (3, 30)).side))
    return res


def run(prop):
    meta = core.Meta()
    us = units(prop, meta, core.TIER)
    # the heavy ones first, so that the pool drains evenly
    us.sort(key=lambda u: u[1] != 'own')
    res = core.run_units(unit, us, horizon=800, chunk=4)
    res.n['associations'] = sum(1 for u in us if u[1] == 'own')
    res.n['inherited_ends'] = sum(1 for u in us if u[1] == 'inherited')
    return res, dict(
        level='model_checking',
        rule='state = canonical form of the real heap reachable from the pool (values, links, list order and list '
             'identity); transition = one public operation executed on fresh objects brought to the state by its '
             'history and compared with the link-set model; trace = one association and pool explored breadth-first '
             '(spaces_closed of them to the fixpoint, so every history on that pool is covered)',
        assumptions=['pools of at most 2-5 objects per end (and one with 30-40 members, one operation from a populated state); operations with at most as many arguments as the pool',
                     'objects behave as functions of the heap reachable from them (no clocks, no globals)'])


def replay(prop, data):
    assoc.replay(data)
