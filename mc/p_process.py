"""C27: the same inputs give the same results in every process: hash seeds, locales,
optimisation levels, working directories, import orders, time zones, recursion limits."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__':
    sys.path.insert(0, HERE)    # -I leaves it out
import core

scratch = None
LEAD = {'reader': 'PyCIM.RDFXMLReader', 'cim14': 'CIM14', 'wires15': 'CIM15.IEC61970.Wires', 'writer': 'PyCIM.RDFXMLWriter',
        'topology14': 'CIM14.IEC61970.Topology', 'profile': 'CIM15.CDPSM.Balanced'}


LOGS = ('debug', 'info', 'critical', 'disabled', 'no propagation', 'handler', 'logger class', 'raise off')


def configure(log):
    import logging
    name = 'PyCIM.RDFXMLReader'
    if log in ('debug', 'info', 'critical'):
        logging.basicConfig(level=log.upper(), stream=open(os.devnull, 'w'))
        logging.getLogger(name).setLevel(log.upper())
        logging.disable(logging.NOTSET)
    elif log == 'disabled':
        logging.disable(logging.CRITICAL)
        for n in (name, 'PyCIM.RDFXMLWriter', 'PyCIM'):
            logging.getLogger(n).disabled = True
    elif log == 'no propagation':
        logging.getLogger(name).propagate = False
        logging.getLogger(name).addHandler(logging.NullHandler())
        logging.disable(logging.NOTSET)
    elif log == 'handler':
        class Keep(logging.Handler):
            def emit(self, r):
                r.getMessage()
        logging.getLogger().addHandler(Keep(1))
        logging.getLogger().setLevel(1)
        logging.disable(logging.NOTSET)
    elif log == 'logger class':
        class L(logging.Logger):
            pass
        logging.setLoggerClass(L)
    elif log == 'raise off':
        logging.raiseExceptions = False


STATES = ('clock still', 'clock backwards', 'clock leaps', 'clock at 0', 'clock of another day', 'gc always', 'gc never', 'few files', 'twice', 'thread', 'small stack', 'fork',
          'event loop', 'deep stack', 'no streams', 'signals', 'umask', 'another user', 'decimal', 'trace', 'profile', 'switches', 'daemon')


def prepare(state):
    """The state of the process before the library is imported."""
    import gc
    import time
    if state.startswith('clock'):
        real, n = time.time(), [0]

        def clock():
            n[0] += 1
            return {'still': real, 'backwards': real - 100 * n[0], 'leaps': real + 1e7 * n[0], 'at 0': 0.0, 'of another day': 4e9 + n[0]}[state[6:]]
        time.time = time.perf_counter = time.process_time = clock
    elif state == 'gc always':
        gc.set_threshold(1, 1, 1)
    elif state == 'gc never':
        gc.disable()
    elif state == 'few files':
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
    elif state == 'umask':
        os.umask(0o777 if os.getuid() == 0 else 0o077)
    elif state == 'another user' and os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    elif state == 'decimal':
        import decimal
        decimal.getcontext().prec = 2
        decimal.getcontext().traps[decimal.Inexact] = True
    elif state == 'signals':
        import signal
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, 0.002, 0.002)
    elif state == 'switches':
        sys.setswitchinterval(1e-6)


def around(state, compute):
    """The results, computed in the given surroundings."""
    import threading
    if state == 'twice':
        compute()
    elif state in ('thread', 'small stack', 'daemon'):
        if state == 'small stack':
            threading.stack_size(256 * 1024)
        out = []
        t = threading.Thread(target=lambda: out.append(compute()), daemon=state == 'daemon')
        t.start()
        t.join()
        return out[0]
    elif state == 'fork':
        compute()
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(compute()))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            t = f.read()
        os.waitpid(pid, 0)
        return json.loads(t)
    elif state == 'event loop':
        import asyncio

        async def main():
            return compute()
        return asyncio.run(main())
    elif state == 'deep stack':
        def down(n):
            return compute() if not n else down(n - 1)
        return down(600)
    elif state == 'no streams':
        keep = sys.stdin, sys.stdout, sys.stderr
        sys.stdin = sys.stdout = sys.stderr = None
        try:
            return compute()
        finally:
            sys.stdin, sys.stdout, sys.stderr = keep
    elif state == 'trace':
        sys.settrace(lambda *a: None)
        try:
            return compute()
        finally:
            sys.settrace(None)
    elif state == 'profile':
        import cProfile
        p = cProfile.Profile()
        return p.runcall(compute)
    elif state == 'switches':
        stop = []

        def spin():
            while not stop:
                sum(range(100))
        ts = [threading.Thread(target=spin) for _ in range(2)]
        for t in ts:
            t.start()
        try:
            return compute()
        finally:
            stop.append(1)
            for t in ts:
                t.join()
    elif state == 'signals':
        import signal
        try:
            return compute()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0, 0)
    return compute()


def job():
    """Runs in the process examined: prints the results as JSON."""
    sys.path.insert(0, HERE)
    import hashlib
    import importlib
    import io
    first, out = sys.argv[2], sys.argv[3]
    if sys.argv[4:] and sys.argv[4] in ('logger class', 'raise off'):
        configure(sys.argv[4])
    if sys.argv[4:]:
        prepare(sys.argv[4])
    core.setup(quiet=False)
    if sys.argv[4:]:
        configure(sys.argv[4])
    importlib.import_module(LEAD[first])
    import rdf
    import p_order
    import p_roundtrip
    from feat import Features
    meta = core.Meta()
    feats = Features(meta)
    for m in (p_order, p_roundtrip):
        m.meta, m.feats = meta, feats
    from PyCIM import cimread, cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    def compute():
        res = {}

        def h(x):
            return hashlib.sha256(x if isinstance(x, bytes) else x.encode('utf-8')).hexdigest()[:16]

        def dump(d):
            """Everything that can be seen, in the order in which it is seen."""
            name = {id(o): i for i, o in d.items()}
            rows = []
            for i, o in d.items():
                rows.append((i, type(o).__module__, type(o).__name__))
                for c in type(o).__mro__[:-1]:
                    for k in list(getattr(c, '_attrs', [])) + list(getattr(c, '_refs', [])):
                        v = getattr(o, k)
                        rows.append((k, [name.get(id(x), '?') for x in v] if isinstance(v, list) else
                                     name.get(id(v), '?') if hasattr(v, 'UUID') else repr(v)))
            return json.dumps(rows)

        def text_of(d, encoding='utf-8'):
            s = io.StringIO()
            cimwrite(d, s, encoding)
            return s.getvalue()
        qs = [q for q in sorted(meta.classes) if p_order.in_map(q)]
        for q in qs[::1 if out == 'all' else 9]:
            o, ps = p_order.full_nodes(q)
            doc = rdf.text([o] + ps, p_order.ns_for(meta.root[q]))
            d = rdf.read(doc, *p_order.args_for(meta.root[q]))
            res['read ' + q] = h(dump(d))
            res['write ' + q] = h(text_of(d))
        for k in (0, 1):
            root, nodes = p_order.mixed(k)
            nodes[0]['st'].append(('IdentifiedObject.aliasName', 'text', '\xe9 \u4e2d \U0001f600 &<'))
            doc = rdf.text(nodes, rdf.NSURI[root])
            d = rdf.read(doc)
            res['network %s' % root] = dump(d)
            for enc in ('utf-8', 'us-ascii', 'iso-8859-1'):
                p = os.path.join(os.environ['VERIF_SCRATCH'], '%d.xml' % os.getpid())
                cimwrite(d, p, enc)
                with open(p, 'rb') as f:
                    b = f.read()
                res['file %s %s' % (root, enc)] = repr(b)
                res['file read %s %s' % (root, enc)] = dump(cimread(p))
                rel = os.path.relpath(p)
                res['relative %s %s' % (root, enc)] = dump(cimread(rel))
                os.remove(p)
            pp = xmlpp(io.StringIO(text_of(d)))
            res['pretty %s' % root] = repr(pp)
            both = dict(d)
            res['order %s' % root] = text_of(dict(reversed(list(both.items()))))
        # content that is left out, and reported
        C = 'xmlns:cim="%s#"' % rdf.NSURI['CIM15']
        for what, head, body in (
                ('unknown', 'xmlns:rdf="%s" %s' % (rdf.RDF, C), '<cim:Nope rdf:ID="n"/><cim:Breaker rdf:ID="k"><cim:Breaker.nope>1</cim:Breaker.nope>'
                 '<cim:Equipment.EquipmentContainer rdf:resource="#gone"/><cim:ConductingEquipment.Terminals rdf:resource="urn:x"/></cim:Breaker>'),
                ('other prefix', 'xmlns:r="%s" %s' % (rdf.RDF, C), '<cim:Breaker r:ID="k"/>'),
                ('unknown version', 'xmlns:rdf="%s" xmlns:cim="http://iec.ch/TC57/2003/CIM-schema-cim10#"' % rdf.RDF, '<cim:Breaker rdf:ID="k"/>'),
                ('no version', 'xmlns:rdf="%s"' % rdf.RDF, '')):
            p = 'rdf' if 'xmlns:rdf' in head else 'r'
            try:
                res['left out: ' + what] = dump(rdf.read('<%s:RDF %s>%s</%s:RDF>' % (p, head, body, p)))
            except Exception as e:
                res['left out: ' + what] = core.exc_name(e)
        for what, text in (('cut', '<rdf:RDF'), ('empty', '')):
            try:
                res['broken: ' + what] = dump(rdf.read(text))
            except Exception as e:
                res['broken: ' + what] = core.exc_name(e)
        # two versions in one model
        d = rdf.read(rdf.text(p_order.mixed(1)[1], rdf.NSURI['CIM15']))
        e = rdf.read(rdf.text([dict(n, id=n['id'] + '4', st=[]) for n in p_order.mixed(0)[1]], rdf.NSURI['CIM14']))
        d.update(e)
        res['both versions'] = text_of(d)
        return res
    sys.stdout.write(json.dumps(around(sys.argv[4] if sys.argv[4:] else None, compute)))
    sys.stdout.flush()


def configs():
    out = []
    seeds = range(48 if core.TIER == 'thorough' else 16)
    for s in seeds:
        out.append({'seed': s})
    for loc, u8 in itertools.product(('C', 'POSIX', 'C.UTF-8', 'en_US.ISO-8859-1', ''), ('0', '1', None)):
        out.append({'locale': loc, 'utf8': u8})
    for flag in ('-O', '-OO', '-X dev', '-I', '-S', '-W ignore', '-W error', '-W always', '-bb', '-E', '-s', '-R', '-P', '-q', '-u', '-d',
                 '-X utf8', '-X tracemalloc', '-X no_debug_ranges', '-X frozen_modules=off', '-X int_max_str_digits=0', '-X faulthandler', '-O -W error -bb -I'):
        out.append({'flags': flag})
    for log in LOGS:
        out.append({'log': log})
    for state in STATES:
        out.append({'state': state})
    for cwd in ('/', 'scratch'):
        out.append({'cwd': cwd})
    for first in LEAD:
        out.append({'first': first})
        out.append({'first': first, 'seed': 7})
    for tz in ('UTC', 'Asia/Tokyo', 'America/St_Johns'):
        out.append({'tz': tz})
    for k, v in (('PYTHONIOENCODING', 'ascii'), ('PYTHONINTMAXSTRDIGITS', '640'), ('PYTHONMALLOC', 'debug'), ('COLUMNS', '20'),
                 ('HOME', '/nonexistent'), ('TMPDIR', '/nonexistent'), ('LANGUAGE', 'de'), ('PYTHONDONTWRITEBYTECODE', '')):
        out.append({'env': [k, v]})
    out.append({'all': 1, 'seed': 1})
    out.append({'all': 1, 'seed': 2, 'first': 'profile'})
    return out


def launch(c):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
    env.update(PYTHONHASHSEED=str(c.get('seed', 0)), VERIF_SCRATCH=scratch, PYCIM_REPO=core.REPO, VERIF_TIER='quick')
    if 'locale' in c:
        env['LC_ALL'] = c['locale']
        if c['utf8'] is not None:
            env['PYTHONUTF8'] = c['utf8']
    if 'tz' in c:
        env['TZ'] = c['tz']
    if 'env' in c:
        env[c['env'][0]] = c['env'][1]
    cwd = scratch if c.get('cwd') == 'scratch' else c.get('cwd', core.VERIF)
    cmd = [sys.executable, '-B'] + c.get('flags', '').split() + [os.path.abspath(__file__), 'job', c.get('first', 'reader'), 'all' if c.get('all') else 'some'] + [c[k] for k in ('log', 'state') if k in c]
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250)
    if p.returncode:
        return None, p.stderr.decode('utf-8', 'replace')[-400:]
    return json.loads(p.stdout.decode('ascii')), None


_base = {}


def base(kind):
    p = os.path.join(scratch, 'base.' + kind)
    with open(p) as f:
        return json.load(f)


def unit(c):
    res = core.Result()
    got, err = launch(c)
    res.add('states')
    want = base('all' if c.get('all') else 'some')
    res.add('transitions', len(want))
    if err is not None:
        res.violation('process %s' % (c,), 'in the process %s: failed: %s' % (c, err), {'config': c})
        return res
    bad = sorted(k for k in set(want) | set(got) if want.get(k) != got.get(k))
    if bad:
        k = bad[0]
        res.violation('process %s' % (c,), 'in the process %s: %d results differ from those of other processes, first: %s is %s, elsewhere %s' % (
            c, len(bad), k, str(got.get(k))[:500], str(want.get(k))[:500]), {'config': c, 'what': bad[:20]})
        return res
    res.add('traces', len(want))
    res.outcome(','.join(sorted(c)))
    res.sample({'process': c, 'results': len(got)}, 1)
    return res


def run(prop):
    global scratch
    scratch = tempfile.mkdtemp(prefix='verif-c27-')
    os.chmod(scratch, 0o1777)
    try:
        res = core.Result()
        for kind in ('some', 'all'):
            got, err = launch({'all': kind == 'all'})
            if err is not None:
                res.violation('process', 'the reference process failed: %s' % err, {'config': {}})
                break
            with open(os.path.join(scratch, 'base.' + kind), 'w') as f:
                json.dump(got, f)
        else:
            res = core.run_units(unit, configs(), chunk=1, horizon=280)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res, dict(level='model_checking',
                     rule='state = configuration of a fresh process (hash seeds, locales x UTF-8 mode, interpreter flags, working '
                          'directories, module imported first, time zones, environment, logging, clocks, collector, limits, threads, users); transition = one result (model read, text '
                          'written, pretty print) compared with that of the reference process; trace = one that agreed',
                     assumptions=['the hash seeds enumerated stand for all; one configuration dimension at a time, and seeds with imports'])


def replay(prop, data):
    print(data)


if __name__ == '__main__':
    job()
