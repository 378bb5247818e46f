"""Shared machinery of the checks: access to the code under test, the metamodel
oracle, exhaustive enumeration helpers, violations, evidence."""
import importlib
import itertools
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYCIM_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
_prefix = None


def setup(quiet=True):
    """Import from REPO's sources only: no bytecode is read from or written to
    the tree, so that the current text of every module is what runs."""
    global _prefix
    sys.dont_write_bytecode = True
    _prefix = os.path.join(tempfile.gettempdir(), 'verif-nopyc-%d' % os.getpid())
    sys.pycache_prefix = _prefix
    sys.path.insert(0, REPO)
    for m in list(sys.modules):
        if m.split('.')[0] in ('CIM14', 'CIM15', 'PyCIM'):
            del sys.modules[m]
    if quiet:
        warnings.simplefilter('ignore')
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger('PyCIM').setLevel(logging.CRITICAL + 1)
    sys.setrecursionlimit(3000)


# ------------------------------------------------------------------ metamodel

class Meta:
    """The committed metamodel (spec/metamodel.json)."""

    def __init__(self):
        with open(os.path.join(VERIF, 'spec', 'metamodel.json')) as f:
            self.pkgs = json.load(f)
        self.classes = {}
        self.root = {}
        for r, p in self.pkgs.items():
            for q, c in p['classes'].items():
                self.classes[q] = c
                self.root[q] = r

    def chain(self, q):
        """q and its ancestors, most general first."""
        out = []
        while q:
            out.append(q)
            q = self.classes[q].get('super')
        return out[::-1]

    def all_attrs(self, q):
        return [(k, a) for k in self.chain(q) for a in self.classes[k]['attrs']]

    def all_refs(self, q):
        return [(k, r) for k in self.chain(q) for r in self.classes[k]['refs']]

    def ref(self, q, name):
        for r in self.classes[q]['refs']:
            if r['name'] == name:
                return r
        raise KeyError((q, name))

    def subclasses(self, q):
        return [c for c in self.classes if q in self.chain(c)]

    def pairs(self):
        """Every bidirectional association once: ((class, ref), (class, ref))."""
        out = []
        for q, c in self.classes.items():
            for r in c['refs']:
                if 'opp' in r:
                    a, b = (q, r['name']), (r['target'], r['opp'])
                    if a <= b:
                        out.append((a, b))
        return out


def load_class(q):
    mod, name = q.split(':')
    if mod == 'CIM14.ENTSOE.Dynamics.IEC61970.Dynamics':
        # the pinned commit has an import cycle here; whether each module can be
        # imported first is property C08's business, not every check's
        try:
            importlib.import_module('CIM14.ENTSOE.Dynamics.IEC61970.Wires')
        except Exception:
            pass
    return getattr(importlib.import_module(mod), name)


# ------------------------------------------------------------------- reporting

class Result:
    """What one unit of work covered; units are summed by the driver."""

    def __init__(self):
        self.n = {'states': 0, 'transitions': 0, 'traces': 0}
        self.violations = []
        self.samples = []
        self.outcomes = {}

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def outcome(self, key, k=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + k

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, fingerprint, message, replay):
        if len(self.violations) < 40:
            self.violations.append((fingerprint, message, replay))
        else:
            self.add('violations_dropped')

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += o.violations
        self.samples += o.samples


class Hang(BaseException):
    pass


class deadline:
    """Horizon for one execution of the code under test."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def fire(*a):
            raise Hang('no result within %s s' % self.s)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


_job = None


def _run_unit(args):
    fn, unit, horizon = args
    try:
        with deadline(horizon):
            return fn(unit)
    except Hang as e:
        r = Result()
        r.violation('hang:%s' % (unit,), 'unit %r did not terminate: %s' % (unit, e),
                    {'unit': repr(unit)})
        return r
    except Exception:
        r = Result()
        r.harness = traceback.format_exc()
        r.violation('crash:%s' % (unit,), 'unit %r failed outside an expected place:\n%s' % (
            unit, traceback.format_exc()), {'unit': repr(unit), 'trace': traceback.format_exc()})
        return r


def _run_units(jobs):
    return [_run_unit(j) for j in jobs]


def run_units(fn, units, horizon=300, chunk=None):
    """Every unit, over NPROC forked workers; the order of results is fixed."""
    total = Result()
    units = list(units)
    if NPROC <= 1 or len(units) <= 1:
        for u in units:
            total.merge(_run_unit((fn, u, horizon)))
        return total
    chunk = chunk or max(1, min(64, len(units) // (NPROC * 8) or 1))
    limit = QUICK_LIMIT if TIER != 'thorough' else None
    if limit:
        horizon = min(horizon, limit - 150)
    listed, new = known_all(), set()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(NPROC, len(units)), _worker) as pool:
        procs = list(pool._pool)
        it = pool.imap(_run_units, [[(fn, u, horizon) for u in units[i:i + chunk]] for i in range(0, len(units), chunk)])
        done = 0
        while True:
            try:
                rs = it.next(5)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                if any(p.exitcode not in (None, 0) for p in procs):
                    total.violation('worker', 'a process that explored the code died (%s) after %d of %d units' % (
                        [p.exitcode for p in procs if p.exitcode], done, len(units)), {})
                    break
            else:
                done += len(rs)
                for r in rs:
                    total.merge(r)
                    new |= {fp for fp, _, _ in r.violations if fp not in listed}
            if limit and time.time() - START > limit or len(new) >= 150:
                break
        if done < len(units):
            total.add('units_not_explored', len(units) - done)
            pool.terminate()
    return total


QUICK_LIMIT = 780           # seconds; a quick run stops there and says what it did not explore
START = time.time()


def _worker():
    """Memory that a faulty tree uses up without end is an error of one unit."""
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
    except (ValueError, OSError):
        pass


def known_all():
    out = set()
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property='):
                out.add(line.strip().split(' ', 2)[2].partition(' | ')[0].strip().replace('fingerprint=', '', 1))
    return out


def known(prop):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                fp, _, what = rest.partition(' | ')
                out[fp.strip().replace('fingerprint=', '', 1)] = what
    return out


def finish(prop, level, result, t0, rule, assumptions=(), extra=None, exhaustive=True):
    """Prints the verdict, writes the evidence file, returns the exit status."""
    kn = known(prop)
    hit, bad, seen = set(), [], set()
    for fp, msg, rep in result.violations:
        if fp in kn:
            hit.add(fp)
        elif fp not in seen:
            seen.add(fp)
            bad.append((fp, msg, rep))
    for fp in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[fp]))
    rdir = os.path.join(VERIF, 'replays', prop)
    if os.path.isdir(rdir):
        shutil.rmtree(rdir, ignore_errors=True)
    for i, (fp, msg, rep) in enumerate(bad[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%02d.json' % i)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'fingerprint': fp, 'message': msg, 'replay': rep}, f, indent=1,
                      default=repr)
        print('# %s' % msg.replace('\n', '\n# '))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if len(bad) > 10:
        print('# ... and %d more violations' % (len(bad) - 10))
    cov = {'states': result.n['states'], 'transitions': result.n['transitions'],
           'traces_validated_against_impl': result.n['traces'],
           'samples': result.samples[:6], 'rule': rule, 'exhaustive': exhaustive,
           'distinct_outcomes': len(result.outcomes),
           'outcomes': dict(sorted(result.outcomes.items(), key=lambda kv: -kv[1])[:12])}
    for k, v in result.n.items():
        if k not in ('states', 'transitions', 'traces'):
            cov[k] = v
    cov.update(extra or {})
    if result.n.get('units_not_explored'):
        cov['exhaustive'] = False
    ev = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED,
          'level': level, 'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    if result.n.get('units_not_explored'):
        print('not explored: %d units of work (%s)' % (result.n['units_not_explored'], 'violations enough' if bad else 'time limit'))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d known=%d violations=%d in %.1fs' % (
        prop, ev['tier'], cov['states'], cov['transitions'], result.n['traces'],
        len(result.outcomes), len(hit), len(bad), ev['wall_s']))
    if result.n['traces'] == 0 and not bad:
        print('nothing was explored', file=sys.stderr)
        return 2
    return 1 if bad else 0


# ------------------------------------------------------------ enumeration aids

def heap_canon(roots, names, marks):
    """A canonical form of the heap reachable from roots (fixed order) through
    __dict__ and containers, with list identity (aliasing) kept.  names maps
    id(object) -> stable name; marks maps id(list) -> tag for caller-owned lists.
    Two worlds with equal forms have the same futures under the same operations,
    since everything an operation can reach is in the form."""
    num = {}
    out = []
    todo = list(roots)
    done = set()
    flat = _FLAT

    def tok(v):
        if type(v) in flat:
            return repr(v)
        i = id(v)
        n = names.get(i) or num.get(i)
        if n is None:
            n = num[i] = '#%d' % len(num)
            todo.append(v)
        return n + marks[i] if i in marks else n
    k = 0
    while k < len(todo):
        v = todo[k]
        k += 1
        i = id(v)
        if i in done:
            continue
        done.add(i)
        head = names.get(i) or num.get(i) or '?'
        t = type(v)
        if t is list or t is tuple:
            out.append(head + '[' + ','.join([tok(x) for x in v]) + ']')
        elif isinstance(v, (set, frozenset)):
            out.append(head + 's[' + ','.join(sorted(map(tok, v))) + ']')
        elif isinstance(v, dict):
            out.append(head + '{' + ','.join('%s:%s' % (tok(a), tok(x)) for a, x in v.items()) + '}')
        elif isinstance(v, type) or not hasattr(v, '__dict__'):
            out.append(head + '=' + t.__name__ + (repr(v) if not callable(v) else ''))
        else:
            out.append(head + '(' + ','.join([a + '=' + (repr(x) if type(x) in flat else tok(x))
                                              for a, x in vars(v).items()]) + ')')
    return '|'.join(out)


_FLAT = frozenset([type(None), bool, int, float, str, bytes])


def tuples(items, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(items, repeat=n)


def exc_name(e):
    return '%s: %s' % (type(e).__name__, str(e)[:120])
