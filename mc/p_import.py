"""C08: import orders.  Every import sequence runs in its own forked interpreter in
which nothing of the library is loaded.  State = set of library modules loaded."""
import compileall
import importlib
import os
import pickle
import shutil
import sys
import tempfile

import core

meta = None
ROOTS = ('CIM14', 'CIM15', 'PyCIM')


def modules():
    out = []
    for root in ROOTS:
        for d, ds, fs in os.walk(os.path.join(core.REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'Test'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    m = os.path.relpath(os.path.join(d, f), core.REPO)[:-3].replace(os.sep, '.')
                    out.append(m[:-9] if m.endswith('.__init__') else m)
    return sorted(out)


def is_package(m):
    return os.path.isdir(os.path.join(core.REPO, m.replace('.', os.sep)))


def loaded():
    return sorted(m for m in sys.modules if m.split('.')[0] in ROOTS)


def problems():
    """Wrong or ambiguous classes among what is loaded."""
    out, seen = [], {}
    for m in loaded():
        mod = sys.modules[m]
        if mod is None:
            continue
        for n, v in list(vars(mod).items()):
            if isinstance(v, type) and v.__module__.split('.')[0] in ('CIM14', 'CIM15'):
                k = (v.__module__, v.__qualname__)
                if seen.setdefault(k, v) is not v:
                    out.append('two different classes %s.%s, one of them in %s' % (k + (m,)))
        pk, _, n = m.rpartition('.')
        if '%s:%s' % (pk, n) in meta.classes:
            K = getattr(mod, n, None)
            L = getattr(sys.modules.get(pk), n, None)
            if not isinstance(K, type):
                out.append('module %s has no class %s' % (m, n))
            elif L is not K:
                out.append('package %s gives %r for %s, the module gives %r' % (pk, L, n, K))
    for q in meta.classes:
        pk, n = q.split(':')
        if pk in sys.modules and not isinstance(getattr(sys.modules[pk], n, None), type):
            out.append('package %s is loaded and does not provide %s: %r' % (pk, n, getattr(sys.modules[pk], n, None)))
    return out[:5]


def sequence(seq):
    """Runs the imports in a fork; returns (number of imports done, error, problems, modules)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            done, err, pr = 0, None, []
            for m in seq:
                try:
                    importlib.import_module(m)
                    done += 1
                except BaseException as e:
                    err = '%s: %s' % (m, core.exc_name(e))
                    break
            try:
                if err is None:
                    pr = problems()
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((done, err, pr, hash(tuple(loaded())), len(loaded())), f)
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else (0, 'the interpreter died', [], 0, 0)


def unit(seqs):
    res = core.Result()
    for seq in seqs:
        done, err, pr, h, n = sequence(seq)
        res.add('transitions', done)
        res.outcome('loaded %s' % h)
        what = ' then '.join(seq[:3]) + (' and %d more' % (len(seq) - 3) if len(seq) > 3 else '')
        if err:
            res.violation('import %s' % err.split(':')[0], 'importing %s: %s' % (what, err), {'seq': list(seq)})
        elif pr:
            res.violation('identity %s' % pr[0], 'after importing %s: %s' % (what, '; '.join(pr)), {'seq': list(seq)})
        else:
            res.add('traces')
        res.sample({'imports': list(seq[:3]), 'modules_loaded': n}, 1)
    return res


def sequences():
    ms = modules()
    pk = [m for m in ms if is_package(m)]
    out = [(m,) for m in ms]

    def root(m):
        best = m.split('.')[0]
        for r in meta.pkgs:
            if (m + '.').startswith(r + '.') and len(r) > len(best):
                best = r
        return best
    by = {}
    for m in ms:
        by.setdefault(root(m), []).append(m)
    for m in pk:                        # a package first, then everything of its model, both ways round
        rest = [x for x in by[root(m)] if x != m]
        out.append((m,) + tuple(rest))
        out.append((m,) + tuple(rest[::-1]))
    out += [tuple(ms), tuple(ms[::-1])]
    # one model completely, then another
    tops = sorted(by)
    for a in tops:
        for b in tops:
            if a != b:
                out.append((a,) + (b,))
    # the reader and the writer on either side of every package
    for m in pk:
        out.append(('PyCIM', m))
        out.append((m, 'PyCIM'))
    if core.TIER == 'thorough':
        for a in pk:
            for b in pk:
                if a != b:
                    out.append((a, b))
        for r in by:                    # every pair of modules within a profile
            if '.' in r:
                for a in by[r]:
                    for b in by[r]:
                        if a != b:
                            out.append((a, b))
        for r in ('CIM14', 'CIM15'):    # every module, then every package of its model
            for a in by[r]:
                out.append((a,) + tuple(p for p in pk if root(p) == r))
                out.append((a,) + tuple(p for p in pk[::-1] if root(p) == r))
    return out


def prepare():
    """Compile once into a scratch directory: thousands of imports follow."""
    d = tempfile.mkdtemp(prefix='verif-pyc-')
    sys.pycache_prefix = d
    sys.stdout.flush()
    for root in ROOTS:
        compileall.compile_dir(os.path.join(core.REPO, root), quiet=2, workers=core.NPROC)
    sys.dont_write_bytecode = True
    return d


def run(prop):
    global meta
    meta = core.Meta()
    d = prepare()
    try:
        seqs = sequences()
        k = 12 if core.TIER != 'thorough' else 60
        short = [s for s in seqs if len(s) <= 2]
        units = [[s] for s in seqs if len(s) > 2] + [short[i:i + k] for i in range(0, len(short), k)]
        res = core.run_units(unit, units, horizon=600, chunk=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.n['states'] = len(res.outcomes)
    return res, dict(level='model_checking',
                     rule='trace = import sequence in a fresh interpreter (every module first; every package first and then all of '
                          'its model forwards and backwards; every pair of models; PyCIM before and after every package); transition '
                          '= import; state = distinct set of loaded modules; after each sequence every class is compared across all '
                          'ways to reach it',
                     assumptions=['a module that is completely loaded behaves the same for whoever imports it'])


def replay(prop, data):
    global meta
    meta = core.Meta()
    print(sequence(data['seq'])[:3])
