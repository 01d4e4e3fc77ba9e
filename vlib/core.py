"""Runtime-monitoring harness.

A check is a set of *scenarios*.  A scenario is a generator of executions: it
drives the real code (imported from /repo) with inputs drawn from a per-case
deterministic random generator, while oracles observe what comes back across
the public API boundary.  The oracles are pure functions of the observed
events; every comparison is counted and a scenario whose oracles were never
reached makes the run inconclusive (exit 2), never "held".
"""
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = 120.0   # CPU seconds for a single case (normally milliseconds)
MEM_LIMIT = 12 << 30    # address space of a process (normally below 2 GB)
QUICK_DEADLINE = 480.0  # no further cases are started after this wall time in the quick tier
# The quick tier runs so many times the nominal number of cases.
QUICK_FACTOR = {'C11': 2, 'C14': 2, 'C16': 1, 'C17': 2, 'C19': 1, 'C25': 1.5}


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__('{0}: {1}'.format(mech, msg))
        self.mech = mech
        self.msg = msg


class Skip(Exception):
    """The generated case is outside the domain of the property (decided by the
    oracle side only, never by the behaviour of the code under test)."""


class Nontermination(BaseException):
    pass


class Scenario:
    def __init__(self, name, fn, quick, thorough, big=False):
        self.name, self.fn, self.quick, self.thorough, self.big = name, fn, quick, thorough, big


class Check:
    """Registry of the scenarios of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.scenarios = []
        self.pristine = False    # needs the server of vlib.pristine

    def scenario(self, quick, thorough=None, big=False):
        """big: every twelfth case draws its sizes from a range several times as large."""
        def deco(fn):
            t = thorough if thorough is not None else quick * 15
            self.scenarios.append(Scenario(fn.__name__, fn, quick, t, big))
            return fn
        return deco


def _short(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size <= 12:
            return '{0}{1}:{2}'.format(v.dtype, v.shape, np.array2string(v, precision=5, separator=',').replace('\n', ''))
        return '{0}{1}#{2}'.format(v.dtype, v.shape, hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:10])
    if isinstance(v, float):
        return '{0:.8g}'.format(v)
    if isinstance(v, dict):
        return '{' + ', '.join('{0}: {1}'.format(k, _short(x)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(_short(x) for x in v) + ']'
    return str(v)


class Ctx:
    """One case: random source, oracle comparisons and bookkeeping."""

    def __init__(self, prop, scenario, seed, index, tier):
        import numpy as np
        self.prop, self.scenario, self.seed, self.index, self.tier = prop, scenario, seed, index, tier
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + scenario).encode()), index])
        self.n_checks = 0
        self.n_values = 0
        self.notes = {}
        self.kinds = {}

    # -- description of the case ------------------------------------------
    def note(self, **kw):
        self.notes.update(kw)

    def describe(self):
        return {k: _short(v) for k, v in self.notes.items()}

    def digest(self):
        return hashlib.sha1(json.dumps([self.scenario, self.describe()], sort_keys=True).encode()).hexdigest()

    def skip(self, reason=''):
        raise Skip(reason)

    # -- oracles ------------------------------------------------------------
    def _count(self, mech, n=1):
        self.n_checks += 1
        self.n_values += int(n)
        self.kinds[mech] = self.kinds.get(mech, 0) + 1

    def ok(self, cond, mech, msg=''):
        self._count(mech)
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)

    def eq(self, actual, expected, mech, msg=''):
        self._count(mech)
        if type(actual).__module__ == 'numpy' and getattr(actual, 'ndim', 0):
            raise Violation(mech, 'array where a scalar value was expected: {0}'.format(_short(actual)))
        if not (actual == expected):
            raise Violation(mech, '{0} expected {1!r}, got {2!r}'.format(msg, expected, actual))

    def close(self, actual, expected, mech, rtol=1e-9, atol=0.0, msg=''):
        """|actual - expected| <= atol + rtol * |expected|, shapes equal, NaN never equal."""
        import numpy as np
        e = np.asarray(expected)
        try:
            a = np.asarray(actual)
        except Exception as ex:
            raise Violation(mech, 'result is not an array: {0!r}'.format(ex))
        self._count(mech, e.size)
        if a.shape != e.shape:
            raise Violation(mech, '{0} shape {1}, expected {2}'.format(msg, a.shape, e.shape))
        if a.dtype == object or a.dtype.kind in 'US':
            raise Violation(mech, '{0} result has dtype {1}'.format(msg, a.dtype))
        if e.size == 0:
            return
        with np.errstate(all='ignore'):
            same = (a == e)
            err = np.abs(a - e)
            lim = atol + rtol * np.abs(e)
            bad = ~(same | (err <= lim))
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err / np.maximum(lim, 1e-300)), -1)), e.shape) if e.ndim else ()
            raise Violation(mech, '{0} {1} of {2} values differ; worst at {3}: got {4!r}, expected {5!r}, tolerance {6:.3g}'.format(
                msg, int(np.sum(bad)), e.size, i, a[i], e[i], float(np.broadcast_to(lim, e.shape)[i])))

    def same(self, actual, expected, mech, msg=''):
        """Exact array equality (values and shape)."""
        import numpy as np
        a, e = np.asarray(actual), np.asarray(expected)
        self._count(mech, e.size)
        if a.shape != e.shape:
            raise Violation(mech, '{0} shape {1}, expected {2}'.format(msg, a.shape, e.shape))
        if not np.array_equal(a, e):
            raise Violation(mech, '{0} got {1}, expected {2}'.format(msg, _short(a), _short(e)))

    def again(self, actual, expected, mech, msg='', rtol=1e-7):
        """The same computation done twice: equal up to the rounding differences
        caused by other memory alignments (spectra with poles: also of 1/x)."""
        import numpy as np
        a, e = np.asarray(actual), np.asarray(expected)
        self._count(mech, e.size)
        if a.shape != e.shape:
            raise Violation(mech, '{0} shape {1}, expected {2}'.format(msg, a.shape, e.shape))
        if np.array_equal(a, e):
            return
        with np.errstate(all='ignore'):
            ok = np.abs(a - e) <= rtol * np.abs(e)
            ra, re = 1 / a, 1 / e
            ok |= np.abs(ra - re) <= 1e-10 * np.max(np.abs(re[np.isfinite(re)]), initial=0)
        if not np.all(ok):
            raise Violation(mech, '{0} got {1}, expected {2}'.format(msg, _short(a), _short(e)))

    def finite(self, x, mech, msg=''):
        import numpy as np
        x = np.asarray(x)
        self._count(mech, x.size)
        if not np.all(np.isfinite(x)):
            raise Violation(mech, '{0} non-finite values in {1}'.format(msg, _short(x)))

    def refused(self, fn, mech, exc=(ValueError, RuntimeError, KeyError), msg=''):
        """fn() must raise one of exc; anything else is a violation."""
        self._count(mech)
        try:
            r = fn()
        except exc:
            return
        except Exception as ex:
            raise Violation(mech, '{0} raised {1}: {2} (a clear refusal was expected)'.format(msg, type(ex).__name__, ex))
        raise Violation(mech, '{0} was accepted and returned {1}'.format(msg, _short(r)))


# ---------------------------------------------------------------------------
# line coverage of the code under test (what the workload really reached)
# ---------------------------------------------------------------------------
_lines = {}


def start_coverage():
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    root = os.path.join(REPO, 'doatools') + os.sep
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(root):
            _lines.setdefault(fn[len(root):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def executable_lines():
    """{file: lines inside function bodies} of the code under test."""
    out = {}
    root = os.path.join(REPO, 'doatools')
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            try:
                top = compile(open(p, encoding='utf-8').read(), p, 'exec')
            except SyntaxError:
                continue
            acc = set()

            def walk(code, inside):
                if inside:
                    acc.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
                for k in code.co_consts:
                    if hasattr(k, 'co_code'):
                        walk(k, inside or not _is_class_body(k))
            walk(top, False)
            out[os.path.relpath(p, root)] = acc
    return out


def _is_class_body(code):
    return '__module__' in code.co_names and '__qualname__' in code.co_names


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------
def run_case(check, sc, seed, index, tier):
    """Returns (status, ctx, mech, message)."""
    import numpy as np
    from vlib import gen
    c = Ctx(check.prop, sc.name, seed, index, tier)
    gen.BIG = 8 if sc.big and index % 12 == 5 else 1
    np.random.seed(int(c.rng.integers(0, 2**32)))
    # The environment of a case must not depend on earlier cases.
    np.seterr(all='warn')

    def on_alarm(sig, frame):
        raise Nontermination()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # Sanitizer: silently discarding an imaginary part is an error.
            warnings.simplefilter('error', np.ComplexWarning)
            sc.fn(c)
        return 'ok', c, None, None
    except Skip as e:
        return 'skip', c, None, str(e)
    except Violation as e:
        return 'violation', c, e.mech, e.msg
    except Nontermination:
        return 'violation', c, 'nontermination', 'no result after {0} s of CPU time'.format(CPU_LIMIT)
    except MemoryError:
        return 'violation', c, 'memory', 'more than {0} GB needed'.format(MEM_LIMIT >> 30)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if fr.filename.startswith(REPO):
                where = '{0}:{1} in {2}'.format(os.path.relpath(fr.filename, REPO), fr.lineno, fr.name)
        last = tb[-1]
        return 'violation', c, 'exception:' + type(e).__name__, '{0!r} at {1} (raised in {2}:{3})'.format(
            e, where or 'harness', os.path.basename(last.filename), last.lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


_CHECK = None


def _work(task):
    name, start, step, n, seed, tier, deadline = task
    sc = next(s for s in _CHECK.scenarios if s.name == name)
    res = {'scenario': name, 'run': 0, 'skip': 0, 'checks': 0, 'values': 0, 'digests': set(),
           'viol': [], 'sample': None, 'kinds': {}, 'skips': {}, 'cpu': 0.0, 'late': 0, 'slowest': (0.0, -1)}
    t0 = time.process_time()
    for i in range(start, n, step):
        if i >= 2 * step and time.time() > deadline:
            res['late'] += 1
            continue
        t1 = time.process_time()
        status, c, mech, msg = run_case(_CHECK, sc, seed, i, tier)
        t1 = time.process_time() - t1
        if t1 > res['slowest'][0]:
            res['slowest'] = (round(t1, 2), i)
        if status == 'skip':
            res['skip'] += 1
            res['skips'][msg] = res['skips'].get(msg, 0) + 1
            continue
        res['run'] += 1
        res['checks'] += c.n_checks
        res['values'] += c.n_values
        for k, v in c.kinds.items():
            res['kinds'][k] = res['kinds'].get(k, 0) + v
        if c.n_checks:
            res['digests'].add(c.digest())
        if res['sample'] is None or i < 2:
            res['sample'] = {'scenario': name, 'index': i, 'case': c.describe(), 'oracle_comparisons': c.n_checks}
        if status == 'violation':
            res['viol'].append((i, mech, msg, c.describe()))
            unknown = [v for v in res['viol'] if not is_known(_CHECK.prop, v[1])]
            if len(unknown) >= 2 or mech == 'nontermination':
                break
    res['cpu'] = time.process_time() - t0
    res['lines'] = {k: set(v) for k, v in _lines.items()}
    return res


def load_known():
    """known_findings.txt: lines 'finding: property=<id> mech=<key> <text>' and
    'fixed: property=<id> <commit> <text>' (the latter suppress nothing)."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) mech=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


_known = None


def is_known(prop, mech):
    global _known
    if _known is None:
        _known = load_known()
    return any(p == prop and m == mech for p, m, _ in _known)


def import_target():
    sys.path.insert(0, REPO)
    import doatools
    if not os.path.abspath(doatools.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print('ERROR: doatools imported from {0}, not from {1}'.format(doatools.__file__, REPO))
        sys.exit(2)


def main(check, argv):
    global _CHECK
    _CHECK = check
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    replay = None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = args.pop(0)
        elif a == '--only':
            only = args.pop(0).split(',')
        elif a == '--tier':
            tier = args.pop(0)
        elif a == '--seed':
            seed = int(args.pop(0))
        else:
            print('unknown argument', a)
            return 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if replay:
        if check.pristine:
            from vlib import pristine
            pristine.start()
        r = json.load(open(replay))
        sc = next(s for s in check.scenarios if s.name == r['scenario'])
        status, c, mech, msg = run_case(check, sc, r['seed'], r['index'], r['tier'])
        print(json.dumps({'status': status, 'mech': mech, 'msg': msg, 'case': c.describe()}, indent=1))
        if status == 'violation' and not is_known(check.prop, mech):
            print('VIOLATION property={0} replay={1}'.format(check.prop, replay))
            return 1
        return 0
    t0 = time.time()
    deadline = t0 + (QUICK_DEADLINE if tier == 'quick' else 1e9)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    tasks = []
    for s in check.scenarios:
        if only and s.name not in only:
            continue
        n = s.quick * QUICK_FACTOR.get(check.prop, 4) if tier == 'quick' else s.thorough
        n = max(1, int(round(n * scale)))
        parts = min(n, 16)
        tasks += [(s.name, j, parts, n, seed, tier, deadline) for j in range(parts)]
    # interleave, so that a deadline thins out all scenarios alike
    tasks.sort(key=lambda t: t[1])
    if jobs == 1:
        from vlib import pristine
        if check.pristine:
            pristine.start()
        results = [_work(t) for t in tasks]
    else:
        from vlib import pristine
        with mp.get_context('fork').Pool(jobs, initializer=pristine.start if check.pristine else None) as pool:
            results = pool.map(_work, tasks, chunksize=1)
    # -- merge --------------------------------------------------------------
    per = {}
    lines = {}
    viols = []
    for r in results:
        p = per.setdefault(r['scenario'], {'executions': 0, 'out_of_domain': 0, 'oracle_comparisons': 0,
                                           'values_compared': 0, 'digests': set(), 'oracles': {}, 'samples': [],
                                           'skips': {}, 'cpu_s': 0.0, 'slowest_case': (0.0, -1)})
        p['executions'] += r['run']
        p['out_of_domain'] += r['skip']
        p['oracle_comparisons'] += r['checks']
        p['values_compared'] += r['values']
        p['digests'] |= r['digests']
        p['cpu_s'] += r['cpu']
        p['slowest_case'] = max(p['slowest_case'], r['slowest'])
        for k, v in r['kinds'].items():
            p['oracles'][k] = p['oracles'].get(k, 0) + v
        for k, v in r['skips'].items():
            p['skips'][k] = p['skips'].get(k, 0) + v
        if r['sample']:
            p['samples'].append(r['sample'])
        for f, ls in r['lines'].items():
            lines.setdefault(f, set()).update(ls)
        for i, mech, msg, desc in r['viol']:
            viols.append((r['scenario'], i, mech, msg, desc))
    late = sum(r['late'] for r in results)
    total_exec = sum(p['executions'] for p in per.values())
    total_checks = sum(p['oracle_comparisons'] for p in per.values())
    distinct = sum(len(p['digests']) for p in per.values())
    cov = {}
    for f, ex in sorted(executable_lines().items()):
        hit = ex & lines.get(f, set())
        if hit:
            cov[f] = '{0}/{1}'.format(len(hit), len(ex))
    wall = time.time() - t0
    real = [v for v in viols if not is_known(check.prop, v[2])]
    known = [v for v in viols if is_known(check.prop, v[2])]
    samples = []
    for n, p in per.items():
        if p['samples']:
            samples.append(min(p['samples'], key=lambda s: s['index']))
    evidence = {
        'property': check.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total_exec,
            'distinct_nontrivial': distinct,
            'rule': check.rule,
            'samples': samples[:40],
            'oracle_comparisons': total_checks,
            'values_compared': sum(p['values_compared'] for p in per.values()),
            'scenarios': {n: {'executions': p['executions'], 'out_of_domain': p['out_of_domain'],
                              'distinct': len(p['digests']), 'oracle_comparisons': p['oracle_comparisons'],
                              'oracles': p['oracles'], 'cpu_s': round(p['cpu_s'], 2), 'slowest_case_s': p['slowest_case'][0],
                              'out_of_domain_reasons': p['skips']} for n, p in per.items()},
            'lines_of_target_observed': cov,
            'cases_not_started_before_deadline': late,
            'known_findings_observed': sorted({v[2] for v in known}),
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(real),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only and os.environ.get('VERIF_NO_EVIDENCE') != '1':
        with open(os.path.join(VERIF, 'evidence', check.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    print('{0} [{1}, seed {2}]: {3} executions, {4} distinct, {5} oracle comparisons, {6:.1f} s'.format(
        check.prop, tier, seed, total_exec, distinct, total_checks, wall))
    for n, p in per.items():
        print('  {0}: {1} executions, {2} out of domain, {3} comparisons, {4:.1f} cpu s, slowest {5} s'.format(
            n, p['executions'], p['out_of_domain'], p['oracle_comparisons'], p['cpu_s'], p['slowest_case'][0]))
    for p, m, text in load_known():
        if p == check.prop:
            print('KNOWN-FINDING: property={0} {1}'.format(p, text))
    if real:
        seen = set()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for name, i, mech, msg, desc in real:
            if (name, mech) in seen:
                continue
            seen.add((name, mech))
            path = os.path.join(VERIF, 'replays', '{0}-{1}-{2}.json'.format(check.prop, name, i))
            with open(path, 'w') as f:
                json.dump({'property': check.prop, 'scenario': name, 'index': i, 'seed': seed, 'tier': tier,
                           'mech': mech, 'message': msg, 'case': desc}, f, indent=1)
            print('  {0}#{1} [{2}] {3}'.format(name, i, mech, msg))
            print('VIOLATION property={0} replay={1}'.format(check.prop, path))
        return 1
    dead = [n for n, p in per.items() if p['oracle_comparisons'] == 0]
    if dead:
        print('INCONCLUSIVE: oracles never reached in: ' + ', '.join(dead))
        return 2
    return 0
