"""Common machinery of every check: sub-checks, Hypothesis driver, violation classification.

A *case* is a JSON-able value drawn by a Hypothesis strategy.  A sub-check's run(case)
is a plain function: it raises Violation if the property is broken on that case, and
otherwise returns an info dict {'nontrivial': bool, 'tags': [...]}.  Replaying a case is
run(case) without Hypothesis.
"""
import hashlib, json, os, signal, sys, traceback, time

REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_LIMIT = 200  # seconds for one case (they take well under 5 s)


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself failed: never reported as a violation."""


class Skip(Exception):
    """Case outside the stated domain (counted, never silently)."""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, rule='', mpi=False, once=None):
        self.name = name
        self.strategy = strategy      # zero-argument callable returning a Hypothesis strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.rule = rule


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def _plain(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    return x


def case_key(case):
    return hashlib.sha1(json.dumps(_plain(case), sort_keys=True).encode()).hexdigest()[:16]


def assert_close(got, want, what, rtol=1e-9, atol=None, scale=None):
    """Max-norm comparison relative to the largest magnitude involved."""
    import numpy as np
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        try:
            want = np.broadcast_to(want, got.shape)
        except ValueError:
            raise Violation(f"{what}: shape {got.shape} != expected {want.shape}")
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(want)):
        raise HarnessError(f"{what}: oracle produced non-finite values")
    if not np.all(np.isfinite(got)):
        raise Violation(f"{what}: non-finite values")
    s = float(np.max(np.abs(want))) if scale is None else float(scale)
    tol = rtol * max(s, 1e-300) + (rtol if atol is None else atol)
    diff = np.abs(got - want)
    err = float(np.max(diff))
    if not err <= tol:
        idx = tuple(int(i) for i in np.unravel_index(int(np.argmax(diff)), diff.shape))
        raise Violation(f"{what}: error {err:.3e} > tol {tol:.3e} at index {idx}: got {got[idx]!r} expected {want[idx]!r}")
    return err


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


class _Alarm(Exception):
    pass


def guarded(run, case):
    """Run one case, classifying what it raises."""
    def onalarm(sig, frame):
        raise _Alarm()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT)
    try:
        return run(case)
    except (Violation, HarnessError, Skip):
        raise
    except _Alarm:
        raise Violation(f"no result within {CASE_LIMIT} s (cases take a few seconds at most)")
    except MemoryError:
        raise HarnessError("out of memory")
    except Exception as e:
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if in_repo(e.__traceback__):
            raise Violation(f"unexpected {type(e).__name__} from the code under test: {e}\n{txt}") from e
        raise HarnessError(f"{type(e).__name__}: {e}\n{txt}") from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def expect_raises(fn, exceptions, what):
    """The code must refuse: one of `exceptions` must be raised."""
    try:
        fn()
    except exceptions:
        return
    except Exception as e:
        raise Violation(f"{what}: refused with {type(e).__name__} ({e}), expected {exceptions}")
    raise Violation(f"{what}: accepted, expected a refusal")


def vendor():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = os.environ.get('VERIF_VENDOR') or os.path.join(here, '.vendor')
    if p not in sys.path:
        sys.path.append(p)


def drive(sub, n, seed, stats, base_seed=0):
    """Run one sub-check for n Hypothesis examples. Returns None or a failure dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = float(os.environ.get('VERIF_SHRINK', 60))
    state = {'fail': None, 'harness': None, 'keys': set(), 'failing': False}
    st = stats.setdefault(sub.name, {'evaluations': 0, 'nontrivial_keys': set(), 'tags': {}, 'samples': [], 'skipped': 0})

    def body(case):
        if state['harness']:
            return
        key = case_key(case)
        counted = not state['failing']
        try:
            if counted:
                st['evaluations'] += 1
            info = guarded(sub.run, case) or {}
        except Skip as e:
            if counted:
                st['skipped'] += 1
                st['tags']['skip:' + str(e)] = st['tags'].get('skip:' + str(e), 0) + 1
            return
        except Violation as e:
            state['failing'] = True
            state['fail'] = {'sub': sub.name, 'case': _plain(case), 'message': str(e)[:6000]}
            raise
        except HarnessError as e:
            state['harness'] = {'sub': sub.name, 'case': _plain(case), 'message': str(e)[:6000]}
            return
        if counted:
            for t in info.get('tags', ()):
                st['tags'][t] = st['tags'].get(t, 0) + 1
            if info.get('nontrivial', True):
                if key not in st['nontrivial_keys']:
                    st['nontrivial_keys'].add(key)
                    if len(st['samples']) < 2 or (len(st['nontrivial_keys']) % 97 == 0 and len(st['samples']) < 4):
                        st['samples'].append({'sub': sub.name, 'case': _plain(case)})

    test = given(sub.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False)(test)
    import io, contextlib
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            test()
    except Violation:
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state['fail'] is None:
            return {'harness': {'sub': sub.name, 'case': None, 'message': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]}}
        state['fail']['message'] += f"\n(not reproduced identically on re-execution: {type(e).__name__})"
    if state['harness']:
        return {'harness': state['harness']}
    if state['fail']:
        return {'fail': state['fail']}
    return None
