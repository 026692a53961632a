"""Declaring sub-checks and running one of them under Hypothesis.

A property module (props/<ID>.py) declares sub-checks:

    @check(quick=200, thorough=4000, h=st.integers(1, 40), seed=SEED)
    def name(ctx, h, seed):
        ...                     # calls algotom, compares with an oracle
        ctx.nontrivial(h > 1)   # what counts as non-trivial
        ctx.label("tall")       # what the generator produced

Every argument is a plain JSON-able value drawn by Hypothesis; arrays are
built from them by pure functions (vf.gen), so a case is fully described by
its arguments, and a replay file is just those arguments.
"""
import contextlib
import hashlib
import io
import json
import os
import sys
import tempfile
import shutil
import time
import traceback
import warnings

REGISTRY = {}
CHEAP = 5           # times as many quick cases of sub-checks of low cost


class Violation(AssertionError):
    pass


class SubCheck:
    def __init__(self, prop, func, quick, thorough, strategies, env, rule,
                 cost):
        self.prop = prop
        self.name = func.__name__
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.strategies = strategies
        self.env = env or {}
        self.rule = rule or (func.__doc__ or "").strip()
        self.cost = cost


def check(quick=100, thorough=None, env=None, rule=None, cost=1.0,
          **strategies):
    """Declare a sub-check of the property whose module this is used in."""
    def deco(func):
        prop = func.__module__.split(".")[-1]
        sc = SubCheck(prop, func, quick * (CHEAP if cost < 10 else 1),
                      thorough or quick * 20, strategies,
                      env, rule, cost)
        lst = REGISTRY.setdefault(prop, [])
        assert all(s.name != sc.name for s in lst), sc.name
        lst.append(sc)
        return func
    return deco


def also(func, title, doc, quick, thorough=None, cost=3.0, **strategies):
    """Declare a sub-check running `func` over another part of the input
    space (sizes at which constants of the code take over, for example):
    the strategies given replace those of `func`."""
    prop = func.__module__.split(".")[-1]
    for sub in REGISTRY[prop]:
        if sub.func is func:
            strategies = {**sub.strategies, **strategies}
            break

    def twin(ctx, **kw):
        return func(ctx, **kw)
    twin.__name__, twin.__doc__ = title, doc
    twin.__module__ = func.__module__
    return check(quick=quick, thorough=thorough, cost=cost,
                 **strategies)(twin)


def larger(func, quick=8, thorough=80, cost=10, **strategies):
    """Declare a sub-check running `func` over larger data."""
    return also(func, func.__name__ + "_larger", "The same for larger data.",
                quick, thorough, cost, **strategies)


def again(func, quick=15, thorough=200, cost=3):
    """Declare a sub-check running `func` twice in one process with the same
    paths, emptied in between: nothing may be left of the files that were
    there before."""
    prop = func.__module__.split(".")[-1]
    sub = [s for s in REGISTRY[prop] if s.func is func][0]

    def twin(ctx, **kw):
        from hypothesis.errors import UnsatisfiedAssumption
        for rank in ("1 ", "2 "):
            ctx.restart()
            try:
                func(ctx, **{k[2:]: v for k, v in kw.items()
                             if k.startswith(rank)})
            except UnsatisfiedAssumption:
                pass
    twin.__name__ = func.__name__ + "_again"
    twin.__doc__ = "The same, twice over under the same paths."
    twin.__module__ = func.__module__
    return check(quick=quick, thorough=thorough, cost=cost, **{
        rank + k: v for rank in ("1 ", "2 ")
        for k, v in sub.strategies.items()})(twin)


class Ctx:
    """What a sub-check body talks to."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = []
        self.is_nontrivial = True
        self._dirs = []
        self._next = 0

    def nontrivial(self, flag):
        self.is_nontrivial = bool(flag)

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def tmpdir(self):
        if self._next == len(self._dirs):
            self._dirs.append(tempfile.mkdtemp(prefix="case",
                                               dir=self.scratch))
        else:                           # made before, to be used again
            shutil.rmtree(self._dirs[self._next])
            os.mkdir(self._dirs[self._next])
        self._next += 1
        return self._dirs[self._next - 1]

    def restart(self):
        """From here on, tmpdir gives the same folders again, emptied."""
        self._next = 0

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        self._next = 0

    # oracles ---------------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg):
        if not bool(cond):
            raise Violation(msg if isinstance(msg, str) else msg())

    def eq(self, a, b, msg):
        if not a == b:
            raise Violation("%s: got %s, expected %s"
                            % (msg, short(a), short(b)))

    def shape(self, arr, shape, msg):
        import numpy as np
        got = np.shape(arr)
        if tuple(got) != tuple(shape):
            raise Violation("%s: shape %s, expected %s" % (msg, got, shape))

    def same(self, a, b, msg):
        """Arrays equal element for element (NaN equal to NaN)."""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        self.shape(a, b.shape, msg)
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"
                              and b.dtype.kind in "fc"):
            bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))
            i = tuple(bad[0])
            raise Violation("%s: %d of %d elements differ, first at %s: got "
                            "%r, expected %r" % (msg, len(bad), a.size,
                                                 tuple(map(int, i)), a[i],
                                                 b[i]))

    def near(self, a, b, msg, rtol=1e-6, atol=0.0, scale=None):
        """|a-b| <= atol + rtol*scale, scale = max|b| unless given.

        The tolerance is relative to the size of the whole expected array: a
        float32 pipeline loses accuracy relative to the largest term.
        """
        import numpy as np
        a = np.asarray(a, dtype=np.float64 if not np.iscomplexobj(a)
                       else np.complex128)
        b = np.asarray(b, dtype=np.float64 if not np.iscomplexobj(b)
                       else np.complex128)
        self.shape(a, b.shape, msg)
        if a.size == 0:
            return
        if scale is None:
            fin = np.abs(b[np.isfinite(b)])
            scale = float(fin.max()) if fin.size else 0.0
        tol = atol + rtol * scale
        with np.errstate(all="ignore"):
            diff = np.abs(a - b)
        diff = np.where((a == b) | ((a != a) & (b != b)), 0.0, diff)
        bad = ~(diff <= tol)
        if np.any(bad):
            diff = np.where(diff != diff, np.inf, diff)
            i = np.unravel_index(int(np.argmax(diff)), diff.shape)
            raise Violation(
                "%s: %d of %d elements off by more than %.3g, worst at %s: "
                "got %.9g, expected %.9g"
                % (msg, int(bad.sum()), a.size, tol, tuple(map(int, i)),
                   np.real(a[i]), np.real(b[i])))

    def finite(self, a, msg):
        import numpy as np
        a = np.asarray(a)
        if not np.all(np.isfinite(a)):
            raise Violation("%s: %d non-finite values" %
                            (msg, int(np.sum(~np.isfinite(a)))))

    @contextlib.contextmanager
    def unchanged(self, msg, *arrays):
        """The arrays hold the same values after the block."""
        import numpy as np
        before = [np.array(a, copy=True) for a in arrays]
        yield
        for i, (x, y) in enumerate(zip(before, arrays)):
            self.same(y, x, "%s: input array %d was modified" % (msg, i))

    def raises(self, exc, func, msg):
        try:
            func()
        except exc:
            return
        raise Violation("%s: no %s raised" % (msg, getattr(
            exc, "__name__", exc)))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def from_sut(tb_list):
    """Did the exception come out of the code under test?"""
    for fr in tb_list:
        if fr.filename.startswith("/repo/"):
            return True
    return False


def harness_trouble(e):
    """Exceptions which say something about the check or the machine, not
    about the result of the code under test."""
    import errno
    if isinstance(e, (ImportError, NameError, SyntaxError)):
        return True
    if isinstance(e, AttributeError) and "module 'algotom" in str(e):
        return True                     # something private was renamed
    if isinstance(e, TypeError) and str(e).startswith("_") and \
            "argument" in str(e):
        return True                     # ... or takes other arguments
    return isinstance(e, OSError) and e.errno in (
        errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EROFS,
        errno.EDQUOT, errno.EAGAIN)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            yield


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True,
                                   default=str).encode()).hexdigest()


def execute(sc, case, scratch):
    """Run one case. Returns (status, message, ctx).

    status: ok, reject (assumption), violation, error (of the harness).
    """
    import numpy as np
    from hypothesis.errors import UnsatisfiedAssumption
    ctx = Ctx(scratch)
    np.random.seed(12345)
    try:
        # numpy's error state stays at its default: some functions notice
        # logarithms of zero by the warning
        with quiet():
            sc.func(ctx, **case)
        return "ok", "", ctx
    except UnsatisfiedAssumption:
        return "reject", "", ctx
    except Violation as e:
        return "violation", str(e), ctx
    except MemoryError:
        raise
    except Exception as e:
        tbl = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(type(e), e,
                                                  e.__traceback__))
        numba_err = type(e).__module__.startswith("numba.")
        if from_sut(tbl) or "/repo/algotom" in text or numba_err:
            last = [f for f in tbl if f.filename.startswith("/repo/")]
            where = ("%s:%s" % (last[-1].filename, last[-1].name)
                     if last else "")
            return ("violation", "a valid call raised %s: %s (in %s)"
                    % (type(e).__name__, short(str(e)), where), ctx)
        if harness_trouble(e):
            return "error", text, ctx
        # the body of the check could not work with what it was given (a
        # file not written, None instead of an array, ...): on the tree the
        # check was written for every case runs through
        last = [f for f in tbl if "/props/" in f.filename]
        return ("violation", "the result can not be examined: %s: %s (at %s)"
                % (type(e).__name__, short(str(e)),
                   last[-1].line if last else "?"), ctx)
    finally:
        ctx.close()


def run_subcheck(sc, seed, tier, scratch, budget, cur):
    """Search for a failing case. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import strategies as st
    from vf import provider

    n = sc.quick if tier == "quick" else sc.thorough
    t0 = time.monotonic()
    res = {"name": sc.name, "evaluations": 0, "rejected": 0, "labels": {},
           "samples": [], "keys": set(), "violation": None, "error": None,
           "truncated": False, "requested": n, "rule": sc.rule}
    state = {"first_fail": None, "case": None, "msg": None}

    class Fail(Exception):
        pass

    def body(case):
        now = time.monotonic()
        if state["first_fail"] is not None and \
                now - state["first_fail"] > 45.0:
            return                      # stop shrinking
        if state["first_fail"] is None and now - t0 > budget:
            res["truncated"] = True
            return
        if res["error"]:
            return
        with open(cur, "w") as f:       # should the process not survive it
            json.dump({"sub": sc.name, "case": case}, f, default=str)
        status, msg, ctx = execute(sc, case, scratch)
        if status == "reject":
            res["rejected"] += 1
            hypothesis.reject()
        if status == "error":
            res["error"] = "case %s\n%s" % (short(case, 2000), msg)
            return
        res["evaluations"] += 1
        for lb in ctx.labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if ctx.is_nontrivial:
            k = case_key(case)
            if k not in res["keys"]:
                res["keys"].add(k)
                if len(res["samples"]) < 3 and (
                        res["evaluations"] > 3 or n <= 4):
                    res["samples"].append({"sub": sc.name, "case": case})
        if status == "violation":
            if state["first_fail"] is None:
                state["first_fail"] = now
            state["case"], state["msg"] = case, msg
            raise Fail(msg)

    @st.composite
    def arguments(draw):
        case = {}
        for name, strategy in sc.strategies.items():
            provider.STATE["arg"] = name
            case[name] = draw(strategy)
        return case

    def search(backend, examples, seed):
        test = hypothesis.given(arguments())(body)
        test = hypothesis.seed(seed)(test)
        provider.STATE["seed"] = seed
        test = settings(max_examples=examples, database=None, deadline=None,
                        report_multiple_bugs=False, print_blob=False,
                        phases=[Phase.generate, Phase.shrink],
                        backend=backend,
                        suppress_health_check=list(HealthCheck))(test)
        test()

    # most cases drawn afresh, the rest by Hypothesis' own engine, which
    # also repeats and recombines
    own = max(1, n // 5)
    try:
        with quiet():
            search("hypothesis", own, seed)
            if n > own:
                search("vf", n - own, seed)
    except Fail:
        pass
    except Exception:
        # Flaky (shrinking stopped by the time limit) or a real harness error
        if state["case"] is None and not res["error"]:
            res["error"] = traceback.format_exc()
    if state["case"] is not None:
        status, msg, _ = execute(sc, state["case"], scratch)
        res["violation"] = {"case": state["case"],
                            "message": msg if status == "violation"
                            else state["msg"],
                            "reproduced": status == "violation"}
    res["wall_s"] = round(time.monotonic() - t0, 3)
    return res
