"""Runs cases start..start+count of one workload function in this process.
Exit 0: result file written (violations inside).  Exit 3: harness error."""
import hashlib
import importlib
import json
import os
import sys
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Ctx:
    def __init__(self, fn, seed, tier, args):
        self.fn, self.seed, self.tier, self.args = fn, seed, tier, args
        self.events, self.distinct, self.samples = {}, set(), []
        self.case = None
        self.rng = None
        self.desc = {}

    # --- observation
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def peak(self, name, v):
        k = "max:" + name
        self.events[k] = max(self.events.get(k, v), v)

    def seen(self, *key):
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # --- calls into the code under test: an exception here is the target's, not the harness's
    def call(self, f, *args, what=None):
        self.event("calls")
        try:
            return f(*args)
        except Exception as e:
            raise Violation("exception:" + (what or getattr(f, "__name__", "?")),
                            f"{what or getattr(f, '__name__', '?')} raised {type(e).__name__}: {e} on valid input",
                            desc=self.desc)

    def expect_raise(self, types, f, *args, what="", key=None):
        self.event("rejections expected")
        try:
            r = f(*args)
        except types:
            return
        except Exception as e:
            raise Violation(key or "wrong-exception:" + what, f"{what} raised {type(e).__name__}: {e}", desc=self.desc)
        raise Violation(key or "accepted:" + what, f"{what} was accepted and returned {r!r}"[:400], desc=self.desc)

    # --- oracles
    def fail(self, key, msg, **detail):
        raise Violation(key, msg, desc=self.desc, **detail)

    def true(self, cond, key, msg=""):
        self.event("oracle checks")
        if not cond:
            raise Violation(key, msg or key, desc=self.desc)

    def close(self, got, want, scale, key, tol=1e-11, **info):
        """|got-want| <= tol*scale elementwise; scale is a bound on the size of the summed terms"""
        got = np.asarray(got, float)
        want = np.asarray(want, float)
        if got.shape != want.shape:
            raise Violation(key, f"{key}: shape {got.shape} instead of {want.shape}", desc=self.desc, **info)
        self.event("oracle checks", int(max(1, got.size)))
        if got.size == 0:
            return
        lim = tol * np.broadcast_to(np.asarray(scale, float), got.shape) + 1e-290
        bad = ~(np.abs(got - want) <= lim)
        if bad.any():
            j = np.unravel_index(np.argmax(np.where(bad, np.abs(got - want) / lim, -1)), got.shape) if np.isfinite(got).all() \
                else np.unravel_index(np.argmax(bad), got.shape)
            raise Violation(key, f"{key}: element {tuple(int(q) for q in j)} is {got[j]!r}, expected {want[j]!r} "
                                 f"(allowed {lim[j]:.3g}); {int(bad.sum())} of {got.size} differ", desc=self.desc, **info)
        with np.errstate(all="ignore"):
            q = float(np.max(np.abs(got - want) / lim))
        self.peak("error / allowed error", round(q, 6))

    def same(self, a, b, key, msg=""):
        """bitwise identical"""
        self.event("oracle checks")
        if not identical(a, b):
            raise Violation(key, (msg or key) + f": {str(a)[:200]} vs {str(b)[:200]}", desc=self.desc)


def identical(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, float) or isinstance(b, float):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    return a == b


def case_rng(fn, seed, case):
    d = int(hashlib.md5(fn.encode()).hexdigest()[:8], 16)
    return np.random.default_rng([seed & 0x7fffffff, d, case])


def main():
    modname, fn, seed, tier, start, count, res, stat, args = sys.argv[1:]
    seed, start, count = int(seed), int(start), int(count)
    mod = importlib.import_module(modname)
    f = getattr(mod, fn)
    ctx = Ctx(fn, seed, tier, json.loads(args))
    violations, done, error = [], 0, None
    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        fd = os.open(stat, os.O_CREAT | os.O_WRONLY)
        for i in range(start, start + count):
            os.pwrite(fd, b"%-12d\n" % i, 0)
            ctx.case, ctx.rng, ctx.desc = i, case_rng(fn, seed, i), {}
            try:
                f(ctx, i)
            except Violation as v:
                violations.append(dict(key=v.key, msg=v.msg, case=i, detail=repr(v.detail)[:6000]))
            except (ImportError, AttributeError, NameError, MemoryError, OSError):
                raise
            except Exception as e:  # the oracle could not even read what the target returned
                violations.append(dict(key=f"malformed:{type(e).__name__}", case=i, detail=repr(ctx.desc)[:3000],
                                       msg=f"result could not be interpreted: {type(e).__name__}: {e}; "
                                           + traceback.format_exc()[-1200:]))
            done += 1
            if len(violations) >= 3:
                break
    except Exception:
        error = traceback.format_exc()[-3000:]
    with open(res + ".tmp", "w") as o:
        json.dump(dict(cases=done, events=ctx.events, distinct=sorted(ctx.distinct), samples=ctx.samples,
                       violations=violations, error=error), o, default=str)
    os.replace(res + ".tmp", res)
    sys.stdout.flush()
    os._exit(3 if error else 0)


if __name__ == "__main__":
    main()
