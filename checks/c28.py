"""Python calls write results where the caller asked and nowhere else."""
import numpy as np
from vlib import evals
from vlib.runner import Job

LEVEL = "exploration"
RULE = ("inputs of every evaluator and of the MACE evaluation passed as lists, tuples and numpy arrays of all numeric types, strides, orders, byte orders and writability, compared with the call on plain "
        "double lists, with before/after snapshots of the arrays and of the memory around them; output arrays that fit (whole, slices of larger arrays, reshaped) must be filled "
        "in place with guard zones intact, those that do not (short, strided, reversed, Fortran, other type, byte-swapped, read-only, list) must be refused and left alone; "
        "non-trivial = distinct (call, argument form) pairs")
ASSUMPTIONS = ["an output array longer than needed may be refused or accepted; if accepted the surplus must stay untouched"]
MIN_DISTINCT = 60


def jobs(tier):
    k = 1 if tier == "quick" else 12
    return [Job("inputs", n=400 * k), Job("outputs", n=600 * k), Job("inputs", flavour="asan", n=64 * k), Job("outputs", flavour="asan", n=160 * k),
            Job("mace_inputs", part="mace", n=160 * k), Job("mace_inputs", part="mace", flavour="asan", n=24 * k),
            Job("kokkos_mace", part="kokkos", n=60 * k), Job("kokkos_calls", part="kokkos", n=200 * k), Job("kokkos_calls", part="kokkos", flavour="asan", n=60 * k)]


# exactly representable data so that conversions are lossless
def small(rng, shape):
    return rng.integers(-8, 9, shape) / 4.0


def form(rng, x):
    """-> (name, object, base array whose bytes must not change)"""
    x = np.asarray(x, float)
    f = str(rng.choice(["list", "tuple", "f8", "f4", "f2", "strided", "reversed", "be", "readonly", "sub", "scalars", "int", "bool"]))
    if f == "list":
        return f, x.tolist(), None
    if f == "tuple":
        return f, tuple(x.tolist()), None
    if f == "scalars":
        return f, [np.float32(q) for q in x], None
    if f == "int":
        x = np.round(x)
        b = x.astype(rng.choice([np.int8, np.int32, np.int64]))
        return f, b, b
    if f == "bool":
        b = x > 0
        return f, b, b
    if f == "strided":
        b = np.full(3 * len(x) + 1, 9.0)
        v = b[1::3]
        v[:] = x
        return f, v, b
    if f == "reversed":
        b = x[::-1].copy()
        return f, b[::-1], b
    if f == "sub":
        b = np.full(len(x) + 6, 9.0)
        b[3:3 + len(x)] = x
        return f, b[3:3 + len(x)], b
    b = x.astype({"f8": "<f8", "f4": "<f4", "f2": "<f2", "be": ">f8", "readonly": "<f8"}[f])
    if f == "readonly":
        b.flags.writeable = False
    return f, b, b


def inputs(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    spec = evals.make_spec(rng, str(rng.choice(["mlp", "poly", "spline", "set", "zbl"])))
    if spec[0] in ("spline", "set", "zbl"):      # construction from arrays
        if spec[0] == "zbl":
            n, c, b1 = form(rng, small(rng, 4))
            n2, rad, b2 = form(rng, 1 + np.abs(small(rng, 119)))
            if n2 in ("bool",):
                n2, rad, b2 = "f8", np.full(119, 1.25), None
            ctx.desc = dict(kind="zbl", form=(n, n2))
            snap = [None if b is None else b.tobytes() for b in (b1, b2)]
            par = (spec[1], spec[2], [float(q) for q in c], [float(q) for q in rad], spec[5])
            o1 = ctx.call(S.ZBL, spec[1], spec[2], c, rad, spec[5], what="ZBL(" + n + "," + n2 + ")")
            o2 = S.ZBL(*par)
            for _ in range(6):
                u, v, r = int(rng.integers(1, 119)), int(rng.integers(1, 119)), float(rng.uniform(.1, 3))
                ctx.same(ctx.call(o1.compute, u, v, r), o2.compute(u, v, r), "input form changes the result:zbl")
                ctx.same(o1.compute_gradient(u, v, np.float64(r)), o2.compute_gradient(np.int64(u), v, r), "input form changes the result:zbl")
        else:
            m, n = (1 if spec[0] == "spline" else spec[2].shape[0]), spec[2].shape[1]
            rows = [(form(rng, small(rng, n)), form(rng, small(rng, n))) for _ in range(m)]
            V, D = [a[0][1] for a in rows], [a[1][1] for a in rows]
            bases = [q[2] for a in rows for q in a]
            snap = [None if b is None else b.tobytes() for b in bases]
            ctx.desc = dict(kind=spec[0], forms=[(a[0][0], a[1][0]) for a in rows])
            W, E = [[float(q) for q in v] for v in V], [[float(q) for q in v] for v in D]
            r = float(rng.uniform(0, .999) * spec[1] * (n - 1))
            if spec[0] == "spline":
                o1, o2 = ctx.call(S.CubicSpline, spec[1], V[0], D[0], what="CubicSpline"), S.CubicSpline(spec[1], W[0], E[0])
                ctx.same(o1.evaluate_deriv(r), o2.evaluate_deriv(np.float64(r)), "input form changes the result:spline")
            else:
                if rng.random() < .3:
                    V, D = np.asfortranarray(np.array(W)), np.array(E)
                    bases, snap = [V, D], [V.tobytes(), D.tobytes()]
                o1, o2 = ctx.call(S.CubicSplineSet, spec[1], V, D, what="CubicSplineSet"), S.CubicSplineSet(spec[1], W, E)
                a, b = np.zeros((2, m)), np.zeros((2, m))
                o1.evaluate_derivs(r, a[0], a[1])
                o2.evaluate_derivs(r, b[0], b[1])
                ctx.same(a, b, "input form changes the result:set")
            b1 = b2 = None
            ctx.true([None if b is None else b.tobytes() for b in bases] == snap, "input array modified")
            for a in rows:
                ctx.seen(spec[0], a[0][0])
            return
        ctx.true([None if b is None else b.tobytes() for b in (b1, b2)] == snap, "input array modified")
        ctx.seen("zbl", n, n2)
        return
    o = evals.construct(S, spec)
    nin = spec[1][0] if spec[0] == "mlp" else spec[1]
    for m in (["evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_gradient_batch"] if spec[0] == "mlp" else
              ["evaluate", "evaluate_simple", "evaluate_gradient", "evaluate_gradient_simple", "evaluate_batch"]):
        b = int(rng.integers(0, 6)) if "batch" in m else 1
        n, x, base = form(rng, small(rng, b * nin))
        ctx.desc = dict(kind=spec[0], call=m, form=n)
        snap = None if base is None else base.tobytes()
        plain = [float(q) for q in x]
        extra = (np.int64(b),) if "batch" in m and rng.random() < .5 else ((b,) if "batch" in m else ())
        got = evals.flat(ctx.call(getattr(o, m), x, *extra, what=m + "(" + n + ")"))
        want, sc = evals.reference(spec, (m, (plain,) + extra))
        ctx.close(got, want, sc, "input form changes the result:" + spec[0])
        ctx.true(base is None or base.tobytes() == snap, "input array modified", f"{m}({n})")
        ctx.seen(spec[0], m, n)
    ctx.sample(ctx.desc)


def int_form(rng, x):
    x = np.asarray(x, int)
    f = str(rng.choice(["list", "tuple", "i4", "i8", "i2", "u1", "be", "strided", "reversed", "column", "readonly", "scalars"]))
    if f in ("list", "tuple"):
        return f, (list if f == "list" else tuple)(int(q) for q in x), None
    if f == "scalars":
        return f, [np.int64(q) for q in x], None
    if f == "strided":
        b = np.full(3 * len(x) + 1, 77, rng.choice(["<i4", "<i8"]))
        b[1::3] = x
        return f, b[1::3], b
    if f == "reversed":
        b = x[::-1].astype(rng.choice(["<i4", "<i8"]))
        return f, b[::-1], b
    if f == "column":
        b = np.full((len(x), 3), 77, rng.choice(["<i4", "<i8"]))
        b[:, 1] = x
        return f, b[:, 1], b
    b = x.astype({"i4": "<i4", "i8": "<i8", "i2": "<i2", "u1": "u1", "be": ">i4", "readonly": "<i4"}[f])
    if f == "readonly":
        b.flags.writeable = False
    return f, b, b


def vec_form(rng, xyz):
    """neighbour vectors: flat forms or an (n,3) array of any layout"""
    f = str(rng.choice(["flat", "rows", "fortran", "transposed", "rows of more", "reversed rows"]))
    if f == "flat":
        n, v, b = form(rng, xyz.ravel())
        if n in ("int", "bool", "f2", "f4", "scalars"):      # would change the structure
            return f, xyz.ravel(), None
        return f + n, v, b
    if f == "rows":
        b = xyz.copy()
        return f, b, b
    if f == "fortran":
        b = np.asfortranarray(xyz)
        return f, b, b
    if f == "transposed":
        b = np.ascontiguousarray(xyz.T)
        return f, b.T, b
    if f == "rows of more":
        b = np.full((2 * len(xyz), 5), 9.0)
        b[::2, 1:4] = xyz
        return f, b[::2, 1:4], b
    b = np.ascontiguousarray(xyz[::-1])
    return f, b[::-1], b


def kokkos_mace(ctx, i):
    from vlib import kk
    kk.start()
    kk.use(ctx, kk.mode(ctx.rng))
    mace_inputs(ctx, i, *(("MACEKokkosFloat", 1e-5) if i % 3 == 0 else ("MACEKokkos", 1e-11)))


def mace_inputs(ctx, i, cls="MACE", tol=1e-11):
    """every array argument of the potential's one-call evaluation, in any form"""
    import symmetrix as S
    from vlib import macegen as G, mc
    rng = ctx.rng
    m = G.Model(rng, small=True)
    ev = mc.load(ctx, S, m, cls)
    for _ in range(3):
        L = mc.any_lists(rng, m)
        want, size = mc.ref(m, L)
        e0, f0 = mc.run(ctx, ev, L)
        n, t, nn, idx, nt, xyz, r = L.args()
        forms = [int_form(rng, q) for q in (t, nn, idx, nt)] + [vec_form(rng, L.xyz)]
        q = form(rng, r)
        forms.append(("f8", r.copy(), None) if q[0] in ("int", "bool", "f2", "f4", "scalars") else q)
        ctx.desc = dict(mc.describe(m, L), forms=[q[0] for q in forms])
        snap = [None if q[2] is None else q[2].tobytes() for q in forms]
        ctx.call(ev.compute_node_energies_forces, n, *[q[1] for q in forms], what="compute_node_energies_forces")
        ctx.true([None if q[2] is None else q[2].tobytes() for q in forms] == snap, "input array modified")
        e, f = np.array(ev.node_energies, float)[:n], np.array(ev.node_forces, float)[:3 * len(idx)].reshape(-1, 3)
        ctx.close(e, want, size, "input form changes the result:" + cls, tol=tol)
        ctx.close(f, f0, mc.fscale(m, L, size), "input form changes the result:" + cls, tol=tol)
        for k, q in enumerate(forms):
            ctx.seen(cls, k, q[0])


GUARD = 123.25


def outarray(rng, n):
    """-> (name, array to pass, whole base array, mask of base that may change or None if it must be refused)"""
    f = str(rng.choice(["whole", "slice", "row", "column1", "shape", "longer",
                        "short", "empty", "strided", "reversed", "fortran", "f4", "int", "be", "readonly", "list", "tuple", "column", "bool", "complex"]))
    if n == 1 and f in ("strided", "reversed", "column", "fortran"):
        f = "whole"                         # a single element is contiguous whatever its stride
    if f == "whole":
        b = np.full(n, GUARD)
        return f, b, b, np.ones(n, bool)
    if f in ("slice", "longer"):
        p, q = int(rng.integers(0, 5)), int(rng.integers(1, 6)) if f == "longer" else 0
        b = np.full(n + q + 2 * p + 2, GUARD)
        m = np.zeros(b.size, bool)
        m[p:p + n] = True
        return f, b[p:p + n + q], b, m
    if f in ("row", "column1", "shape"):
        if f == "row":
            b = np.full((3, n), GUARD)
            m = np.zeros((3, n), bool); m[1] = True
            return f, b[1], b, m
        b = np.full((n, 1) if f == "column1" else (1, n, 1), GUARD)
        return f, b, b, np.ones(b.shape, bool)
    if f == "short":
        k = int(rng.integers(0, n))
        b = np.full(2 * n + 8, GUARD)
        return f, b[4:4 + k], b, None
    if f == "empty":
        b = np.zeros(0)
        return f, b, b, None
    if f == "strided":
        b = np.full(3 * n + 4, GUARD)
        return f, b[2:2 + 3 * n:3], b, None
    if f == "reversed":
        b = np.full(n + 4, GUARD)
        return f, b[2:2 + n][::-1], b, None
    if f == "fortran":
        b = np.full((2, n), GUARD, order="F")
        return f, b, b, None
    if f == "column":
        b = np.full((n, 3), GUARD)
        return f, b[:, 1], b, None
    if f == "readonly":
        b = np.full(n, GUARD); b.flags.writeable = False
        return f, b, b, None
    if f == "list":
        b = [GUARD] * n
        return f, b, b, None
    if f == "tuple":
        b = (GUARD,) * n
        return f, b, b, None
    b = np.full(n, 1, {"f4": "<f4", "int": "<i8", "be": ">f8", "bool": "?", "complex": "c16"}[f])
    return f, b, b, None


def snapshot(b):
    return b.copy() if isinstance(b, np.ndarray) else list(b)


def unchanged(b, s, mask=None):
    if not isinstance(b, np.ndarray):
        return list(b) == s
    if mask is None:
        return b.tobytes() == s.tobytes()
    return b[~mask].tobytes() == s[~mask].tobytes()


def judge(ctx, call, outs, want, sc, forms=None):
    """call(*arrays) must fill the fitting arrays in place and refuse the others"""
    snaps = [snapshot(q[2]) for q in outs]
    ok = all(q[3] is not None for q in outs)
    maybe = ok and any(q[0] in ("longer", "column1", "shape") for q in outs)
    try:
        call(*[q[1] for q in outs])
        raised = False
    except (TypeError, ValueError, RuntimeError, IndexError) as e:
        raised = True
        err = e
    if ok and raised and not maybe:
        ctx.fail("output refused", f"a fitting output array was refused: {err}")
    if not ok and not raised:
        ctx.fail("unfit output accepted", "an output array that cannot take the results was accepted: " + str([q[0] for q in outs]))
    if not ok or raised:
        ctx.event("unfit output arrays refused")
        # a fitting array passed next to an unfit one may have been filled or not
        for q, s in zip(outs, snaps):
            ctx.true(unchanged(q[2], s, q[3]), "refused output modified", q[0])
        return
    for k, (q, s) in enumerate(zip(outs, snaps)):
        ctx.true(unchanged(q[2], s, q[3]), "memory around the output modified", q[0])
        got = q[2][q[3]]
        ctx.close(got, want[k], sc[k], "output not filled:" + q[0])
        ctx.event("output arrays filled in place")


def matrix(rng, x):
    """a two-dimensional input in any layout -> (name, object, base)"""
    f = str(rng.choice(["rows", "fortran", "transposed", "sub", "reversed", "f4", "be", "readonly", "lists"]))
    b = x.copy()
    if f == "lists":
        return f, x.tolist(), None
    if f == "fortran":
        b = np.asfortranarray(x)
        return f, b, b
    if f == "transposed":
        b = np.ascontiguousarray(x.T)
        return f, b.T, b
    if f == "sub":
        b = np.full((2 * len(x) + 1, x.shape[1] + 3), 9.0)
        b[1::2, 2:-1] = x
        return f, b[1::2, 2:-1], b
    if f == "reversed":
        b = np.ascontiguousarray(x[::-1, ::-1])
        return f, b[::-1, ::-1], b
    if f in ("f4", "be"):
        b = x.astype("<f4" if f == "f4" else ">f8")
    if f == "readonly":
        b.flags.writeable = False
    return f, b, b


def out2(rng, b, n):
    """output arrays of b rows; n columns or, if n is None, one-dimensional"""
    q = outarray(rng, b if n is None else b * n)
    if n is None:
        return q
    f, v, base, mask = q
    if mask is not None and v.size == b * n and v.ndim == 1 and f in ("whole", "slice", "row"):
        w = v.reshape(b, n)                 # a view of the same memory
        return f, w, base, mask
    if mask is None and isinstance(v, np.ndarray) and f in ("f4", "int", "be", "readonly", "bool", "complex"):
        return f, v.reshape(b, n), base, None
    if mask is None and f in ("strided", "column", "reversed") and b > 1 and n > 1:
        base = np.full((b, 2 * n), GUARD)
        return f, base[:, ::2], base, None
    if mask is None and f == "fortran" and b > 1 and n > 1:
        base = np.full((b, n), GUARD, order="F")
        return f, base, base, None
    if mask is None:
        base = np.full((b + 2, n), GUARD)
        k = int(rng.integers(0, b))
        return "short", base[1:1 + k], base, None
    base = np.full((b, n), GUARD)
    return "whole", base, base, np.ones((b, n), bool)


def kokkos_calls(ctx, i):
    from vlib import kk
    S = kk.start()
    rng = ctx.rng
    kind = ["mlp", "poly", "set"][i % 3]
    spec = evals.make_spec(rng, kind)
    o = kk.construct(S, spec)
    for _ in range(4):
        t = kk.use(ctx, kk.mode(rng))
        if kind == "mlp":
            n, b = spec[1][0], int(rng.integers(1, 7))
            x = small(rng, (b, n))
            f, X, base = matrix(rng, x)
            grad = bool(rng.random() < .5)
            outs = [out2(rng, b, None)] + ([out2(rng, b, n)] if grad else [])
            want, sc = kk.reference(spec, ("evaluate_gradient_batch" if grad else "evaluate_batch", (x.ravel().tolist(), b)))
            want, sc = [want[:b], want[b:]], [sc[:b], sc[b:]]
            name = "evaluate_gradient" if grad else "evaluate"
            call = lambda *a: getattr(o, name)(X, *a)
        elif kind == "poly":
            n = spec[1]
            x = small(rng, n)
            f, X, base = form(rng, x)
            x = np.array([float(q) for q in X])
            name = str(rng.choice(["evaluate_gradient", "evaluate_gradient_simple", "evaluate", "evaluate_simple"]))
            if "gradient" not in name:
                snap = None if base is None else base.tobytes()
                want, sc = kk.reference(spec, (name, (x.tolist(),)))
                ctx.desc.update(call=name, kind=kind, form=f)
                ctx.close([ctx.call(getattr(o, name), X, what=name + "(" + f + ")")], want, sc, "input form changes the result:poly")
                ctx.true(base is None or base.tobytes() == snap, "input array modified")
                ctx.seen("kokkos", kind, name, f)
                continue
            outs = [outarray(rng, n)]
            want, sc = kk.reference(spec, (name, (x.tolist(),)))
            want, sc = [want[1:]], [sc[1:]]
            call = lambda *a: getattr(o, name)(X, *a)
        else:
            n = spec[2].shape[0]
            r = evals.rand_op(rng, spec)[1][0]
            f, base = "number", None
            both = bool(rng.random() < .6)
            outs = [outarray(rng, n) for _ in range(2 if both else 1)]
            name = "evaluate_derivs" if both else "evaluate"
            want, sc = evals.reference(spec, (name, (r,)))
            want, sc = want.reshape(-1, n), sc.reshape(-1, n)
            call = lambda *a: getattr(o, name)(r, *a)
        snap = None if base is None else base.tobytes()
        ctx.desc.update(call=name, kind=kind, form=f, outs=[q[0] for q in outs], n=n)
        ctx.seen("kokkos", kind, name, f, tuple(q[0] for q in outs))
        judge(ctx, call, outs, want, sc)
        ctx.true(base is None or base.tobytes() == snap, "input array modified")
    ctx.sample(ctx.desc)


def outputs(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    spec = evals.make_spec(rng, "set")
    o = evals.construct(S, spec)
    n = spec[2].shape[0]
    for _ in range(4):
        r = evals.rand_op(rng, spec)[1][0]
        both = rng.random() < .6
        outs = [outarray(rng, n) for _ in range(2 if both else 1)]
        name = "evaluate_derivs" if both else "evaluate"
        ctx.desc = dict(call=name, n=n, forms=[q[0] for q in outs])
        ctx.seen("out", both, tuple(q[0] for q in outs))
        want, sc = evals.reference(spec, (name, (r,)))
        judge(ctx, lambda *a: getattr(o, name)(r, *a), outs, want.reshape(-1, n), sc.reshape(-1, n))
    ctx.sample(ctx.desc)
