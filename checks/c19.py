"""Damaged or incomplete model files are refused with an error."""
import json
import os
import shutil
import tempfile
import numpy as np
from vlib import macegen as G, mc
from vlib.runner import Job

LEVEL = "fault injection"
TECHNIQUE = "fault-injection monitor: every damaged file must be refused by an exception, under ASan, then a good file must load and compute"
RULE = ("good synthetic model files damaged by removing each entry at any depth, emptying, shortening or retyping an entry, pointing indices outside their range, truncating the text at any byte, "
        "overwriting bytes, empty files, directories, missing and unreadable paths and files of other formats; each must raise an exception in-process (no crash, no sanitizer report); after each "
        "batch a good file loads and gives the reference energies; non-trivial = distinct (kind of damage, entry) pairs")
ASSUMPTIONS = ["a truncated text that is still complete JSON (only trailing blanks lost) and an overwritten byte that leaves every entry present with its size are not counted as damage"]
MIN_DISTINCT = 80
FACTOR = 4


def jobs(tier):
    k = 1 if tier == "quick" else 20
    return [Job("entries", part="mace", n=160 * k), Job("bytes_", part="mace", n=80 * k), Job("entries", part="mace", flavour="asan", n=96 * k), Job("bytes_", part="mace", flavour="asan", n=64 * k)]


NOISE = (RuntimeError, ValueError, TypeError, IndexError, KeyError, MemoryError, OSError)


def refused(ctx, S, path, what, key):
    ctx.desc = dict(ctx.desc, damage=what)
    ctx.event("damaged files offered")
    try:
        ev = S.MACE(path)
    except Exception as e:
        ctx.event("refused with " + type(e).__name__)
        return
    ctx.fail("accepted:" + key, f"a model file with {what} was accepted")


def good_again(ctx, S, m, good):
    ev = ctx.call(S.MACE, good, what="MACE(good file)")
    L = mc.any_lists(ctx.rng, m)
    want, size = mc.ref(m, L)
    e, _ = mc.run(ctx, ev, L)
    ctx.close(e, want, size, "energy after refused loads", tol=mc.TIGHT)
    ctx.event("good loads after refused ones")


def walk(node, path=()):
    """every place below a dict or list that holds something"""
    yield path, node
    if isinstance(node, dict):
        for k in node:
            yield from walk(node[k], path + (k,))
    elif isinstance(node, list):
        for k in sorted({0, len(node) // 2, len(node) - 1} - {-1}):
            yield from walk(node[k], path + (k,))


def put(f, path, value=None, drop=False):
    node = f
    for k in path[:-1]:
        node = node[k]
    if drop:
        del node[path[-1]]
    else:
        node[path[-1]] = value


def name(path):
    return "/".join("#" if isinstance(k, int) or k.isdigit() else k for k in path)


NUMERIC_TOP = ("num_elements", "num_channels", "l_max", "L_max", "r_cut", "radial_spline_h", "has_zbl", "A0_scaled", "A1_scaled")
INDEX = ("Phi1_lme", "Phi1_lelm1lm2", "Phi1_l", "Phi1_l1", "Phi1_l2", "M0_monomials", "M1_monomials")


def entries(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="verif-model-")
    try:
        m = G.Model(rng, small=True, nodes=6, l_max=int(rng.integers(0, 3)), K=int(rng.integers(1, 3)), zbl=bool(i % 2), scaled=bool(i // 2 % 2))
        m.spelling = m.spelling & ~1               # no keys of its own
        good = m.write(d)
        text = open(good).read()
        places = [p for p, _ in walk(json.loads(text)) if p]
        top = [p for p in places if len(p) == 1]
        todo = [("drop", p) for p in top[i % 3::3]]
        for _ in range(24):
            p = places[int(rng.integers(len(places)))] if rng.random() < .8 else top[int(rng.integers(len(top)))]
            todo.append((str(rng.choice(["drop", "null", "text", "empty", "shorten", "range", "nest"])), p))
        ctx.desc = mc.describe(m)
        for kind, p in todo:
            f = json.loads(text)
            node = f
            for k in p:
                node = node[k]
            if kind == "shorten":
                if not isinstance(node, (list, dict)) or not node:
                    continue
                if isinstance(node, list):
                    q = len(node) - 1 if rng.random() < .5 else int(rng.integers(len(node)))
                    del node[q]
                else:
                    del node[sorted(node)[-1]]
            elif kind == "range":
                if p[0] not in INDEX or not isinstance(node, int):
                    continue
                put(f, p, int(rng.choice([-1, 10 ** 6, 10 ** 9, 2 ** 31 - 1])))
            elif kind == "empty":
                if not isinstance(node, (list, dict)) or not node:
                    continue
                put(f, p, type(node)())
            elif kind == "null":
                put(f, p, None)
            elif kind == "text":
                put(f, p, "x")
            elif kind == "nest":
                put(f, p, [node])
            else:
                put(f, p, drop=True)
            if kind in ("shorten", "drop") and p[0].endswith("_monomials") and len(p) >= {"M0_monomials": 3, "M1_monomials": 2}[p[0]] + (kind == "drop"):
                continue                     # one factor fewer in a monomial is a different, valid model
            # monomials and their weights shortened together would be a different, valid model: never done here
            if kind in ("shorten", "drop") and p[0] == "zbl_covalent_radii":
                continue                     # a shorter table may still cover the elements
            bad = d + "/bad.json"
            with open(bad, "w") as o:
                json.dump(f, o)
            refused(ctx, S, bad, f"{kind} of {name(p)}", kind + ":" + name(p))
            ctx.seen(kind, name(p))
        good_again(ctx, S, m, good)
        ctx.sample(dict(model=mc.describe(m), last=f"{kind} of {name(p)}"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bytes_(ctx, i):
    import symmetrix as S
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="verif-model-")
    try:
        m = G.Model(rng, small=True, nodes=6)
        m.spelling = m.spelling & ~1               # no keys of its own
        good = m.write(d)
        text = open(good, "rb").read()
        bad = d + "/bad.json"
        ctx.desc = mc.describe(m)
        n = len(text)
        for cut in [0, 1, 2, n - 1, n - 2] + [int(q) for q in rng.integers(3, n - 2, 10)]:
            open(bad, "wb").write(text[:cut])
            refused(ctx, S, bad, f"its text cut at byte {cut} of {n}", "truncated")
            ctx.seen("cut", min(cut, 5), n - cut if n - cut < 5 else 5)
        for other in (b"null", b"[]", b"{}", b"42", b'"model"', b"\x00" * 64, b"\xff\xfe" + text[:50], b"PK\x03\x04" + bytes(rng.integers(0, 256, 200).astype(np.uint8)), b"#!/bin/sh\n",
                      b"[" * 2000, b'{"num_elements": 1}', text[1:], text + b"}", b"<xml/>"):
            open(bad, "wb").write(other)
            refused(ctx, S, bad, f"content {other[:12]!r}", "other content")
            ctx.seen("other", other[:8])
        for _ in range(6):
            q = int(rng.integers(0, n))
            if text[q:q + 1] not in b'{}[]":,':
                continue
            t = bytearray(text)
            t[q:q + 1] = b"\x01"
            open(bad, "wb").write(bytes(t))
            refused(ctx, S, bad, f"byte {q} overwritten", "overwritten byte")
            ctx.seen("overwrite", text[q:q + 1])
        refused(ctx, S, d + "/missing.json", "no file at the path", "missing file")
        refused(ctx, S, d, "a directory at the path", "directory")
        refused(ctx, S, "", "an empty path", "empty path")
        ctx.seen("paths")
        good_again(ctx, S, m, good)
        ctx.sample(dict(model=mc.describe(m), bytes=n))
    finally:
        shutil.rmtree(d, ignore_errors=True)
