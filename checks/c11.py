"""Separate evaluator objects can be used from several threads at once."""
import os
from vlib import build
from vlib.runner import ProgJob

LEVEL = "exploration"
RULE = ("2..16 threads released from a barrier, each constructing its own splines, sets, perceptrons, polynomials, pair repulsions and calling the helpers; every round's "
        "results compared with the same tasks run alone; ThreadSanitizer watches all accesses (with an instrumented BLAS); half of the rounds touch everything first inside the "
        "threads; non-trivial = distinct (kind, previous call, call) transitions seen inside overlapping tasks plus distinct overlap patterns")
ASSUMPTIONS = ["ThreadSanitizer sees races between accesses in the executed schedules (happens-before), not in code no task reaches",
               "OpenBLAS itself is not instrumented; its calls are replaced by an instrumented equivalent in the TSan build"]
MIN_DISTINCT = 60
SEED = int(os.environ.get("VERIF_SEED", "1"))


def prepare(jobs):
    for fl in {j.flavour for j in jobs}:
        build.program("threads", "core", fl, ["threads.cpp"])


def jobs(tier):
    k = 1 if tier == "quick" else 15
    B = build.BUILD + "/bin/threads-core-"
    out = []
    for T in (2, 4, 8, 16):
        out.append(ProgJob("threads", [B + "tsan", str(SEED), str(60 * k), str(T), "25", "1"], "tsan", timeout=400, label=f"T={T}"))
        out.append(ProgJob("threads", [B + "rel", str(SEED + 500), str(300 * k), str(T), "25", "0"], "rel", timeout=400, label=f"T={T}"))
    return out
