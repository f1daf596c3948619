"""Evaluators are free of memory errors and undefined behaviour on valid input."""
import os
from vlib import build
from vlib.runner import Job, ProgJob
from checks import c10, c07

LEVEL = "exploration"
RULE = ("random call histories on every evaluator and helper with exactly-sized heap buffers, smallest sizes, empty batches and lists, copies, moves and rejected calls, run under "
        "AddressSanitizer+UBSan+LeakSanitizer with library assertions and an instrumented BLAS, and under valgrind memcheck (uninitialised reads, leaks); the Python bindings "
        "run the history workload under ASan; non-trivial = distinct (kind, previous call[batch class], call[batch class]) transitions")
ASSUMPTIONS = ["memory errors inside OpenBLAS caused by wrong arguments are seen through the instrumented BLAS that replaces it in these builds"]
MIN_DISTINCT = 120
SEED = int(os.environ.get("VERIF_SEED", "1"))
history, batch_walk, copies = c10.history, c10.batch_walk, c10.copies


def prepare(jobs):
    for fl in {j.flavour for j in jobs if isinstance(j, ProgJob)}:
        build.program("memory", "core", fl, ["memory.cpp"])


def jobs(tier):
    k = 1 if tier == "quick" else 12
    B = build.BUILD + "/bin/memory-core-"
    out = [ProgJob("memory", [B + "asan", str(SEED), str(c * 10000), str(2500 * k), "25"], "asan", timeout=400, label=f"chunk {c}") for c in range(4)]
    for c in range(3):
        out.append(ProgJob("memcheck", ["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
                                        B + "vg", str(SEED), str(500000 + c * 10000), str(120 * k), "20"], "vg", timeout=600, label=f"chunk {c}"))
    out += [Job("history", flavour="asan", n=96 * k), Job("batch_walk", flavour="asan", n=64 * k), Job("copies", flavour="asan", n=40 * k, vh=True, chunks=4)]
    return out
