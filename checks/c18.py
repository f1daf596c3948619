"""The MACE evaluator is free of memory errors and undefined behaviour."""
import os
import numpy as np
from vlib import build, macegen as G
from vlib.runner import Job, ProgJob
from checks import c17, c16

LEVEL = "exploration"
TECHNIQUE = "ASan+UBSan+LSan and valgrind memcheck over loads and evaluations with exactly sized arrays"
RULE = ("40 random model files loaded, evaluated and destroyed in a native program under AddressSanitizer+UBSan+LeakSanitizer (with library assertions and an instrumented BLAS) and under valgrind "
        "memcheck (uninitialised reads, leaks), on neighbour lists held in exactly sized arrays: no atoms, no neighbours, one element, all elements, growing and shrinking sizes, neighbours at and "
        "beyond the cutoff; the Python histories of C17 and the padded lists of C16 also run under ASan; non-trivial = distinct (previous size class, size class, model shape)")
ASSUMPTIONS = ["memory errors inside OpenBLAS caused by wrong arguments are seen through the instrumented BLAS that replaces it in these builds"]
MIN_DISTINCT = 100
FACTOR = 1
SEED = int(os.environ.get("VERIF_SEED", "1"))
history, staged, beyond = c17.history, c17.staged, c16.beyond
MODELS = f"{build.BUILD}/models-{os.getpid()}"


def prepare(jobs):
    for fl in {j.flavour for j in jobs if isinstance(j, ProgJob)}:
        build.program("mace_memory", "mace", fl, ["mace_memory.cpp"])
    write_models(MODELS, SEED)


def write_models(where, seed, n=40):
    import atexit
    import shutil
    os.makedirs(where, exist_ok=True)
    atexit.register(shutil.rmtree, where, True)
    rng = np.random.default_rng(seed)
    files = []
    for q in range(n):
        files.append(G.Model(rng, symmetric=bool(q % 2), small=q % 4 > 0, l_max=q % 4, zbl=bool(q // 4 % 2), scaled=bool(q // 8 % 2), nodes=int(rng.integers(2, 20))).write(where))
    with open(where + "/models.txt", "w") as f:
        f.write("\n".join(files) + "\n")


def jobs(tier):
    k = 1 if tier == "quick" else 15
    B = build.BUILD + "/bin/mace_memory-mace-"
    out = [ProgJob("mace_memory", [B + "asan", MODELS + "/models.txt", str(SEED), str(c * 100000), str(120 * k)], "asan", timeout=600, label=f"chunk {c}") for c in range(5)]
    for c in range(3):
        out.append(ProgJob("mace_memcheck", ["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
                                             B + "vg", MODELS + "/models.txt", str(SEED), str(9000000 + c * 10000), str(8 * k)], "vg", timeout=800, label=f"chunk {c}"))
    out += [Job("history", part="mace", flavour="asan", n=24 * k), Job("staged", part="mace", flavour="asan", n=32 * k), Job("beyond", part="mace", flavour="asan", n=40 * k)]
    return out
