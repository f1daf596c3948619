"""Separate MACE potentials can be used from several threads at once."""
import os
from vlib import build
from vlib.runner import ProgJob
from checks import c18

LEVEL = "exploration"
TECHNIQUE = "ThreadSanitizer over threads that each load and evaluate potentials of their own, and a differential monitor against the same tasks run alone"
RULE = ("2..12 threads released from a barrier, each loading MACE model files and evaluating neighbour lists (whole evaluations and the staged calls of the LAMMPS styles) on objects of its own; "
        "all threads on one file or on different ones, with equal or different structures, the single-threaded run before or after; ThreadSanitizer watches every access (with an instrumented BLAS); "
        "non-trivial = distinct (previous call, call, model shape) transitions inside overlapping tasks plus overlap patterns")
ASSUMPTIONS = ["ThreadSanitizer sees races between accesses in the executed schedules, not in code no task reaches",
               "OpenBLAS and sphericart are replaced by instrumented equivalents in the TSan build"]
MIN_DISTINCT = 60
SEED = int(os.environ.get("VERIF_SEED", "1"))
MODELS = f"{build.BUILD}/models30-{os.getpid()}"


def prepare(jobs):
    for fl in {j.flavour for j in jobs}:
        build.program("mace_threads", "mace", fl, ["mace_threads.cpp"])
    c18.write_models(MODELS, SEED + 30, 24)


def jobs(tier):
    k = 1 if tier == "quick" else 15
    B = build.BUILD + "/bin/mace_threads-mace-"
    out = []
    for c, T in enumerate((2, 4, 8, 12)):
        out.append(ProgJob("mace_threads", [B + "tsan", MODELS + "/models.txt", str(SEED), str(c * 100000), str(24 * k), str(T)], "tsan", timeout=600, label=f"T={T}"))
        out.append(ProgJob("mace_threads", [B + "rel", MODELS + "/models.txt", str(SEED + 500), str(c * 100000), str(60 * k), str(T)], "rel", timeout=600, label=f"T={T}"))
    return out
