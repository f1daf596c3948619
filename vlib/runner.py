import argparse
import concurrent.futures as cf
import importlib
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build

VERIF = build.VERIF
KNOWN = VERIF + "/known_findings.txt"


class Job:
    """n cases of function fn of the check module, run in worker processes against one build variant."""
    def __init__(self, fn, part="core", flavour="rel", n=100, chunks=8, timeout=300, vh=False, args=None, env=None,
                 offset=0):
        self.fn, self.part, self.flavour, self.n = fn, part, flavour, n
        self.chunks, self.timeout, self.vh, self.args = min(chunks, max(n, 1)), timeout, vh, args or {}
        self.env = env or {}
        self.offset = offset


class ProgJob:
    """A native program printing a JSON object {"cases":..,"events":{},"distinct":[..],"violations":[..]} on its last line."""
    def __init__(self, name, cmd, flavour="tsan", timeout=300, env=None, label=""):
        self.name, self.cmd, self.flavour, self.timeout = name, cmd, flavour, timeout
        self.env, self.label = env or {}, label


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


SAN = re.compile(r"(VKOKKOS: [^\n]*|VLAMMPS: [^\n]*|ERROR: AddressSanitizer: [\w-]+|ERROR: LeakSanitizer[^\n]*|runtime error: [^\n]*|"
                 r"WARNING: ThreadSanitizer: [^\n(]*|Assertion [^\n]*failed|terminate called[^\n]*|"
                 r"ERROR SUMMARY: [1-9]\d* errors)")


def crash_key(rc, err):
    m = SAN.search(err)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?)(?: /| \()", err)
    frames = [f for f in frames if not re.match(r"(__|operator|std::|_Py|Py|pybind|0x)", f)][:2]
    kind = m.group(1) if m else ("signal %d" % -rc if rc < 0 else "exit %d" % rc)
    return kind.strip() + (" in " + " < ".join(frames) if frames else "")


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_chunk(spec):
    """-> dict(result) ; never raises"""
    prop, mod, job, seed, tier, start, count, root, tmp = spec
    tag = hashlib.md5(repr((job.part, job.vh, job.args, job.env, job.offset)).encode()).hexdigest()[:8]
    base = f"{tmp}/{job.fn}-{job.part}-{job.flavour}-{tag}-{start}"
    res, stat = base + ".json", base + ".stat"
    env = build.env_for(job.flavour, root)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.update(job.env)
    cmd = ["/usr/bin/python3", "-m", "vlib.worker", mod, job.fn, str(seed), tier, str(start), str(count), res, stat,
           json.dumps(job.args)]
    for attempt in (1, 2):
        for f in (res, stat):
            if os.path.exists(f):
                os.unlink(f)
        with open(base + ".err", "wb") as errf:
            p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=errf,
                                 preexec_fn=limit if job.flavour in ("rel", "vg") else None)
            try:
                rc = p.wait(job.timeout * attempt)
                break
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
    err = open(base + ".err", errors="replace").read()
    case = None
    if os.path.exists(stat):
        try:
            case = int(open(stat).read().split()[0])
        except Exception:
            case = None
    where = dict(fn=job.fn, part=job.part, flavour=job.flavour, seed=seed, tier=tier, case=case, args=job.args,
                 vh=job.vh)
    if rc == 0 and os.path.exists(res):
        r = json.load(open(res))
        for v in r["violations"]:
            v["where"] = dict(where, case=v.get("case"))
        return r
    empty = dict(cases=0, events={}, distinct=[], samples=[], violations=[])
    if rc is None:
        if case is None:
            return dict(empty, error=f"worker timed out before its first case: {' '.join(cmd)}")
        empty["violations"] = [dict(key="hang", msg=f"case {case} of {job.fn} did not finish twice", where=where)]
        return empty
    if os.path.exists(res):
        r = json.load(open(res))
        for v in r["violations"]:
            v["where"] = dict(where, case=v.get("case"))
        if r.get("error"):
            return r
    if case is None or rc == 3 or rc == -9:     # -9: memory ran out
        return dict(empty, error=f"worker failed (rc={rc}) in case {case}:\n{err[-3000:]}")
    empty["violations"] = [dict(key="crash:" + crash_key(rc, err), msg=f"process died (rc={rc}) in case {case} of {job.fn}",
                                log=err[-6000:], where=where)]
    return empty


def run_prog(spec):
    prop, job, seed, tier = spec
    env = build.env_for(job.flavour)
    env.pop("LD_PRELOAD", None)
    if job.flavour == "asan":
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=0"
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.update(job.env)
    where = dict(prog=job.name, cmd=job.cmd, flavour=job.flavour, env=job.env, seed=seed)
    empty = dict(cases=0, events={}, distinct=[], samples=[], violations=[])
    rc = None
    for attempt in (1, 2):
        try:
            p = subprocess.run(job.cmd, env=env, capture_output=True, timeout=job.timeout * attempt, cwd=VERIF)
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            rc = None
    if rc is None:
        empty["violations"] = [dict(key="hang", msg=f"{job.name} {job.label} did not finish twice", where=where)]
        return empty
    out = p.stdout.decode(errors="replace")
    err = p.stderr.decode(errors="replace")
    if rc == 3:
        return dict(empty, error=f"{job.name}: {err[-3000:]}")
    last = [l for l in out.splitlines() if l.startswith("{")]
    if rc != 0 or not last:
        empty["violations"] = [dict(key="crash:" + crash_key(rc, err + out), msg=f"{job.name} {job.label} died rc={rc}",
                                    log=(err + out)[-8000:], where=where)]
        return empty
    r = json.loads(last[-1])
    r.setdefault("events", {})
    r.setdefault("distinct", [])
    r.setdefault("samples", [])
    for v in r.setdefault("violations", []):
        v.setdefault("where", where)
    return r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    modname = "checks." + a.prop.lower()
    mod = importlib.import_module(modname)
    tmp = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        return _main(a, mod, modname, seed, tier, t0, tmp)
    except build.BuildError as e:
        print(f"NO ANSWER property={a.prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"NO ANSWER property={a.prop}: harness failure")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, mod, modname, seed, tier, t0, tmp):
    prop = a.prop
    if a.replay:
        w = json.load(open(a.replay))["where"]
        if "prog" in w:
            jobs = [j for j in mod.jobs(w.get("tier", tier)) if isinstance(j, ProgJob) and j.name == w["prog"]]
        else:
            jobs = [Job(w["fn"], w["part"], w["flavour"], n=1, chunks=1, vh=w.get("vh", False), args=w.get("args"),
                        offset=w["case"])]
            seed, tier = w["seed"], w["tier"]
    else:
        jobs = mod.jobs(tier)
    if hasattr(mod, "prepare"):
        mod.prepare(jobs)
    roots = {}
    for j in jobs:
        if isinstance(j, Job):
            k = (j.part, j.flavour)
            roots[k] = roots.get(k, False) or j.vh
    for k, vh in roots.items():
        roots[k] = build.module(k[0], k[1], vh=vh)
    t_build = time.time() - t0
    specs = []
    for j in jobs:
        if isinstance(j, ProgJob):
            specs.append((run_prog, (prop, j, seed, tier), j.timeout))
            continue
        n = 1 if a.replay else max(1, int(j.n * a.scale * getattr(mod, "FACTOR", 3)))
        step = -(-n // j.chunks)
        for s in range(0, n, step):
            specs.append((run_chunk, (prop, modname, j, seed, tier, j.offset + s, min(step, n - s),
                                      roots[(j.part, j.flavour)], tmp), j.timeout))
    tot = dict(cases=0, events={}, violations=[], samples=[])
    distinct = set()
    errors = []
    per_fn = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [(ex.submit(f, s), s) for f, s, _ in specs]
        for fu, s in futs:
            r = fu.result()
            if r.get("error"):
                errors.append(r["error"])
            tot["cases"] += r["cases"]
            name = s[2].fn + "/" + s[2].flavour if isinstance(s[2], Job) else s[1].name + "/" + s[1].flavour
            per_fn[name] = per_fn.get(name, 0) + r["cases"]
            for k, v in r["events"].items():
                if k.startswith("max:"):
                    tot["events"][k] = max(tot["events"].get(k, v), v)
                else:
                    tot["events"][k] = tot["events"].get(k, 0) + v
            distinct.update(r["distinct"])
            tot["samples"] += r["samples"][:2]
            tot["violations"] += r["violations"]
    known = dict(known_findings(prop))
    fresh, seen_known = [], set()
    for v in tot["violations"]:
        if v["key"] in known:
            seen_known.add(v["key"])
        else:
            fresh.append(v)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    rc = 0
    if fresh:
        rc = 1
        rd = VERIF + "/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        done = {}
        for v in fresh:
            if v["key"] in done or len(done) >= 5:
                continue
            path = f"{rd}/{prop}-{len(done)}.json"
            with open(path, "w") as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            done[v["key"]] = path
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['key']}: {v['msg']}")
    minimum = getattr(mod, "MIN_DISTINCT", 10)
    if rc == 0 and not a.replay and a.scale >= 1:
        if errors:
            rc = 2
        elif len(distinct) < minimum:
            errors.append(f"too little observed: {len(distinct)} distinct cases < {minimum}")
            rc = 2
    for e in errors[:3]:
        print(f"NO ANSWER property={prop}: {e}")
    if not a.replay:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
                  coverage=dict(evaluations=tot["cases"], distinct_nontrivial=len(distinct), rule=mod.RULE,
                                samples=tot["samples"][:6] or ["(none)"], cases_per_workload=per_fn,
                                observed=dict(sorted(tot["events"].items()))),
                  assumptions=getattr(mod, "ASSUMPTIONS", []), violations=len(fresh),
                  wall_s=round(time.time() - t0, 2))
        ev["coverage"]["build_s"] = round(t_build, 2)
        if errors:
            ev["coverage"]["errors"] = [e[:500] for e in errors[:5]]
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier} seed={seed}: {tot['cases']} cases, {len(distinct)} distinct, {len(fresh)} violation(s), "
          f"{time.time()-t0:.1f}s (build {t_build:.1f}s)")
    return rc
