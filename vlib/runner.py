"""Runs the check of one property: builds everything from /repo's working tree,
lets the executor decide every assertion of the property's harnesses, replays
what it found against the natively compiled library, writes the evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import build
from .checks import CHECKS

VERIF = build.VERIF


class Err(Exception):
    pass


def sx(engine, ll, job, tier, out, tlimit):
    p = dict(job.get("params", {}))
    p.update(job.get(tier, {}))
    opts = {"frontier": 64, "steps": 200_000_000, "traces": 4, "maxv": 2, "workers": 8}
    opts.update(job.get("opts", {}))
    opts.update(job.get(tier + "_opts", {}))
    t = opts.pop("time", 120 if tier == "quick" else 3000)
    cmd = [engine, ll, "--entry", job["entry"], "--out", out, "--time", str(int(min(t, tlimit)))]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    for k, v in p.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode != 0:
        raise Err("executor: %s: exit %d\n%s" % (job["entry"], q.returncode, q.stdout[-3000:]))
    d = json.load(open(out))
    r = {k: 0 for k in ("paths", "ended", "forks", "steps", "asserts", "asserts_concrete", "asserts_proved", "ord_decided", "limits", "queries", "sat", "unsat", "unknown", "solver_ns", "schedules")}
    r.update(covers={}, cut={}, viol_count={}, functions={}, violations=[], traces=[], solver_max_ns=0)
    for part in d["parts"]:
        for k in list(r):
            if isinstance(r[k], int) and k != "solver_max_ns":
                r[k] += part[k]
        r["solver_max_ns"] = max(r["solver_max_ns"], part["solver_max_ns"])
        for k in ("covers", "cut", "viol_count", "functions"):
            for n, c in part[k].items():
                r[k][n] = r[k].get(n, 0) + c
        r["violations"] += part["violations"]
        r["traces"] += part["traces"]
    r["wall_s"] = d["wall_s"]
    r["params"] = p
    return r


def replay_text(job, params, inputs, sched):
    o = "harness %s\n" % job["entry"]
    for k, v in params.items():
        o += "param %s %d\n" % (k, v)
    for n, v in inputs:
        o += "in %s %s\n" % (n, v)
    if sched:
        o += "sched %s\n" % " ".join(sched)
    return o


def native(binary, text, valgrind=False, timeout=60):
    d = tempfile.mkdtemp(prefix="hx")
    try:
        f = os.path.join(d, "r.txt")
        open(f, "w").write(text)
        sd = os.path.join(d, "s")
        os.mkdir(sd)
        cmd = [binary, f]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"] + cmd
        env = dict(os.environ, SX_DIR=sd)
        env.pop("RUST_BACKTRACE", None)
        env.pop("RUST_LOG", None)
        pre = None
        if not valgrind:
            import resource

            def pre():
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre, cwd=sd)
        except subprocess.TimeoutExpired as e:
            return {"rc": "timeout", "out": (e.stdout or b"").decode(errors="replace"), "err": ""}
        return {"rc": p.returncode, "out": p.stdout.decode(errors="replace"), "err": p.stderr.decode(errors="replace")}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(v, r):
    """did the native run show what the executor reported?"""
    lines = r["out"].splitlines()
    crash = isinstance(r["rc"], int) and r["rc"] < 0
    l = v["label"]
    if l == "panic":
        return any(x.startswith("SX-PANIC") for x in lines) or crash
    if l == "exit":
        return any(x.startswith("SX-EXIT") for x in lines)
    if l in ("abort", "stack-overflow", "unreachable", "division-by-zero"):
        return crash or any(x.startswith("SX-PANIC") for x in lines)
    if l == "memory-access":
        return crash or r["rc"] == 99 or any(x.startswith("SX-PANIC") for x in lines)
    if l == "deadlock":
        return r["rc"] == "timeout" or "SX-DEADLOCK" in r["out"]
    if l == "resource":
        return crash or r["rc"] == "timeout" or any(x.startswith("SX-PANIC") for x in lines)
    return any(x == "SX-FAIL " + l for x in lines)


def what(v, r):
    for x in r["out"].splitlines():
        if x.startswith(("SX-PANIC", "SX-EXIT")) and v["label"] in ("panic", "exit"):
            # without a message where the schedule is replayed
            return x[3:] if ":" in x else v["detail"]
    return v["detail"]


def setup():
    """build everything once, so that a failure shows before any check"""
    os.makedirs(build.BUILD, exist_ok=True)
    build.entries()
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(g) for g in (build.engine, build.replay_bin, build.harness_archive)]:
            f.result()


def main(pid, tier):
    t0 = time.time()
    chk = CHECKS[pid]
    os.makedirs(build.BUILD, exist_ok=True)
    names = build.entries()
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    want = sorted({j["entry"] for j in jobs})
    for w in want:
        if w not in names:
            raise Err("no harness " + w)
    threads = any(j.get("threads") for j in jobs)
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build.engine)
        fn = ex.submit(build.replay_bin)
        fa = ex.submit(build.harness_archive)
        allbc = build.link_all(fa.result())
        ll = os.path.join(build.BUILD, "%s.ll" % pid)
        build.module(allbc, want, ll)
        engine = fe.result()
        nat = fn.result()
        natt = build.sched_bin(ll) if threads else None
    tb = time.time() - t0
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = [k for k in known if k.get("status") == "known" and k["property"] == pid]
    viols, knowns, problems, per = [], {}, [], []
    validated = 0
    samples = []
    allfn = {}
    budget = float(os.environ.get("VERIF_LIMIT", "840" if tier == "quick" else "20000"))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for job in jobs:
        jn = job.get("name", job["entry"])
        out = os.path.join(build.BUILD, "%s.%s.json" % (pid, jn))
        left = budget - (time.time() - t0) - 30
        if left < 5:
            problems.append("%s: no time left" % jn)
            break
        r = sx(engine, ll, job, tier, out, left)
        binary = natt if job.get("threads") else nat
        for k, n in r["functions"].items():
            allfn[k] = allfn.get(k, 0) + n
        per.append(
            {
                "harness": jn,
                "entry": job["entry"],
                "bounds": r["params"],
                "paths": r["paths"],
                "complete": r["limits"] == 0,
                "paths_cut": r["cut"],
                "forks": r["forks"],
                "instructions": r["steps"],
                "assertions": r["asserts"],
                "assertions_constant": r["asserts_concrete"],
                "assertions_by_solver": r["asserts_proved"],
                "branches_by_order_closure": r["ord_decided"],
                "queries": r["queries"],
                "queries_unsat": r["unsat"],
                "queries_sat": r["sat"],
                "queries_unknown": r["unknown"],
                "solver_s": round(r["solver_ns"] / 1e9, 3),
                "solver_max_s": round(r["solver_max_ns"] / 1e9, 3),
                "schedule_points": r["schedules"],
                "covers": r["covers"],
                "wall_s": r["wall_s"],
            }
        )
        seen = set()
        for v in r["violations"]:
            text = replay_text(job, r["params"], v["inputs"], v["sched"])
            nr = native(binary, text)
            ok = reproduced(v, nr)
            if not ok and v["label"] == "memory-access":
                nr = native(binary, text, valgrind=True, timeout=240)
                ok = reproduced(v, nr)
            w = what(v, nr)
            if not ok:
                # a path cannot be trusted which the real code does not follow
                p = "%s: the executor reports '%s' (%s), which the native replay does not show (exit %s: %s)" % (jn, v["label"], v["detail"], nr["rc"], nr["out"][-300:].replace("\n", " / "))
                if p not in problems:
                    problems.append(p)
                    open(os.path.join(rdir, "%s.%s.unconfirmed.txt" % (pid, jn)), "w").write(text + "".join("# " + s + "\n" for s in v["stack"]))
                continue
            hit = None
            for k in known:
                if k["harness"] == jn and k["label"] == v["label"] and re.search(k["match"], w + " " + " ".join(v["stack"][:6])):
                    hit = k
            if hit:
                knowns[hit["what"]] = knowns.get(hit["what"], 0) + 1
                continue
            key = (jn, v["label"], w)
            if key in seen:
                continue
            seen.add(key)
            f = os.path.join(rdir, "%s.%s.%d.txt" % (pid, jn, len(viols)))
            with open(f, "w") as o:
                o.write(text)
                o.write("# property %s: %s: %s\n" % (pid, v["label"], w))
                for s in v["stack"]:
                    o.write("#   %s\n" % s)
                o.write("# native replay: exit %s\n" % nr["rc"])
                for s in nr["out"].splitlines()[-40:]:
                    o.write("#   %s\n" % s)
            viols.append((jn, v["label"], w, f))
        # the executor's account of complete paths against the real code
        for t in r["traces"][:24]:
            text = replay_text(job, r["params"], t["inputs"], t["sched"])
            nr = native(binary, text)
            obs = [x.split()[1] for x in nr["out"].splitlines() if x.startswith("SX-OBS ")]
            bad = nr["rc"] != 0 or obs != list(t["observed"])
            if bad:
                problems.append("%s: a path and its native replay differ (exit %s, observed %s, predicted %s)" % (jn, nr["rc"], obs[:12], t["observed"][:12]))
                open(os.path.join(rdir, "%s.%s.differs.txt" % (pid, jn)), "w").write(text)
            else:
                validated += 1
                if len(samples) < 6:
                    samples.append({"harness": jn, "inputs": t["inputs"][:40], "observed": t["observed"][:20], "schedule": t["sched"][:60]})
        if r["unknown"]:
            problems.append("%s: %d solver queries without an answer" % (jn, r["unknown"]))
        if r["limits"] == 0 and not r["violations"]:
            for c in job.get("covers", ["end"]):
                if not r["covers"].get(c):
                    problems.append("%s: no path reaches '%s'" % (jn, c))
    ours = sorted(((n, c) for n, c in allfn.items() if "hnsw_rs" in n), key=lambda x: -x[1])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": sum(p["paths"] for p in per),
            "transitions": sum(p["forks"] for p in per),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": all(p["complete"] for p in per),
            "explanation": "states: complete symbolic paths through the compiled code (each stands for all inputs that satisfy its path condition); transitions: symbolic branches where both sides are possible",
            "harnesses": per,
            "solver_queries": sum(p["queries"] for p in per),
            "solver_s": round(sum(p["solver_s"] for p in per), 2),
            "functions_encoded": len(allfn),
            "functions_of_hnsw_rs_encoded": [demangle(n) for n, _ in ours][:150],
            "bounds": chk["bounds"],
            "known_findings": knowns,
            "unconfirmed": problems,
            "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in knowns.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for p in per:
        print("%s: %d paths%s, %d assertions, %d queries, %.1f s" % (p["harness"], p["paths"], "" if p["complete"] else " (incomplete)", p["assertions"], p["queries"], p["wall_s"]))
    for p in problems:
        print("PROBLEM: " + p)
    for jn, l, w, f in viols:
        print("%s: %s: %s" % (jn, l, w))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    if viols:
        return 1
    return 2 if problems else 0


def demangle(n):
    m = re.match(r"_ZN(.*)E$", n)
    if not m:
        return n
    s, o = m.group(1), []
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        i = len(k.group(1))
        o.append(s[i : i + int(k.group(1))])
        s = s[i + int(k.group(1)) :]
    if o and re.match(r"h[0-9a-f]{16}$", o[-1]):
        o.pop()
    r = "::".join(o)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("..", "::")):
        r = r.replace(a, b)
    return r


COMMON = [
    "the executor's semantics of LLVM IR, and its models of libc, files and locks (sampled paths are replayed natively on every run)",
    "the compiler's lowering to IR at low optimisation, and z3",
    "one fixed seed for hash maps: their iteration order is not varied",
]
