#!/usr/bin/env python3
"""Check driver.

  mc/run.py check P01 [--tier quick|thorough]     decide one property
  mc/run.py replay evidence/replays/<file>.json    re-run one recorded violation

A check builds the harness (and with it the library) from /repo's current
working tree in several build configurations, runs the explorers of the
property in each, merges their counts into evidence/<id>.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored; exit 1:
violated; anything else: the check itself failed.
"""
import json, os, re, subprocess, sys, time, threading, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# configuration -> (cargo profile, RUSTFLAGS, cpu flags the machine must have)
CONFIGS = {
    "dbg": ("dev", "", ()),
    "o1": ("o1", "", ()),
    "rel": ("release", "", ()),
    "ssse3": ("release", "-C target-feature=+ssse3", ("ssse3",)),
    "sse42": ("release", "-C target-feature=+sse4.2,+popcnt", ("sse4_2", "popcnt")),
    "avx": ("release", "-C target-feature=+avx", ("avx",)),
    "avx2": ("release", "-C target-feature=+avx2,+fma,+bmi1,+bmi2", ("avx2", "fma", "bmi1", "bmi2")),
    "avx2dbg": ("dev", "-C target-feature=+avx2,+fma", ("avx2", "fma")),
    "avx512": ("release", "-C target-cpu=x86-64-v4", ("avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl")),
}
PROFILE_DIR = {"dev": "debug", "release": "release", "o1": "o1"}
ALL = ["p%02d" % i for i in range(1, 20)]

STD_Q = [("rel", 2), ("dbg", 1), ("avx2", 1), ("avx", 1), ("ssse3", 1)]
STD_T = [("rel", 3), ("dbg", 2), ("avx2", 2), ("avx", 2), ("ssse3", 2), ("avx512", 2), ("o1", 2)]
PLAN = {}
for b in ALL:
    PLAN[b.upper()] = {"bins": [b], "quick": STD_Q, "thorough": STD_T}
# the instruction-set paths live here: every path at the full bounds
for b in ("P10", "P14"):
    PLAN[b]["quick"] = [(c, 1 if c == "dbg" else 2) for c, _ in STD_Q]
KERNEL_BINS = ("p21",)  # explorers of the example programs live in mc/kernels
PLAN["P21"] = {"bins": ["p21"], "quick": [("rel", 2), ("dbg", 1), ("avx2", 1)], "thorough": [("rel", 3), ("dbg", 1), ("avx2", 2), ("avx", 2), ("ssse3", 2), ("avx512", 2)]}
PLAN["P20"] = {
    "bins": ALL,
    "quick": [(c, 1) for c in ("rel", "dbg", "o1", "ssse3", "sse42", "avx", "avx2", "avx512")],
    "quick_level": {"p01": 0, "p02": 0, "p06": 0},  # the largest ones
    "thorough": [(c, 2) for c in ("rel", "dbg", "o1", "ssse3", "sse42", "avx", "avx2", "avx2dbg", "avx512")],
}
# properties that also own some jobs of another explorer: bin -> job filter
EXTRA = {
    "P06": {"p17": "/eq|/ne|/lt|/le|/gt|/ge"},
    "P07": {"p17": "== != hash"},
    "P11": {"p17": "construct and access"},
    "P17": {"p12": "ptrx", "p14": "ptrx", "p19": "ptrx"},
}
ASSUME = [
    "x86_64-unknown-linux-gnu only: code compiled for other architectures is not executed",
    "the scalar reference models and the explorer (mc/engine) are trusted; they are compiled from /verif, not from /repo",
    "values outside the enumerated alphabets are not visited; alphabets and bounds are in DESIGN.md",
]


def say(*a):
    print(*a, flush=True)


def cpu_flags():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":")[1].split())
    return set()


def cargo_env(flags):
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, check=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    env["RUSTFLAGS"] = flags
    return env


def cargo(cfg, args, log, crate="harness"):
    prof, flags, _ = CONFIGS[cfg]
    cmd = ["cargo", "build", "--offline", "--profile", prof, "--target-dir", os.path.join(BUILD, cfg)] + args
    with open(log, "ab") as f:
        return subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=cargo_env(flags), stdout=f, stderr=subprocess.STDOUT).returncode


def build(cfg, bins):
    """-> (ok, kind, log)  kind: '' | 'lib' | 'api'"""
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, f"{cfg}.log")
    open(log, "wb").close()
    args = sum((["--bin", b] for b in bins), [])
    crate = "kernels" if bins[0] in KERNEL_BINS else "harness"
    for attempt in range(2):
        if cargo(cfg, args, log, crate) == 0:
            return True, "", log
    # Which side does not compile?  The library alone:
    if crate == "kernels" or cargo(cfg, ["-p", "packed_simd"], log) != 0:
        return False, "lib", log
    txt = open(log, errors="replace").read()
    if re.search(r"^error\[E0\d+\]", txt, re.M) and "could not compile `harness`" in txt:
        return False, "api", log
    return False, "lib", log


def run_bin(cfg, b, level, threads, timeout, only=None, filt=None):
    exe = os.path.join(BUILD, cfg, PROFILE_DIR[CONFIGS[cfg][0]], b)
    outp = os.path.join(BUILD, f"{cfg}.{b}.json")
    if os.path.exists(outp):
        os.remove(outp)
    cmd = [exe, "--level", str(level), "--config", cfg, "--threads", str(threads), "--out", outp]
    if only:
        cmd += ["--only", only]
    if filt:
        cmd += ["--filter", filt]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"cfg": cfg, "bin": b, "level": level, "timeout": True, "wall": time.time() - t0}
    res = {"cfg": cfg, "bin": b, "level": level, "rc": r.returncode, "wall": time.time() - t0,
           "stdout": r.stdout.decode(errors="replace")[-4000:], "stderr": r.stderr.decode(errors="replace")[-4000:]}
    if os.path.exists(outp):
        res["json"] = json.load(open(outp))
    return res


def known_findings():
    k = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) job=\{(.*?)\} (.*)", l.strip())
            if m:
                k.append(m.groups())
    return k


def check(prop, tier):
    t0 = time.time()
    plan = PLAN[prop]
    flags = cpu_flags()
    notes, skipped = [], []
    cfgs = []
    for c, lv in plan[tier]:
        if all(f in flags for f in CONFIGS[c][2]):
            cfgs.append((c, lv))
        else:
            skipped.append(c)
    extra = EXTRA.get(prop, {})
    bins = plan["bins"] + list(extra)
    viol = []      # (job, cfg, bin, level, detail)
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda cl: (cl, build(cl[0], bins)), cfgs))
    for (c, lv), (ok, kind, log) in built:
        if ok:
            continue
        tail = open(log, errors="replace").read()
        if kind == "lib":
            say(tail[-3000:])
            say(f"error: /repo does not build in configuration {c}")
            return 2
        m = re.search(r"^error\[E0.*?(?=\n\n)", tail, re.M | re.S)
        viol.append(("public interface", c, bins[0], lv, "a documented operation no longer compiles: " + (m.group(0) if m else tail[-800:])))
    results = []
    if not viol:
        ncpu = os.cpu_count() or 4
        limit = 700 if tier == "quick" else 36000
        low = plan.get(tier + "_level", {})
        jobs = [(c, b, low.get(b, lv)) for b in bins for c, lv in cfgs]
        deadline = t0 + (820 if tier == "quick" else 40000)
        with ThreadPoolExecutor(2 if len(jobs) > 1 else 1) as ex:
            results = list(ex.map(lambda j: run_bin(j[0], j[1], j[2], ncpu, max(30, min(limit, deadline - time.time())), None, extra.get(j[1])), jobs))
    tot = {"states": 0, "transitions": 0, "values": 0, "jobs": 0, "out": 0, "single": 0}
    samples, per = [], []
    for r in results:
        c, b, lv = r["cfg"], r["bin"], r["level"]
        if r.get("timeout"):
            viol.append(("(whole run)", c, b, lv, f"did not terminate within {r['wall']:.0f} s"))
            continue
        j = r.get("json")
        if j is None:
            m = re.search(r"^CRASH signal=(\d+) job=(.*?) input=(.*)$", r["stdout"], re.M)
            if m and m.group(2):
                viol.append((m.group(2), c, b, lv, f"signal {m.group(1)} (memory access outside what the caller provided, or an abort) on input block {m.group(3)[:600]}"))
                continue
            say(r["stdout"], r["stderr"])
            say(f"error: explorer {b} ended with status {r['rc']} in configuration {c}")
            return 2
        for v in j["violations"]:
            if "HARNESS-ERROR" in v["detail"]:
                say(f"error: {v}")
                return 2
            viol.append((v["job"], c, b, lv, v["detail"]))
        tot["states"] += j["states"]; tot["transitions"] += j["transitions"]; tot["jobs"] += j["jobs"]; tot["values"] += j["values"]
        tot["out"] += j["distinct_outcomes_at_least"]; tot["single"] += j["single_outcome_jobs"]
        notes += [n for n in j["notes"] if n not in notes]
        if c == cfgs[0][0]:
            samples += j["samples"][: (6 if len(bins) == 1 else 1)]
        per.append({"config": c, "explorer": b, "level": lv, "jobs": j["jobs"], "states": j["states"], "transitions": j["transitions"], "distinct_outcomes_at_least": j["distinct_outcomes_at_least"], "wall_s": round(r["wall"], 2)})
    known = known_findings()
    real, told = [], set()
    for v in viol:
        hit = [k for k in known if k[0] == prop and re.fullmatch(k[1], v[0])]
        if hit:
            if hit[0] not in told:
                say(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            told.add(hit[0])
        else:
            real.append(v)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["values"],
            "counting": "state = one point of the input/history space of one operation in one build configuration; transition = one execution of the compiled library at such a point (a point can drive several forms of an operation); trace = one result value of the library compared with the reference model's prediction",
            "jobs": tot["jobs"],
            "distinct_outcomes_at_least": tot["out"],
            "jobs_with_a_single_outcome": tot["single"],
            "exhaustive": bool(results) and not any(r.get("timeout") for r in results),
            "exhaustive_note": "every point of the bounded spaces described in DESIGN.md was executed; nothing is sampled and no cap was hit",
            "runs": per,
            "skipped_configurations": skipped,
            "samples": samples[:12],
        },
        "assumptions": ASSUME + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    seen = set()
    for job, c, b, lv, d in real:
        key = re.sub(r"\W+", "_", job)[:60]
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 10:
            break
        path = os.path.join(EVID, "replays", f"{prop}-{key}-{c}.json")
        json.dump({"property": prop, "bin": b, "config": c, "level": lv, "job": job, "detail": d}, open(path, "w"), indent=1)
        say(f"  [{c}] {job}: {d[:700]}")
        say(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
    say(f"{prop} {tier}: {tot['jobs']} jobs, {tot['states']} states, {tot['transitions']} executions compared, "
        f"{len(cfgs)} configurations{', skipped ' + ','.join(skipped) if skipped else ''}, {len(real)} violations, {time.time() - t0:.1f} s")
    return 1 if real else 0


def replay(path):
    j = json.load(open(path))
    ok, kind, log = build(j["config"], [j["bin"]])
    if not ok:
        say(open(log, errors="replace").read()[-3000:])
        return 1 if kind == "api" else 2
    only = None if j["job"].startswith("(") else j["job"]
    r = run_bin(j["config"], j["bin"], j["level"], 1, 3600, only)
    say(r.get("stdout", ""))
    vs = (r.get("json") or {}).get("violations", [])
    for v in vs:
        say(f"{v['job']}: {v['detail']}")
    bad = bool(vs) or "json" not in r
    say("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        sys.exit(check(a[1], tier))
    if a and a[0] == "setup":
        # nothing is cached between runs; confirm that the tools are there
        for g in ("gen_types.py", "gen_pairs.py", "gen_shuffle.py"):
            assert os.path.exists(os.path.join(HERE, g))
        sys.exit(subprocess.run(["cargo", "--version"], env=cargo_env("")).returncode)
    if a and a[0] == "replay":
        sys.exit(replay(a[1]))
    print(__doc__)
    sys.exit(2)


main()
