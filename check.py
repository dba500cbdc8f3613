#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]   decides one property for /repo's current tree
check.py --replay <file>               runs a recorded counterexample against the real code again

exit 0: holds within the stated bounds; 1: VIOLATION (replayed against the real code);
2: no answer (build failure, solver gave up, something that cannot be encoded, budget)."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vx import build, driver  # noqa: E402
import checks  # noqa: E402

TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
T0 = time.time()


def known():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) args=(\S*) (.*)", l.strip())
            if m:
                out.append(dict(property=m[1], harness=m[2], args=m[3].split(",") if m[3] else [], text=m[4]))
    return out


def replay(binary, harness, args, tmo=30):
    """-> (status, output): ok | assert | panic | assume | hang | other"""
    d = tempfile.mkdtemp(prefix="vxreplay")
    e = build.base_env()
    e["VX_SCRATCH"] = d
    e.pop("RUST_BACKTRACE", None)
    try:
        r = subprocess.run([binary, harness] + [str(a) for a in args], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo)
    except subprocess.TimeoutExpired:
        return "hang", "no result within %d s" % tmo
    finally:
        shutil.rmtree(d, ignore_errors=True)
    s = {0: "ok", 1: "assert", 3: "panic", 77: "assume"}.get(r.returncode, "other %d" % r.returncode)
    return s, r.stdout[-2000:]


FAIL = ("assert", "panic", "hang", "other -6", "other -11", "other 134", "other 139", "other -8", "other 136")


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        b = build.build_native(TARGET, [r["harness"]], r["profile"])
        s, out = replay(b, r["harness"], r["args"])
        print(s)
        print(out)
        return 1 if s in FAIL else 0
    if sys.argv[1] == "--setup":
        # warms the build directories; every check builds what it needs itself
        os.makedirs(TARGET, exist_ok=True)
        for prof in ("vx", "vxr"):
            build.build_ir(TARGET, [], prof)
            build.build_native(TARGET, [], "dev" if prof == "vx" else "vxr")
        build.build_ir(TARGET, ["h_c19_step"])
        build.build_native(TARGET, ["h_c19_step"])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[prop]
    todo = spec[tier] if tier in spec else spec["quick"]
    budget = float(os.environ.get("VX_BUDGET", 780 if tier == "quick" else 7200))
    deadline = T0 + budget
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    byprof = {}
    for h in todo:
        byprof.setdefault(h.get("profile", "vx"), []).append(h)
    runs = []  # (harness entry, Result, covers declared, binary)
    llfiles = []
    funcs = set()
    for prof, hs in byprof.items():
        names = [h["h"] for h in hs]
        bc = build.build_ir(TARGET, names, prof)
        out = os.path.join(TARGET, "%s.%s.ll" % (prop, prof))
        build.reduce_ir(bc, names, out)
        funcs.update(build.functions(bc, names))
        binary = build.build_native(TARGET, names, "dev" if prof == "vx" else "vxr")
        keep = os.path.join(TARGET, "replay.%s.%s" % (prop, prof))
        shutil.copy2(binary, keep)
        llfiles.append((prof, hs, out, keep))
    fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - T0
    for prof, hs, out, binary in llfiles:
        print("[%6.1fs] %s %s: %s" % (time.time() - T0, prop, prof, " ".join(h["h"] for h in hs)), flush=True)
        mod, res, secs = driver.run(out, [(h["h"], h.get("cfg", {})) for h in hs], dict(deadline=deadline, seed=seed))
        for h in hs:
            runs.append((h, res[h["h"]], driver.call_graph_covers(mod, h["h"]), binary, prof))
        if any(res[h["h"]].violations for h in hs):
            break
    explore_s = time.time() - T0 - build_s
    violations, notes, errors = [], [], []
    validated = 0
    kn = [k for k in known() if k["property"] == prop]
    for k in kn:
        for h, r, cov, binary, prof in runs:
            if h["h"] == k["harness"] and replay(binary, h["h"], k["args"])[0] in FAIL:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    # 1. counterexamples, 2. undecided paths that have a concrete witness
    for h, r, cov, binary, prof in runs:
        for v in r.violations[:12]:
            s, out = replay(binary, h["h"], v["args"])
            if s in FAIL:
                violations.append((h["h"], prof, v["kind"], v["args"], s, out))
            else:
                errors.append("counterexample does not reproduce (%s): %s %s %s" % (s, h["h"], v["kind"], " ".join(v["args"])))
        for v in r.suspects[:12]:
            s, out = replay(binary, h["h"], v["args"], 10)
            if s in FAIL:
                violations.append((h["h"], prof, "undecided path (%s) fails" % v["kind"], v["args"], s, out))
        for v in r.suspects[:4]:
            errors.append("%s: %s" % (h["h"], v["kind"]))
        for v in r.errors[:4]:
            errors.append("%s: %s" % (h["h"], v))
    # 3. witnesses of covers and of finished paths behave natively as encoded
    n = 0
    for h, r, cov, binary, prof in runs:
        for cid, args in sorted(r.covers.items()):
            s, out = replay(binary, h["h"], args)
            n += 1
            if s in FAIL and ("COVER %d\n" % cid) in out + "\n":
                violations.append((h["h"], prof, "witness of cover %d fails" % cid, args, s, out))
            elif ("COVER %d\n" % cid) not in out + "\n":
                errors.append("%s: cover %d not reached natively: %s %s" % (h["h"], cid, s, " ".join(args)))
            else:
                validated += 1
        for args, covs, exp in r.samples[: 200 // len(runs) + 4]:
            s, out = replay(binary, h["h"], args)
            n += 1
            got = sorted(set(int(x) for x in re.findall(r"^COVER (\d+)$", out, re.M)))
            if s in FAIL:
                violations.append((h["h"], prof, "witness of a finished path fails", args, s, out))
            elif s != "ok" or got != covs or ("EXPECTED-PANIC" in out) != exp:
                errors.append("%s: native run differs from its encoding: %s covers %s/%s %s" % (h["h"], s, got, covs, " ".join(args)))
            else:
                validated += 1
    # violations listed as known are not reported again
    fresh = [v for v in violations if not any(k["harness"] == v[0] and k["args"] == [str(x) for x in v[3]] for k in kn)]
    if not fresh and not errors:
        want, got = {}, {}
        for h, r, cov, binary, prof in runs:
            g = (h.get("group", prop), prof)
            want.setdefault(g, set()).update(cov)
            got.setdefault(g, set()).update(r.covers)
        for g in want:
            for c in sorted(want[g] - got[g] - set(spec.get("unreached", ()))):
                errors.append("vacuity: cover %d of %s never reached" % (c, g[0]))
    tot = {}
    for h, r, cov, binary, prof in runs:
        for k, v in r.n.items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_ms" else tot.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(fresh),
              coverage=dict(
                  states=tot["paths"] + tot["panics"] + tot["killed"], transitions=tot["forks"],
                  traces_validated_against_impl=validated,
                  samples=[dict(harness=h["h"], args=a[0], covers=a[1]) for h, r, _, _, _ in runs for a in r.samples[:2]][:12],
                  exhaustive=False,
                  instructions_executed_symbolically=tot["steps"], assertions=tot["asserts"], assertions_decided_by_rewriting=tot["asserts_trivial"],
                  solver_queries=tot["queries"], unsat=tot["unsat"], sat=tot["sat"], unknown=tot["unknown"], retried_with_portfolio=tot["retries"],
                  solver_seconds=round(tot["solver_ms"] / 1000, 1), slowest_query_ms=tot["max_ms"], build_s=round(build_s, 1), explore_s=round(explore_s, 1),
                  harnesses=[dict(name=h["h"], profile=prof, paths=r.n["paths"], queries=r.n["queries"], covers_reached=sorted(r.covers), covers_declared=sorted(cov)) for h, r, cov, _, prof in runs],
                  functions_encoded=sorted(funcs), bounds=spec["bounds"], outside=spec.get("outside", ""),
                  errors=errors[:20]),
              assumptions=checks.COMMON + spec.get("assumptions", []))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("[%6.1fs] paths %d, queries %d (unsat %d, sat %d, unknown %d), assertions %d, native replays %d of %d as encoded" % (
        time.time() - T0, tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["unknown"], tot["asserts"], validated, n))
    if fresh:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        h, prof, kind, args, s, out = fresh[0]
        p = os.path.join(d, prop + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=prop, harness=h, profile="dev" if prof == "vx" else "vxr", kind=kind, args=args, native=s, output=out, others=[dict(harness=x[0], kind=x[2], args=x[3], native=x[4]) for x in fresh[1:10]]), f, indent=1)
        print("%s %s: %s\n%s" % (h, " ".join(map(str, args)), kind, out.strip()))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        for x in errors[:20]:
            print("NO ANSWER:", x)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as x:
        print("NO ANSWER: build failed:", x)
        rc = 2
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
