#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] : decides one property on /repo's current working tree.
check.py --replay FILE                    : re-runs a replay file (rebuilds first).
check.py --setup                          : builds every check binary once.
Targets, case counts and environments are in targets.json.
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(V + "/targets.json"))
LEVEL = {p["property"]: p["level"] for p in json.load(open(V + "/MANIFEST.json"))["checks"]}
ASAN = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=600:detect_stack_use_after_return=1:handle_segv=1:symbolize=1"
TSAN = "halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=%s/tools/tsan.supp" % V


def env_for(variant, extra):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN
    e["TSAN_OPTIONS"] = TSAN
    e["ROOT_KEYSTORE"] = os.environ.get("SEC_REPO", "/repo") + "/reference/test/root_keystore.p12"
    e.pop("ROOT_KEYSTORE_PASSWORD", None)
    e["OPENSSL_CONF"] = "/dev/null"
    e["TZ"] = "UTC"
    e["SEC_KNOWN"] = " ".join(f["id"] for f in json.load(open(V + "/known_findings.json"))["findings"])
    for k, v in (extra or {}).items():
        e[k] = e[k] + ":" + v if k.endswith("SAN_OPTIONS") else v
    return e


def build(variant, names):
    r = subprocess.run([sys.executable, V + "/tools/build.py", variant] + names)
    return r.returncode == 0


def all_binaries():
    b = {}
    for p in T.values():
        for t in p["targets"]:
            b.setdefault(t.get("variant", "asan"), set()).add(t["bin"])
    return b


def run_target(pid, t, tier, seed):
    variant = t.get("variant", "asan")
    exe = "%s/build/%s/%s" % (V, variant, t["bin"])
    rdir = "%s/replays" % V
    os.makedirs(rdir, exist_ok=True)
    out = "%s/build/%s/%s.%s.%s.json" % (V, variant, pid, t["target"], t.get("tag", "r"))
    if os.path.exists(out):
        os.unlink(out)
    cases = t["quick"] if tier == "quick" else t.get("thorough", t["quick"] * 20)
    cap = t.get("cap", 100) if tier == "quick" else t.get("tcap", 900)
    cmd = [exe, "--target", t["target"], "--seed", str(seed), "--cases", str(cases), "--cap", str(cap), "--out", out,
           "--replay-dir", rdir, "--shards", str(t.get("shards", 8)), "--shrink-ms", str(t.get("shrink_ms", 40000))]
    r = subprocess.run(cmd, env=env_for(variant, t.get("env")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    sys.stdout.write(r.stdout)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return r.returncode, res


def main():
    if sys.argv[1] == "--setup":
        ok = True
        for v, names in all_binaries().items():
            ok &= build(v, sorted(names))
        return 0 if ok else 1
    if sys.argv[1] == "--replay":
        tgt = [l.split()[1] for l in open(sys.argv[2], errors="replace") if l.startswith("target ")][0]
        for p in T.values():
            for t in p["targets"]:
                if t["target"] == tgt:
                    v = t.get("variant", "asan")
                    build(v, [t["bin"]])
                    return subprocess.run(["%s/build/%s/%s" % (V, v, t["bin"]), "--replay", sys.argv[2]],
                                          env=env_for(v, t.get("env"))).returncode
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = sys.argv[3:]      # development: restrict to these targets
    t0 = time.time()
    conf = T[pid]
    by = {}
    for t in conf["targets"]:
        by.setdefault(t.get("variant", "asan"), set()).add(t["bin"])
    for v, names in by.items():
        if not build(v, sorted(names)):
            print("ERROR: build failed")
            return 2
    ev = ntr = dis = 0
    rules, samples, per, viol, notes = [], [], [], [], []
    bad = False
    for t in conf["targets"]:
        if tier == "quick" and t.get("thorough_only"):
            continue
        if only and t["target"] not in only:
            continue
        rc, res = run_target(pid, t, tier, seed)
        if res is None or rc not in (0, 1):
            print("ERROR: target %s gave no result (rc %s)" % (t["target"], rc))
            bad = True
            continue
        ev += res["evaluations"]
        dis += res["distinct_nontrivial"]
        name = t["target"] + ("/" + t["tag"] if t.get("tag") else "")
        rules.append("%s: %s" % (name, res["rule"]))
        samples += ["[%s] %s" % (name, s) for s in res["samples"][:2]]
        per.append({k: res[k] for k in ("target", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "wall_s", "capped",
                                        "labels", "excluded", "notes")})
        notes += res["notes"]
        for x in res["violations"]:
            viol.append(x)
            print("VIOLATION property=%s replay=%s" % (pid, x["replay"]), flush=True)
        if res["violations"] and not os.environ.get("SEC_CONTINUE"):
            break
    kf = json.load(open(V + "/known_findings.json"))
    for f in kf["findings"]:
        if f["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    evd = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
           "level": LEVEL.get(pid, "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": dis,
                        "rule": "Cases are generated from (seed, target, index). Non-trivial, per target: " + " | ".join(rules),
                        "samples": samples[:12], "targets": per},
           "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(evd, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs" % (pid, tier, ev, dis, len(viol), time.time() - t0))
    if viol:
        return 1
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
