#!/usr/bin/env python3
"""Build the explorer against /repo's working tree and run one property's check.

  check.py C05                quick
  check.py C05 --thorough     thorough
  check.py --replay FILE      run the single case a violation file names
  check.py --build            build only

Exit 0: held on everything explored. 1: violation. 2: the check could not run.
"""
import json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
# 'checked': debug assertions and overflow checks on (as in the test suite);
# 'plain': both off (as in a release build). Both are explored.
PROFILES = [("checked", ["--release"], "release"), ("plain", ["--profile", "plain"], "plain")]
TOTAL_S = {"quick": 840, "thorough": 6 * 3600}
CASE_S = {"quick": 240, "thorough": 3600}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = "--cfg onion_pir_verif -Awarnings"
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    for k in ("CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS", "ONION_MC_CHILD"):
        e.pop(k, None)
    return e


def build(profile, prop=None):
    """Build the explorer. When the part of it that checks some other property
    no longer compiles against /repo, that part is left out."""
    name, args, _ = profile
    parts = ["c%02d" % i for i in range(1, 24)]
    out = set()
    while True:
        sel = ["--no-default-features", "--features", ",".join(x for x in parts if x not in out)] if out else []
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + args + sel, cwd=HARNESS, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            if out:
                print("check.py: left out of the explorer, does not compile against /repo: %s" % " ".join(sorted(out)))
            return
        bad = set(re.findall(r"^ *--> src/props/(c\d\d)\.rs", r.stdout, re.M)) - out
        if not bad or prop is not None and prop.lower() in bad:
            break
        out |= bad
    sys.stdout.write(r.stdout[-6000:])
    print("check.py: cannot build the explorer against /repo (profile %s)" % name)
    sys.exit(2)


def binary(profile):
    return os.path.join(HARNESS, "target", profile[2], "onion-mc")


def run(profile, prop, tier, extra, out, limit):
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary(profile), prop, "--tier", tier, "--out", out, "--case-limit", str(CASE_S[tier])] + extra
    try:
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None, None
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
        os.remove(out)
    return r.returncode, rep


CRASH = {-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP}


def find_crash(profile, prop, tier, out, limit):
    """The process died: find the case that does it, each candidate on its own."""
    trace = out + ".trace"
    run(profile, prop, tier, ["--trace", trace], out, limit)
    opened = {}
    if os.path.exists(trace):
        for line in open(trace, errors="replace"):
            k, w, cid = line.rstrip("\n").split(" ", 2)
            if k == "S":
                opened[w] = cid
            elif opened.get(w) == cid:
                del opened[w]
        os.remove(trace)
    for cid in opened.values():
        rc, _ = run(profile, prop, tier, ["--only", cid], out, limit)
        if rc in CRASH:
            return cid, "the process died with signal %d" % -rc
    return (sorted(opened.values()) or ["?"])[0], "the process died"


def report(prop, tier, profile, case, msg):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    json.dump({"property": prop, "tier": tier, "profile": profile[0], "case": case, "message": msg,
               "replay_cmd": "python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path)},
              open(path, "w"), indent=1)
    print("case %s (%s build): %s" % (case, profile[0], msg[:2000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def replay(path):
    d = json.load(open(path))
    prof = [p for p in PROFILES if p[0] == d["profile"]][0]
    build(prof, d["property"])
    out = os.path.join(EVID, ".replay.out")
    rc, rep = run(prof, d["property"], d["tier"], ["--only", d["case"]], out, 3600)
    if rep and rep["violation"]:
        print("case %s: %s" % (rep["violation"]["case"], rep["violation"]["message"]))
    if rc == 0:
        print("case %s holds" % d["case"])
        return 0
    if rc is None or (rc < 0 and rc not in CRASH):
        return 2
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def main():
    args = sys.argv[1:]
    os.makedirs(EVID, exist_ok=True)
    if "--build" in args:
        for p in PROFILES:
            build(p)
        return 0
    if "--replay" in args:
        return replay(args[args.index("--replay") + 1])
    prop = [a for a in args if re.fullmatch(r"[A-Z]\d{2,3}", a)][0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    start = time.time()
    reps, viol = [], 0
    for prof in PROFILES:
        build(prof, prop)
    for prof in PROFILES:
        out = os.path.join(EVID, ".%s.%s.out" % (prop, prof[0]))
        limit = max(5, TOTAL_S[tier] - (time.time() - start))
        rc, rep = run(prof, prop, tier, [], out, limit)
        if rc is None:
            print("check.py: out of time")
            return 2
        if rc in CRASH:
            case, msg = find_crash(prof, prop, tier, out, limit)
            report(prop, tier, prof, case, msg)
            viol += 1
            break
        if rep is None or rc not in (0, 1) or (rc == 1) != bool(rep["violation"]):
            print("check.py: explorer ended with %s and no report" % rc)
            return 2
        reps.append((prof[0], rep))
        if rep["violation"]:
            report(prop, tier, prof, rep["violation"]["case"], rep["violation"]["message"])
            viol += 1
            break
    evidence(prop, tier, reps, viol, time.time() - start)
    if not viol:
        r = reps[0][1]
        print("%s held: %d states, %d transitions, %d cases (%s), %.1f s" % (
            prop, r["states"], sum(x["transitions"] for _, x in reps), sum(x["cases"] for _, x in reps), tier, time.time() - start))
    return 1 if viol else 0


def evidence(prop, tier, reps, viol, wall):
    first = reps[0][1] if reps else None
    notes = json.load(open(os.path.join(HERE, "tools", "notes.json"))).get(prop, {})
    cov = {
        "states": first["states"] if first else 0,
        "transitions": sum(r["transitions"] for _, r in reps),
        "traces_validated_against_impl": sum(r["cases"] for _, r in reps),
        "samples": first["samples"] if first else [],
        "exhaustive": bool(reps) and not viol,
        "rule": "state = distinct (configuration, environment answers, operands / history) explored; transition = call into the compiled "
                "implementation compared with the reference model; trace = completed case; no case is skipped or sampled. " + notes.get("bounds", ""),
        "distinct_outcomes": first["distinct_outcomes"] if first else 0,
        "refusals_observed": first["refusals_observed"] if first else 0,
        "per_build": [{"build": n, "states": r["states"], "transitions": r["transitions"], "cases": r["cases"], "wall_s": r["wall_s"],
                       "groups": r["groups"]} for n, r in reps],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": notes.get("assumptions", []), "wall_s": round(wall, 2), "violations": viol}
    tmp = os.path.join(EVID, "%s.json.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % prop))


if __name__ == "__main__":
    sys.exit(main())
