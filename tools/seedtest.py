#!/usr/bin/env python3
"""Apply planted changes to /repo one at a time, run checks, undo. Not a check.
  seedtest.py [--all] [IDS...]    --all: run every property, not only the one the change is aimed at"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "--all" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout == b""
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        res = []
        for p in (props if allp else [meta["property"]]):
            t = time.time()
            r = subprocess.run(["python3", V + "/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                res.append(p)
                if p == meta["property"]:
                    msg = [l for l in r.stdout.splitlines() if l.startswith("case ")][:1]
            elif r.returncode != 0:
                res.append("%s:rc%d" % (p, r.returncode))
        own = meta["property"] in res
        print("%-32s %s %s %s" % (i, "CAUGHT" if own else "MISSED", ",".join(res), (msg[0][:200] if own and msg else "")), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
