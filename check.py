#!/usr/bin/env python3
"""Runs the static analysis deciding one property of the tree in /repo.
usage: check.py <property id> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    import facts
    import prog
    from ctx import Ctx
    try:
        P = prog.Program()
    except facts.BuildError as e:
        print(str(e)[-3000:])
        print(f"{pid}: /repo does not build, nothing analysed")
        sys.exit(2)
    c = Ctx(P, pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(c)
    except Exception as e:          # an analysis that cannot finish establishes nothing: fail closed
        traceback.print_exc()
        c.fail("analysis:" + type(e).__name__ + ":" + str(e)[:120], "the analysis could not be completed on this tree: " + repr(e))
    known = {}
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == pid and k.get("status", "known") == "known":
                    known[k["key"]] = k
    new, old = [], []
    for x in c.violations.values():
        (old if x["key"] in known else new).append(x)
    wall = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": mod.LEVEL, "wall_s": wall,
          "coverage": c.coverage(), "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": [dict(x, known=x["key"] in known) for x in c.violations.values()]}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if "--unmodelled" in sys.argv:      # development: record the library functions without a model that the current tree uses
        f = os.path.join(HERE, "lib", "unmodelled.json")
        cur = set(json.load(open(f))) if os.path.exists(f) else set()
        json.dump(sorted(cur | c.allunm), open(f, "w"), indent=0)
    if c.undecided:
        print(f"{len(c.undecided)} obligations undecided (see evidence)")
    for x in old:
        print(f"KNOWN-FINDING: property={pid} {x['key']}: {known[x['key']]['what']}")
    for k in known:
        if k not in c.violations:
            print(f"note: known finding no longer present: {k}")
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".replay.json")
        json.dump(new, open(rp, "w"), indent=1)
        for x in new[:40]:
            print(f"  {x['key']}\n    at {x['where']}\n    {x['msg']}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    print(f"{pid}: held on {c.nob} obligations ({wall}s)")


if __name__ == "__main__":
    main()
