"""Prints a digest of the violations in an evidence file (development aid)."""
import json, sys, collections
d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))["violations"]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
g = collections.defaultdict(list)
for x in d:
    if not x.get("known"):
        g[x["key"].split(":")[0]].append(x)
for k, xs in g.items():
    print(f"== {k}: {len(xs)}")
    for x in xs[:n]:
        print("   ", x["key"][:160], "|", x["msg"][:330])
