"""Development aid: mkbug.py SPEC.py writes seeded/<id>/{patch.diff,demo.sh,meta.json}.
SPEC defines B = [dict(id, property, file, old, new, needs, breaks, c=<C program> | demo=<bash>)]; edits may be a list of (file, old, new)."""
import json, os, subprocess, sys
R = "/repo"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_C = '''#!/bin/bash
# Translates a C program, compiles both with their compilers, and compares what they do.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH
gcc -w -o "$d/c" "$here/prog.c" -lm || exit 3
"$d/c" > "$d/c.out"; echo "rc=$?" >> "$d/c.out"
/opt/vp/ws/target/debug/decy transpile "$here/prog.c" > "$d/r.rs" 2> "$d/err" || { cat "$d/err"; exit 4; }
grep -v '^ℹ\\|^  To compile\\|^  rustc' "$d/r.rs" > "$d/p.rs"
rustc --edition 2021 -A warnings -o "$d/r" "$d/p.rs" 2> "$d/err" || { cat "$d/p.rs" "$d/err"; exit 5; }
"$d/r" > "$d/r.out" 2> "$d/err"; echo "rc=$?" >> "$d/r.out"
cmp "$d/c.out" "$d/r.out" || { echo "C:"; cat "$d/c.out"; echo "Rust:"; cat "$d/r.out" "$d/p.rs"; exit 1; }
echo same
'''
g = {}
exec(open(sys.argv[1]).read(), g)
for b in g["B"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    ed = b.get("edits") or [(b["file"], b["old"], b["new"])]
    diff = ""
    byf = {}
    for f, o, n in ed:
        byf.setdefault(f, []).append((o, n))
    for f, ons in byf.items():
        s = open(os.path.join(R, f)).read()
        t = s
        for o, n in ons:
            assert t.count(o) == 1, (b["id"], t.count(o), o)
            t = t.replace(o, n)
        open("/tmp/_a", "w").write(s); open("/tmp/_b", "w").write(t)
        x = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/tmp/_a", "/tmp/_b"], capture_output=True, text=True).stdout
        diff += x
    d = os.path.join(OUT, b["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if "c" in b:
        open(d + "/prog.c", "w").write(b["c"]); open(d + "/demo.sh", "w").write(DEMO_C)
    else:
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + b["demo"])
    for fn, txt in b.get("files", {}).items():
        open(d + "/" + fn, "w").write(txt)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"], len(diff.splitlines()))
