"""Development aid: runs checks on edited copies of /repo (scratch copy /tmp/mut, own build directory).
usage: mut.py "P01 P02" SPEC.py [names]      SPEC: M = [(name, file, old, new) or (name, [(file, old, new), ...])]
       mut.py "P01" --bugs id...             planted bugs"""
import os, subprocess, sys
SLOT = os.environ.get("SLOT", "")
R, B = "/tmp/mut" + SLOT, "/tmp/mutb" + SLOT
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1].split()


def sync():
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", "/repo/", R + "/"], check=True) if os.path.exists("/usr/bin/rsync") else \
        subprocess.run(f"mkdir -p {R} && rm -rf {R}/crates && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {R}", shell=True, check=True)
    if not os.path.exists(B):
        subprocess.run(["cp", "-a", V + "/build", B], check=True)


def check(name):
    e = dict(os.environ, DECY_REPO=R, DECY_VERIF_BUILD=B)
    for p in props:
        r = subprocess.run([sys.executable, V + "/check.py", p], env=e, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("   ")]
        und = [l for l in r.stdout.splitlines() if "undecided" in l]
        print(f"{name} {p} rc={r.returncode} n={len(lines)} {lines[:2]} {und} {r.stdout[-300:] if r.returncode not in (0, 1) else ''}", flush=True)


if sys.argv[2] == "--bugs":
    for i in sys.argv[3:]:
        sync()
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + R.lstrip("/"), f"{V}/seeded/{i}/patch.diff"], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-i", f"{V}/seeded/{i}/patch.diff"], cwd=R, capture_output=True, text=True)
        if r.returncode:
            print(i, "does not apply", r.stdout[:200], r.stderr[:200]); continue
        check(i)
else:
    g = {}
    exec(open(sys.argv[2]).read(), g)
    for m in g["M"]:
        if len(sys.argv) > 3 and m[0] not in sys.argv[3:]:
            continue
        sync()
        eds = m[1] if isinstance(m[1], list) else [m[1:4]]
        bad = False
        for f, o, n in eds:
            s = open(f"{R}/{f}").read()
            if s.count(o) < 1:
                print(m[0], "text not found", o[:60]); bad = True; break
            open(f"{R}/{f}", "w").write(s.replace(o, n, 1))
        if not bad:
            check(m[0])
