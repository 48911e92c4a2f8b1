"""Builds the facts: mirrors /repo into an overlay cargo can load, type-checks the workspace with the
fact-dumping rustc driver, and returns the directory of JSON fact files.

Keyed by a digest of every source file and of the driver, so a warm build directory never answers for
another tree; the workspace crates' fingerprints are removed before each run because cargo would
otherwise skip the wrapper."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DECY_REPO", "/repo")
BUILD = os.environ.get("DECY_VERIF_BUILD", os.path.join(VERIF, "build"))
EXPECT = ["decy-bin", "decy_agent-lib", "decy_analyzer-lib", "decy_book-lib", "decy_codegen-lib", "decy_core-lib",
          "decy_debugger-lib", "decy_hir-lib", "decy_llm-lib", "decy_mcp-lib", "decy_oracle-lib", "decy_ownership-lib",
          "decy_parser-lib", "decy_repo-lib", "decy_stdlib-lib", "decy_verify-lib"]


class BuildError(Exception):
    pass


def _drop(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)


def overlay(ws):
    """A real mirror of directories with symlinked files; crates/decy/Cargo.toml loses the dev-dependency
    that points outside the repository (same adjustment as the sandbox's own build)."""
    _drop(ws)
    os.makedirs(ws + "/crates")
    for n in os.listdir(REPO):
        if n in ("crates", "target", "Cargo.lock", ".git"):
            continue
        os.symlink(os.path.join(REPO, n), os.path.join(ws, n))
    shutil.copy(REPO + "/Cargo.lock", ws + "/Cargo.lock")
    for c in sorted(os.listdir(REPO + "/crates")):
        src, dst = f"{REPO}/crates/{c}", f"{ws}/crates/{c}"
        if not os.path.isdir(src):
            os.symlink(src, dst)
            continue
        os.makedirs(dst)
        for n in os.listdir(src):
            if n == "target":
                continue
            if c == "decy" and n == "tests":
                continue
            if c == "decy" and n == "Cargo.toml":
                t = open(f"{src}/{n}").read()
                open(f"{dst}/{n}", "w").write(re.sub(r"(?m)^provable-contracts = .*\n", "", t))
                continue
            os.symlink(f"{src}/{n}", f"{dst}/{n}")


def digest():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates"), os.path.join(VERIF, "driver", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "driver", "Cargo.toml")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in sorted(files):
        if not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUST_BACKTRACE", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = BUILD + "/driver"
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=VERIF + "/driver", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("driver does not build:\n" + r.stdout[-3000:])
    return BUILD + "/driver/debug/decy-facts"


def ensure():
    """Returns the facts directory for the current tree, building what is missing."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest()
        out = f"{BUILD}/facts/{key}"
        if os.path.exists(out + "/DONE"):
            return out
        t0 = time.time()
        drv = build_driver()
        _drop(f"{BUILD}/facts")
        os.makedirs(out)
        ws = BUILD + "/ws"
        overlay(ws)
        e = env()
        e["CARGO_TARGET_DIR"] = BUILD + "/target"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["DECY_FACTS_OUT"] = out
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        for sub in ("build", ".fingerprint", "deps", "incremental"):
            fp = f"{BUILD}/target/debug/{sub}"
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("decy") or n.startswith("libdecy"):
                        _drop(f"{fp}/{n}")
        r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--lib", "--bins"], cwd=ws, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("workspace does not type-check:\n" + r.stdout[-6000:])
        missing = [x for x in EXPECT if not os.path.exists(f"{out}/{x}.json")]
        if missing:
            raise BuildError(f"no facts for {missing}\n" + r.stdout[-2000:])
        with open(out + "/DONE", "w") as f:
            f.write(f"{time.time() - t0:.1f}\n")
        return out


if __name__ == "__main__":
    t = time.time()
    d = ensure()
    print(d, f"{time.time() - t:.1f}s")
