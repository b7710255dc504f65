"""dev tool: seed.py make <spec.py>  |  seed.py try <id>... [--tests] [--checks C01,C02]
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (source of the demonstration),
optionally KIND='fail' (the demonstration is a crate that must compile / must not compile)."""
import json, os, subprocess, sys, runpy
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds and runs the program beside this script against /repo; 0 if it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
incremental = false
[dependencies]
funcmap = { path = "/repo/funcmap"@FEAT@ }
T
export RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTUP_TOOLCHAIN
cd "$d" || exit 2
'''
RUN = "timeout 250 cargo run --offline -q\n"
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)
def clean(): subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
def make(path):
    s = runpy.run_path(path)
    d = f"{SEED}/{s['ID']}"; os.makedirs(d, exist_ok=True)
    assert git("status", "--porcelain").stdout.strip() == ""
    try:
        for f, old, new in s["EDITS"]:
            p = "/repo/" + f; t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(git("diff").stdout)
    finally: clean()
    open(d + "/main.rs", "w").write(s["MAIN"])
    feat = s.get("FEAT", "")
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", feat) + s.get("RUN", RUN)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return s["ID"]
def demo(i):
    p = subprocess.run(["bash", f"{SEED}/{i}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-600:]
def tryit(i, tests, checks):
    meta = json.load(open(f"{SEED}/{i}/meta.json"))
    r0 = demo(i)
    if r0[0] != 0: print(i, "DEMO FAILS UNCHANGED", r0); return
    a = git("apply", f"{SEED}/{i}/patch.diff")
    if a.returncode: print(i, a.stderr); return
    try:
        r1 = demo(i)
        print(i, "demo with patch:", r1[0], r1[1][-200:].replace("\n", " | ") if r1[0] else "NOT DEMONSTRATED")
        if tests:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            if b.returncode: print(i, "DOES NOT BUILD", b.stderr[-800:]); return
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], capture_output=True)
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seedtest.json"))
            bad = broken(base, got)
            print(i, "tests:", "pass" if not bad else f"FAIL {bad[:5]}")
        for c in (checks or [meta["property"]]):
            p = subprocess.run(["python3", "tools/check.py", c], cwd="/verif", capture_output=True, text=True)
            print(i, c, "->", p.returncode, [l[:260] for l in p.stdout.splitlines() if l.startswith(("VIOL", "#"))][:2], p.stderr[-300:] if p.returncode not in (0, 1) else "")
    finally: clean()
def ids(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x: return set(x[k]) if not isinstance(x[k], dict) else {k2 for k2, v in x[k].items() if v in (True, "pass", "passed")}
    return set(x)
def broken(base, got): return sorted(ids(base) - ids(got))
if __name__ == "__main__":
    if sys.argv[1] == "make":
        for p in sys.argv[2:]: print(make(p))
    else:
        ch = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else None
        for i in [a for a in sys.argv[2:] if not a.startswith("--") and a not in (",".join(ch or []),)]: tryit(i, "--tests" in sys.argv, ch)
