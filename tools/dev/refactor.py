"""dev tool: behaviour-preserving edits of /repo, on which every check has to stay quiet.
refactor.py list | run [name...] [--checks C01,...] [--no-tests]"""
import json, os, subprocess, sys, time, re
ALL = [f"C{i:02}" for i in range(1, 19)]
R = []
def edit(name, *edits): R.append((name, edits))
A, C, S, AR, L = ["funcmap/src/" + f for f in ("impls_alloc.rs", "impls_core.rs", "impls_std.rs", "array.rs", "lib.rs")]
D = "funcmap_derive/src/"
def nth(f, k, old, new): return (f, k, old, new)       # k-th occurrence (1-based), 0: all
COLL = "self.into_iter().map(f).collect()"
MF = "self, f: F)"
exec(open(os.path.join(os.path.dirname(__file__), "refactorings.py")).read())
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)
def apply(edits):
    for f, k, old, new in edits:
        p = "/repo/" + f; t = open(p).read(); n = t.count(old)
        assert n >= max(k, 1), (f, n, old)
        if k == 0: t = t.replace(old, new)
        else:
            parts = t.split(old); t = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w").write(t)
def run(name, edits, checks, tests):
    assert git("status", "--porcelain").stdout.strip() == "", "dirty"
    try:
        apply(edits)
        b = subprocess.run(["cargo", "check", "--offline", "-q", "--all-features", "--target-dir", "/tmp/rf.t"], cwd="/repo/funcmap", capture_output=True, text=True, env=dict(os.environ, RUSTFLAGS="--cap-lints allow"))
        if b.returncode: print(name, "DOES NOT BUILD", b.stderr[-1500:]); return
        if tests:
            subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/rf.json"], capture_output=True)
            t = json.load(open("/tmp/rf.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            bad = [x for x in (base.get("stable") or base.get("passed") or base.get("tests")) if x not in set(t.get("passed", []))]
            if bad: print(name, "TESTS FAIL", bad[:5]); return
        for c in checks:
            t0 = time.time()
            p = subprocess.run(["python3", "tools/check.py", c], cwd="/verif", capture_output=True, text=True)
            s = time.time() - t0
            ev = json.load(open(f"/verif/evidence/{c}.json")) if os.path.exists(f"/verif/evidence/{c}.json") else {}
            out = p.stdout.strip().split("\n")
            st = "quiet" if p.returncode == 0 else "ALARM" if p.returncode == 1 else "BROKEN"
            v = [l for l in out if l.startswith("VIOLATION")]
            u = (ev.get("coverage") or {}).get("not_decided_deductively") or []
            print(f"  {name:28} {c} {st:6} {s:5.0f}s {'undecided: ' + '; '.join(map(str, u))[:150] if u else ''} {v[0][:200] if v else ''}{'' if p.returncode in (0,1) else p.stderr[-300:]}", flush=True)
            if v:
                print("      ", json.load(open(v[0].split("replay=")[1].split()[0])).get("what", "")[:400])
    finally: git("checkout", "--", ".")
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        for n, e in R: print(n)
    else:
        checks = ALL; tests = True; names = []
        i = 1
        while i < len(a):
            if a[i] == "--checks": checks = a[i + 1].split(","); i += 1
            elif a[i] == "--no-tests": tests = False
            else: names.append(a[i])
            i += 1
        for n, e in R:
            if not names or n in names or any(x.endswith("*") and n.startswith(x[:-1]) for x in names): run(n, e, checks, tests)
