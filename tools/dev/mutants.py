"""dev tool: mutants of the macro crate. mutants.py run [name...] [--checks ...]
For each that builds and passes the tests, the checks are run until one reports it."""
import json, os, subprocess, sys, time
D = "funcmap_derive/src/"
M, DR, RS, IC, IN, OP, PR, SX, ID, DE = [D + x for x in ("map.rs", "derive.rs", "result.rs", "ident_collector.rs", "input.rs", "opts.rs", "predicates.rs", "syn_ext.rs", "ident.rs", "derivable.rs")]
A, C, S, AR, L = ["funcmap/src/" + f for f in ("impls_alloc.rs", "impls_core.rs", "impls_std.rs", "array.rs", "lib.rs")]
ORDER = "C13 C14 C17 C16 C07 C08 C12 C11 C15 C10 C09 C04 C05 C06".split()
MU = []
def mu(name, *edits): MU.append((name, edits))
exec(open(os.path.join(os.path.dirname(__file__), "mutantlist.py")).read())
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)
def run(name, edits, checks):
    assert git("status", "--porcelain").stdout.strip() == "", "dirty"
    try:
        for f, k, old, new in edits:
            p = "/repo/" + f; t = open(p).read(); n = t.count(old)
            if n < max(k, 1): print(name, 'DOES NOT APPLY', f, n, flush=True); return
            parts = t.split(old)
            t = t.replace(old, new) if k == 0 else old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, "w").write(t)
        b = subprocess.run(["cargo", "check", "--offline", "-q", "--all-features"], cwd="/repo/funcmap", capture_output=True, text=True, env=dict(os.environ, RUSTFLAGS="--cap-lints allow", CARGO_TARGET_DIR=os.environ.get("MT", "/tmp/mt.t")))
        if b.returncode: print(f"{name:32} DOES NOT BUILD", b.stderr[-800:], flush=True); return
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
        out = os.environ.get("MT", "/tmp/mt.t") + ".json"
        subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True)
        t = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
        bad = [x for x in base["stable"] if x not in set(t.get("passed", []))]
        if bad: print(f"{name:32} tests fail: {len(bad)} {bad[0][:80]}", flush=True); return
        quiet = []
        for c in checks:
            t0 = time.time()
            p = subprocess.run(["python3", "tools/check.py", c], cwd="/verif", capture_output=True, text=True)
            if p.returncode != 0:
                v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
                why = ""
                if v:
                    r = v[0].split("replay=")[1].split()[0]
                    why = open(r).read()[:300].replace("\n", " ")
                print(f"{name:32} caught by {c} (rc {p.returncode}; quiet: {' '.join(quiet)}) {'[no input]' if v and 'no-failing' in v[0] else ''} {why}", flush=True); return
            quiet.append(c)
        print(f"{name:32} SURVIVES {' '.join(quiet)}", flush=True)
    finally: git("checkout", "--", ".")
if __name__ == "__main__":
    a = sys.argv[1:]; checks = ORDER; names = []
    i = 1
    while i < len(a):
        if a[i] == "--checks": checks = a[i + 1].split(","); i += 1
        elif a[i] == "--to": MU = MU[:[n for n, _ in MU].index(a[i + 1]) + 1]; i += 1
        elif a[i] == "--from": MU = MU[[n for n, _ in MU].index(a[i + 1]):]; i += 1
        else: names.append(a[i])
        i += 1
    for n, e in MU:
        if not names or n in names or any(x.endswith("*") and n.startswith(x[:-1]) for x in names): run(n, e, checks)
