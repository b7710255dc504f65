"""Shared by all checks: builds, verifier runs, evidence, verdicts."""
import fcntl, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NIGHTLY = "+nightly"
DV_FLAGS = "--cap-lints allow -Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no"


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return "thorough" if t == "thorough" else "quick"


class Broken(Exception):
    """the machinery itself could not run"""


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntime limit"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stage(src, dst, subst=True):
    """copy a crate to the build folder, pointing it at the repository under check"""
    os.makedirs(dst, exist_ok=True)
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", "__pycache__")]
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            if f == "Cargo.lock":
                continue
            a, b = os.path.join(root, f), os.path.join(dst, rel, f)
            data = open(a, "rb").read()
            if f == "Cargo.toml":
                data = data.replace(b"/repo/", REPO.encode() + b"/")
            if not os.path.exists(b) or open(b, "rb").read() != data:
                open(b, "wb").write(data)
    return dst


def invalidate():
    """what was built from other sources is built again, whatever the file times say"""
    import hashlib

    h = hashlib.sha256()
    for c in ("funcmap", "funcmap_derive"):
        for root, dirs, files in os.walk(os.path.join(REPO, c)):
            dirs[:] = sorted(d for d in dirs if d != "target")
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".md")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h = h.hexdigest()
    with Lock("sources"):
        mark = os.path.join(BUILD, "sources.hash")
        if os.path.exists(mark) and open(mark).read() == h:
            return
        for root, dirs, files in os.walk(BUILD):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.startswith(("funcmap-", "funcmap_derive-")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
            elif os.path.basename(root) in ("deps", "incremental", "src", "build"):
                if os.path.abspath(root) != os.path.abspath(BUILD):
                    dirs[:] = []
        with open(mark, "w") as o:
            o.write(h)


def build_dv():
    with Lock("dv"):
        rc, o, e = sh(["cargo", NIGHTLY, "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "dv")], cwd=os.path.join(VERIF, "dv"), timeout=800)
    if rc != 0:
        raise Broken("the verifier does not build:\n" + e[-3000:])
    return os.path.join(BUILD, "dv", "release", "dv")


def run_dv(harness, crate, out, env=None, jobs=8, timeout=700, target=None, lock="dvt", args=()):
    """verify `harness` (a staged crate); returns (list of results, error text)"""
    dv = build_dv()
    tgt = target or os.path.join(BUILD, "dvt")
    with Lock(lock):
        for r in ("lib.rs", "main.rs"):
            if os.path.exists(os.path.join(harness, "src", r)):
                os.utime(os.path.join(harness, "src", r))
        if os.path.exists(out):
            os.remove(out)
        en = {
            "CARGO_TARGET_DIR": tgt,
            "RUSTFLAGS": DV_FLAGS,
            "RUSTC_WORKSPACE_WRAPPER": dv,
            "DV_OUT": out,
            "DV_CRATE": crate,
            "DV_JOBS": str(jobs),
            "DV_SECS": "40",
            "CARGO_INCREMENTAL": "0",
        }
        en.update(env or {})
        rc, so, se = sh(["cargo", NIGHTLY, "check", "--offline", *args], env=en, cwd=harness, timeout=timeout)
        err = se if rc != 0 else ""
        run_dv.stdout = so
        if os.path.exists(out):
            return json.load(open(out)), err
        return [], err or "the verifier wrote no result"


# ---------------------------------------------------------------- verdicts


def known_findings():
    """[(property, key, text)] from known-findings.txt; only `finding:` lines suppress anything"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol = []
        self.known = {}
        self.cov = {}
        self.assumptions = []
        self.kf = {k: t for p, k, t in known_findings() if p == prop}
        os.makedirs(REPLAY, exist_ok=True)
        for f in os.listdir(REPLAY):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(REPLAY, f))

    def violation(self, what, detail, found_input=True, key=None):
        """key: identity of the violation, matched against the known findings"""
        if key is not None and key in self.kf:
            self.known.setdefault(key, self.kf[key])
            return
        n = len(self.viol) + 1
        p = os.path.join(REPLAY, f"{self.prop}-{n}.json")
        json.dump({"property": self.prop, "what": what, "key": key, "failing_input_found": found_input, "detail": detail}, open(p, "w"), indent=1)
        self.viol.append((what, p, found_input))

    def finish(self):
        ev = {
            "property": self.prop,
            "tier": tier(),
            "seed": SEED,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k, t in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {k}: {t}")
        # those with a concrete failing input first
        self.viol.sort(key=lambda v: not v[2])
        for what, p, found in self.viol[:10]:
            print(f"# {what}"[:600].replace("\n", " "))
            print(f"VIOLATION property={self.prop} replay={p}" + ("" if found else " no-failing-input-found"))
        if not self.viol:
            print(f"ok property={self.prop} " + json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}))
        sys.stdout.flush()
        return 1 if self.viol else 0


def merge_counts(results):
    kinds, q, un, t, cc, cd, paths, loops = {}, 0, 0, 0.0, 0, 0, 0, 0
    for r in results:
        for k, v in r["obligations"].items():
            kinds[k] = kinds.get(k, 0) + v
        s = r["smt"]
        q += s["queries"]
        un += s["unsat"]
        t += s["time_s"]
        cc += s["cross_checked"]
        cd += s["cross_disagreements"]
        paths += r["paths"]
        loops += r["loops"]
    return {"kinds": kinds, "smt": {"back_end": "z3 (z3-new)", "queries": q, "unsat": un, "solver_s": round(t, 2), "cvc5_cross_checked": cc, "cvc5_disagreements": cd}, "paths": paths, "loops_with_invariants": loops}
