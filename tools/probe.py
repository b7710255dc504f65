"""Small programs compiled against the library: what must compile, what must not, and with which diagnostics."""
import concurrent.futures, hashlib, json, os, shutil, tempfile
from vlib import *

FEATS = {"none": 'default-features = false', "alloc": 'default-features = false, features = ["alloc"]', "std": 'default-features = false, features = ["std"]', "default": ""}
# lints of the library turned errors are not its users' business
NOLINT = "--cap-lints warn"


class Lib:
    """the library built under one feature set; programs are compiled by calling rustc on them"""

    def __init__(self, feat="default", toolchain="+stable", with_rt=False, tgt=None):
        self.tc = toolchain
        name = f"probe_{feat}_{toolchain[1:]}" + ("_rt" if with_rt else "")
        d = os.path.join(BUILD, name)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        f = FEATS[feat]
        rt = f'rt = {{ path = "{VERIF}/corpus/rt" }}\n' if with_rt else ""
        toml = f'[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nfuncmap = {{ path = "{REPO}/funcmap"{", " + f if f else ""} }}\n{rt}'
        for p, s in (("Cargo.toml", toml), ("src/lib.rs", "#![no_std]\n")):
            p = os.path.join(d, p)
            if not os.path.exists(p) or open(p).read() != s:
                open(p, "w").write(s)
        with Lock(name):
            rc, o, e = sh(
                ["cargo", toolchain, "build", "--offline", "--message-format=json"],
                env={"CARGO_TARGET_DIR": tgt or os.path.join(BUILD, "pt" + toolchain[1:] + "_" + feat), "RUSTFLAGS": NOLINT, "CARGO_INCREMENTAL": "0"},
                cwd=d,
            )
        self.ok = rc == 0
        self.err = ""
        self.externs = {}
        self.metas = {}
        self.deps = ""
        if rc != 0:
            ms = []
            for l in o.splitlines():
                if l.startswith("{"):
                    j = json.loads(l)
                    if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                        ms.append(j["message"].get("rendered") or j["message"]["message"])
            self.err = "\n".join(ms)[:4000] or e[-3000:]
            return
        for l in o.splitlines():
            if not l.startswith("{"):
                continue
            j = json.loads(l)
            if j.get("reason") == "compiler-artifact":
                n = j["target"]["name"].replace("-", "_")
                for fn in j["filenames"]:
                    if fn.endswith(".rmeta"):
                        self.metas[n] = fn
                    if fn.endswith(".rlib") or fn.endswith(".so"):
                        self.externs[n] = fn
                        if n == "funcmap":
                            self.deps = os.path.dirname(fn) if fn.endswith(".rlib") else self.deps

    def rustc(self, src, run=False, edition="2021", extra=(), names=("funcmap", "rt"), crate_type=None, timeout=120):
        """(status, [diagnostic], program output); a diagnostic is (level, code, message, [(line, column, text)])"""
        w = tempfile.mkdtemp(prefix="probe", dir=BUILD)
        try:
            p = os.path.join(w, "main.rs")
            open(p, "w").write(src)
            out = os.path.join(w, "out")
            cmd = ["rustc", self.tc, "--edition", edition, "--error-format=json", "-A", "warnings", "-o", out, p]
            cmd += ["--crate-type", crate_type] if crate_type else ([] if run else ["--crate-type", "lib"])
            if not run:
                cmd += ["--emit=metadata"]
            for n in names:
                as_, real = n if isinstance(n, tuple) else (n, n)
                if real in self.externs:
                    lib = self.externs[real] if run or "stable" in self.tc else self.metas.get(real, self.externs[real])
                    cmd += ["--extern", f"{as_}={lib}"]
            for n in {os.path.dirname(x) for x in list(self.externs.values()) + list(self.metas.values())}:
                cmd += ["-L", "dependency=" + n]
            cmd += list(extra)
            rc, o, e = sh(cmd, timeout=timeout, cwd=w)
            ds = []
            for l in e.splitlines():
                if not l.startswith("{"):
                    continue
                j = json.loads(l)
                if j.get("level") not in ("error", "error: internal compiler error"):
                    continue
                if j["message"].startswith("aborting due to") or j["message"].startswith("could not compile"):
                    continue
                sp = [(s["line_start"], s["column_start"], "".join(t["text"][t["highlight_start"] - 1 : t["highlight_end"] - 1] for t in s["text"])) for s in j["spans"] if s["is_primary"]]
                ds.append((j["level"], (j.get("code") or {}).get("code"), j["message"], sp))
            if rc != 0 and not ds:
                ds.append(("error", None, e[-1500:], []))
            res = ""
            if run and rc == 0:
                rc, res, e = sh([out], timeout=60, cwd=w)
                res += e
            if any("unpretty" in x for x in extra) and os.path.exists(out):
                o += open(out).read()
            return rc, ds, (res if run else o)
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def many(self, jobs):
        """jobs: list of dictionaries of arguments of rustc()"""
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda a: self.rustc(**a), jobs))
