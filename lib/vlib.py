"""Shared machinery of the checks: builds /repo's generator and support library from the
current working tree, generates and runs bound programs, and writes evidence and verdicts."""
import concurrent.futures as cf
import hashlib, json, os, resource, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
if REPO != "/repo":
    CACHE = os.path.join(CACHE, "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:10])
TARGET = os.path.join(CACHE, "target")
TOOLCHAIN = "nightly-2026-08-20"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def base_env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, LANG="C.UTF-8", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", HOME=os.environ.get("HOME", "/root"))
    if extra:
        e.update(extra)
    return e


class EngineError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


class CmdResult:
    def __init__(self, argv, rc, out, err, wall):
        self.argv, self.rc, self.out, self.err, self.wall = argv, rc, out, err, wall

    def tail(self, n=2500):
        s = self.out[-n:] + "\n" + self.err[-n:]
        return s


def run(argv, cwd=None, env=None, timeout=600, stdin=None, check=None, text=True):
    t = time.time()
    try:
        p = subprocess.run(argv, cwd=cwd, env=env or base_env(), timeout=timeout, input=stdin,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        rc, out, err = -999, ex.stdout or b"", (ex.stderr or b"") + b"\n[timeout]"
    if text:
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    r = CmdResult(argv, rc, out, err, time.time() - t)
    if check and rc != 0:
        raise EngineError(f"{check}: exit {rc}: {' '.join(map(str, argv))[:300]}\n{r.tail()}")
    return r


def pmap(fn, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = text if isinstance(text, bytes) else text.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return path
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)
    return path


def fresh_dir(path):
    assert os.path.abspath(path).startswith(os.path.abspath(CACHE) + "/")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


# --------------------------------------------------------------------------- verdicts and evidence
class Check:
    """Collects coverage and violations of one property and ends the process with the verdict."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.violations = []       # (key, text, replay files)
        self.known_hit = []
        self.known = load_known(prop)
        self.dir = os.path.join(CACHE, "work", prop)
        os.makedirs(self.dir, exist_ok=True)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def count(self, **kw):
        for k, v in kw.items():
            self.coverage[k] = self.coverage.get(k, 0) + v

    def distinct(self, *keys):
        """Keys of distinct non-trivial cases, counted once each."""
        self._distinct = getattr(self, "_distinct", set())
        self._distinct.update(keys)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, text, files=None):
        """key identifies the failing input/call site/history, for the known-findings file."""
        for k in self.known:
            if k == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print(f"KNOWN-FINDING: property={self.prop} {key}", flush=True)
                return
        d = os.path.join(VERIF, "replays") if REPO == "/repo" else os.path.join(CACHE, "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, f"{self.prop}-{n}.txt")
        if n < 20:
            body = f"property {self.prop}\nkey: {key}\n\n{text}\n"
            for name, content in (files or {}).items():
                body += f"\n===== {name} =====\n{content}\n"
            with open(path, "w") as f:
                f.write(body[:400000])
        self.violations.append((key, text, path))
        if n < int(os.environ.get("VSHOW", "5")):
            self.log("violation:", key, "\n   ", text[:1500].replace("\n", "\n    "))

    def finish(self, exhaustive=True):
        cov = dict(self.coverage)
        cov["samples"] = self.samples or ["(none)"]
        if hasattr(self, "_distinct"):
            cov["distinct_nontrivial"] = cov.get("distinct_nontrivial", 0) + len(self._distinct)
        cov.setdefault("exhaustive", exhaustive)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.known_hit:
            cov["known_findings_seen"] = self.known_hit
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        brief = {k: v for k, v in cov.items() if k != "samples"}
        self.log("coverage:", json.dumps(brief)[:1500])
        if self.violations:
            for key, _text, path in self.violations[:10]:
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            sys.exit(1)
        self.log("held on everything explored")
        sys.exit(0)


def load_known(prop):
    keys = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            pre = f"known: property={prop} key="
            if line.startswith(pre):
                keys.append(line[len(pre):].split("  ##")[0].strip())
    except OSError:
        pass
    return keys


def main(fn, prop, level):
    c = Check(prop, level)
    try:
        fn(c)
        c.finish()
    except SystemExit:
        raise
    except StdFailure as e:
        c.violation("standard-library-bindings", str(e))
        c.finish(exhaustive=False)
    except EngineError as e:
        print(f"ENGINE-ERROR property={prop}: {e}", flush=True)
        if c.violations:
            c.finish(exhaustive=False)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print(f"ENGINE-ERROR property={prop}: exception", flush=True)
        if c.violations:
            c.finish(exhaustive=False)
        sys.exit(2)


# --------------------------------------------------------------------------- building from /repo
def cargo_harness(name, args=("build",), env=None, timeout=850, release=False):
    """Builds /verif/harness/<name> against REPO."""
    src = os.path.join(VERIF, "harness", name)
    if REPO != "/repo":
        for n in {name, "vmc", "interner"}:
            dst = os.path.join(CACHE, "harness", n)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, "harness", n), dst, ignore=shutil.ignore_patterns("target"))
        dst = os.path.join(CACHE, "harness", name)
        for root, _d, fs in (x for n in (name, "interner") for x in os.walk(os.path.join(CACHE, "harness", n))):
            for f in fs:
                if f.endswith((".toml", ".rs", ".lock")):
                    p = os.path.join(root, f)
                    s = open(p).read()
                    if "/repo/" in s:
                        open(p, "w").write(s.replace('"/repo/', f'"{REPO}/'))
        src = dst
    e = base_env(env)
    argv = ["cargo", *args, "--offline"] + (["--release"] if release else [])
    return run(argv, cwd=src, env=e, timeout=timeout)


def harness(chk, crate, bins, timeout=800, args=(), env=None):
    """Builds and runs binaries of a harness crate; their reports become coverage and violations."""
    touch_stale()
    bins = [bins] if isinstance(bins, str) else bins
    r = cargo_harness(crate, ["build", *sum((["--bin", b] for b in bins), [])], env=env)
    if r.rc != 0:
        raise EngineError(f"harness {crate} does not build:\n" + r.tail(4000))
    chk.log(f"harness {crate} built")
    for b in bins:
        e = dict(os.environ, RUST_BACKTRACE="0", VERIF_TIER=TIER, LD_LIBRARY_PATH=os.path.join(SYSROOT(), "lib"))
        r = run([os.path.join(TARGET, "debug", b), *args], env=e, timeout=timeout, cwd=chk.dir)
        judge_harness(chk, b, r)


def judge_harness(chk, b, r):
    done = False
    for line in r.out.splitlines():
        if line.startswith("STAT "):
            k, v = line[5:].split("=")
            chk.count(**{k: int(v)})
        elif line.startswith("SAMPLE "):
            chk.sample(line[7:])
        elif line.startswith("VIOL "):
            k, _, t = line[5:].partition("\t")
            chk.violation(k, t.replace("\\n", "\n"))
        elif line == "DONE":
            done = True
    if not done:
        if r.rc == -9:
            raise EngineError(f"{b} was killed:\n" + r.tail())
        chk.violation(f"{b}-did-not-finish", f"the harness ended with {r.rc} before it was done "
                      "(a crash, an abort or a hang inside the code under test):\n" + r.tail())
    chk.log(f"{b}: exit {r.rc} in {r.wall:.1f}s")


def build_generator():
    """Builds cc_bindings_from_rs from REPO; returns the binary's path."""
    touch_stale()
    r = run(["cargo", "build", "--offline", "-p", "cc_bindings_from_rs"], cwd=REPO, timeout=850)
    if r.rc != 0:
        raise EngineError("the generator does not build:\n" + r.tail())
    return os.path.join(TARGET, "debug", "cc_bindings_from_rs")


def touch_stale():
    """cargo decides by mtime; a source restored from git may be older than the build of a patched one.
    The target directory is dropped when the tree's content hash is not the one it was built from."""
    stamp = os.path.join(TARGET, "vlib-tree")
    h = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old != h:
        # make every source of the workspace look new without touching /repo: remove fingerprints of
        # path crates, which forces their rebuild (registry crates keep theirs)
        for prof in ("debug", "release"):
            fp = os.path.join(TARGET, prof, ".fingerprint")
            if os.path.isdir(fp):
                names = path_crate_names()
                for d in os.listdir(fp):
                    if d.rsplit("-", 1)[0] in names:
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            bd = os.path.join(TARGET, prof, "build")       # the newer layout: build/<crate>/<hash>/
            if os.path.isdir(bd):
                names = path_crate_names()
                for d in os.listdir(bd):
                    if d in names:
                        shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h)


_names = None


def path_crate_names():
    global _names
    if _names is None:
        _names = set()
        for base in (os.path.join(REPO, "cargo"), os.path.join(REPO, "support"), os.path.join(VERIF, "harness")):
            for root, dirs, fs in os.walk(base):
                if "target" in dirs:
                    dirs.remove("target")
                if "Cargo.toml" in fs:
                    for line in open(os.path.join(root, "Cargo.toml")):
                        if line.startswith("name"):
                            n = line.split('"')[1]
                            _names.add(n)
                            _names.add(n.replace("-", "_"))
    return _names


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha1()
        for top in ("cargo", "cc_bindings_from_rs", "common", "support", "rs_bindings_from_cc"):
            for root, dirs, fs in os.walk(os.path.join(REPO, top)):
                dirs.sort()
                if "test" in dirs:
                    dirs.remove("test")
                for f in sorted(fs):
                    if f.endswith((".rs", ".toml", ".h", ".cc")):
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha1(fh.read()).digest())
        _tree = h.hexdigest()
    return _tree


def sysroot_env():
    e = base_env()
    e["LD_LIBRARY_PATH"] = os.path.join(SYSROOT(), "lib")
    e["RUST_BACKTRACE"] = "0"
    return e


_sr = {}


def SYSROOT():
    if "s" not in _sr:
        _sr["s"] = run(["rustc", "--print", "sysroot"], check="rustc").out.strip()
        _sr["l"] = run(["rustc", "--print", "target-libdir"], check="rustc").out.strip()
    return _sr["s"]


def TLIB():
    SYSROOT()
    return _sr["l"]


CXX = ["clang++", "-std=c++20"]
CXXW = ["-Wno-nullability-completeness", "-Wno-invalid-offsetof", "-Wno-deprecated-declarations",
        "-Wno-unused-value", "-Wno-self-assign-overloaded", "-Wno-self-move", "-Wno-return-type-c-linkage"]


def rmeta(c):
    import glob
    return glob.glob(os.path.join(TLIB(), f"lib{c}-*.rmeta"))[0]


class E2E:
    """The generator, std bindings and support library, built from REPO's current tree."""

    def __init__(self, chk, san="", pch=True, std_kind="full"):
        self.chk = chk
        self.gen = build_generator()
        chk.log("generator built")
        with open(self.gen, "rb") as f:
            gh = hashlib.sha1(f.read()).hexdigest()
        self.key = sha(gh, tree_hash(), san)
        self.san = ["-fsanitize=" + san, "-fno-sanitize-recover=all"] if san else []
        self.root = os.path.join(CACHE, "e2e", self.key)
        self.inc = os.path.join(self.root, "inc")
        self.ok = os.path.join(self.root, "ok")
        self.stdargs = []
        for c in ("core", "alloc", "std"):
            self.stdargs += ["--extern", f"{c}={rmeta(c)}", f"--crate-header={c}=crubit/{c}.h",
                             f"--crate-namespace={c}=rs::{c}"]
        self.rlibs = {c: os.path.join(self.root, f"lib{c}.rlib") for c in
                      ("bridge_rust", "erased_future", "dyn_erased_future", "dyn_callable_rs",
                       "core_cc_api", "alloc_cc_api", "std_cc_api", "lossy_formatter_for_bindings",
                       "lossy_formatter")}
        self.pchfile = os.path.join(self.root, "all.pch")
        if not os.path.exists(self.ok):
            base = os.path.join(CACHE, "e2e")
            if os.path.isdir(base):      # keep the disk small: only a few generations
                old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
                for d in old[:-5]:
                    shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(self.root, ignore_errors=True)
            os.makedirs(os.path.join(self.inc, "crubit"))
            self._std()
            self._support()
            with open(self.ok, "w") as f:
                f.write("ok")
        chk.log("std bindings and support library ready")

    def gen_std_cmd(self, c, h, rs, extra=()):
        i = ("core", "alloc", "std").index(c)
        prev = self.stdargs[:4 * i]
        return [self.gen, "--h-out", h, "--rs-out", rs, "--crubit-support-path-format", "<support/{header}>",
                "--source-crate-name", c, "--extern", f"{c}={rmeta(c)}", *prev,
                f"--crate-namespace=self=rs::{c}", f"--crate-namespace={c}=rs::{c}", *extra]

    def _std(self):
        def one(c):
            r = run(self.gen_std_cmd(c, os.path.join(self.inc, "crubit", c + ".h"),
                                     os.path.join(self.root, c + "_impl.rs")), env=sysroot_env(), timeout=300)
            return c, r
        for c, r in pmap(one, ("core", "alloc", "std")):
            if r.rc != 0:
                raise StdFailure(f"generating bindings for the standard library crate {c} failed:\n" + r.tail())

    def _support(self):
        S = os.path.join(REPO, "support")
        def rl(name, path, ed="2024", ext=(), feats=()):
            return ["rustc", "--crate-type=rlib", f"--crate-name={name}", f"--edition={ed}", path, "-Awarnings",
                    "--cap-lints=allow", "-Cdebuginfo=0", "-o", self.rlibs[name], f"-Ldependency={self.root}",
                    *feats, *sum((["--extern", f"{e}={self.rlibs[e]}"] for e in ext), [])]
        r0 = run(rl("bridge_rust", f"{S}/crubit_bridge_rust/src/bridge.rs"))
        jobs = [rl("erased_future", f"{S}/rs_std/erased_future.rs"),
                *(rl(c + "_cc_api", f"{self.root}/{c}_impl.rs", "2021", ext=("bridge_rust",))
                  for c in ("core", "alloc", "std"))]
        objs = {"char": "rs_std/char.cc", "waker": "rs_std/waker.cc", "cpp_waker": "rs_std/cpp_waker.cc",
                "alias": "internal/check_no_mutable_aliasing.cc"}
        self.objs = [os.path.join(self.root, o + ".o") for o in objs]
        cj = [[*CXX, *self.san, "-I" + REPO, "-c", f"{S}/{p}", "-o", os.path.join(self.root, o + ".o")]
              for o, p in objs.items()]
        pch = os.path.join(self.root, "all.h")
        write(pch, PCH)
        cj.append([*CXX, *self.san, *CXXW, "-I" + REPO, "-I" + self.inc, "-Xclang", "-fno-pch-timestamp", "-x", "c++-header", pch, "-o", self.pchfile])
        rs = pmap(lambda a: run(a, timeout=300), jobs + cj)
        rs.append(run(rl("dyn_erased_future", f"{S}/rs_std/dyn_erased_future.rs", ext=("erased_future",))))
        rs.append(run(rl("dyn_callable_rs", f"{S}/rs_std/dyn_callable.rs", ext=("bridge_rust",))))
        for r in [r0] + rs:
            if r.rc != 0:
                raise StdFailure("support library or standard library bindings do not compile: "
                                 + " ".join(r.argv)[:400] + "\n" + r.tail())

    # ---- user crates
    def rust_lib(self, d, name, src, edition="2021", externs=(), panic="unwind", flags=()):
        write(os.path.join(d, name + ".rs"), src)
        r = run(["rustc", "--crate-type=lib", f"--crate-name={name}", f"--edition={edition}", "-Awarnings",
                 f"-Cpanic={panic}", "-Cdebuginfo=0", "-o", os.path.join(d, f"lib{name}.rlib"),
                 f"-Ldependency={d}", f"-Ldependency={self.root}", *flags,
                 *sum((["--extern", f"{n}={p}"] for n, p in externs), []),
                 os.path.join(d, name + ".rs")], cwd=d, timeout=300)
        if r.rc != 0:
            raise EngineError(f"the check's own crate {name} does not compile:\n" + r.tail(4000))

    def generate(self, d, name, extra=(), deps=(), outdir=None, env=None, cwd=None):
        o = outdir or d
        argv = [self.gen, "--h-out", os.path.join(o, name + ".h"), "--rs-out", os.path.join(o, name + "_impl.rs"),
                "--crubit-support-path-format", "<support/{header}>", "--source-crate-name", name,
                "--extern", f"{name}={d}/lib{name}.rlib", "-L", d]
        for dep in deps:
            argv += ["--extern", f"{dep}={d}/lib{dep}.rlib", f"--crate-header={dep}={dep}.h"]
        e = sysroot_env()
        e.update(env or {})
        return run(argv + self.stdargs + list(extra), env=e, timeout=300, cwd=cwd or d)

    def support_externs(self):
        return [("bridge_rust", self.rlibs["bridge_rust"]), ("dyn_erased_future", self.rlibs["dyn_erased_future"]),
                ("dyn_callable_rs", self.rlibs["dyn_callable_rs"])] + \
               [(c + "_cc_api", self.rlibs[c + "_cc_api"]) for c in ("core", "alloc", "std")]

    def rust_root(self, d, names, extra_src="", externs=(), edition="2021", panic="unwind"):
        src = "#![allow(warnings)]\nextern crate alloc; extern crate core;\n"
        for n in names:
            src += f'#[path="{n}_impl.rs"] mod {n}_cc_api;\n'
        src += "extern crate core_cc_api; extern crate alloc_cc_api; extern crate std_cc_api;\n" + extra_src
        write(os.path.join(d, "root.rs"), src)
        ex = self.support_externs() + [(n, os.path.join(d, f"lib{n}.rlib")) for n in names] + list(externs)
        return run(["rustc", "--crate-type=staticlib", "--crate-name=vroot", f"--edition={edition}", "-Awarnings",
                    "--cap-lints=allow", "-Cdebuginfo=0", f"-Cpanic={panic}", "-o", os.path.join(d, "libvroot.a"),
                    f"-Ldependency={d}", f"-Ldependency={self.root}",
                    *sorted({f"-Ldependency={os.path.dirname(p)}" for _n, p in externs}),
                    *sum((["--extern", f"{n}={p}"] for n, p in ex), []),
                    os.path.join(d, "root.rs")], cwd=d, timeout=300)

    def cc(self, d, src, out, pch=True, flags=(), syntax_only=False):
        return run([*CXX, *self.san, *CXXW, *flags, "-I" + REPO, "-I" + self.inc, "-I" + d,
                    *(["-include-pch", self.pchfile] if pch else []),
                    *(["-fsyntax-only"] if syntax_only else ["-c", "-o", out]), src], cwd=d, timeout=400)

    def link(self, d, objs, out, extra=()):
        sup = [os.path.join(self.root, o + ".o") for o in ("char", "waker", "cpp_waker", "alias")]
        return run([*CXX, *self.san, *objs, *sup, os.path.join(d, "libvroot.a"), "-lpthread", "-ldl", "-lm",
                    *extra, "-o", out], cwd=d, timeout=300)

    def build(self, d, crates, main_cc, gen_args=(), root_src="", cc_flags=(), edition="2021", panic="unwind",
              externs=(), lib_externs=(), extra_cc=(), independent=False, pch=True, rust_flags=()):
        """crates: list of (name, source). Returns (exe, None) or (None, (stage, text)).
        A failing stage after the crate itself compiles is a failure of the code under test."""
        fresh_dir(d)
        names = [n for n, _ in crates]
        deps = []
        if independent:   # crates that do not use each other
            def one(ns):
                self.rust_lib(d, ns[0], ns[1], edition, list(lib_externs), panic, rust_flags)
                return ns[0], self.generate(d, ns[0], gen_args, [])
            for n, r in pmap(one, crates):
                if r.rc != 0:
                    return None, ("generate " + n, r.tail(3500))
        for n, s in crates if not independent else ():
            self.rust_lib(d, n, s, edition, list(lib_externs) + [(x, f"{d}/lib{x}.rlib") for x in deps], panic, rust_flags)
            r = self.generate(d, n, gen_args, deps)
            if r.rc != 0:
                return None, ("generate " + n, r.tail(3500))
            deps.append(n)
        write(os.path.join(d, "main.cc"), main_cc)
        jobs = [lambda: ("rust bindings", self.rust_root(d, names, root_src, externs, edition, panic)),
                lambda: ("C++ compile", self.cc(d, os.path.join(d, "main.cc"), os.path.join(d, "main.o"), pch=pch, flags=cc_flags))]
        for i, s in enumerate(extra_cc):
            write(os.path.join(d, f"x{i}.cc"), s)
            jobs.append(lambda i=i: ("C++ compile", self.cc(d, os.path.join(d, f"x{i}.cc"), os.path.join(d, f"x{i}.o"), pch=pch, flags=cc_flags)))
        for st, r in pmap(lambda j: j(), jobs):
            if r.rc != 0:
                return None, (st, r.tail(3500))
        exe = os.path.join(d, "main")
        r = self.link(d, [os.path.join(d, "main.o")] + [os.path.join(d, f"x{i}.o") for i in range(len(extra_cc))], exe)
        if r.rc != 0:
            return None, ("link", r.tail(3500))
        return exe, None


class StdFailure(Exception):
    """Bindings of the standard library crates cannot be generated or compiled."""


PCH = r'''
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <bit>
#include <compare>
#include <concepts>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "crubit/core.h"
#include "crubit/alloc.h"
#include "crubit/std.h"
'''


def exe_env():
    e = dict(os.environ)
    e.update(RUST_BACKTRACE="0", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=67")
    return e


def run_exe(exe, args=(), timeout=300, stdin=None):
    return run([exe, *args], env=exe_env(), timeout=timeout, cwd=os.path.dirname(exe), stdin=stdin)


def mixed(chk, name, crates=(), ccs=(), san="", std=False, args=(), flags=(), timeout=800):
    """Builds harness/cpp/<name>.cc (+ <name>_root.rs when it exists) against REPO's support library and
    runs it. crates: (name, path below REPO, externs) Rust crates to link in; ccs: C++ sources of REPO."""
    src = os.path.join(VERIF, "harness", "cpp")
    d = fresh_dir(os.path.join(chk.dir, "mixed"))
    objs, libs = [], []
    root = os.path.join(src, name + "_root.rs")
    sanf = ["-fsanitize=" + san, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if san else []

    def cc(a):
        p, o = a
        return run([*CXX, *sanf, *CXXW, "-O1", *flags, "-I" + REPO, "-c", p, "-o", o], timeout=400)
    jobs = [(os.path.join(src, name + ".cc"), os.path.join(d, name + ".o"))]
    jobs += [(os.path.join(REPO, c), os.path.join(d, os.path.basename(c) + ".o")) for c in ccs]
    objs = [o for _p, o in jobs]

    def rust():
        def rl(n, p, ext, kind="rlib"):
            r = run(["rustc", "--crate-type=" + kind, f"--crate-name={n}", "--edition=2024", p, "-Awarnings", "--cap-lints=allow",
                     "-Cdebuginfo=0", "-Copt-level=1", "-o", os.path.join(d, f"lib{n}." + ("a" if kind == "staticlib" else "rlib")),
                     f"-Ldependency={d}", *sum((["--extern", f"{e}={d}/lib{e}.rlib"] for e in ext), [])], timeout=400)
            if r.rc != 0:
                raise EngineError(f"{n} does not build:\n" + r.tail())
        rl("vmc", os.path.join(VERIF, "harness/vmc/src/lib.rs"), [])
        for n, p, ext in crates:
            rl(n, os.path.join(REPO, p), ext)
        rl("vroot", root, ["vmc"] + [c[0] for c in crates], "staticlib")
    todo = [lambda a=a: cc(a) for a in jobs]
    if os.path.exists(root):
        todo.append(rust)
        libs = [os.path.join(d, "libvroot.a"), "-lpthread", "-ldl", "-lm"]
    for r in pmap(lambda f: f(), todo):
        if r is not None and r.rc != 0:
            raise EngineError("C++ harness does not compile:\n" + r.tail(4000))
    exe = os.path.join(d, name)
    r = run([*CXX, *sanf, *objs, *libs, "-lpthread", "-o", exe], timeout=300)
    if r.rc != 0:
        raise EngineError("C++ harness does not link:\n" + r.tail(4000))
    chk.log(f"harness {name} built")
    e = exe_env()
    e["VERIF_TIER"] = TIER
    r = run([exe, *args], env=e, timeout=timeout, cwd=d)
    judge_harness(chk, name, r)
