"""Driver for the model-checking harness (standard library only).

A check regenerates its programs, rebuilds everything from /repo's working
tree, runs the harness programs, and turns the records they print into a
verdict, an evidence file and, for violations, a replay file.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUST_MIN_STACK="67108864")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


class CheckError(Exception):
    """The check itself could not reach a verdict (exit 2)."""


class BuildError(CheckError):
    """The harness does not compile against the library."""
    def __init__(self, errs, tail):
        super().__init__("harness does not build:\n" + "\n".join(e["rendered"] for e in errs)[:4000] + tail)
        self.errs = errs


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []
        self.nviol = 0
        self.hung = False
        self.known = {}
        self.counts = Counter()
        self.gen = {}
        self.samples = []
        self.notes = {}

    def violation(self, what, inp="", repro="", how=""):
        self.nviol += 1
        if len(self.violations) < 50:
            self.violations.append({"what": what, "input": inp, "repro": repro, "replay": how})

    def hang(self, what, inp, how=""):
        self.hung = True
        self.violation(what, inp, "", how)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def absorb(self, lines, how="", prefix=""):
        done = False
        for ln in lines:
            if not ln.startswith("MC {"):
                continue
            r = json.loads(ln[3:])
            k = r["kind"]
            if k == "violation":
                self.violation(r["what"], r["input"], r["repro"], how)
            elif k == "known":
                n, w = self.known.get(r["key"], (0, r["what"]))
                self.known[r["key"]] = (n + r["n"], w)
            elif k == "sample":
                self.sample(prefix + r["text"])
            elif k == "count":
                self.counts[prefix + r["key"]] += r["n"]
            elif k == "gen":
                self.gen[prefix + r["key"]] = self.gen.get(prefix + r["key"], 0) + r["n"]
            elif k == "done":
                done = True
                self.nviol = max(self.nviol, r["violations"])
        return done


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------- building --

def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".md", ".lock")):
                p = os.path.join(base, f)
                h.update(os.path.join(rel, f).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def prepare():
    """cargo decides by timestamps; force a rebuild of crevice by content."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for base, dirs, _ in os.walk(TARGET):
            if os.path.basename(base) == ".fingerprint":
                for d in list(dirs):
                    if d.startswith("crevice"):
                        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                dirs[:] = []
        with open(stamp, "w") as f:
            f.write(now)
    return now


def cargo(args, cwd, timeout=1500, extra_env=None):
    env = dict(ENV, CARGO_TARGET_DIR=TARGET)
    env.update(extra_env or {})
    return run_group(["cargo"] + args, timeout, cwd=cwd, env=env)


def run_group(cmd, timeout, gib=6, **kw):
    """subprocess.run, but a time-out also ends what the command has started, and no process gets more than `gib` of
    memory (a changed writer or macro may produce output without end)."""
    def limit():
        resource.setrlimit(resource.RLIMIT_DATA, (int(gib * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         preexec_fn=limit, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def patience(cx, thorough):
    """Seconds to wait for one build or program.  On an unchanged tree the quick tier takes a minute or two at most, so
    running out of patience there means that the code under test does not terminate."""
    if cx.thorough:
        return thorough
    return 20 if cx.hung else max(60, 640 - (time.time() - cx.t0))


def rt_build(bins=None, features=(), no_default=False, profile="dev", env=None):
    """Build harness/rt binaries; returns {bin: path}."""
    a = ["build", "--offline", "--message-format=json", "--profile", profile]
    if no_default:
        a.append("--no-default-features")
    if features:
        a += ["--features", ",".join(features)]
    for b in bins or []:
        a += ["--bin", b]
    p = cargo(a, os.path.join(HARNESS, "rt"), extra_env=env)
    exes, errs = parse_cargo(p.stdout)
    if p.returncode != 0:
        raise BuildError(errs, p.stderr[-3000:])
    # a later build with other features or profile may overwrite the file
    keep = os.path.join(TARGET, "bin")
    os.makedirs(keep, exist_ok=True)
    out = {}
    for n, e in exes.items():
        out[n] = os.path.join(keep, "-".join([n, profile] + sorted(features) + (["nodef"] if no_default else [])))
        shutil.copy2(e, out[n])
    return out


def parse_cargo(out, warnings=None):
    exes, errs = {}, []
    for ln in out.splitlines():
        if not ln.startswith("{"):
            continue
        m = json.loads(ln)
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            exes[m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message":
            d = m["message"]
            if d["level"].startswith("error") or (warnings is not None and d["level"] == "warning"):
                (errs if d["level"].startswith("error") else warnings).append({"pkg": m["package_id"], "target": m["target"]["name"], "message": d["message"],
                             "rendered": d.get("rendered") or "", "spans": d["spans"],
                             "code": (d.get("code") or {}).get("code")})
    return exes, errs


def model_bin():
    a = ["build", "--offline", "--release", "--message-format=json", "--bin", "mcgen"]
    p = cargo(a, os.path.join(HARNESS, "model"))
    exes, errs = parse_cargo(p.stdout)
    if p.returncode != 0:
        raise CheckError("model does not build:\n" + p.stderr[-3000:])
    return exes["mcgen"]


def naga_bin():
    """An independent GLSL front end; depends on the model, not on crevice."""
    p = cargo(["build", "--offline", "--release", "--message-format=json"], os.path.join(HARNESS, "naga"))
    exes, errs = parse_cargo(p.stdout)
    if p.returncode != 0:
        raise CheckError("harness/naga does not build:\n" + p.stderr[-3000:])
    return exes["mcnaga"]


def model_against_naga(cx):
    """The reference model itself, compared with naga's layouter."""
    p = run_group([naga_bin(), "layout", "3"], 600)
    n = 0
    for ln in p.stdout.splitlines():
        m = json.loads(ln[3:]) if ln.startswith("MC ") else {}
        if m.get("kind") == "violation":
            raise CheckError("the reference model and naga disagree: " + m["what"])
        if m.get("kind") == "count" and m["key"] in ("blocks", "members"):
            cx.notes["model_against_naga_" + m["key"]] = n = m["n"]
    if p.returncode != 0 or not n:
        raise CheckError("naga comparison failed: " + p.stderr[-2000:])


GEN_TOML = """[package]
name = "mcgen-{name}"
version = "0.1.0"
edition = "2021"

[features]
default = ["std"]
std = ["mcrt/std", "crevice/std"]
math = ["mcrt/math"]
debug-methods = ["mcrt/debug-methods"]
cgmath = ["mcrt/cgmath"]
glam = ["mcrt/glam"]
nalgebra = ["mcrt/nalgebra"]

[dependencies]
crevice = {{ path = "{repo}", default-features = false }}
mcrt = {{ path = "{harness}/rt", default-features = false }}
bytemuck = "1.12.3"
mint = "0.5.9"

[profile.dev]
debug = 0
incremental = false

[profile.release]
debug = 0
incremental = false
opt-level = 3

[workspace]
"""


def gen_package(name):
    d = os.path.join(TARGET, "gen", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(GEN_TOML.format(name=name, repo=REPO, harness=HARNESS))
    shutil.copy(os.path.join(HARNESS, "rt", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def harness_derives(errs):
    """Errors which are all about structs of the harness library that derive a layout or a declaration: these are
    supported structs too."""
    def derived(e):
        for t in e["spans"]:
            while t:
                x = t.get("expansion") or {}
                if re.search(r"derive\((AsStd140|AsStd430|GlslStruct)\)", x.get("macro_decl_name") or ""):
                    return True
                t = x.get("span")
        return False
    errs = [e for e in errs if e["spans"]]
    return errs if errs and all("mcrt" in e["pkg"] and derived(e) for e in errs) else []


def compiler_died(p):
    """How the compiler died on a generated program, if it did."""
    m = re.search(r"signal: \d+[^)]*|memory allocation of \d+ bytes failed|has overflowed its stack", p.stderr)
    return m and "could not compile `mcgen-" in p.stderr and m.group(0)


def gen_build(cx, d, features=(), no_default=False, release=False, what="derived struct", env=None):
    """Build a generated package.  A compile error inside the generated source
    is reported as a violation; anything else is a harness error."""
    a = ["build", "--offline", "--message-format=json", "--keep-going"]
    if release:
        a.append("--release")
    if no_default:
        a.append("--no-default-features")
    if features:
        a += ["--features", ",".join(features)]
    try:
        p = cargo(a, d, patience(cx, 1500), env)
    except subprocess.TimeoutExpired:
        if cx.thorough:
            raise CheckError("time limit while building " + d)
        cx.hang(f"compiling {what}s does not terminate", d)
        return {}
    exes, errs = parse_cargo(p.stdout)
    if p.returncode != 0:
        mine = [e for e in errs if "mcgen-" in e["pkg"] and e["spans"]]
        other = [e for e in errs if "mcgen-" not in e["pkg"]]
        if not other and not mine and compiler_died(p):
            cx.violation(f"compiling {what}s exhausts the compiler: {compiler_died(p)}", d, p.stderr[-3000:])
            return {}
        if other or not mine:
            raise CheckError("build failed outside the generated programs:\n"
                             + "\n".join(e["rendered"] for e in other)[:4000] + p.stderr[-3000:])
        seen = set()
        for e in mine:
            line = source_line(d, e)
            if line in seen:
                continue
            seen.add(line)
            cx.violation(f"{what} does not compile: {e['message']}", line[:2000], e["rendered"][:4000])
    return exes


def source_line(d, e):
    for s in e["spans"]:
        t = s
        while t:
            fn = t["file_name"]
            if not os.path.isabs(fn):
                fn = os.path.join(d, fn)
            if fn.startswith(d) and os.path.exists(fn):
                with open(fn) as f:
                    return f.read().splitlines()[t["line_start"] - 1]
            t = (t.get("expansion") or {}).get("span")
    return e["message"]


def run_bins(cx, cmds, timeout=800, prefix=""):
    """Run harness programs in parallel; each must print a `done` record."""
    def one(c):
        try:
            return run_group(c, patience(cx, timeout), 3.5, env=ENV)
        except subprocess.TimeoutExpired:
            if cx.thorough:
                raise CheckError("time limit: " + " ".join(c))
            return None
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, cmds))
    for c, p in zip(cmds, res):
        if p is None:
            cx.hang("the code under observation does not terminate", " ".join(c), " ".join(c))
            continue
        done = cx.absorb(p.stdout.splitlines(), how=" ".join(c), prefix=prefix)
        if not done and p.returncode in (-4, -6, -7, -8, -11):
            # illegal instruction, abort, bus error, arithmetic, segmentation fault: only the code under test can
            # do this (panics are caught and reported by the harness itself)
            cx.violation(f"the program died of signal {-p.returncode} while observing: {p.stderr[-600:]}", " ".join(c), p.stdout[-1500:], " ".join(c))
        elif not done:
            raise CheckError(f"harness program failed ({p.returncode}): {' '.join(c)}\n{p.stdout[-1500:]}\n{p.stderr[-1500:]}")
    return res


def generate(cx, name, mode, shards=JOBS, prefix=""):
    d = gen_package(name)
    g = subprocess.run([model_bin(), mode, cx.tier, d, str(shards)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True)
    if g.returncode != 0:
        raise CheckError("generator failed: " + g.stderr[-2000:])
    cx.absorb(g.stdout.splitlines(), prefix=prefix)
    return d


# ------------------------------------------------------------ interpreter --

def interpret(cx, jobs, flags=""):
    """Run programs under Miri.  `jobs`: (host, package directory, cargo options, program, arguments).  Reports undefined
    behaviour, lines `BAD ...`, and programs that do not end with `DONE`."""
    base = os.path.join(TARGET, "miri")
    os.makedirs(base, exist_ok=True)

    def env(host):
        return {"MIRI_SYSROOT": os.path.join(base, "sysroot-" + host), "CARGO_TARGET_DIR": os.path.join(base, host),
                "MIRIFLAGS": "-Zmiri-ignore-leaks -Zmiri-preemption-rate=0 " + flags}

    def sysroot(host):
        e = env(host)
        if os.path.isdir(os.path.join(e["MIRI_SYSROOT"], "lib")):
            return
        p = cargo(["+nightly", "miri", "setup", "--target", host], base, 600, e)
        if p.returncode != 0:
            raise CheckError(f"no interpreter for {host}: {p.stderr[-2000:]}")

    def one(job, ready):
        host, d, opts, prog, args = job
        ready.result()
        try:
            return cargo(["+nightly", "miri", "run", "--offline", "-q", "--target", host] + opts + ["--bin", prog, "--"] + args,
                         d, patience(cx, 870 - (time.time() - cx.t0)), env(host))
        except subprocess.TimeoutExpired:
            if cx.thorough:
                raise CheckError(f"time limit: {prog} {args} on {host}")
            return None

    hosts = list(dict.fromkeys(j[0] for j in jobs))
    with ThreadPoolExecutor(len(hosts)) as setups, ThreadPoolExecutor(JOBS) as ex:
        ready = {h: setups.submit(sysroot, h) for h in hosts}
        res = list(ex.map(lambda j: one(j, ready[j[0]]), jobs))
    for (host, d, _, prog, args), p in zip(jobs, res):
        how = f"cargo +nightly miri run --target {host} --bin {prog} -- {' '.join(args)} in {d}"
        if p is None:
            cx.hang(f"[{host}] the code under observation does not terminate", how, how)
            continue
        lines = p.stdout.splitlines()
        at = [x[3:] for x in lines if x.startswith("AT ")]
        cx.counts["subjects"] += len(at)
        cx.counts["subjects on " + host] += len(at)
        for x in lines:
            if x.startswith("BAD "):
                cx.violation(f"[{host}] {x[4:]}", x, "", how)
        ub = re.search(r"^error: Undefined Behavior: .*(?:\n.*){0,3}", p.stderr, re.M)
        if ub:
            cx.violation(f"[{host}] {at[-1] if at else '?'}: {ub.group(0)[7:300]}", at[-1] if at else "", p.stderr[-5000:], how)
        elif lines and lines[-1] == "DONE" and p.returncode == 0:
            continue
        elif at and "unsupported operation" not in p.stderr:
            cx.violation(f"[{host}] {at[-1]}: the program ends early ({p.returncode}) {p.stderr[-300:]}", at[-1], p.stderr[-5000:], how)
        else:
            raise CheckError(f"{how}: {p.returncode}\n{p.stderr[-4000:]}")


# ---------------------------------------------------------------- verdict --

def known_findings():
    """property -> {key: description}; `fixed:` lines suppress nothing."""
    out = {}
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def cleanup(cx):
    """Generated programs are large; keep only the shared dependencies."""
    import glob
    for pat in ("*/deps/g[0-9][0-9][0-9]-*", "*/g[0-9][0-9][0-9]", "*/g[0-9][0-9][0-9].d", "*/deps/libmcgen*"):
        for f in glob.glob(os.path.join(TARGET, pat)):
            try:
                os.remove(f)
            except OSError:
                pass


def finish(cx, level, coverage, assumptions=()):
    if not cx.violations:
        cleanup(cx)
    outcomes = {k: v for k, v in cx.counts.items() if "outcome:" in k}
    for k in outcomes:
        del cx.counts[k]
    if outcomes:
        cx.notes["distinct_outcomes"] = len(outcomes)
        cx.notes["outcomes"] = dict(sorted(outcomes.items()))
    listed = known_findings().get(cx.prop, {})
    for key, (n, what) in sorted(cx.known.items()):
        if key not in listed:
            cx.violation(f"{what} ({n} observations, key {key})", key)
    cov = dict(coverage)
    cov.setdefault("samples", cx.samples[:8])
    for k, v in sorted(cx.counts.items()):
        cov.setdefault(k, v)
    if cx.gen:
        cov["generator"] = dict(sorted(cx.gen.items()))
    for k, v in cx.notes.items():
        cov.setdefault(k, v)
    ev = {
        "property": cx.prop, "tier": cx.tier, "seed": cx.seed, "level": level, "coverage": cov,
        "assumptions": list(assumptions), "wall_s": round(time.time() - cx.t0, 2), "violations": len(cx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, (n, what) in sorted(cx.known.items()):
        if key in listed:
            log(f"KNOWN-FINDING: property={cx.prop} {listed[key]} [{n} observations]")
    short = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    log(f"{cx.prop} {cx.tier}: {short} in {ev['wall_s']} s")
    if cx.violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{cx.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": cx.prop, "tier": cx.tier, "violations": cx.violations}, f, indent=1)
        for v in cx.violations[:5]:
            log("  " + v["what"][:600])
        log(f"VIOLATION property={cx.prop} replay={path}")
        return 1
    return 0
