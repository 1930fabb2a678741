"""One function per property."""
import json, os, re, subprocess
import mc, programs
from mc import CheckError

TRUST = [
    "the reference model in harness/model (GLSL specification rules for std140/std430) is right",
    "rustc, cargo and bytemuck behave as documented; little-endian 64-bit host",
]


# ------------------------------------------------- enumerated struct shapes --

def shapes_check(mode, tables=None):
    def run(cx):
        if mode in ("layout140", "layout430"):
            mc.model_against_naga(cx)
        d = mc.generate(cx, f"{cx.prop}", mode)
        exes = mc.gen_build(cx, d)
        mc.run_bins(cx, [[e, mode] for e in exes.values()])
        if tables and not cx.violations:
            # the built-in types themselves, and those of the math libraries, alone and as members
            for prof in ("dev", "release"):
                a = mc.rt_build(["mcbuiltin"], profile=prof)["mcbuiltin"]
                b = mc.rt_build(["mcmath"], features=("math",), profile=prof)["mcmath"]
                mc.run_bins(cx, [[a, cx.tier, tables], [b, cx.tier, tables]], prefix="tables." if prof == "dev" else "tables-release.")
            if tables == "readback":
                mc.run_bins(cx, [[a, cx.tier, "bools"]])
        return shapes_finish(cx)
    return run


def shapes_finish(cx, extra_traces=0):
    c = cx.counts
    n = c["types"] + c["declarations"]
    if not cx.violations and n < cx.gen["shapes"]:
        raise CheckError("fewer types checked than generated")
    return mc.finish(cx, "model_checking", {
        "states": cx.gen.get("model_states", 0) + c["states"],
        "transitions": cx.gen.get("model_transitions", 0) + c["transitions"],
        "traces_validated_against_impl": n + extra_traces,
        "exhaustive": True,
        "rule": "every struct shape of the bounded family is compiled with the real derive macro and run; "
                "model states are (offset mod lcm of alignments, largest alignment so far)",
    }, TRUST)


# ---------------------------------------------------- writer histories --

def writer_runs(cx, mode):
    """Both profiles: optimised as users ship it, and with overflow checks."""
    a = mc.rt_build(["mcwriter"], profile="release")["mcwriter"]
    b = mc.rt_build(["mcwriter"], profile="checked")["mcwriter"]
    mc.run_bins(cx, [[a, mode, cx.tier]], timeout=1500)
    # the second profile explores the quick bounds
    mc.run_bins(cx, [[b, mode, "quick"]], timeout=800, prefix="checked.")


def writer_check(mode):
    def run(cx):
        writer_runs(cx, mode)
        return writer_finish(cx)
    return run


def writer_finish(cx):
    c = cx.counts
    traces = sum(v for k, v in c.items() if k.endswith("histories") or k.endswith("size_queries"))
    if not cx.violations and (not c["histories"] or not c["states"]):
        raise CheckError("nothing explored")
    return mc.finish(cx, "model_checking", {
        "states": c["states"],
        "transitions": c.get("transitions", 0) or c["histories"],
        "traces_validated_against_impl": traces,
        "exhaustive": True,
        "rule": "every operation from every reachable writer state (offset modulo the largest alignment), and every "
                "history up to the stated depth over the stated alphabets, executed on the real writer and "
                "compared after each operation",
    }, TRUST)


def c10(cx):
    writer_runs(cx, "faults")
    c = cx.counts
    if not cx.violations and not c["executions_with_failure"]:
        raise CheckError("no failing execution explored")
    return mc.finish(cx, "fault_enumeration", {
        "evaluations": c["evaluations"] + c["checked.evaluations"],
        "distinct_nontrivial": c["distinct_nontrivial"],
        "exhaustive": True,
        "rule": "for each history, every sink call is made to succeed, deliver a short count, be interrupted or fail "
                "with each error kind, up to the stated number of deviations per execution, and each recovery is "
                "tried; an execution is non-trivial when at least one deviation was actually reached; two "
                "executions are distinct when their history, sink script or recovery differ",
    }, TRUST)


def c19(cx):
    writer_runs(cx, "unwind")
    c = cx.counts
    if not cx.violations and not c["executions_with_panic"]:
        raise CheckError("no panicking execution explored")
    return mc.finish(cx, "fault_enumeration", {
        "evaluations": c["evaluations"] + c["checked.evaluations"],
        "distinct_nontrivial": c["executions_with_panic"],
        "exhaustive": True,
        "rule": "for each history of the full product, user code (iterators, user-composed values, conversions) is made "
                "to panic at every point it is entered, and the sink at every call after taking 0, 1, half, all but "
                "one or all bytes; the panic is caught, the sink cut to the reported length, and the history goes on; "
                "an execution is non-trivial when the panic happened; two executions differ in history or panic point",
    }, TRUST)


def c20(cx):
    # values, writers and size calculators go from thread to thread
    d = mc.gen_package("C20")
    with open(os.path.join(d, "src", "bin", "g000.rs"), "w") as f:
        f.write(programs.threads())
    exes = mc.gen_build(cx, d, what="a program which uses writers and values on several threads")
    if exes:
        mc.run_bins(cx, [[exes["g000"]]], prefix="moved.")
    for prof in ("release", "checked"):
        exe = mc.rt_build(["mcwriter"], profile=prof)["mcwriter"]
        n = mc.JOBS
        mc.run_bins(cx, [[exe, "independent", cx.tier if prof == "release" else "quick", str(i), str(n)] for i in range(n)],
                    prefix="" if prof == "release" else "checked.")
    c = cx.counts
    if not cx.violations and not (c["schedules"] and c["nested_schedules"] and c["threaded_schedules"] and c["moved.schedules"]):
        raise CheckError("no schedules explored")
    n = sum(v for k, v in c.items() if k.endswith("schedules"))
    return mc.finish(cx, "exploration", {
        "evaluations": n,
        "distinct_nontrivial": n - sum(v for k, v in c.items() if k.startswith("checked.")),
        "exhaustive": True,
        "rule": "for each tuple of actors (writers, size calculators, conversions, size queries, GLSL text) and scripts: "
                "every order of their operations, on one thread and on a thread each; and every call the last operation "
                "of one makes into its sink, iterator, member conversions or composed values, with an operation of the "
                "others running inside that call, on the same thread and on another; schedules differ in actors, "
                "scripts, order or point; the second profile repeats the first's and is not counted as distinct",
    }, TRUST)


HOSTS = {"x86_64-unknown-linux-gnu": "64-bit little-endian", "i686-unknown-linux-gnu": "32-bit little-endian, doubles aligned to 4",
         "s390x-unknown-linux-gnu": "64-bit big-endian", "powerpc-unknown-linux-gnu": "32-bit big-endian"}


def c21(cx):
    d = mc.generate(cx, "C21", "sound")
    progs = sorted(f[:-3] for f in os.listdir(os.path.join(d, "src", "bin")))
    rt = os.path.join(mc.HARNESS, "rt")
    math = ["--features", "math"]
    hosts = list(HOSTS) if cx.thorough else list(HOSTS)[:3]
    jobs = []
    for h in hosts:
        for i in range(mc.JOBS):
            for what in ("types", "histories"):
                tier = cx.tier if cx.thorough or h == hosts[0] else "brief"
                jobs.append((h, rt, math, "mcsound", [tier, what, str(i), str(mc.JOBS)]))
        jobs += [(h, d, math, g, []) for g in progs]
    mc.interpret(cx, jobs, "-Zmiri-disable-stacked-borrows")
    if not cx.violations:
        # with the rules about aliasing
        h = hosts[0]
        mc.interpret(cx, [(h, rt, math, "mcsound", ["quick", what, str(i), "16"]) for what in ("types", "histories")
                          for i in (range(16) if cx.thorough else (0,))], "-Zmiri-tree-borrows")
    for h in hosts:
        cx.sample(f"host: {h} ({HOSTS[h]})")
    cx.notes["hosts"] = len(hosts)
    n = cx.counts["subjects"]
    if not cx.violations and n < 2000:
        raise CheckError("fewer subjects than generated")
    return mc.finish(cx, "exploration", {
        "evaluations": n,
        "distinct_nontrivial": cx.counts["subjects on " + hosts[0]],
        "exhaustive": True,
        "rule": "every built-in and library type, generated struct (every field type alone and between others, classes of "
                "pairs, empty, long, with wrapped members) and history of three operations, with its sink answering in full, "
                "byte by byte, failing or panicking at chosen bytes, and the caller's code panicking at its first calls, is "
                "executed by Miri, which stops at undefined behaviour (uninitialised or out-of-bounds or misaligned "
                "access, invalid values, data races; on one host also aliasing), for each host, and its result "
                "compared with the model's; distinct: the subjects of one host",
    }, TRUST)


def c12(cx):
    d = mc.generate(cx, "C12", "glsl")
    exes = mc.gen_build(cx, d)
    dump = os.path.join(d, "text")
    os.makedirs(dump)
    mc.run_bins(cx, [["env", "MC_GLSL_DUMP=" + dump, e, "glsl"] for e in exes.values()])
    if not cx.violations:
        # the same declarations, read by a GLSL front end which is not ours
        naga = mc.naga_bin()
        mc.run_bins(cx, [[naga, "text", os.path.join(dump, f)] for f in sorted(os.listdir(dump))], prefix="naga.")
        if cx.counts["naga.declarations"] + cx.counts["naga.names_reserved_in_glsl"] + cx.counts["naga.declarations_naga_refuses"] != cx.counts["declarations"]:
            raise CheckError("naga has not read every declaration")
    c = cx.counts
    if not cx.violations and c["declarations"] < cx.gen["shapes"]:
        raise CheckError("fewer declarations checked than generated")
    return mc.finish(cx, "exploration", {
        "evaluations": c["images"],
        "distinct_nontrivial": c["declarations"],
        "exhaustive": True,
        "rule": "every struct of the bounded family (all field types, all ordered pairs of field types and of names, "
                "triples, long declarations, nesting, raw and unusual names) is compiled with the real derive; its "
                "declaration is parsed, resolved, laid out by the reference rules and compared with the bytes of two "
                "values per layout; each declaration is distinct and has at least one member",
    }, TRUST)


def c13(cx):
    d = mc.generate(cx, "C13", "dynu")
    exes = mc.gen_build(cx, d)
    for m in ("layout140", "zero", "trip"):
        mc.run_bins(cx, [[e, m] for e in exes.values()], prefix="" if m == "layout140" else m + ".")
    writer_runs(cx, "dynamic")
    return shapes_finish(cx, sum(v for k, v in cx.counts.items() if k.endswith("histories")))


# ------------------------------------------------ programs to be accepted --

def build_silent(cx, d, what, features=(), no_default=False):
    """Build; every diagnostic in the generated programs is a violation."""
    a = ["build", "--offline", "--message-format=json", "--keep-going"]
    if no_default:
        a.append("--no-default-features")
    if features:
        a += ["--features", ",".join(features)]
    try:
        p = mc.cargo(a, d, mc.patience(cx, 1500))
    except subprocess.TimeoutExpired:
        if cx.thorough:
            raise CheckError("time limit while building " + d)
        cx.hang(f"compiling {what} does not terminate", d)
        return {}
    warns = []
    exes, errs = mc.parse_cargo(p.stdout, warns)
    mine = [e for e in errs if "mcgen-" in e["pkg"] and e["spans"]]
    other = [e for e in errs if "mcgen-" not in e["pkg"]]
    if not other and not mine and mc.compiler_died(p):
        cx.violation(f"compiling {what} exhausts the compiler: {mc.compiler_died(p)}", d, p.stderr[-3000:])
        return {}
    lost = mc.harness_derives(other)
    if lost:
        for e in lost:
            cx.violation(f"{what} (of the harness library) is rejected: {e['message']}", e["rendered"][:2000], e["rendered"][:4000])
        return {}
    if other or (p.returncode != 0 and not mine):
        raise CheckError("build failed outside the generated programs:\n" + "\n".join(e["rendered"] for e in other)[:4000] + p.stderr[-3000:])
    seen = set()
    for e in mine + [w for w in warns if "mcgen-" in w["pkg"] and w["spans"]]:
        line = mc.source_line(d, e)
        if line in seen:
            continue
        seen.add(line)
        kind = "is rejected" if e in mine else "compiles with a warning"
        m = re.match(r'/\*\*? ?"?(.*?)"?\*/', line)
        cx.violation(f"{what} ({m.group(1) if m else '?'}) {kind}: {e['message']}", line[:3000], e["rendered"][:4000])
    cx.counts["programs_compiled"] += 1
    return exes


def c14(cx):
    cs = programs.cases(cx.thorough)
    d = mc.gen_package("C14")
    programs.write_accept(d, cs)
    exes = build_silent(cx, d, "a supported struct")
    for m in ("layout", "trip", "glsl"):
        mc.run_bins(cx, [[e, m] for e in exes.values()], prefix="" if m == "layout" else m + ".")
    if cx.violations and not exes:
        return mc.finish(cx, "exploration", {"evaluations": len(cs), "distinct_nontrivial": 0, "exhaustive": False, "rule": "stopped early"}, TRUST)
    cx.notes["derive_inputs"] = len(cs)
    # with the derive's introspection feature (which needs the names of the prelude)
    dbg = [c for c in cs if not hasattr(c, "shadows")]
    if not cx.thorough:
        # contexts and pairs of names are large products: every eighth of them
        big = [c for c in dbg if c.what.startswith(("context ", "fields "))]
        keep = {id(c) for c in big[::8]} | {id(c) for c in dbg} - {id(c) for c in big}
        dbg = [c for c in dbg if id(c) in keep]
    d = mc.gen_package("C14-debug")
    programs.write_accept(d, dbg)
    if not cx.violations:
        exes = build_silent(cx, d, "a supported struct, with debug-methods,", ("debug-methods",))
        mc.run_bins(cx, [[e, "layout"] for e in exes.values()], prefix="debug-methods.")
    # whole libraries: no unsafe allowed, documentation required, without std
    libs = programs.lib_cases(cx.thorough)
    for kind, nodef in (("std", False), ("nostd", True)):
        d = mc.gen_package("C14-lib-" + kind)
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(programs.lib_source(kind, libs))
        build_silent(cx, d, f"a supported struct in a {kind} library", (), nodef)
    cx.notes["library_derive_inputs"] = 2 * len(libs)
    for c in cs[:: max(1, len(cs) // 8)][:8]:
        cx.sample(f"{c.what}: {c.emit(0)[:400]}" if len(cx.samples) < 2 else c.what)
    n = cx.counts["types"]
    if not cx.violations and n < 1000:
        raise CheckError("fewer types checked than generated")
    distinct = len({(c.what, c.edition) for c in cs})
    return mc.finish(cx, "exploration", {
        "evaluations": len(cs) + len(dbg) + 2 * len(libs),
        "distinct_nontrivial": distinct,
        "exhaustive": True,
        "rule": "every derive input of the families (field counts, field and struct names, derive sets x import styles x "
                "item positions x visibilities over three editions, attributes, spellings of field types, user types, "
                "surrounding names, library crates) is compiled with the real macro; any error or warning is a "
                "violation, and the accepted struct is laid out, converted both ways and (with GLSL) declared as the "
                "model says; distinct: different family member or edition",
    }, TRUST)


# ------------------------------------------------ programs to be rejected --

def module_of(e):
    """Generated source lines an error is about (outermost call site included)."""
    out = set()
    for s in e["spans"]:
        t = s
        while t:
            m = re.search(r"bin/(g\d\d\d)\.rs$", t["file_name"])
            if m:
                out.add((m.group(1), t["line_start"]))
            t = (t.get("expansion") or {}).get("span")
    return out


def c15(cx):
    cases = programs.rejects(cx.thorough) + programs.controls()
    # rustc's error reporting is quadratic: deal the modules into small crates
    n = max(8, (len(cases) + 149) // 150)
    all_cases = list(enumerate(cases))
    shards = {f"g{k:03}": all_cases[k::n] for k in range(n)}
    d = mc.gen_package("C15")
    rounds = 0
    while True:
        rounds += 1
        for name, mods in shards.items():
            with open(os.path.join(d, "src", "bin", name + ".rs"), "w") as f:
                f.write(programs.reject_source(mods))
        try:
            p = mc.cargo(["build", "--offline", "--message-format=json", "--keep-going", "--features", "math"], d, mc.patience(cx, 1500))
        except subprocess.TimeoutExpired:
            raise CheckError("time limit while building " + d)
        exes, errs = mc.parse_cargo(p.stdout)
        if p.returncode == 0:
            break
        mine = [e for e in errs if "mcgen-" in e["pkg"] and e["spans"]]
        other = [e for e in errs if "mcgen-" not in e["pkg"]]
        lines = set()
        for e in mine:
            lines |= module_of(e)
        # line 1: lint header, line 2: helpers, line 3: first module
        bad = {(s, ln - 3) for s, ln in lines if 0 <= ln - 3 < len(shards[s])}
        if other or not bad or rounds > 40:
            raise CheckError("cannot attribute a compile error:\n" + "\n".join(e["rendered"] for e in errs)[:3000] + p.stderr[-2000:])
        for s, k in sorted(bad):
            w, src, kind = shards[s][k][1]
            if kind == "exists":
                raise CheckError("no such type: " + "; ".join(shards[s][k][1][1] for s, k in sorted(bad) if shards[s][k][1][2] == "exists"))
            cx.counts["rejected"] += kind != "control"
            cx.counts["controls_refused"] += kind == "control"
        shards = {s: [m for k, m in enumerate(mods) if (s, k) not in bad] for s, mods in shards.items()}
    alive = [m for mods in shards.values() for m in mods]
    survivors = [(i, c) for i, c in alive if c[2] not in ("control", "exists")]
    # whether supported fields are accepted is C14's business, but most of the controls must show that the framing is
    cx.counts["control_programs"] = sum(c[2] == "control" for _, c in alive)
    if cx.counts["control_programs"] < 100:
        raise CheckError("the control programs do not compile")
    arrays = []
    for i, (w, src, kind) in survivors:
        if kind and kind[0] == "array":
            if kind[1] == "GlslStruct":
                cx.counts["accepted_array_declarations"] += 1
                arrays.append((i, w, src, kind))
            else:
                arrays.append((i, w, src, kind))
        else:
            cx.violation(f"accepted without a diagnostic: {w}", src)
    if arrays and not cx.violations:
        accepted_arrays(cx, arrays)
    items = [c for c in cases if c[2] not in ("control", "exists")]
    for c in items[:: max(1, len(items) // 8)][:8]:
        cx.sample(f"{c[0]}: {c[1][:200]}")
    cx.notes["compiler_rounds"] = rounds
    return mc.finish(cx, "exploration", {
        "evaluations": len(cases),
        "distinct_nontrivial": len({c[1] for c in items}),
        "exhaustive": True,
        "rule": "every item kind without named fields x derive set, and every unsupported field type x position x derive, "
                "is a module compiled with the real macro; modules with errors are removed and the rest recompiled "
                "until the compiler accepts: anything but the control modules that is left is a violation (arrays: "
                "unless laid out with the GLSL stride); distinct: different source text",
    }, TRUST[1:])


def accepted_arrays(cx, arrays):
    """Array fields the compiler accepts must have the GLSL stride."""
    d = mc.gen_package("C15-arrays")
    lay = [(i, w, s, k) for i, w, s, k in arrays if k[1] != "GlslStruct"]
    gl = [(i, w, s, k) for i, w, s, k in arrays if k[1] == "GlslStruct"]
    src = ["#![allow(warnings)]\npub mod helpers { " + programs.HELPERS + "}\n"]
    calls = ""
    for i, w, s, k in lay:
        src.append(f"pub mod c{i} {{ {s} {programs.array_entry(i, k[2], k[1])} }}\n")
        calls += f"    v.push(c{i}::entry());\n"
    g = ""
    for i, w, s, k in gl:
        src.append(f"pub mod c{i} {{ {s} }}\n")
        g += f'    println!("G {i} {{:?}}", <c{i}::Foo as crevice::glsl::GlslStruct>::glsl_definition());\n'
    src.append("fn main() {\n    let mut v = Vec::new();\n" + calls + g + '    mcrt::structs::run("layout", &v);\n}\n')
    with open(os.path.join(d, "src", "bin", "g000.rs"), "w") as f:
        f.write("".join(src))
    exes = mc.gen_build(cx, d, what="struct with an array field")
    for p in mc.run_bins(cx, [[e] for e in exes.values()]):
        for ln in p.stdout.splitlines():
            m = re.match(r"G (\d+) (.*)", ln)
            if m:
                text = json.loads(m.group(2))
                k = next(x[3] for x in gl if x[0] == int(m.group(1)))
                dims = re.findall(r";(\d+)\]", k[2][-1 if len(k[2]) == 1 else 1][2])
                if not all(f"[{n}]" in text for n in dims):
                    cx.violation(f"array member declared without its length: {text}", str(k))


# ---------------------------------------------------- build configurations --

def transcripts(cx, cmds):
    """Lines observed by the given programs, keyed by their subject."""
    out = {}
    for p in mc.run_bins(cx, cmds):
        for ln in p.stdout.splitlines():
            if ln.startswith("T "):
                out[ln] = None
    return list(out)


def compare(cx, name, base, got, only=None):
    want = [x for x in base if only is None or x.startswith(only)]
    cx.counts["lines_compared"] += len(want)
    cx.counts["configurations"] += 1
    gs, ws = set(got), set(want)
    missing, extra = [x for x in want if x not in gs], [x for x in got if x not in ws]
    for a in missing[:5]:
        subj = " ".join(a.split(" ")[:4])
        b = next((x for x in extra if x.startswith(subj)), "(nothing)")
        cx.violation(f"configuration `{name}` observes\n    {b[:300]}\n  where the baseline observes\n    {a[:300]}", name)
    if not missing and extra:
        cx.violation(f"configuration `{name}` observes additional {extra[0][:300]}", name)


def c16(cx):
    import itertools
    math = ["cgmath", "glam", "nalgebra"]
    # (name, generator mode, features, no_default, release, env, prefix of comparable lines)
    cfg = [
        ("release", "config", [], False, True, None, None),
        ("no_std", "config-nostd", [], True, False, None, None),
        ("no_std release", "config-nostd", [], True, True, None, None),
        ("math libraries", "config", math, False, False, None, None),
        ("debug-methods", "config", ["debug-methods"], False, False, None, None),
        ("only std140 derived", "config-140", [], False, False, None, "T std140 "),
        ("only std430 derived", "config-430", [], False, False, None, "T std430 "),
        ("derives apart", "config-apart", [], False, False, None, None),
    ]
    if cx.thorough:
        for n in range(0, 4):
            for fs in itertools.combinations(math, n):
                for nostd in (False, True):
                    for rel in (False, True):
                        for dbg in ((False, True) if not nostd else (False,)):
                            f = list(fs) + (["debug-methods"] if dbg else [])
                            name = " ".join(["release" if rel else "dev", "no_std" if nostd else "std"] + f)
                            cfg.append((name, "config-nostd" if nostd else "config", f, nostd, rel, None, None))
        for lvl in ("1", "2", "s", "z"):
            cfg.append((f"opt-level {lvl}", "config", [], False, True, {"CARGO_PROFILE_RELEASE_OPT_LEVEL": lvl}, None))
        cfg.append(("lto", "config", [], False, True, {"CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1"}, None))
        cfg.append(("release with overflow checks", "config", [], False, True, {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true"}, None))
        cfg.append(("dev without overflow checks", "config", [], False, False, {"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"}, None))
        for l, n in (("140", "std140"), ("430", "std430")):
            cfg.append((f"only {n} derived, release", f"config-{l}", [], False, True, None, f"T {n} "))
    dirs = {}
    def prog(mode):
        if mode not in dirs:
            dirs[mode] = mc.generate(cx, "C16-" + mode, mode, prefix=mode + ".")
        return dirs[mode]
    def run(mode, features, nodef, release, env):
        exes = mc.gen_build(cx, prog(mode), features, nodef, release, env=env)
        return transcripts(cx, [[e] for e in exes.values()])
    base = run("config", [], False, False, None)
    if not base and not cx.violations:
        raise CheckError("empty transcript")
    cx.notes["baseline_lines"] = len(base)
    names = ["dev std (baseline)"]
    for name, mode, fs, nodef, rel, env, only in cfg:
        if cx.violations:
            break
        got = run(mode, fs, nodef, rel, env)
        compare(cx, name, base, got, only)
        names.append(name)
    # the writer and the size calculator
    if not cx.violations:
        def writer(profile, fs=(), env=None):
            e = mc.rt_build(["mcwriter"], features=fs, profile=profile, env=env)["mcwriter"]
            return transcripts(cx, [[e, "transcript", cx.tier]])
        wb = writer("dev")
        cx.notes["writer_lines"] = len(wb)
        for name, prof, fs in [("writer release", "release", ()), ("writer release with overflow checks", "checked", ()),
                               ("writer debug-methods", "dev", ("debug-methods",)),
                               ("writer math libraries", "dev", tuple(math))] + \
                              ([("writer release math libraries", "release", tuple(math))] if cx.thorough else []):
            compare(cx, name, wb, writer(prof, fs))
            names.append(name)
    for n in names[:8]:
        cx.sample("configuration: " + n)
    if base:
        cx.sample(base[len(base) // 2][:200])
    return mc.finish(cx, "exploration", {
        "evaluations": cx.counts["lines_compared"],
        "distinct_nontrivial": cx.notes["baseline_lines"] + cx.notes.get("writer_lines", 0),
        "exhaustive": True,
        "rule": "every observation (alignment, sizes, images of three values, readback of three garbage images, writer "
                "and sizer history) of every type in the transcript, in every listed configuration, compared with the "
                "same observation in the baseline; distinct: the different observations of the baseline",
        "configuration_list": names,
    }, TRUST[1:])


# ------------------------------------------------------ introspection --

def c18(cx):
    feats = ("debug-methods",)
    d = mc.generate(cx, "C18", "debug")
    exes = mc.gen_build(cx, d, feats)
    res = mc.run_bins(cx, [[e, "debug"] for e in exes.values()])
    # the reported definitions are compiled in place of the generated ones
    if not cx.violations:
        d2 = mc.gen_package("C18-back")
        n = 0
        for name, p in zip(exes, res):
            src = open(os.path.join(d, "src", "bin", name + ".rs")).read().split("fn entries()")[0]
            mods, calls = [], []
            for ln in p.stdout.splitlines():
                if not ln.startswith('MC {"kind":"definition"'):
                    continue
                r = json.loads(ln[3:])
                m = re.search(r"\bstruct\s+([^\s{<]+)", r["text"])
                if not m:
                    cx.violation(f"{r['type']} [{r['layout']}]: the reported definition contains no struct", r["text"][:2000])
                    continue
                fields = ", ".join(f"::core::mem::offset_of!({m[1]}, r#{x})" for x in r["members"])
                one = r["text"].replace("\n", " ")
                mods.append(f"mod d{n} {{ use super::*; {one} pub fn obs() -> Vec<usize> {{ vec![::core::mem::size_of::<{m[1]}>(), {fields}] }} }}\n")
                calls.append(f"    see(\"{r['type']} [{r['layout']}]\", d{n}::obs(), &{[r['size']] + r['offsets']});\n")
                n += 1
            with open(os.path.join(d2, "src", "bin", name + ".rs"), "w") as f:
                f.write(src + "".join(mods) + "fn see(what: &str, got: Vec<usize>, want: &[usize]) {\n"
                        "    if got != want { unsafe { BAD += 1 }; println!(\"MC {{\\\"kind\\\":\\\"violation\\\",\\\"what\\\":{},\\\"input\\\":\\\"\\\",\\\"repro\\\":\\\"\\\"}}\",\n"
                        "        mcrt::mcmodel::report::esc(&format!(\"{what}: the reported definition has size and offsets {got:?} instead of {want:?}\"))); }\n}\n"
                        "static mut BAD: u64 = 0;\nfn main() {\n" + "".join(calls)
                        + "    println!(\"MC {{\\\"kind\\\":\\\"done\\\",\\\"violations\\\":{}}}\", unsafe { BAD });\n}\n")
        cx.notes["definitions_compiled"] = n
        if not cx.violations:
            back = mc.gen_build(cx, d2, feats, what="reported definition")
            mc.run_bins(cx, [[e] for e in back.values()])
        if not cx.violations and n < 2 * cx.gen["shapes"] * 9 // 10:
            raise CheckError("fewer definitions than generated")
    return shapes_finish(cx, cx.notes.get("definitions_compiled", 0))


# ------------------------------------------------------- fixed type tables --

def table_build(cx, bin, features, prof):
    """A type of the table without its conversions or name is a violation."""
    try:
        return mc.rt_build([bin], features=features, profile=prof)[bin]
    except mc.BuildError as e:
        lost = [x for x in e.errs if x["code"] in ("E0277", "E0599", "E0432", "E0433", "E0412", "E0425", "E0560", "E0609") and "mcrt" in x["pkg"]]
        if not lost or len(lost) < len([x for x in e.errs if x["spans"]]):
            raise
        for x in lost:
            cx.violation("a supported type has lost its layout: " + x["message"], x["rendered"][:2000])
        return None


def table_check(bin, features=()):
    def run(cx):
        for prof in ("dev", "release"):
            e = table_build(cx, bin, features, prof)
            if not e:
                break
            mc.run_bins(cx, [[e, cx.tier]], prefix="" if prof == "dev" else "release.")
        if bin == "mcbuiltin" and not cx.violations:
            # optimised: every word through every component of the 32-bit types
            mc.run_bins(cx, [[e, cx.tier, "words"]], timeout=3000)
        c = cx.counts
        if not cx.violations and not c["types"]:
            raise CheckError("nothing explored")
        ev = c["words"] + c["boolean_words"] + sum(v for k, v in c.items() if k.split(".")[-1] in ("values", "images", "byte_images", "value_pairs", "histories", "names", "declarations"))
        return mc.finish(cx, "exploration", {
            "evaluations": ev,
            "distinct_nontrivial": c["values"] + c["byte_images"],
            "exhaustive": True,
            "rule": "every type of the table, every component through its boundary values, every byte of its image; "
                    "counted as distinct: the distinct component assignments and byte images, each different from "
                    "the all-zero value",
        }, TRUST)
    return run


CHECKS = {
    "C01": shapes_check("layout140"),
    "C02": shapes_check("layout430"),
    "C03": table_check("mcbuiltin"),
    "C04": shapes_check("zero", "zero"),
    "C05": shapes_check("trip", "trip"),
    "C06": shapes_check("readback", "readback"),
    "C07": writer_check("placement"),
    "C08": writer_check("sizes"),
    "C09": writer_check("batches"),
    "C10": c10,
    "C11": table_check("mcmath", ("math",)),
    "C12": c12,
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": writer_check("arrays"),
    "C18": c18,
    "C19": c19,
    "C20": c20, "C21": c21,
}


def setup():
    mc.prepare()
    mc.model_bin()
    mc.naga_bin()
    mc.rt_build()
    mc.rt_build(["mcwriter"], profile="release")
    mc.rt_build(["mcwriter"], profile="checked")
    mc.rt_build(["mcbuiltin"], profile="release")
    mc.rt_build(["mcmath"], features=("math",))
    mc.rt_build(["mcmath"], features=("math",), profile="release")
    print("setup done")
    return 0
