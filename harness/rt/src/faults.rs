//! C10: every answer of the sink, with a bounded number of deviations from
//! "accept everything", at every call of a set of write histories.

use crate::eng::*;
use crate::writer::parallel;
use crate::*;
use mcmodel::report::{hex, Report};
use std::io::ErrorKind;

fn scripts(l: Layout, thorough: bool) -> Vec<Vec<Op>> {
    let mut ts = types(l);
    ts.extend(std_types(l));
    let g = |n: &str| ts.iter().find(|t| t.name == n).unwrap_or_else(|| panic!("{n}"));
    let one = |n: &str| Op::new(g(n), How::One, 1);
    let dir = |n: &str| Op::new(g(n), How::Direct, 1);
    let sl = |n: &str, k| Op::new(g(n), How::Slice, k);
    let it = |n: &str, k| Op::new(g(n), How::Iter(Hint::Unknown), k);
    let mut v = vec![
        vec![one("f32"), one("Vector3<f32>"), one("f64")],
        vec![one("Vector3<f32>"), one("SB"), one("bool")],
        vec![one("f32"), sl("Vector3<f32>", 3), one("u32")],
        vec![one("f32"), it("SB", 2), one("Vector2<f32>")],
        vec![sl("f32", 3), one("Vector4<f32>"), sl("f32", 0), one("i32")],
        vec![one("f64"), one("f32"), one("ColumnMatrix3<f32>")],
        vec![one("bool"), one("Vector3<bool>"), it("f32", 3), one("Vector2<i32>")],
        vec![dir("f32"), dir("Vector3<f64>"), dir("SC")],
        vec![one("Blob<1,0>"), one("f32"), one("Blob<64,0>"), one("Blob<1,1>")],
        vec![it("Vector3<f32>", 0), one("f32"), it("Vector2<f32>", 2), sl("SE", 2)],
        vec![one("f32"), one("Blob<64,1>"), one("f32")],
    ];
    if l == Layout::Std140 {
        v.push(vec![Op::new(g("SA"), How::WriteSlice, 2), one("f32"), Op::new(g("Vector3<f32>"), How::WriteSlice, 2)]);
    }
    if thorough {
        // every ordered pair of a class alphabet, and a long run
        let names = ["f32", "Vector2<f32>", "Vector3<f32>", "Vector4<f32>", "Vector3<f64>", "SB", "SE", "SC"];
        for a in names {
            for b in names {
                v.push(vec![one(a), one(b), sl(a, 2), it(b, 2)]);
            }
        }
        v.push(vec![one("f32"), one("SD"), one("f32"), sl("SD", 2)]);
    }
    v
}

fn big_scripts(l: Layout) -> Vec<Vec<Op>> {
    let ts = types(l);
    let g = |n: &str| ts.iter().find(|t| t.name == n);
    let mut v = Vec::new();
    for n in ["std140::DynamicUniform<f32>", "Blob<128,33>", "Blob<512,2>", "SD"] {
        if let Some(t) = g(n) {
            let f = g("f32").unwrap();
            v.push(vec![Op::new(f, How::One, 1), Op::new(t, How::One, 1), Op::new(f, How::One, 1), Op::new(t, How::Slice, 2)]);
        }
    }
    v
}

fn answers(len: usize, kinds: &[ErrorKind]) -> Vec<Ans> {
    let mut v = vec![Ans::Interrupted, Ans::Zero];
    for k in kinds {
        v.push(Ans::Err(*k));
    }
    let mut ks: Vec<usize> = [1, len / 2, len.saturating_sub(1)].into_iter().filter(|k| *k > 0 && *k < len).collect();
    ks.sort();
    ks.dedup();
    v.extend(ks.into_iter().map(Ans::Short));
    v
}

/// What to do after a failed operation (the sink is truncated to `len()`).
#[derive(Clone, Copy, PartialEq, Debug)]
enum After {
    Stop,
    Retry,
    Skip,
}

fn show(h: &[Op], script: &[(usize, Ans)], after: After) -> String {
    let hn = h.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ");
    let sc = script.iter().map(|(i, a)| format!("call {i}: {a:?}")).collect::<Vec<_>>().join(", ");
    format!("{hn} | sink: {sc} | after a failure: {after:?}")
}

/// The sink apart from its script.
#[derive(Clone, Copy, Default, Debug)]
struct Env {
    /// total capacity
    cap: Option<usize>,
    /// most bytes accepted per call
    max: Option<usize>,
    /// interruptions before every other answer
    intr: usize,
    /// true vectored writes
    vectored: bool,
}

/// One execution.  Returns the buffer lengths offered at every call.
fn exec(l: Layout, h: &[Op], script: &[(usize, Ans)], after: After, env: Env, r: &mut Report) -> Vec<usize> {
    r.add("evaluations", 1);
    let sink = Sink::with_script(script);
    let cap = env.cap;
    {
        let mut s = sink.0.borrow_mut();
        s.cap = cap;
        s.max = env.max;
        s.intr = env.intr;
        s.vectored = env.vectored;
    }
    let mut w = LW::new(l, sink.clone());
    let mut pos = 0; // bytes delivered and acknowledged
    let mut failures = 0u64;
    let mut i = 0;
    while i < h.len() {
        let op = &h[i];
        let vals = op.vals(i);
        let calls0 = sink.0.borrow().calls.len();
        let res = guarded(|| (op.t.f.write)(&mut w, op.how, &vals));
        let len = w.len();
        let got = sink.tail(pos);
        let cap_now = sink.0.borrow().cap;
        let fail = |r: &mut Report, m: String| {
            let s = show(h, script, after);
            let mut c = cap.map(|c| format!(" (sink of {c} bytes)")).unwrap_or_default();
            if env.max.is_some() || env.intr > 0 || env.vectored {
                c.push_str(&format!(" {env:?}"));
            }
            r.violation(&format!("[{}] {s}{c}: operation {i}: {m}", l.name()), &format!("{} {s}{c}", l.name()), "");
        };
        let exp = expected(l, op, pos, &vals);
        let res = match res {
            Ok(x) => x,
            Err(m) => {
                fail(r, m);
                return vec![];
            }
        };
        // the answers this operation met that are failures
        let calls1 = sink.0.borrow().calls.len();
        let met: Vec<Ans> =
            script.iter().filter(|(c, _)| (calls0..calls1).contains(c)).map(|x| x.1).collect();
        let fatal = met.iter().find_map(|a| match a {
            Ans::Zero => Some(ErrorKind::WriteZero),
            Ans::Err(k) => Some(*k),
            _ => None,
        });
        match res {
            Ok(ret) => {
                if let Some(k) = fatal {
                    fail(r, format!("the sink failed with {k:?} but the operation succeeded"));
                    return vec![];
                }
                match exp.iter().find(|e| e.ret == ret && e.emitted == got) {
                    Some(e) if len == pos + e.emitted.len() => {}
                    Some(e) => {
                        fail(r, format!("length {len} after {} bytes", pos + e.emitted.len()));
                        return vec![];
                    }
                    None => {
                        fail(r, format!("emitted {} (returned {ret}), expected {}", hex(&got), hex(&exp[0].emitted)));
                        return vec![];
                    }
                }
                pos = len;
                i += 1;
            }
            Err(e) => {
                failures += 1;
                let full = cap_now.is_some_and(|c| sink.len() >= c);
                let want = fatal.or(if full { Some(ErrorKind::WriteZero) } else { None });
                match want {
                    None => {
                        fail(r, format!("failed with {:?} although the sink did not fail", e.kind()));
                        return vec![];
                    }
                    Some(k) if k != e.kind() => {
                        fail(r, format!("failed with {:?}, the sink failed with {k:?}", e.kind()));
                        return vec![];
                    }
                    _ => {}
                }
                let delivered = pos + got.len();
                let pre: Vec<&Out> = exp.iter().filter(|x| x.emitted.len() >= got.len() && x.emitted[..got.len()] == got[..]).collect();
                if pre.is_empty() {
                    fail(r, format!("delivered {}, not a prefix of {}", hex(&got), hex(&exp[0].emitted)));
                    return vec![];
                }
                if len > delivered {
                    fail(r, format!("length {len} but only {delivered} bytes delivered"));
                    return vec![];
                }
                if len < pos {
                    fail(r, format!("length {len} went back behind {pos}"));
                    return vec![];
                }
                if pre.iter().all(|x| x.ranges.iter().any(|(s, e)| *s < len && len < *e)) {
                    fail(r, format!("length {len} is inside a value ({:?}); {delivered} bytes delivered", pre[0].ranges));
                    return vec![];
                }
                match after {
                    After::Stop => break,
                    _ => {
                        // what a caller does to recover
                        let mut s = sink.0.borrow_mut();
                        s.data.truncate(len);
                        s.cap = None;
                        pos = len;
                        if after == After::Skip {
                            i += 1;
                        }
                        if failures > 4 {
                            break;
                        }
                    }
                }
            }
        }
    }
    let s = sink.0.borrow();
    if failures > 0 {
        r.add("executions_with_failure", 1);
    }
    if s.consumed == script.len() && !script.is_empty() {
        r.add("distinct_nontrivial", 1);
    }
    if s.consumed < script.len() {
        r.add("unreached_deviations", 1);
    }
    s.calls.clone()
}

/// Depth-first over deviations: `bound` more after `script`.
fn explore(l: Layout, h: &[Op], script: &mut Vec<(usize, Ans)>, bound: usize, after: After, kinds: &[ErrorKind], r: &mut Report) {
    let calls = exec(l, h, script, after, Env::default(), r);
    if r.violations > 10 {
        return;
    }
    if bound == 0 {
        return;
    }
    let from = script.last().map(|x| x.0 + 1).unwrap_or(0);
    for i in from..calls.len() {
        for a in answers(calls[i], kinds) {
            script.push((i, a));
            explore(l, h, script, bound - 1, after, kinds, r);
            script.pop();
            if r.violations > 10 {
                return;
            }
        }
    }
}

/// A batch without an end stops when the sink fails.
fn endless(l: Layout, r: &mut Report) {
    const MANY: usize = 100_000;
    fn cases<T>(r: &mut Report, l: Layout, name: &str, mk: impl Fn(usize) -> T, write: impl Fn(&mut LW, usize, &mut dyn Iterator<Item = T>) -> std::io::Result<usize>) {
        for pre in 0..5usize {
            let fails: Vec<(Option<usize>, Vec<(usize, Ans)>, ErrorKind)> = (4 * pre..4 * pre + 100)
                .map(|c| (Some(c), vec![], ErrorKind::WriteZero))
                .chain((1..60).flat_map(|c| {
                    [(None, vec![(pre + c, Ans::Err(ErrorKind::BrokenPipe))], ErrorKind::BrokenPipe), (None, vec![(pre + c, Ans::Zero)], ErrorKind::WriteZero)]
                }))
                .collect();
            for (cap, script, kind) in fails {
                r.add("endless_batches", 1);
                let sink = Sink::with_script(&script);
                sink.0.borrow_mut().cap = cap;
                let mut w = LW::new(l, sink.clone());
                let mut n = 0;
                let res = guarded(|| {
                    let mut it = (0..).map(|i| {
                        n += 1;
                        if n > MANY {
                            panic!("the batch goes on after the sink has failed");
                        }
                        mk(i)
                    });
                    write(&mut w, pre, &mut it)
                });
                let bad = match res {
                    Ok(Err(e)) if e.kind() == kind => {
                        if w.len() > sink.len() {
                            Some(format!("length {} but {} bytes delivered", w.len(), sink.len()))
                        } else {
                            None
                        }
                    }
                    Ok(x) => Some(format!("{:?} instead of {kind:?}", x.map_err(|e| e.kind()))),
                    Err(m) => Some(m),
                };
                if let Some(m) = bad {
                    let id = format!("{} unbounded iterator of {name} after {pre} words, sink capacity {cap:?} {script:?}", l.name());
                    r.violation(&format!("{id}: {m}"), &id, "");
                    return;
                }
            }
        }
    }
    macro_rules! all {
        ($r:ident, $arm:ident, $($name:expr, $mk:expr);*) => {{$(
            cases($r, l, $name, $mk, |w, pre, it| {
                let LW::$arm(w) = w else { unreachable!() };
                for i in 0..pre {
                    w.write(&(i as u32))?;
                }
                w.write_iter(it)
            });
        )*}};
    }
    match l {
        Layout::Std140 => all!(r, A, "float", |i| i as f32; "vec3", |i| mint::Vector3 { x: i as f32, y: 1.0, z: 2.0 }; "dvec3", |i| mint::Vector3 { x: i as f64, y: 1.0, z: 2.0 }),
        Layout::Std430 => all!(r, B, "float", |i| i as f32; "vec3", |i| mint::Vector3 { x: i as f32, y: 1.0, z: 2.0 }; "dvec3", |i| mint::Vector3 { x: i as f64, y: 1.0, z: 2.0 }),
    }
}

/// Every stable kind but `Interrupted`.
fn all_kinds() -> Vec<ErrorKind> {
    use ErrorKind::*;
    vec![
        WouldBlock, Other, WriteZero, UnexpectedEof, BrokenPipe, TimedOut, OutOfMemory, NotFound, PermissionDenied, ConnectionRefused,
        ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown,
        AlreadyExists, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput,
        InvalidData, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock,
        CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Unsupported,
    ]
}

pub fn run(thorough: bool) {
    let mut total = Report::new();
    // a single failure of every kind; further ones of fewer
    let all = all_kinds();
    let kinds: &[ErrorKind] = if thorough { &all[..6] } else { &all[..3] };
    let mut work = Vec::new();
    let mut persistent = Vec::new();
    let mut base = Report::new();
    for l in [Layout::Std140, Layout::Std430] {
        endless(l, &mut base);
        if base.violations > 0 {
            base.finish();
            return;
        }
        let mut sc = scripts(l, thorough);
        let nsc = sc.len();
        sc.extend(big_scripts(l));
        for (k, h) in sc.into_iter().enumerate() {
            if k == 0 || k + 1 == nsc {
                total.sample(format!(
                    "[{}] {}",
                    l.name(),
                    show(&h, &[(1, Ans::Interrupted), (3, Ans::Short(1))], After::Retry)
                ));
            }
            for after in [After::Stop, After::Retry, After::Skip] {
                // no deviations, twice: the harness owns every choice
                let calls = exec(l, &h, &[], after, Env::default(), &mut base);
                if base.violations > 0 {
                    base.finish();
                    return;
                }
                if calls != exec(l, &h, &[], after, Env::default(), &mut base) {
                    base.violation(&format!("[{}] {}: two fault-free runs differ", l.name(), show(&h, &[], after)), "", "");
                }
                total.add("histories", 1);
                total.add("sink_calls", calls.len() as u64);
                let bound = match calls.len() {
                    0..=24 => 3,
                    25..=60 if thorough => 3,
                    25..=120 => 2,
                    _ => 1,
                };
                total.add(&format!("histories_with_{bound}_deviations"), 1);
                let n: usize = calls.iter().sum();
                for cap in 0..n {
                    exec(l, &h, &[], after, Env { cap: Some(cap), ..Env::default() }, &mut base);
                    base.add("sink_sizes", 1);
                }
                // sinks that never accept more than a few bytes, or are
                // interrupted many times in a row, throughout
                let most = h.iter().map(|o| o.t.ty.size(l)).max().unwrap_or(0);
                let few: &[usize] = &[1, 2, 3, 5, 7, 8, 11, 12, 13, 15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 257, 511, 513];
                for max in few.iter().map(|m| Some(*m)).filter(|m| m.unwrap() <= most.max(17)).chain([None]) {
                    for intr in [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 1025] {
                        if n > 300 && intr > 10 && !(max.is_none() && thorough) {
                            continue;
                        }
                        persistent.push((l, h.clone(), after, Env { cap: None, max, intr, vectored: false }));
                        persistent.push((l, h.clone(), after, Env { cap: None, max, intr, vectored: true }));
                        if intr <= 1 {
                            for cap in 0..n.min(if thorough { 4000 } else { 300 }) {
                                persistent.push((l, h.clone(), after, Env { cap: Some(cap), max, intr, vectored: intr == 1 }));
                            }
                        }
                    }
                }
                for i in 0..calls.len() {
                    work.push((l, h.clone(), after, bound, i, calls[i]));
                }
            }
        }
    }
    let r = parallel(work, |(l, h, after, bound, i, len), r| {
        let kinds: &[ErrorKind] = if *bound >= 3 { &kinds[..1] } else { kinds };
        for k in &all {
            exec(*l, h, &[(*i, Ans::Err(*k))], *after, Env::default(), r);
            if *len > 1 {
                exec(*l, h, &[(*i, Ans::Short(1)), (*i + 1, Ans::Err(*k))], *after, Env::default(), r);
            }
        }
        for a in answers(*len, kinds) {
            explore(*l, h, &mut vec![(*i, a)], *bound - 1, *after, kinds, r);
        }
    });
    let p = parallel(persistent, |(l, h, after, env), r| {
        r.add("persistent_sink_behaviours", 1);
        exec(*l, h, &[], *after, *env, r);
    });
    for (k, n) in p.counts {
        total.add(&k, n);
    }
    total.violations += p.violations;
    for (k, n) in base.counts {
        total.add(&k, n);
    }
    total.violations += base.violations;
    for (k, n) in r.counts {
        total.add(&k, n);
    }
    total.violations += r.violations;
    total.finish();
}
