//! Exhaustive exploration of writer / sizer histories on the real code.

use crate::eng::*;
use crate::*;
use mcmodel::report::{hex, Report};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::Mutex;

pub struct Run<'a> {
    pub l: Layout,
    pub r: &'a mut Report,
    pub outcomes: HashSet<(usize, usize)>,
}

fn hist_name(h: &[Op]) -> String {
    h.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ")
}

fn merge(into: &Mutex<Report>, r: Report) {
    let mut g = into.lock().unwrap();
    for (k, n) in r.counts {
        *g.counts.entry(k).or_default() += n;
    }
    g.violations += r.violations;
    for s in r.samples {
        g.sample(s);
    }
    for (k, (n, w)) in r.known {
        let e = g.known.entry(k).or_insert((0, w));
        e.0 += n;
    }
}

/// Run `f` on every chunk of work in parallel, merging reports.
pub fn parallel<T: Send + Sync>(work: Vec<T>, f: impl Fn(&T, &mut Report) + Sync) -> Report {
    let total = Mutex::new(Report::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| {
                let mut r = Report::new();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= work.len() {
                        break;
                    }
                    f(&work[i], &mut r);
                    if r.violations > 50 {
                        break;
                    }
                }
                merge(&total, r);
            });
        }
    });
    total.into_inner().unwrap()
}

/// Executes one history on a fresh real writer, checking after every
/// operation.  `from` skips checking of an already verified prefix.
/// Returns the final length, or None after a violation.
pub fn run_history(l: Layout, h: &[Op], r: &mut Report, from: usize) -> Option<usize> {
    let sink = Sink::default();
    let mut w = LW::new(l, sink.clone());
    let mut pos = 0;
    if w.len() != 0 {
        r.violation(&format!("[{}] a new writer has length {}", l.name(), w.len()), "", "");
        return None;
    }
    for (i, op) in h.iter().enumerate() {
        let vals = op.vals(i);
        let res = guarded(|| (op.t.f.write)(&mut w, op.how, &vals));
        let len = w.len();
        let got = sink.tail(pos.min(sink.len()));
        r.add("operations", 1);
        if i < from {
            pos = len;
            continue;
        }
        let fail = |r: &mut Report, m: String| {
            let hn = hist_name(&h[..=i]);
            r.violation(&format!("[{}] {hn}: {m}", l.name()), &format!("{} {hn}", l.name()), "");
        };
        let ret = match res {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                fail(r, format!("returned error {e}"));
                return None;
            }
            Err(m) => {
                fail(r, m);
                return None;
            }
        };
        let exp = expected(l, op, pos, &vals);
        let m = exp.iter().find(|e| e.ret == ret && e.emitted == got);
        match m {
            None => {
                let e = &exp[0];
                let why = if e.emitted == got && ret != e.ret {
                    format!("returned offset {ret}, the value is at {}", e.ret)
                } else {
                    format!("from {pos} emitted {} (returned {ret}), expected {} (at {})", hex(&got), hex(&e.emitted), e.ret)
                };
                fail(r, why);
                return None;
            }
            Some(e) => {
                if len != pos + e.emitted.len() {
                    fail(r, format!("len() is {len}, {} bytes were emitted", pos + e.emitted.len()));
                    return None;
                }
            }
        }
        pos = len;
    }
    drop(w);
    if sink.len() != pos {
        let hn = hist_name(h);
        r.violation(&format!("[{}] {hn}: {} bytes emitted once the writer is gone, its length was {pos}", l.name(), sink.len()), &format!("{} {hn}", l.name()), "");
        return None;
    }
    Some(pos)
}

/// Sizer against writer for one sequence of types.
pub fn run_sizes(l: Layout, h: &[Op], r: &mut Report) -> bool {
    let sink = Sink::default();
    let mut w = LW::new(l, sink.clone());
    let mut s = LS::new(l);
    for (i, op) in h.iter().enumerate() {
        let vals = op.vals(i);
        r.add("operations", 1);
        let res = guarded(|| {
            let before = w.len();
            let ret = (op.t.f.write)(&mut w, op.how, &vals);
            let mut first = None;
            for _ in 0..op.n {
                let a = (op.t.f.add)(&mut s);
                first.get_or_insert(a);
            }
            (before, ret, first)
        });
        let mut fail = |m: String| {
            let hn = hist_name(&h[..=i]);
            r.violation(&format!("[{}] {hn}: {m}", l.name()), &format!("{} {hn}", l.name()), "");
            false
        };
        match res {
            Err(m) => return fail(m),
            Ok((_, Err(e), _)) => return fail(format!("write error {e}")),
            Ok((before, Ok(ret), first)) => {
                let f = first.unwrap_or(before);
                if f != ret {
                    return fail(format!("sizer places it at {f}, writer at {ret}"));
                }
                if s.len() != w.len() || w.len() != sink.len() {
                    return fail(format!("sizer total {}, writer length {}, bytes emitted {}", s.len(), w.len(), sink.len()));
                }
            }
        }
    }
    true
}

fn subset(ts: &[TyDef], names: &[&str]) -> Vec<TyDef> {
    names
        .iter()
        .filter_map(|n| {
            let t = ts.iter().find(|t| t.name == *n);
            t.cloned()
        })
        .collect()
}

fn classes(ts: &[TyDef], l: Layout) -> Vec<TyDef> {
    let mut seen = HashSet::new();
    ts.iter().filter(|t| seen.insert((t.ty.align(l), t.ty.size(l)))).cloned().collect()
}

pub fn hows(l: Layout, sizes: &[usize], hints: &[Hint]) -> Vec<(How, usize)> {
    let mut v = vec![(How::One, 1), (How::Direct, 1)];
    for &n in sizes {
        v.push((How::Slice, n));
        if l == Layout::Std140 {
            v.push((How::WriteSlice, n));
        }
        for &h in hints {
            v.push((How::Iter(h), n));
        }
    }
    v
}

const HINTS: &[Hint] = &[Hint::Exact, Hint::Unknown, Hint::Loose, Hint::Unfused, Hint::NoneFirst];

/// Breadth-first search over writer states (offset modulo `m`), every
/// operation from every reachable state, each transition executed on the real
/// writer by replaying the witness history.
fn bfs(l: Layout, steps: &[Op], probes: &[Op], m: usize) -> Report {
    // model-level search using the packed outcome
    let mut wit: HashMap<usize, Vec<usize>> = HashMap::from([(0, vec![])]);
    let mut q = VecDeque::from([0usize]);
    let mut trans = 0u64;
    while let Some(s) = q.pop_front() {
        for (i, op) in steps.iter().enumerate() {
            trans += 1;
            let vals = op.vals(0);
            let n = (s + packed(l, &op.t.ty, s, &vals).emitted.len()) % m;
            if !wit.contains_key(&n) {
                let mut w = wit[&s].clone();
                w.push(i);
                wit.insert(n, w);
                q.push_back(n);
            }
        }
    }
    let mut work: Vec<(usize, Vec<usize>)> = wit.into_iter().collect();
    work.sort();
    let states = work.len() as u64;
    let mut rep = parallel(work, |(s, w), r| {
        let mut h: Vec<Op> = w.iter().map(|i| steps[*i].clone()).collect();
        // the witness really reaches the state
        match run_history(l, &h, r, 0) {
            Some(p) if p % m == *s => {}
            Some(p) => {
                r.violation(
                    &format!("[{}] {}: length {p}, expected {s} modulo {m}", l.name(), hist_name(&h)),
                    &hist_name(&h),
                    "",
                );
                return;
            }
            None => return,
        }
        let k = h.len();
        for p in probes {
            h.truncate(k);
            h.push(p.clone());
            r.add("bfs_transitions_executed", 1);
            r.add("histories", 1);
            if run_history(l, &h, r, k).is_none() && r.violations > 20 {
                return;
            }
        }
    });
    rep.add("states", states);
    rep.add("transitions", trans);
    rep
}

/// All histories over `ops` of length exactly `depth` (shorter ones are their
/// prefixes).
fn product(l: Layout, ops: &[Op], depth: usize, f: impl Fn(Layout, &[Op], &mut Report) -> bool + Sync) -> Report {
    let mut firsts: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth.min(2) {
        firsts = firsts
            .into_iter()
            .flat_map(|p| {
                (0..ops.len()).map(move |i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                })
            })
            .collect();
    }
    parallel(firsts, |p, r| {
        let rest = depth - p.len();
        let mut idx = vec![0usize; rest];
        let mut h: Vec<Op> = p.iter().map(|i| ops[*i].clone()).collect();
        for _ in 0..rest {
            h.push(ops[0].clone());
        }
        loop {
            r.add("histories", 1);
            if !f(l, &h, r) && r.violations > 20 {
                return;
            }
            let mut k = rest;
            loop {
                if k == 0 {
                    return;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < ops.len() {
                    h[p.len() + k] = ops[idx[k]].clone();
                    break;
                }
                idx[k] = 0;
                h[p.len() + k] = ops[0].clone();
            }
        }
    })
}

fn absorb(r: &mut Report, prefix: &str, o: Report) {
    for (k, n) in o.counts {
        r.add(&format!("{prefix}{k}"), n);
    }
    r.violations += o.violations;
    for s in o.samples {
        r.sample(s);
    }
    for (k, (n, w)) in o.known {
        let e = r.known.entry(k).or_insert((0, w));
        e.0 += n;
    }
}

fn ones(ts: &[TyDef]) -> Vec<Op> {
    ts.iter().map(|t| Op::new(t, How::One, 1)).collect()
}

const LAYOUTS: [Layout; 2] = [Layout::Std140, Layout::Std430];

/// C07
pub fn placement(thorough: bool) {
    let mut rep = Report::new();
    for l in LAYOUTS {
        let mut ts = types(l);
        ts.extend(std_types(l));
        let cls = classes(&ts, l);
        let mut all = Vec::new();
        for t in &ts {
            all.push(Op::new(t, How::One, 1));
            all.push(Op::new(t, How::Direct, 1));
        }
        rep.add("operation_alphabet", all.len() as u64);
        absorb(&mut rep, "", bfs(l, &ones(&cls), &all, if thorough { 4096 } else { 1024 }));
        let run = |l: Layout, h: &[Op], r: &mut Report| run_history(l, h, r, 0).is_some();
        // all pairs over the full alphabet
        absorb(&mut rep, "", product(l, &all, 2, run));
        // whatever the values are
        let mut filled: Vec<Op> = all.iter().flat_map(|o| [o.clone().with(Fill::Zeros), o.clone().with(Fill::Ones)]).collect();
        filled.extend(ones(&cls));
        absorb(&mut rep, "", product(l, &filled, 2, run));
        let few: Vec<Op> = ones(&subset(&ts, &["f32", "Vector3<f32>", "SB", "Vector3<f64>", "Blob<1,0>"]))
            .into_iter()
            .flat_map(|o| [o.clone(), o.clone().with(Fill::Zeros), o.with(Fill::Ones)])
            .collect();
        absorb(&mut rep, "", product(l, &few, if thorough { 5 } else { 4 }, run));
        // large values and gaps
        let mut wide = ones(&subset(&ts, &["f32", "Vector3<f32>", "Vector3<f64>"]));
        wide.extend(ones(&wide_types(l)));
        rep.sample(format!("[{}] large values: {}", l.name(), hist_name(&wide)));
        absorb(&mut rep, "wide.", product(l, &wide, if thorough { 4 } else { 3 }, run));
        // class alphabet, deeper
        let o = ones(&cls);
        rep.sample(format!("[{}] class alphabet: {}", l.name(), hist_name(&o)));
        absorb(&mut rep, "", product(l, &o, if thorough { 5 } else { 4 }, run));
        let small = ones(&subset(
            &ts,
            &["f32", "bool", "Vector2<f32>", "Vector3<f32>", "Vector3<f64>", "SB", "SE", "Blob<1,0>", "std140::DynamicUniform<f32>"],
        ));
        rep.sample(format!("[{}] deep alphabet: {}", l.name(), hist_name(&small)));
        absorb(&mut rep, "", product(l, &small, if thorough { 8 } else { 6 }, run));
        // mixed with batches
        let mut mix = Vec::new();
        for t in subset(&ts, &["f32", "Vector3<f32>", "SB", "Vector3<f64>"]) {
            mix.push(Op::new(&t, How::One, 1));
            mix.push(Op::new(&t, How::Slice, 2));
            mix.push(Op::new(&t, How::Iter(Hint::Exact), 3));
        }
        let f = subset(&ts, &["f32"]);
        mix.push(Op::new(&f[0], How::Slice, 0));
        absorb(&mut rep, "", product(l, &mix, if thorough { 6 } else { 5 }, run));
        long(l, &ts, &mut rep, thorough);
        #[cfg(target_pointer_width = "64")]
        past_4gib(l, &mut rep);
    }
    rep.finish();
}

/// Long histories: repetition of every operation far past 64 KiB, and every
/// alternation of two classes.
fn long(l: Layout, ts: &[TyDef], rep: &mut Report, thorough: bool) {
    let f = ts.iter().find(|t| t.name == "f32").unwrap().clone();
    let cls = classes(ts, l);
    let n = if thorough { 4000 } else { 300 };
    let r = parallel(cls.clone(), |t, r| {
        let a = Op::new(t, How::One, 1);
        let b = Op::new(&f, How::One, 1);
        let reps = n.max(70_000 / (t.ty.size(l) + 4)).min(20_000);
        let h: Vec<Op> = (0..reps).map(|i| if i % 3 == 2 { b.clone() } else { a.clone() }).collect();
        r.add("histories", 1);
        run_history(l, &h, r, 0);
    });
    absorb(rep, "long.", r);
}

/// Types larger, or more aligned, than any that GLSL has built in.
fn wide_types(l: Layout) -> Vec<TyDef> {
    macro_rules! w {
        ($($d:literal $t:ty;)*) => { vec![$( TyDef {
            name: stringify!($t).replace(' ', ""),
            ty: Ty::decode($d),
            f: if l == Layout::Std140 { e140::<$t>() } else { e430::<$t>() },
        } ),*] };
    }
    w! { "#16x1028" Blob<16, 257>; "#4x4100" Blob<4, 1025>; "#4096x4" Blob<4096, 1>; "#8192x8200" Blob<8192, 2050>; "#65536x4" Blob<65536, 1>; "#4x65540" Blob<4, 16385>; "#32x131104" Blob<32, 32776>; }
}

fn full_alphabet(l: Layout, ts: &[TyDef], sizes: &[usize]) -> Vec<Op> {
    let mut v = Vec::new();
    for t in ts {
        for (h, n) in hows(l, sizes, HINTS) {
            v.push(Op::new(t, h, n));
        }
    }
    v
}

/// C09
pub fn batches(thorough: bool) {
    let mut rep = Report::new();
    for l in LAYOUTS {
        let mut ts = types(l);
        ts.extend(std_types(l));
        let cls = classes(&ts, l);
        let sizes: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33] } else { &[0, 1, 2, 3, 4, 7, 17] };
        let all: Vec<Op> = full_alphabet(l, &ts, sizes).into_iter().filter(|o| o.batch()).collect();
        rep.add("operation_alphabet", all.len() as u64);
        // every batch from every reachable offset residue
        absorb(&mut rep, "", bfs(l, &ones(&cls), &all, if thorough { 1024 } else { 256 }));
        // histories mixing single writes and batches, so that every batch is
        // also followed by something
        let run = |l: Layout, h: &[Op], r: &mut Report| run_history(l, h, r, 0).is_some();
        let names = ["f32", "Vector2<f32>", "Vector3<f32>", "Vector3<f64>", "SB", "SE", "Blob<1,0>", "Blob<64,1>", "std140::DynamicUniform<f32>", "std140::DynamicUniform<SB>"];
        let few = subset(&ts, &names);
        let mut mix = ones(&few);
        for t in &few {
            for n in [0, 1, 2, 3] {
                mix.push(Op::new(t, How::Slice, n));
                mix.push(Op::new(t, How::Iter(Hint::Unknown), n));
            }
        }
        rep.sample(format!("[{}] batch alphabet: {}", l.name(), hist_name(&mix[..mix.len().min(20)])));
        absorb(&mut rep, "", product(l, &mix, if thorough { 4 } else { 3 }, run));
        let few = subset(&ts, &names[..5]);
        let mut mix = ones(&few[..3]);
        for t in &few {
            mix.push(Op::new(t, How::Slice, 2));
            mix.push(Op::new(t, How::Slice, 0));
            mix.push(Op::new(t, How::Iter(Hint::Exact), 3));
        }
        absorb(&mut rep, "", product(l, &mix, if thorough { 6 } else { 5 }, run));
        // long batches
        let r = parallel(cls.clone(), |t, r| {
            for how in [How::Slice, How::Iter(Hint::Exact), How::Iter(Hint::Unknown)] {
                for n in [64, 100, 255, 256, 257, 1000, 4096, 5000, 65535, 65536, 65537, 70000] {
                    if n > 300 && t.ty.size(l) > 64 && (!thorough || n > 5000) {
                        continue;
                    }
                    if n > 5000 && (how != How::Slice || t.ty.align(l) < 8) && !thorough {
                        continue;
                    }
                    let f = ts.iter().find(|t| t.name == "f32").unwrap();
                    let h = vec![Op::new(f, How::One, 1), Op::new(t, how, n), Op::new(f, How::One, 1)];
                    r.add("histories", 1);
                    run_history(l, &h, r, 0);
                }
            }
        });
        absorb(&mut rep, "long.", r);
        user_batches(l, &mut rep);
    }
    rep.finish();
}

// ---- user-defined writable values: slices and iterators of them ----

#[derive(Clone)]
pub struct User {
    /// parts written in turn: (kind, payload)
    pub parts: Vec<u8>,
    pub salt: usize,
}
macro_rules! user {
    ($tr:ident, $m:ident, $f:ident) => {
        impl crevice::$m::$tr for User {
            fn $f<W: std::io::Write>(&self, w: &mut crevice::$m::Writer<W>) -> std::io::Result<usize> {
                let mut at = None;
                for (i, p) in self.parts.iter().enumerate() {
                    let x = (self.salt * 16 + i) as u32 + 1;
                    let o = match p {
                        0 => w.write(&x)?,
                        1 => w.write(&mint::Vector3 { x: x as f32, y: 1.5, z: 2.5 })?,
                        2 => w.write(&[x as f64, 3.25, 4.0][..])?,
                        3 => w.write_iter(vec![mint::Vector2 { x: x as i32, y: -1 }; 2])?,
                        4 => w.write(&Blob::<64, 1>([x]))?,
                        _ => w.write(&User { parts: vec![0, 1], salt: self.salt + 3 })?,
                    };
                    at.get_or_insert(o);
                }
                Ok(at.unwrap_or(w.len()))
            }
        }
    };
}
user!(WriteStd140, std140, write_std140);
user!(WriteStd430, std430, write_std430);

fn user_seqs(depth: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut cur = out.clone();
    for _ in 0..depth {
        cur = cur
            .iter()
            .flat_map(|p| {
                (0..6u8).map(move |k| {
                    let mut q = p.clone();
                    q.push(k);
                    q
                })
            })
            .collect();
        out.extend(cur.iter().cloned());
    }
    out
}

macro_rules! on_layout {
    ($l:expr, $m:ident, $std:ident, $tr:ident, $sz:ident, $body:block) => {
        match $l {
            Layout::Std140 => {
                #[allow(unused_imports)]
                use crevice::std140 as $m;
                #[allow(unused_imports)]
                use crevice::std140::WriteStd140 as $tr;
                #[allow(unused_macros)]
                macro_rules! $sz { ($e:expr) => { crevice::std140::WriteStd140::std140_size($e) } }
                $body
            }
            Layout::Std430 => {
                #[allow(unused_imports)]
                use crevice::std430 as $m;
                #[allow(unused_imports)]
                use crevice::std430::WriteStd430 as $tr;
                #[allow(unused_macros)]
                macro_rules! $sz { ($e:expr) => { crevice::std430::WriteStd430::std430_size($e) } }
                $body
            }
        }
    };
}

/// Batches of user-defined values equal writing them one at a time.
fn user_batches(l: Layout, rep: &mut Report) {
    let seqs = user_seqs(2);
    let r = parallel(seqs.clone(), |a, r| {
        for b in seqs.iter().step_by(3) {
            for pre in 0..6usize {
                let us: Vec<User> =
                    [a, b, a, a, b].iter().enumerate().map(|(i, p)| User { parts: p.to_vec(), salt: i }).collect();
                for n in 0..=5 {
                    r.add("histories", 1);
                    on_layout!(l, m, s, W, size, {
                        let mk = |how: usize| -> (usize, Vec<u8>, usize) {
                            let mut buf = Vec::new();
                            let mut w = m::Writer::new(&mut buf);
                            w.write(&vec![7u32; pre][..]).unwrap();
                            let base = w.len();
                            let ret = match how {
                                0 => {
                                    let mut first = None;
                                    for u in &us[..n] {
                                        let o = w.write(u).unwrap();
                                        first.get_or_insert(o);
                                    }
                                    first.unwrap_or(base)
                                }
                                1 => w.write(&us[..n]).unwrap(),
                                2 => w.write_iter(us[..n].to_vec()).unwrap(),
                                _ => w.write_iter(us[..n].iter().cloned().filter(|_| true)).unwrap(),
                            };
                            let len = w.len();
                            (ret, buf, len)
                        };
                        let want = mk(0);
                        for how in 1..4 {
                            r.add("operations", 1);
                            match guarded(|| mk(how)) {
                                Ok(got) if got == want => {}
                                Ok(got) => r.violation(
                                    &format!(
                                        "[{}] batch of user-defined values {a:?} {b:?} x{n} after {pre} words (way {how}): offset {} len {} bytes {} instead of offset {} len {} bytes {}",
                                        l.name(), got.0, got.2, hex(&got.1), want.0, want.2, hex(&want.1)
                                    ),
                                    &format!("{} user {a:?} {b:?} {n} {pre}", l.name()),
                                    "",
                                ),
                                Err(m) => r.violation(&format!("[{}] user batch {m}", l.name()), "", ""),
                            }
                        }
                    });
                }
            }
        }
    });
    absorb(rep, "user.", r);
}

/// C08
pub fn sizes(thorough: bool) {
    let mut rep = Report::new();
    for l in LAYOUTS {
        let mut ts = types(l);
        ts.extend(std_types(l));
        let cls = classes(&ts, l);
        // histories of types
        let all = ones(&ts);
        absorb(&mut rep, "", product(l, &all, 2, run_sizes));
        absorb(&mut rep, "", product(l, &ones(&cls), if thorough { 5 } else { 4 }, run_sizes));
        let small = ones(&subset(
            &ts,
            &["f32", "bool", "Vector2<f32>", "Vector3<f32>", "Vector3<f64>", "SB", "SE", "Blob<1,0>", "std140::DynamicUniform<f32>"],
        ));
        rep.sample(format!("[{}] alphabet: {}", l.name(), hist_name(&ones(&cls))));
        absorb(&mut rep, "", product(l, &small, if thorough { 8 } else { 6 }, run_sizes));
        // every type from every residue
        let mut wit: BTreeMap<usize, Vec<usize>> = BTreeMap::from([(0, vec![])]);
        let mut q = VecDeque::from([0usize]);
        let m = 1024;
        let steps = ones(&cls);
        let mut trans = 0;
        while let Some(s) = q.pop_front() {
            for (i, op) in steps.iter().enumerate() {
                trans += 1;
                let n = (mcmodel::round_up(s, op.t.ty.align(l)) + op.t.ty.size(l)) % m;
                if !wit.contains_key(&n) {
                    let mut w = wit[&s].clone();
                    w.push(i);
                    wit.insert(n, w);
                    q.push_back(n);
                }
            }
        }
        rep.add("states", wit.len() as u64);
        rep.add("transitions", trans);
        let work: Vec<Vec<usize>> = wit.into_values().collect();
        let o = parallel(work, |w, r| {
            for p in &all {
                let mut h: Vec<Op> = w.iter().map(|i| steps[*i].clone()).collect();
                h.push(p.clone());
                r.add("histories", 1);
                if !run_sizes(l, &h, r) {
                    return;
                }
            }
        });
        absorb(&mut rep, "", o);
        // size queries against a fresh writer
        let top = if thorough { 130 } else { 40 };
        let mut ts = ts;
        ts.extend(wide_types(l));
        let o = parallel(ts.clone(), |t, r| {
            let mut cases: Vec<Op> = vec![Op::new(t, How::One, 1), Op::new(t, How::Direct, 1)];
            for n in 0..top {
                cases.push(Op::new(t, How::Slice, n));
            }
            for n in [64, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 65537, 70000] {
                if t.ty.size(l) * n <= if thorough { 8 << 20 } else { 1 << 20 } && t.ty.align(l) * n <= 32 << 20 {
                    cases.push(Op::new(t, How::Slice, n));
                }
            }
            for op in cases {
                if op.n * t.ty.size(l) > 32 << 20 {
                    continue;
                }
                r.add("size_queries", 1);
                let vals = op.vals(0);
                let res = guarded(|| {
                    let sink = Sink::default();
                    let mut w = LW::new(l, sink.clone());
                    (t.f.write)(&mut w, op.how, &vals).map_err(|e| e.to_string())?;
                    let per = if op.batch() { (t.f.size_slice)(&vals) } else { (t.f.size_val)(&vals[0]) };
                    Ok::<_, String>((sink.len(), w.len(), per, (t.f.size_static)()))
                });
                let bad = match res {
                    Err(m) | Ok(Err(m)) => Some(m),
                    Ok(Ok((bytes, len, per, stat))) => {
                        if per != bytes || len != bytes {
                            Some(format!("size query says {per}, writer length {len}, bytes emitted {bytes}"))
                        } else if !op.batch() && stat != bytes {
                            Some(format!("static size {stat}, bytes emitted {bytes}"))
                        } else {
                            None
                        }
                    }
                };
                if let Some(m) = bad {
                    r.violation(&format!("[{}] {}: {m}", l.name(), op.name()), &op.name(), "");
                }
            }
        });
        absorb(&mut rep, "", o);
        // user-composed values, alone and in slices
        let seqs = user_seqs(if thorough { 5 } else { 3 });
        let o = parallel(seqs, |a, r| {
            // slices of equal elements, and of elements of several lengths
            let halves = a.split_at(a.len() / 2);
            let twice = [&a[..], &a[..]].concat();
            let back: Vec<u8> = a.iter().rev().copied().collect();
            let forms: [&[u8]; 5] = [&a, halves.0, &twice, &back, halves.1];
            let mut slices: Vec<Vec<&[u8]>> = (0..4).map(|n| vec![&a[..]; n]).collect();
            for first in 0..forms.len() {
                for step in 1..forms.len() {
                    slices.extend((2..=5).map(|n| (0..n).map(|i| forms[(first + i * step) % forms.len()]).collect()));
                    slices.push(vec![forms[first], forms[first], forms[first], forms[(first + step) % forms.len()]]);
                }
            }
            for parts in slices {
                let n = parts.len();
                r.add("size_queries", 1);
                let us: Vec<User> = parts.iter().enumerate().map(|(i, p)| User { parts: p.to_vec(), salt: i }).collect();
                on_layout!(l, m, s, W, size, {
                    let res = guarded(|| {
                        let mut buf = Vec::new();
                        let mut w = m::Writer::new(&mut buf);
                        let per = if n == 1 {
                            w.write(&us[0]).unwrap();
                            size!(&us[0])
                        } else {
                            w.write(&us[..]).unwrap();
                            size!(&us[..])
                        };
                        let len = w.len();
                        (per, len, buf.len())
                    });
                    match res {
                        Ok((a, b, c)) if a == b && b == c => {}
                        Ok((p, b, c)) => r.violation(
                            &format!("[{}] user-composed values {parts:?}: size query {p}, writer length {b}, bytes {c}", l.name()),
                            &format!("{} {parts:?}", l.name()),
                            "",
                        ),
                        Err(m) => r.violation(&format!("[{}] user-composed values {parts:?}: {m}", l.name()), "", ""),
                    }
                });
            }
        });
        absorb(&mut rep, "user.", o);
        #[cfg(target_pointer_width = "64")]
        big(l, &mut rep);
    }
    rep.finish();
}

/// Sizes past 4 GiB: the calculator alone (no value is ever built), and in the
/// thorough tier a writer over a counting sink.
#[cfg(target_pointer_width = "64")]
fn big(l: Layout, rep: &mut Report) {
    macro_rules! b {
        ($t:ty) => {
            (stringify!($t), if l == Layout::Std140 { e140::<$t>() } else { e430::<$t>() })
        };
    }
    type G = Blob<16, { 1 << 28 }>;
    type H = Blob<256, { (1 << 29) + 1 }>;
    let alpha = [
        (b!(f32), 4, 4usize),
        (b!(mint::Vector3<f32>), 16, 12),
        (b!(mint::Vector3<f64>), 32, 24),
        (b!(G), 16, 1 << 30),
        (b!(H), 256, (1 << 31) + 4),
    ];
    for code in 0..5usize.pow(6) {
        let mut s = LS::new(l);
        let mut pos = 0usize;
        let mut c = code;
        rep.add("large_histories", 1);
        for _ in 0..6 {
            let ((name, f), a, n) = &alpha[c % 5];
            c /= 5;
            let at = mcmodel::round_up(pos, *a);
            let got = (f.add)(&mut s);
            pos = at + n;
            if got != at || s.len() != pos {
                rep.violation(
                    &format!("[{}] sizer places {name} at {got} (total {}), expected {at} (total {pos})", l.name(), s.len()),
                    &format!("large history {code}"),
                    "",
                );
                return;
            }
        }
    }
    past_4gib(l, rep);
}

/// A sink that keeps nothing but counts.
#[derive(Default)]
struct Counter {
    bytes: u64,
    nonzero: u64,
}
impl std::io::Write for Counter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.bytes += b.len() as u64;
        if b.len() <= 4096 {
            self.nonzero += b.iter().filter(|x| **x != 0).count() as u64;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(target_pointer_width = "64")]
fn past_4gib(l: Layout, rep: &mut Report) {
    let ok = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || big_writer(l))
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("panicked".into()));
    match ok {
        Ok(n) => rep.add("writes_around_2gib_and_4gib", n),
        Err(m) => rep.violation(&format!("[{}] writing past 4 GiB: {m}", l.name()), "large writes", ""),
    }
}

/// Every boundary of 2 GiB and 4 GiB is crossed by single writes, slices and
/// iterators of every class around it.
#[cfg(target_pointer_width = "64")]
fn big_writer(l: Layout) -> Result<u64, String> {
    const B: usize = 64 << 20;
    type G = Blob<16, { B / 4 }>;
    let v: Box<G> = unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<G>()) as *mut G) };
    let mut n = 0;
    on_layout!(l, m, s, W, size, {
        let mut sink = Counter::default();
        let mut w = m::Writer::new(&mut sink);
        let mut z = m::Sizer::new();
        let mut pos = 0usize;
        let mut ones = 0u64;
        macro_rules! step {
            ($t:ty, $al:expr, $sz:expr, $k:expr, $nz:expr, $e:expr) => {{
                n += 1;
                let ret = $e.map_err(|e| e.to_string())?;
                let mut first = None;
                let mut placed = None;
                for _ in 0..$k {
                    let at = mcmodel::round_up(pos, $al);
                    first.get_or_insert(at);
                    pos = at + $sz;
                    let q = z.add::<$t>();
                    placed.get_or_insert(q);
                }
                ones += $nz;
                if first != Some(ret) || placed != first || w.len() != pos || z.len() != pos {
                    return Err(format!("a {} belongs at {first:?}: the writer says {ret} (length {}), the sizer {placed:?} (length {}), expected length {pos}", stringify!($t), w.len(), z.len()));
                }
            }};
        }
        while pos < (1 << 32) + 3 * B {
            step!(G, 16, B, 1, 0, w.write(&*v));
            let near = pos % (1 << 31);
            if near < 2 * B || near > (1 << 31) - 2 * B {
                let d = mint::Vector3 { x: f64::from_bits(u64::MAX), y: 0.0, z: 0.0 };
                let p = mint::Vector3 { x: f32::from_bits(u32::MAX), y: 0.0, z: 0.0 };
                step!(u32, 4, 4, 1, 4, w.write(&u32::MAX));
                step!(mint::Vector3<f64>, 32, 24, 1, 8, w.write(&d));
                step!(bool, 4, 4, 1, 1, w.write(&true));
                step!(mint::Vector3<f32>, 16, 12, 1, 4, w.write(&p));
                step!(u32, 4, 4, 3, 12, w.write_iter([u32::MAX; 3]));
                step!(mint::Vector3<f32>, 16, 12, 2, 8, w.write_iter([p, p]));
                step!(mint::Vector4<f32>, 16, 16, 2, 0, w.write(&[mint::Vector4 { x: 0f32, y: 0.0, z: 0.0, w: 0.0 }; 2][..]));
                step!(Blob<256, 1>, 256, 4, 1, 4, w.write(&Blob::<256, 1>([u32::MAX])));
                step!(f32, 4, 4, 1, 0, w.write(&0f32));
            }
        }
        drop(w);
        if sink.bytes != pos as u64 || sink.nonzero != ones {
            return Err(format!("{} bytes ({} of them non-zero) reached the sink, expected {pos} ({ones})", sink.bytes, sink.nonzero));
        }
    });
    Ok(n)
}

/// C13
pub fn dynamic(thorough: bool) {
    let l = Layout::Std140;
    let mut rep = Report::new();
    let ts = types(l);
    let dyns: Vec<TyDef> = ts.iter().filter(|t| matches!(t.ty, Ty::Dyn(_))).cloned().collect();
    // the wrapper against the bare type
    for d in &dyns {
        let Ty::Dyn(inner) = &d.ty else { unreachable!() };
        let bare = ts.iter().find(|t| &t.ty == &**inner).expect("bare type");
        wrapper(d, bare.f, &mut rep);
    }
    macro_rules! w {
        ($($d:literal: $t:ty),* $(,)?) => { $(
            wrapper(
                &TyDef {
                    name: format!("DynamicUniform<{}>", stringify!($t)),
                    ty: Ty::Dyn(Box::new(Ty::decode($d))),
                    f: e140::<crevice::std140::DynamicUniform<$t>>(),
                },
                e140::<$t>(),
                &mut rep,
            );
        )* };
    }
    use mint::*;
    use crate::eng::structs::*;
    w!("float": f32, "double": f64, "int": i32, "uint": u32, "bool": bool,
       "vec2": Vector2<f32>, "vec3": Vector3<f32>, "vec4": Vector4<f32>,
       "dvec2": Vector2<f64>, "dvec3": Vector3<f64>, "dvec4": Vector4<f64>,
       "ivec2": Vector2<i32>, "ivec3": Vector3<i32>, "ivec4": Vector4<i32>,
       "uvec2": Vector2<u32>, "uvec3": Vector3<u32>, "uvec4": Vector4<u32>,
       "bvec2": Vector2<bool>, "bvec3": Vector3<bool>, "bvec4": Vector4<bool>,
       "mat2": ColumnMatrix2<f32>, "mat3": ColumnMatrix3<f32>, "mat4": ColumnMatrix4<f32>,
       "dmat2": ColumnMatrix2<f64>, "dmat3": ColumnMatrix3<f64>, "dmat4": ColumnMatrix4<f64>,
       "SA{a:float}": SA, "SC{a:double,b:bool}": SC, "SE{a:uint,b:uint,c:uint}": SE, "SF{a:mat3,b:bool}": SF,
       "#1x4": Blob<1, 1>, "#2x4": Blob<2, 1>, "#4x12": Blob<4, 3>, "#8x8": Blob<8, 2>, "#16x4": Blob<16, 1>,
       "#32x4": Blob<32, 1>, "#64x4": Blob<64, 1>, "#128x132": Blob<128, 33>, "#256x4": Blob<256, 1>,
       "#512x8": Blob<512, 2>, "#1024x20": Blob<1024, 5>, "#2048x4": Blob<2048, 1>, "#4096x4": Blob<4096, 1>,
       "#65536x4": Blob<65536, 1>, "#1x0": Blob<1, 0>, "#4x260": Blob<4, 65>, "#4x1024": Blob<4, 256>);
    // histories
    let cls = classes(&ts, l);
    let mut probes = Vec::new();
    for d in &dyns {
        for (h, n) in hows(l, &[0, 1, 2, 3, 5], &[Hint::Exact, Hint::Unknown]) {
            probes.push(Op::new(d, h, n));
        }
    }
    rep.add("operation_alphabet", probes.len() as u64);
    absorb(&mut rep, "", bfs(l, &ones(&cls), &probes, if thorough { 4096 } else { 1024 }));
    let mut mix: Vec<Op> = Vec::new();
    for d in &dyns {
        mix.push(Op::new(d, How::One, 1));
        mix.push(Op::new(d, How::Slice, 2));
        mix.push(Op::new(d, How::Iter(Hint::Exact), 2));
    }
    mix.extend(ones(&subset(&ts, &["f32", "Vector3<f32>", "SB", "SDyn", "Blob<512,2>"])));
    rep.sample(hist_name(&mix));
    let run = |l: Layout, h: &[Op], r: &mut Report| {
        // every wrapped value starts at a multiple of 256
        run_history(l, h, r, 0).is_some()
    };
    absorb(&mut rep, "", product(l, &mix, if thorough { 4 } else { 3 }, run));
    let mix: Vec<Op> = mix.into_iter().filter(|o| !matches!(o.how, How::Slice)).collect();
    absorb(&mut rep, "sizes.", product(l, &mix, if thorough { 4 } else { 3 }, |l, h, r| {
        // the calculator's placements, against the model
        let mut s = LS::new(l);
        let mut pos = 0;
        for op in h {
            for _ in 0..op.n {
                let at = mcmodel::round_up(pos, op.t.ty.align(l));
                let got = (op.t.f.add)(&mut s);
                pos = at + op.t.ty.size(l);
                if got != at || s.len() != pos {
                    r.violation(
                        &format!("sizer: {} placed at {got} (total {}), expected {at} (total {pos})", op.t.name, s.len()),
                        &hist_name(h),
                        "",
                    );
                    return false;
                }
            }
        }
        true
    }));
    rep.finish();
}

fn wrapper(d: &TyDef, bare: TyFns, r: &mut Report) {
    let l = Layout::Std140;
    r.add("wrapped_types", 1);
    let scs = d.ty.scalars();
    let mut fail = |m: String| r.violation(&format!("{}: {m}", d.name), &d.name, "");
    if d.f.align != bare.align.max(256) {
        fail(format!("alignment {} (inner {})", d.f.align, bare.align));
    }
    if (d.f.size_static)() != (bare.size_static)() || (d.f.size_static)() != d.ty.size(l) {
        fail(format!("size {} (inner {})", (d.f.size_static)(), (bare.size_static)()));
    }
    let mut vals: Vec<Vec<u64>> =
        (0..3).map(|s| scs.iter().enumerate().map(|(i, c)| mcmodel::base_bits(*c, i, s)).collect()).collect();
    for (k, c) in scs.iter().enumerate().take(16) {
        for b in mcmodel::special_bits(*c) {
            let mut v = vals[0].clone();
            v[k] = *b;
            vals.push(v);
        }
    }
    for v in &vals {
        let x = guarded(|| ((d.f.enc)(v), (bare.enc)(v), (d.f.trip)(v), (d.f.size_val)(v), (bare.size_val)(v)));
        match x {
            Err(m) => fail(m),
            Ok((a, b, t, s1, s2)) => {
                if a != b {
                    fail(format!("bytes {} instead of {}", hex(&a), hex(&b)));
                }
                if &t != v {
                    fail(format!("unwraps to {t:x?} instead of {v:x?}"));
                }
                if s1 != s2 || s1 != a.len() {
                    fail(format!("per-value size {s1}, inner {s2}, bytes {}", a.len()));
                }
                let back = (d.f.from_bytes)(&a);
                if &back != v {
                    fail(format!("bytes unwrap to {back:x?} instead of {v:x?}"));
                }
            }
        }
    }
    r.add("values", vals.len() as u64);
}

/// C17
pub fn arrays(thorough: bool) {
    let mut rep = Report::new();
    for l in LAYOUTS {
        let mut ts: Vec<TyDef> = types(l).into_iter().filter(|t| !has_dyn(&t.ty) && !matches!(t.ty, Ty::Blob(..))).collect();
        ts.extend(std_types(l));
        let f = ts.iter().find(|t| t.name == "f32").unwrap().clone();
        let tops = if thorough { 33 } else { 9 };
        let mut work = Vec::new();
        for t in &ts {
            for pre in 0..if thorough { 64usize } else { 16 } {
                work.push((t.clone(), pre));
            }
        }
        rep.add("element_types", ts.len() as u64);
        rep.add("states", if thorough { 64 } else { 16 });
        let mut ways = vec![How::Slice];
        if l == Layout::Std140 {
            ways.push(How::WriteSlice);
        }
        let one = Op::new(&f, How::One, 1);
        let o = parallel(work, |(t, pre), r| {
            let before = vec![one.clone(); *pre];
            for how in &ways {
                for n in 1..tops {
                    for next in &ts {
                        if next.ty.align(l) > 4 && *pre > 1 && !thorough {
                            continue;
                        }
                        slice_like_array(l, &Op::new(t, *how, n), &before, next, r);
                    }
                }
                // whatever the values are
                for fill in [Fill::Zeros, Fill::Ones] {
                    for n in [1, 2, 3] {
                        slice_like_array(l, &Op::new(t, *how, n).with(fill), &before, &f, r);
                    }
                }
                // long slices
                if *pre < if thorough { 8 } else { 2 } {
                    for n in [10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097] {
                        slice_like_array(l, &Op::new(t, *how, n), &before, &f, r);
                    }
                }
            }
        });
        absorb(&mut rep, "", o);
        // after every other write, and after other slices
        let cls = classes(&ts, l);
        let mut work = Vec::new();
        for t in &ts {
            for p in &cls {
                work.push((t.clone(), p.clone()));
            }
        }
        let o = parallel(work, |(t, p), r| {
            for how in &ways {
                for n in [1, 2, 3, 5] {
                    for before in [
                        vec![Op::new(p, How::One, 1)],
                        vec![Op::new(p, *how, 3)],
                        vec![Op::new(p, *how, 0), Op::new(p, How::One, 1)],
                        vec![Op::new(p, How::Iter(Hint::Exact), 2), Op::new(t, *how, 2)],
                    ] {
                        slice_like_array(l, &Op::new(t, *how, n), &before, p, r);
                    }
                }
            }
        });
        absorb(&mut rep, "", o);
    }
    rep.finish();
}

fn has_dyn(t: &Ty) -> bool {
    match t {
        Ty::Dyn(_) => true,
        Ty::Struct(_, f) => f.iter().any(|x| has_dyn(&x.1)),
        _ => false,
    }
}

fn kind_key(l: Layout, t: &Ty) -> String {
    format!("{}:{}", l.name(), t.glsl())
}

#[allow(clippy::too_many_arguments)]
fn slice_like_array(l: Layout, op: &Op, before: &[Op], next: &TyDef, r: &mut Report) {
    r.add("histories", 1);
    let t = &op.t;
    let vals = op.vals(1);
    let sink = Sink::default();
    let mut w = LW::new(l, sink.clone());
    let nv = Op::new(next, How::One, 1).vals(2);
    let res = guarded(|| -> std::io::Result<(usize, usize, usize)> {
        for (i, b) in before.iter().enumerate() {
            (b.t.f.write)(&mut w, b.how, &b.vals(i + 3))?;
        }
        let base = sink.len();
        let ret = (t.f.write)(&mut w, op.how, &vals)?;
        let after = (next.f.write)(&mut w, How::One, &nv)?;
        Ok((base, ret, after))
    });
    let hn = || {
        let b = match before {
            [] => String::new(),
            [b, ..] if before.iter().all(|x| x.name() == b.name()) => format!("{} x {}; ", before.len(), b.name()),
            _ => hist_name(before) + "; ",
        };
        format!("[{}] {b}{}; {}", l.name(), op.name(), next.name)
    };
    let (base, ret, after) = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return r.violation(&format!("{}: {e}", hn()), &hn(), ""),
        Err(m) => return r.violation(&format!("{}: {m}", hn()), &hn(), ""),
    };
    let got = sink.tail(base);
    let arr = arrayed(l, &t.ty, base, &vals);
    let end = base + arr.emitted.len();
    let ok = ret == arr.ret && after >= end && got.len() >= arr.emitted.len() && got[..arr.emitted.len()] == arr.emitted[..];
    if ok {
        r.add("array_conforming", 1);
        return;
    }
    // exactly the packed stream?
    let p = packed(l, &t.ty, base, &vals);
    let pl = base + p.emitted.len();
    let q = packed(l, &next.ty, pl, &nv);
    let mut whole = p.emitted.clone();
    whole.extend_from_slice(&q.emitted);
    if ret == p.ret && after == q.ret && got == whole {
        let key = kind_key(l, &t.ty);
        let what = format!(
            "a slice of {} is packed one element after another ({} bytes from offset {}), a GLSL {} array occupies {} bytes from offset {}",
            t.ty.glsl(), pl - p.ret, p.ret, l.name(), end - arr.ret, arr.ret
        );
        r.candidate_known(&key, &what);
        return;
    }
    r.violation(
        &format!("{}: emitted {} (returned {ret}, next at {after}), GLSL array: {} at {}, next from {end}", hn(), hex(&got), hex(&arr.emitted), arr.ret),
        &hn(),
        "",
    );
}

/// C16: everything the writer and sizer do on a fixed set of histories.
pub fn transcript() {
    for l in LAYOUTS {
        let mut ts = types(l);
        ts.extend(std_types(l));
        let cls = classes(&ts, l);
        let mut ops = Vec::new();
        for t in &cls {
            ops.push(Op::new(t, How::One, 1));
            ops.push(Op::new(t, How::Slice, 3));
            ops.push(Op::new(t, How::Iter(Hint::Exact), 2));
        }
        let mut n = 0u64;
        for a in &ops {
            for b in &ops {
                let sink = Sink::default();
                let mut w = LW::new(l, sink.clone());
                let mut s = LS::new(l);
                let mut line = format!("{} {}; {}:", l.name(), a.name(), b.name());
                for (i, o) in [a, b].iter().enumerate() {
                    let v = o.vals(i);
                    let r = guarded(|| (o.t.f.write)(&mut w, o.how, &v).map_err(|e| e.to_string()));
                    let z = (o.t.f.add)(&mut s);
                    line.push_str(&format!(" {r:?} len {} size {z}/{}", w.len(), s.len()));
                }
                println!("T {line} {}", hex(&sink.tail(0)).replace(' ', ""));
                n += 1;
            }
        }
        println!("MC {{\"kind\":\"count\",\"key\":\"transcript_histories\",\"n\":{n}}}");
    }
    println!("MC {{\"kind\":\"done\",\"violations\":0}}");
}
