//! C19: code the writer calls (sinks, iterators, user-composed values,
//! conversions) panics at every point it is called.

use crate::writer::parallel;
use crate::*;
use mcmodel::report::{hex, Report};
use std::cell::{Cell, RefCell};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    /// number of times user code was entered, and at which of them it panics
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static PANICS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

fn user_code() {
    crate::indep::point();
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    if PANICS.with(|p| p.borrow().contains(&n)) {
        panic!("user code");
    }
}

#[derive(Default)]
struct State {
    data: Vec<u8>,
    calls: Vec<usize>,
    /// (call, bytes taken before the panic)
    panic_at: Vec<(usize, usize)>,
}

#[derive(Clone, Default)]
struct PSink(Rc<RefCell<State>>);

impl Write for PSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = s.calls.len();
        s.calls.push(buf.len());
        if let Some(k) = s.panic_at.iter().find(|x| x.0 == n).map(|x| x.1) {
            s.data.extend_from_slice(&buf[..k.min(buf.len())]);
            drop(s);
            panic!("sink");
        }
        s.data.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A value as the model sees it: alignment and bytes (the same in both
/// layouts for the three kinds used).
#[derive(Clone, Debug)]
pub(crate) struct V(pub usize, pub Vec<u8>);

pub(crate) fn vf(x: f32) -> V {
    V(4, x.to_ne_bytes().to_vec())
}
pub(crate) fn v3(x: f32) -> V {
    V(16, [x, x + 0.5, x + 0.25].iter().flat_map(|c| c.to_ne_bytes()).collect())
}
pub(crate) fn vd(x: f64) -> V {
    V(32, [x, x + 0.5, x + 0.25].iter().flat_map(|c| c.to_ne_bytes()).collect())
}

/// Host types whose conversion is user code.
#[derive(Clone, Copy)]
pub(crate) struct Conv1(pub f32);
#[derive(Clone, Copy)]
pub(crate) struct Conv3(pub f32);
#[derive(Clone, Copy)]
pub(crate) struct Conv3d(pub f64);

macro_rules! conv {
    ($t:ident, $m:ident, $As:ident, $to:ident, $from:ident, $out:ty, |$s:ident| $mk:expr, |$o:ident| $back:expr) => {
        impl crevice::$m::$As for $t {
            type Output = $out;
            fn $to(&self) -> $out {
                user_code();
                let $s = self.0;
                $mk
            }
            fn $from($o: $out) -> Self {
                user_code();
                $t($back)
            }
        }
    };
}
conv!(Conv1, std140, AsStd140, as_std140, from_std140, f32, |x| x, |o| o);
conv!(Conv1, std430, AsStd430, as_std430, from_std430, f32, |x| x, |o| o);
conv!(Conv3, std140, AsStd140, as_std140, from_std140, crevice::std140::Vec3, |x| crevice::std140::Vec3 { x, y: x + 0.5, z: x + 0.25 }, |o| o.x);
conv!(Conv3, std430, AsStd430, as_std430, from_std430, crevice::std430::Vec3, |x| crevice::std430::Vec3 { x, y: x + 0.5, z: x + 0.25 }, |o| o.x);
conv!(Conv3d, std140, AsStd140, as_std140, from_std140, crevice::std140::DVec3, |x| crevice::std140::DVec3 { x, y: x + 0.5, z: x + 0.25 }, |o| o.x);
conv!(Conv3d, std430, AsStd430, as_std430, from_std430, crevice::std430::DVec3, |x| crevice::std430::DVec3 { x, y: x + 0.5, z: x + 0.25 }, |o| o.x);

/// A user-composed value.
#[derive(Clone, Copy)]
pub(crate) struct User(pub f32);

macro_rules! user {
    ($m:ident, $tr:ident, $f:ident) => {
        impl crevice::$m::$tr for User {
            fn $f<W: Write>(&self, w: &mut crevice::$m::Writer<W>) -> io::Result<usize> {
                user_code();
                let at = w.write(&self.0)?;
                user_code();
                w.write(&[Conv3(self.0 + 8.0), Conv3(self.0 + 16.0)][..])?;
                user_code();
                w.write_iter(It::new(vec![self.0 + 32.0; 2]))?;
                user_code();
                Ok(at)
            }
        }
    };
}
user!(std140, WriteStd140, write_std140);
user!(std430, WriteStd430, write_std430);

pub(crate) fn user_model(x: f32, out: &mut Vec<V>) {
    out.extend([vf(x), v3(x + 8.0), v3(x + 16.0), vf(x + 32.0), vf(x + 32.0)]);
}

struct It<T>(std::vec::IntoIter<T>);
impl<T> It<T> {
    fn new(v: Vec<T>) -> Self {
        It(v.into_iter())
    }
}
impl<T> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        user_code();
        self.0.next()
    }
}

pub(crate) const OPS: [&str; 11] = [
    "write(Conv f32)",
    "write(Conv vec3)",
    "write([Conv vec3; 3])",
    "write_iter(f32 x3)",
    "write_iter(Conv dvec3 x2)",
    "write(User)",
    "write([User; 2])",
    "write_iter(User x2)",
    "write(f32)",
    "write(Conv dvec3)",
    "write_iter(Conv f32 x0)",
];

macro_rules! engine {
    ($name:ident, $m:ident) => {
        pub(crate) fn $name<S: Write>(w: &mut crevice::$m::Writer<S>, op: usize, i: usize) -> io::Result<usize> {
            let x = (i + 1) as f32;
            match op {
                0 => w.write(&Conv1(x)),
                1 => w.write(&Conv3(x)),
                2 => w.write(&[Conv3(x), Conv3(x + 1.0), Conv3(x + 2.0)][..]),
                3 => w.write_iter(It::new(vec![x, x + 1.0, x + 2.0])),
                4 => w.write_iter(It::new(vec![Conv3d(x as f64), Conv3d(x as f64 + 1.0)])),
                5 => w.write(&User(x)),
                6 => w.write(&[User(x), User(x + 1.0)][..]),
                7 => w.write_iter(It::new(vec![User(x), User(x + 1.0)])),
                8 => w.write(&x),
                9 => w.write(&Conv3d(x as f64)),
                _ => w.write_iter(It::new(Vec::<Conv1>::new())),
            }
        }
    };
}
engine!(op140, std140);
engine!(op430, std430);

pub(crate) fn model(op: usize, i: usize) -> Vec<V> {
    let x = (i + 1) as f32;
    let d = x as f64;
    let mut v = Vec::new();
    match op {
        0 | 8 => v.push(vf(x)),
        1 => v.push(v3(x)),
        2 => v.extend([v3(x), v3(x + 1.0), v3(x + 2.0)]),
        3 => v.extend([vf(x), vf(x + 1.0), vf(x + 2.0)]),
        4 => v.extend([vd(d), vd(d + 1.0)]),
        5 => user_model(x, &mut v),
        6 | 7 => {
            user_model(x, &mut v);
            user_model(x + 1.0, &mut v);
        }
        9 => v.push(vd(d)),
        _ => {}
    }
    v
}

/// Expected bytes after `len`, and the byte ranges of the values.
pub(crate) fn place(len: usize, vs: &[V]) -> (Vec<u8>, Vec<(usize, usize)>) {
    let mut out = Vec::new();
    let mut ranges = Vec::new();
    for V(a, b) in vs {
        while (len + out.len()) % a != 0 {
            out.push(0);
        }
        ranges.push((len + out.len(), len + out.len() + b.len()));
        out.extend_from_slice(b);
    }
    (out, ranges)
}

enum W {
    A(crevice::std140::Writer<PSink>),
    B(crevice::std430::Writer<PSink>),
}

#[derive(Clone, Copy, Debug)]
enum Fault {
    /// user code panics the k-th time it is entered
    User(usize),
    /// the sink panics at a call, after taking some bytes
    Sink(usize, usize),
}

/// What one execution went through.
struct Trace {
    /// entries of user code, sizes of sink calls
    user: usize,
    sink: Vec<usize>,
    /// the same two at the last panic
    last: (usize, usize),
}

fn exec(l: Layout, h: &[usize], faults: &[Fault], r: &mut Report) -> Trace {
    r.add("evaluations", 1);
    let sink = PSink::default();
    let mut last = (0, 0);
    CALLS.with(|x| x.set(0));
    PANICS.with(|p| {
        let mut p = p.borrow_mut();
        p.clear();
        for f in faults {
            match *f {
                Fault::User(k) => p.push(k),
                Fault::Sink(c, k) => sink.0.borrow_mut().panic_at.push((c, k)),
            }
        }
    });
    let mut w = match l {
        Layout::Std140 => W::A(crevice::std140::Writer::new(sink.clone())),
        Layout::Std430 => W::B(crevice::std430::Writer::new(sink.clone())),
    };
    let mut pos = 0;
    let mut panics = 0;
    for (i, op) in h.iter().enumerate() {
        let res = catch_unwind(AssertUnwindSafe(|| match &mut w {
            W::A(w) => op140(w, *op, i),
            W::B(w) => op430(w, *op, i),
        }));
        let len = match &w {
            W::A(w) => w.len(),
            W::B(w) => w.len(),
        };
        let got = sink.0.borrow().data[pos..].to_vec();
        let (want, ranges) = place(pos, &model(*op, i));
        let names = || h.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("; ");
        let bad = |r: &mut Report, m: String| {
            let id = format!("{} {} {faults:?}", l.name(), names());
            r.violation(&format!("[{}] {} with {faults:?} (panics): operation {i}: {m}", l.name(), names()), &id, "");
        };
        match res {
            Ok(Ok(at)) => {
                if got != want {
                    bad(r, format!("emitted {} instead of {}", hex(&got), hex(&want)));
                    break;
                }
                let at_want = ranges.first().map(|x| x.0).unwrap_or(pos);
                if at != at_want || len != pos + want.len() {
                    bad(r, format!("returned {at}, length {len} instead of {at_want}, {}", pos + want.len()));
                    break;
                }
                pos = len;
            }
            Ok(Err(e)) => {
                bad(r, format!("failed with {:?}", e.kind()));
                break;
            }
            Err(_) => {
                panics += 1;
                last = (CALLS.with(|x| x.get()), sink.0.borrow().calls.len());
                if panics > faults.len() {
                    bad(r, "a panic nobody asked for".to_string());
                    break;
                }
                if got.len() > want.len() || got[..] != want[..got.len()] {
                    bad(r, format!("delivered {}, not a prefix of {}", hex(&got), hex(&want)));
                    break;
                }
                let delivered = pos + got.len();
                if len > delivered || len < pos {
                    bad(r, format!("length {len}, but {delivered} bytes delivered (and {pos} before)"));
                    break;
                }
                if ranges.iter().any(|(s, e)| *s < len && len < *e) {
                    bad(r, format!("length {len} is inside a value ({ranges:?}), {delivered} bytes delivered"));
                    break;
                }
                // what a caller does to carry on
                sink.0.borrow_mut().data.truncate(len);
                pos = len;
            }
        }
    }
    PANICS.with(|p| p.borrow_mut().clear());
    if panics > 0 && panics == faults.len() {
        r.add("executions_with_panic", 1);
    }
    let calls = sink.0.borrow().calls.clone();
    Trace { user: CALLS.with(|x| x.get()), sink: calls, last }
}

/// Every placement of `bound` more panics after those in `faults`.
fn explore(l: Layout, h: &[usize], faults: &mut Vec<Fault>, bound: usize, r: &mut Report) {
    let t = exec(l, h, faults, r);
    if bound == 0 || r.violations > 10 {
        return;
    }
    let mut next: Vec<Fault> = (t.last.0..t.user).map(Fault::User).collect();
    for (c, n) in t.sink.iter().enumerate().skip(t.last.1) {
        let mut ks = vec![0, 1, n / 2, n.saturating_sub(1), *n];
        ks.retain(|k| k <= n);
        ks.sort();
        ks.dedup();
        next.extend(ks.into_iter().map(|k| Fault::Sink(c, k)));
    }
    for f in next {
        faults.push(f);
        explore(l, h, faults, bound - 1, r);
        faults.pop();
    }
}

pub(crate) fn histories(ops: &[usize], n: usize) -> Vec<Vec<usize>> {
    let mut hs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        hs = hs.iter().flat_map(|h| ops.iter().map(move |o| h.iter().copied().chain([*o]).collect())).collect();
    }
    hs
}

pub fn run(thorough: bool) {
    let all: Vec<usize> = (0..OPS.len()).collect();
    let few = [1, 4, 6, 7, 8];
    let mut work = Vec::new();
    // a full product contains every shorter history as a prefix; the later
    // operations are what shows the state after a panic
    for l in [Layout::Std140, Layout::Std430] {
        let mut add = |hs: Vec<Vec<usize>>, bound| work.extend(hs.into_iter().map(|h| (l, h, bound)));
        add(histories(&all, 3), 1);
        add(histories(&all, 2), 2);
        add(histories(&few, 4), 1);
        if thorough {
            add(histories(&all, 4), 1);
            add(histories(&few, 6), 1);
            add(histories(&few, 3), 2);
            add(histories(&few[..4], 2), 3);
        }
    }
    let mut total = parallel(work, |(l, h, bound), r| {
        r.add("histories", 1);
        explore(*l, h, &mut vec![], *bound, r);
    });
    total.sample("[std140] write(Conv f32); write([User; 2]); write(f32) with the sink panicking at every call after 0, 1, half, all but one and all of the bytes");
    total.finish();
}
