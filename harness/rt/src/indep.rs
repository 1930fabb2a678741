//! C20: operations on several writers, sizers and values, in every order:
//! one after the other, one inside a call the other makes, on one thread and
//! on several.

use crate::unwind::*;
use crate::*;
use crevice::{std140, std430};
use mcmodel::report::{hex, Report};
use std::cell::{Cell, RefCell};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Mutex};

// ------------------------------------------------------------ preemption --

type Guest = Box<dyn FnOnce()>;

/// Whether writers may be sent at all is checked by a program of its own.
pub struct Sent<T>(pub T);
unsafe impl<T> Send for Sent<T> {}
impl<R, T: FnOnce() -> R> Sent<T> {
    pub fn call(self) -> R {
        (self.0)()
    }
}

thread_local! {
    /// calls from crevice into the harness so far
    static POINTS: Cell<usize> = const { Cell::new(0) };
    /// what runs inside which of them
    static GUESTS: RefCell<Vec<(usize, Guest)>> = const { RefCell::new(Vec::new()) };
}

/// Every call of the code under test into sinks, iterators, conversions and
/// user-composed values comes through here.
pub fn point() {
    let n = POINTS.with(|c| c.replace(c.get() + 1));
    let g = GUESTS.with(|g| {
        let mut g = g.borrow_mut();
        g.iter().position(|x| x.0 == n).map(|i| g.remove(i).1)
    });
    if let Some(g) = g {
        g();
    }
}

fn arm(gs: Vec<(usize, Guest)>) {
    POINTS.with(|c| c.set(0));
    GUESTS.with(|g| *g.borrow_mut() = gs);
}

#[derive(Clone, Default)]
struct TSink(Arc<Mutex<Vec<u8>>>);

impl Write for TSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        point();
        let mut d = self.0.lock().unwrap();
        assert!(d.len() < 1 << 20, "the writer emits without end");
        d.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ----------------------------------------------------------------- actors --

#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, Clone, Copy)]
struct Whole {
    a: Conv1,
    b: Conv3,
    c: Conv1,
}

#[derive(crevice::glsl::GlslStruct)]
#[allow(dead_code)]
struct Text {
    a: f32,
    b: mint::Vector3<f32>,
}

fn whole(x: f32) -> Whole {
    Whole { a: Conv1(x), b: Conv3(x + 1.0), c: Conv1(x + 2.0) }
}

fn v_whole(x: f32) -> V {
    let mut b = x.to_ne_bytes().to_vec();
    b.resize(16, 0);
    b.extend(v3(x + 1.0).1);
    b.extend((x + 2.0).to_ne_bytes());
    V(16, b)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Writer(Layout),
    Sizer(Layout),
    Convert(Layout),
    Query(Layout),
    Glsl,
}

const L: [Layout; 2] = [Layout::Std140, Layout::Std430];

impl Kind {
    fn ops(self) -> usize {
        match self {
            Kind::Writer(Layout::Std140) => OPS.len() + 4,
            Kind::Writer(_) => OPS.len() + 2,
            Kind::Sizer(_) => 4,
            Kind::Convert(_) => 3,
            Kind::Query(_) => 3,
            Kind::Glsl => 1,
        }
    }
    fn name(self, op: usize) -> String {
        match self {
            Kind::Writer(l) => {
                let more = ["write(derived)", "write([derived; 2])", "write(DynamicUniform)", "write([DynamicUniform; 2])"];
                format!("{} {}", l.name(), OPS.get(op).unwrap_or_else(|| &more[op - OPS.len()]))
            }
            Kind::Sizer(l) => format!("{} add({})", l.name(), ["f32", "vec3", "dvec3", "derived"][op]),
            Kind::Convert(l) => format!("{} {}", l.name(), ["convert", "convert back", "bytes"][op]),
            Kind::Query(l) => format!("{} size({})", l.name(), ["User", "[User; 2]", "[derived; 2]"][op]),
            Kind::Glsl => "GLSL".into(),
        }
    }
}

/// What one operation shows.
type Obs = (usize, usize, Vec<u8>);

enum Actor {
    W140(std140::Writer<TSink>, TSink),
    W430(std430::Writer<TSink>, TSink),
    S140(std140::Sizer),
    S430(std430::Sizer),
    Free(Kind),
}

impl Actor {
    fn new(k: Kind, sink: TSink) -> Actor {
        match k {
            Kind::Writer(Layout::Std140) => Actor::W140(std140::Writer::new(sink.clone()), sink),
            Kind::Writer(_) => Actor::W430(std430::Writer::new(sink.clone()), sink),
            Kind::Sizer(Layout::Std140) => Actor::S140(std140::Sizer::new()),
            Kind::Sizer(_) => Actor::S430(std430::Sizer::new()),
            k => Actor::Free(k),
        }
    }
    fn step(&mut self, op: usize, i: usize) -> Obs {
        let x = (i + 1) as f32;
        macro_rules! writer {
            ($w:ident, $s:ident, $op:ident, $dynu:expr) => {{
                let from = $s.0.lock().unwrap().len();
                let at = match op.checked_sub(OPS.len()) {
                    None => $op($w, op, i),
                    Some(0) => $w.write(&whole(x)),
                    Some(1) => $w.write(&[whole(x), whole(x + 1.0)][..]),
                    Some(n) => $dynu(n),
                };
                let all = $s.0.lock().unwrap();
                (at.unwrap_or(usize::MAX), $w.len(), all[from..].to_vec())
            }};
        }
        macro_rules! sizer {
            ($s:ident) => {{
                let at = match op {
                    0 => $s.add::<f32>(),
                    1 => $s.add::<Conv3>(),
                    2 => $s.add::<Conv3d>(),
                    _ => $s.add::<Whole>(),
                };
                (at, $s.len(), vec![])
            }};
        }
        macro_rules! free {
            ($m:ident, $As:ident, $Std:ident, $Wr:ident, $to:ident, $from:ident, $size:ident, $k:expr) => {{
                use crevice::$m::{$As, $Std, $Wr};
                match ($k, op) {
                    (true, 0) => (0, 0, whole(x).$to().as_bytes().to_vec()),
                    (true, 1) => {
                        let w = Whole::$from(whole(x).$to());
                        (0, 0, [w.a.0, w.b.0, w.c.0].iter().flat_map(|c| c.to_ne_bytes()).collect())
                    }
                    (true, _) => (0, 0, $Std::as_bytes(&Conv3d(x as f64).$to()).to_vec()),
                    (false, 0) => (User(x).$size(), 0, vec![]),
                    (false, 1) => ([User(x), User(x)][..].$size(), 0, vec![]),
                    (false, _) => ([whole(x), whole(x)][..].$size(), 0, vec![]),
                }
            }};
        }
        match self {
            Actor::W140(w, s) => writer!(w, s, op140, |n| {
                let d = |y: f32| std140::DynamicUniform(Conv3(y));
                if n == 2 {
                    w.write(&d(x))
                } else {
                    w.write(&[d(x), d(x + 1.0)][..])
                }
            }),
            Actor::W430(w, s) => writer!(w, s, op430, |_| unreachable!()),
            Actor::S140(s) => sizer!(s),
            Actor::S430(s) => sizer!(s),
            Actor::Free(Kind::Glsl) => {
                use crevice::glsl::GlslStruct;
                let t: String = Text::glsl_definition().split_whitespace().collect();
                (0, 0, t.into_bytes())
            }
            Actor::Free(Kind::Convert(Layout::Std140)) => free!(std140, AsStd140, Std140, WriteStd140, as_std140, from_std140, std140_size, true),
            Actor::Free(Kind::Convert(_)) => free!(std430, AsStd430, Std430, WriteStd430, as_std430, from_std430, std430_size, true),
            Actor::Free(Kind::Query(Layout::Std140)) => free!(std140, AsStd140, Std140, WriteStd140, as_std140, from_std140, std140_size, false),
            Actor::Free(_) => free!(std430, AsStd430, Std430, WriteStd430, as_std430, from_std430, std430_size, false),
        }
    }
}

/// What an actor shows when nothing else is going on, by the model.
fn expect(k: Kind, script: &[usize]) -> Vec<Obs> {
    let mut pos = 0;
    let mut out = Vec::new();
    for (i, &op) in script.iter().enumerate() {
        let x = (i + 1) as f32;
        out.push(match k {
            Kind::Writer(_) => {
                let dynu = |y: f32| V(256, v3(y).1);
                let vs = match op.checked_sub(OPS.len()) {
                    None => model(op, i),
                    Some(0) => vec![v_whole(x)],
                    Some(1) => vec![v_whole(x), v_whole(x + 1.0)],
                    Some(2) => vec![dynu(x)],
                    Some(_) => vec![dynu(x), dynu(x + 1.0)],
                };
                let (bytes, ranges) = place(pos, &vs);
                let at = ranges.first().map_or(pos, |r| r.0);
                pos += bytes.len();
                (at, pos, bytes)
            }
            Kind::Sizer(_) => {
                let v = [vf(0.0), v3(0.0), vd(0.0), v_whole(0.0)][op].clone();
                let at = mcmodel::round_up(pos, v.0);
                pos = at + v.1.len();
                (at, pos, vec![])
            }
            Kind::Convert(_) => match op {
                0 => (0, 0, v_whole(x).1),
                1 => (0, 0, [x, x + 1.0, x + 2.0].iter().flat_map(|c| c.to_ne_bytes()).collect()),
                _ => (0, 0, vd(x as f64).1),
            },
            Kind::Query(_) => {
                let mut vs = Vec::new();
                match op {
                    0 => user_model(x, &mut vs),
                    1 => {
                        user_model(x, &mut vs);
                        user_model(x, &mut vs);
                    }
                    _ => vs.extend([v_whole(x), v_whole(x)]),
                }
                (place(0, &vs).0.len(), 0, vec![])
            }
            Kind::Glsl => (0, 0, b"structText{floata;vec3b;};".to_vec()),
        });
    }
    out
}

fn show(o: &Obs) -> String {
    format!("result {}, length {}, bytes {}", o.0 as isize, o.1, hex(&o.2))
}

fn judge(r: &mut Report, how: &str, who: &[(Kind, &[usize])], got: &[Vec<Obs>]) -> bool {
    for ((k, script), got) in who.iter().zip(got) {
        let want = expect(*k, script);
        if *got != want {
            let i = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])).unwrap_or(0);
            let id: Vec<Vec<String>> = who.iter().map(|(k, s)| s.iter().map(|o| k.name(*o)).collect()).collect();
            r.violation(
                &format!(
                    "{id:?}, {how}: {} shows {}, alone it is {}",
                    k.name(script[i]),
                    got.get(i).map_or("nothing".into(), show),
                    show(&want[i])
                ),
                &format!("{id:?} {how}"),
                "",
            );
            return false;
        }
    }
    true
}

// ----------------------------------------------------- one after the other --

/// All orders of `lens[i]` steps of actor i.
fn orders(lens: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// `shared`: all writers have the same sink.
fn alternate(who: &[(Kind, &[usize])], order: &[usize], shared: bool, r: &mut Report) -> bool {
    r.add("schedules", 1);
    let one = TSink::default();
    let res = guarded(|| {
        let mut actors: Vec<Option<Actor>> =
            who.iter().map(|w| Some(Actor::new(w.0, if shared { one.clone() } else { TSink::default() }))).collect();
        let mut got: Vec<Vec<Obs>> = vec![vec![]; who.len()];
        for &a in order {
            let i = got[a].len();
            let o = actors[a].as_mut().unwrap().step(who[a].1[i], i);
            got[a].push(o);
            if got[a].len() == who[a].1.len() {
                // done: it goes away while the others continue
                let before = one.0.lock().unwrap().len();
                actors[a] = None;
                assert!(one.0.lock().unwrap().len() == before, "something was emitted when a writer was dropped");
            }
        }
        got
    });
    let how = format!("in the order {order:?}{}", if shared { ", into one sink" } else { "" });
    match res {
        Ok(got) => judge(r, &how, who, &got),
        Err(m) => {
            r.violation(&format!("{:?}, {how}: {m}", who), &format!("{who:?} {how}"), "");
            false
        }
    }
}

/// The same with every actor on a thread of its own.
struct Crew(Vec<(mpsc::Sender<Cmd>, mpsc::Receiver<Option<Obs>>)>);
enum Cmd {
    New(Kind),
    Step(usize, usize),
}

impl Crew {
    fn new(n: usize) -> Crew {
        Crew(
            (0..n)
                .map(|_| {
                    let (tx, rx) = mpsc::channel();
                    let (otx, orx) = mpsc::channel();
                    std::thread::spawn(move || {
                        let mut a = None;
                        for c in rx {
                            let o = catch_unwind(AssertUnwindSafe(|| match c {
                                Cmd::New(k) => {
                                    a = Some(Actor::new(k, TSink::default()));
                                    (0, 0, vec![])
                                }
                                Cmd::Step(op, i) => a.as_mut().unwrap().step(op, i),
                            }));
                            if otx.send(o.ok()).is_err() {
                                return;
                            }
                        }
                    });
                    (tx, orx)
                })
                .collect(),
        )
    }
    fn call(&self, a: usize, c: Cmd) -> Option<Obs> {
        self.0[a].0.send(c).unwrap();
        self.0[a].1.recv().unwrap()
    }
    fn run(&self, who: &[(Kind, &[usize])], order: &[usize], r: &mut Report) -> bool {
        r.add("threaded_schedules", 1);
        for (a, w) in who.iter().enumerate() {
            self.call(a, Cmd::New(w.0));
        }
        let mut got: Vec<Vec<Obs>> = vec![vec![]; who.len()];
        for &a in order {
            let i = got[a].len();
            let o = self.call(a, Cmd::Step(who[a].1[i], i));
            got[a].push(o.unwrap_or((usize::MAX, usize::MAX, b"panic".to_vec())));
        }
        judge(r, &format!("on a thread each, in the order {order:?}"), who, &got)
    }
}

// ------------------------------------------------------- inside each other --

/// The guest's middle operation runs inside the `at`-th call the host's last
/// operation makes (and a second guest's inside the `at2`-th).
fn nested(host: (Kind, &[usize]), guests: &[(Kind, &[usize], usize)], thread: bool, r: &mut Report) -> (bool, usize) {
    r.add("nested_schedules", 1);
    let mut made = Vec::new();
    let mut got: Vec<Vec<Obs>> = Vec::new();
    let mut who = vec![host];
    let mut hrun: Vec<Obs> = Vec::new();
    let last = host.1.len() - 1;
    let mut points = 0;
    let res = guarded(|| {
        let mut h = Actor::new(host.0, TSink::default());
        for (i, op) in host.1[..last].iter().enumerate() {
            hrun.push(h.step(*op, i));
        }
        let mut gs: Vec<(usize, Guest)> = Vec::new();
        for (k, script, at) in guests {
            who.push((*k, script));
            let mut a = Actor::new(*k, TSink::default());
            let first = a.step(script[0], 0);
            let cell = Arc::new(Mutex::new((Some(a), vec![first])));
            made.push((cell.clone(), *script));
            let op = script[1];
            gs.push((
                *at,
                Box::new(move || {
                    let run = || {
                        let mut c = cell.lock().unwrap();
                        let mut a = c.0.take().unwrap();
                        let o = catch_unwind(AssertUnwindSafe(|| a.step(op, 1)));
                        c.1.push(o.unwrap_or((usize::MAX, usize::MAX, b"panic".to_vec())));
                        c.0 = Some(a);
                    };
                    if thread {
                        let run = Sent(run);
                        std::thread::scope(|s| {
                            s.spawn(move || run.call());
                        });
                    } else {
                        run();
                    }
                }),
            ));
        }
        arm(gs);
        let o = h.step(host.1[last], last);
        hrun.push(o);
        points = POINTS.with(|c| c.get());
        arm(vec![]);
        for (c, script) in &made {
            let mut c = c.lock().unwrap();
            let c = &mut *c;
            if let Some(a) = &mut c.0 {
                for i in c.1.len()..script.len() {
                    c.1.push(a.step(script[i], i));
                }
            }
        }
    });
    arm(vec![]);
    got.push(hrun);
    for (c, _) in &made {
        got.push(std::mem::take(&mut c.lock().unwrap().1));
    }
    let how = format!(
        "the others' second operations inside calls {:?} of the first's last{}",
        guests.iter().map(|g| g.2).collect::<Vec<_>>(),
        if thread { ", on other threads" } else { "" }
    );
    if let Err(m) = res {
        r.violation(&format!("{who:?}, {how}: {m}"), &format!("{who:?} {how}"), "");
        return (false, points);
    }
    (judge(r, &how, &who, &got), points)
}

/// Every point of the host's last operation.
fn nest(host: (Kind, &[usize]), guests: &[(Kind, &[usize])], thread: bool, r: &mut Report) -> bool {
    let (ok, n) = nested(host, &[], thread, r);
    if !ok {
        return false;
    }
    for p in 0..n {
        match guests {
            [(k, s)] => {
                if !nested(host, &[(*k, s, p)], thread, r).0 {
                    return false;
                }
            }
            [(k, s), (k2, s2)] => {
                for q in p + 1..n {
                    if !nested(host, &[(*k, s, p), (*k2, s2, q)], thread, r).0 {
                        return false;
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    true
}

fn scripts(k: Kind, n: usize, few: bool) -> Vec<Vec<usize>> {
    let mut ops: Vec<usize> = (0..k.ops()).collect();
    if few && matches!(k, Kind::Writer(_)) {
        ops = vec![1, 4, 7, 8, OPS.len()];
        if k == Kind::Writer(Layout::Std140) {
            ops.push(OPS.len() + 2);
        }
    }
    histories(&ops, n)
}

/// One part of the schedules, in one process: nothing but the schedule decides
/// what happens when.
pub fn run(thorough: bool, part: usize, parts: usize) {
    let kinds: Vec<Kind> = L
        .iter()
        .flat_map(|l| [Kind::Writer(*l), Kind::Sizer(*l), Kind::Convert(*l), Kind::Query(*l)])
        .chain([Kind::Glsl])
        .collect();
    enum Job {
        Alternate(Vec<(Kind, Vec<usize>)>, bool),
        Threads(Vec<(Kind, Vec<usize>)>),
        Nest((Kind, Vec<usize>), Vec<(Kind, Vec<usize>)>, bool),
    }
    let mut work = Vec::new();
    // two actors, two (three) operations each, in every order
    for (i, a) in kinds.iter().enumerate() {
        for b in &kinds[i..] {
            for s in scripts(*a, 2, !thorough) {
                for t in scripts(*b, 2, !thorough) {
                    let who = vec![(*a, s.clone()), (*b, t.clone())];
                    let writers = matches!((a, b), (Kind::Writer(_), Kind::Writer(_)));
                    if writers {
                        work.push(Job::Alternate(who.clone(), true));
                    }
                    work.push(Job::Alternate(who, false));
                }
            }
        }
    }
    let stateful = [Kind::Writer(L[0]), Kind::Writer(L[1]), Kind::Sizer(L[0]), Kind::Sizer(L[1])];
    let three = |k: Kind| -> Vec<Vec<usize>> {
        let ops: &[usize] = if matches!(k, Kind::Writer(_)) { &[1, 4, 8] } else { &[0, 1, 2] };
        histories(ops, if thorough { 3 } else { 2 })
    };
    for (i, a) in stateful.iter().enumerate() {
        for (j, b) in stateful.iter().enumerate().skip(i) {
            for c in &stateful[j..] {
                for s in three(*a).iter().step_by(if thorough { 5 } else { 2 }) {
                    for t in three(*b).iter().step_by(2) {
                        for u in three(*c).iter().step_by(if thorough { 3 } else { 2 }) {
                            work.push(Job::Alternate(vec![(*a, s.clone()), (*b, t.clone()), (*c, u.clone())], false));
                        }
                    }
                }
            }
        }
    }
    // on threads
    for (i, a) in kinds.iter().enumerate() {
        for b in &kinds[i..] {
            for s in scripts(*a, 2, true).into_iter().step_by(if thorough { 1 } else { 3 }) {
                for t in scripts(*b, 2, true).into_iter().step_by(if thorough { 1 } else { 4 }) {
                    work.push(Job::Threads(vec![(*a, s.clone()), (*b, t.clone())]));
                }
            }
        }
    }
    // inside one another
    for h in &kinds {
        for n in 1..=2 {
            for s in scripts(*h, n, n == 2) {
                for g in &kinds {
                    let all = scripts(*g, 3, true);
                    let step = if thorough { 3 } else { 17 };
                    for (j, t) in all.into_iter().enumerate() {
                        if j % step == (s[0] * 3 + n) % step || g.ops() <= 1 {
                            work.push(Job::Nest((*h, s.clone()), vec![(*g, t.clone())], false));
                            if j % (step * 3) == (s[0] * 3 + n) % step {
                                work.push(Job::Nest((*h, s.clone()), vec![(*g, t)], true));
                            }
                        }
                    }
                }
            }
        }
    }
    // two inside one
    for h in [Kind::Writer(L[0]), Kind::Writer(L[1])] {
        for op in [1, 4, 6, 7, 9, OPS.len() + 1] {
            for g in &stateful {
                for g2 in &stateful {
                    let t = vec![1, if matches!(g, Kind::Writer(_)) { 7 } else { 2 }, 0];
                    let t2 = vec![0, 1, 2];
                    work.push(Job::Nest((h, vec![8, op]), vec![(*g, t), (*g2, t2)], false));
                }
            }
        }
    }
    // a deadlock is a verdict too
    static DONE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    static DOING: Mutex<String> = Mutex::new(String::new());
    std::thread::spawn(|| {
        use std::sync::atomic::Ordering::SeqCst;
        let mut seen = usize::MAX;
        loop {
            let now = DONE.load(SeqCst);
            if now == seen {
                let mut r = Report::new();
                let what = DOING.lock().map(|s| s.clone()).unwrap_or_default();
                r.violation(&format!("does not come to an end: {what}"), &what, "");
                r.finish();
                std::process::exit(0);
            }
            seen = now;
            std::thread::sleep(std::time::Duration::from_secs(25));
        }
    });
    let mut total = Report::new();
    let r = &mut total;
    for j in work.iter().skip(part).step_by(parts) {
        if r.violations > 5 {
            break;
        }
        DONE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        *DOING.lock().unwrap() = match j {
            Job::Alternate(w, s) => format!("{w:?} in some order{}", if *s { ", into one sink" } else { "" }),
            Job::Threads(w) => format!("{w:?} on a thread each"),
            Job::Nest(h, g, t) => format!("{g:?} inside calls of {h:?}{}", if *t { ", on other threads" } else { "" }),
        };
        match j {
            Job::Alternate(w, shared) => {
                let who: Vec<(Kind, &[usize])> = w.iter().map(|(k, s)| (*k, &s[..])).collect();
                let os = orders(&who.iter().map(|w| w.1.len()).collect::<Vec<_>>());
                let _ = os.iter().all(|o| alternate(&who, o, *shared, r));
            }
            Job::Threads(w) => {
                let who: Vec<(Kind, &[usize])> = w.iter().map(|(k, s)| (*k, &s[..])).collect();
                let crew = Crew::new(who.len());
                let os = orders(&who.iter().map(|w| w.1.len()).collect::<Vec<_>>());
                let _ = os.iter().all(|o| crew.run(&who, o, r));
            }
            Job::Nest(h, g, thread) => {
                let gs: Vec<(Kind, &[usize])> = g.iter().map(|(k, s)| (*k, &s[..])).collect();
                nest((h.0, &h.1), &gs, *thread, r);
            }
        }
    }
    total.sample("a std140 writer's write([derived; 2]) with a std430 writer's write_iter inside each of its calls of the sink and of the member conversions");
    total.finish();
}
