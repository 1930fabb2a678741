//! C21: every operation of the library on every kind of type, to be executed
//! under an interpreter that watches for undefined behaviour (Miri), on hosts
//! of either endianness and word size.  Everything here is safe code.
//! Expectations come with the call (computed by the generator), as the
//! interpreter is slow.

use crate::*;
use std::io::Write;

pub struct Facts {
    pub align: usize,
    pub size: usize,
    /// offset and kind ('b': boolean, '4', '8': other scalars of that size)
    pub leaves: &'static [(usize, u8)],
}

pub fn up(x: usize, a: usize) -> usize {
    let a = a.max(1);
    (x + a - 1) / a * a
}

fn bits(k: &Facts, salt: usize) -> Vec<u64> {
    k.leaves
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let x = 0x3f00_0000 | (i as u64 * 0x1_0101 + salt as u64 * 0x2_0000) & 0x7f_ffff;
            match l.1 {
                b'b' => ((i + salt) % 2) as u64,
                b'8' => x << 32 | (0x1234_5600 + i as u64),
                _ => x,
            }
        })
        .collect()
}

fn put(img: &mut [u8], at: usize, kind: u8, b: u64) {
    if kind == b'8' {
        img[at..at + 8].copy_from_slice(&b.to_ne_bytes());
    } else {
        img[at..at + 4].copy_from_slice(&(b as u32).to_ne_bytes());
    }
}

fn image(k: &Facts, bits: &[u64], fill: u8, truth: u32) -> Vec<u8> {
    let mut img = vec![fill; k.size];
    for (l, b) in k.leaves.iter().zip(bits) {
        put(&mut img, l.0, l.1, if l.1 == b'b' && *b == 1 { truth as u64 } else { *b });
    }
    img
}

fn bad(what: &str, m: &str) {
    println!("BAD {what}: {m}");
}

pub fn begin(what: &str) {
    println!("AT {what}");
}

macro_rules! sound {
    ($f:ident, $l:ident, $as:ident, $std:ident, $to:ident, $from:ident, $ssize:ident, $size:ident, $ws:ident) => {
        /// Everything one type can do under one layout.
        pub fn $f<S: Shape + crevice::$l::$as>(what: &str, k: &Facts, show: Option<fn(&S::Output) -> usize>) {
            use crevice::$l::{$std, Sizer, Writer, $ws as _};
            begin(what);
            let bad = |m: &str| bad(what, m);
            let align = <S::Output as $std>::ALIGNMENT;
            let size = std::mem::size_of::<S::Output>();
            if align != k.align || size != k.size || S::$ssize() != k.size {
                return bad("alignment or size");
            }
            let mut stream = Vec::new();
            let b = bits(k, 0);
            let want = image(k, &b, 0, 1);
            let v = make::<S>(&b);
            let o = v.$to();
            if o.as_bytes() != &want[..] {
                bad("byte image");
            }
            let many = [o, o.clone(), make::<S>(&b).$to()];
            if size > 0 && bytemuck::cast_slice::<_, u8>(&many).chunks(size).any(|c| c != &want[..]) {
                bad("byte image of an array");
            }
            let boxed = Box::new(o);
            if bytemuck::bytes_of(&*boxed) != &want[..] {
                bad("byte image of a boxed value");
            }
            if leaves_of(&S::$from(o)) != b {
                bad("round trip");
            }
            if let Some(f) = show {
                if f(&o) != want.len() {
                    bad("own byte accessor");
                }
            }
            // written alone and in a slice, and sized
            let mut w = Writer::new(&mut stream);
            let mut s = Sizer::new();
            w.write(&7u32).unwrap();
            s.add::<u32>();
            let mut at = vec![(w.write(&v).unwrap(), s.add::<S>())];
            let pair = [v, make::<S>(&b)];
            at.push((w.write(&pair[..]).unwrap(), s.add::<S>()));
            s.add::<S>();
            at.push((w.len() - size, s.len() - size));
            let n = w.len();
            for (a, b) in at {
                if a != b || a % k.align.max(1) != 0 || stream.get(a..a + size) != Some(&want[..]) {
                    bad("written stream");
                }
            }
            if n != stream.len() || pair[..].$size() < 2 * size {
                bad("length of the written stream");
            }
            // into memory of exactly, and of less than, the size
            let mut mem = vec![0xeeu8; size];
            if Writer::new(&mut mem[..]).write(&pair[0]).is_err() || mem != want {
                bad("written into a slice");
            }
            if size > 0 && Writer::new(&mut mem[1..]).write(&pair[1]).is_ok() {
                bad("written into too short a slice");
            }
            // read back from any address, whatever the padding holds
            let b = bits(k, 1);
            let got = image(k, &b, 0xa5, 0x8000_0002);
            let mut mem = vec![0u64; size / 8 + 4];
            for at in [0, 1, 4] {
                let room = &mut bytemuck::cast_slice_mut::<u64, u8>(&mut mem)[at..at + size];
                room.copy_from_slice(&got);
                let o = bytemuck::pod_read_unaligned::<S::Output>(room);
                if leaves_of(&S::$from(o)) != b {
                    bad("value read back");
                }
                if at == 4 && o.as_bytes() != &got[..] {
                    bad("image viewed as bytes again");
                }
                if size > 0 {
                    if let Ok(r) = bytemuck::try_from_bytes::<S::Output>(room) {
                        if leaves_of(&S::$from(*r)) != b {
                            bad("value read back in place");
                        }
                    }
                }
            }
            let z = <S::Output as bytemuck::Zeroable>::zeroed();
            if z.as_bytes() != &vec![0; size][..] || leaves_of(&S::$from(z)).iter().any(|x| *x != 0) {
                bad("zeroed value");
            }
        }
    };
}
sound!(s140, std140, AsStd140, Std140, as_std140, from_std140, std140_size_static, std140_size, WriteStd140);
sound!(s430, std430, AsStd430, Std430, as_std430, from_std430, std430_size_static, std430_size, WriteStd430);

pub fn both<S: Shape + crevice::std140::AsStd140 + crevice::std430::AsStd430>(what: &str, desc: &str) {
    s140::<S>(&format!("{what} [std140]"), &facts(desc, Layout::Std140), None);
    s430::<S>(&format!("{what} [std430]"), &facts(desc, Layout::Std430), None);
}

/// The facts of a type from the model (slow: for a few types only).
pub fn facts(desc: &str, l: Layout) -> Facts {
    let ty = Ty::decode(desc);
    let leaves: Vec<(usize, u8)> = ty
        .leaves(l)
        .into_iter()
        .map(|(o, s)| (o, if s == Sc::Bool { b'b' } else { b'0' + s.n() as u8 }))
        .collect();
    Facts { align: ty.align(l), size: ty.size(l), leaves: leaves.leak() }
}

pub fn done() {
    println!("DONE");
    std::io::stdout().flush().unwrap();
}

// -------------------------------------------------------------- histories --

/// What a sink does with the calls it gets.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    All,
    /// a byte at a time, every third call interrupted
    Bytes,
    /// fails, or panics, when `n` bytes are there
    Fail(usize),
    Panic(usize),
}

struct Any<'a> {
    out: &'a mut Vec<u8>,
    mode: Mode,
    calls: usize,
}

impl Write for Any<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let n = match self.mode {
            Mode::All => b.len(),
            Mode::Bytes if self.calls % 3 == 0 => return Err(std::io::ErrorKind::Interrupted.into()),
            Mode::Bytes => b.len().min(1),
            Mode::Fail(n) | Mode::Panic(n) => {
                let room = n - self.out.len();
                if room == 0 && !b.is_empty() {
                    if let Mode::Panic(_) = self.mode {
                        panic!("sink");
                    }
                    return Err(std::io::ErrorKind::Other.into());
                }
                b.len().min(room)
            }
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Expected: alignment and image of each item.
type Item = (usize, Vec<u8>);

fn item(k: &Facts, salt: usize) -> (Vec<u64>, Item) {
    let b = bits(k, salt);
    let img = image(k, &b, 0, 1);
    (b, (k.align, img))
}

type Kept = ((&'static str, Layout, usize), &'static (Vec<u64>, Item));
thread_local! {
    static KEPT: std::cell::RefCell<Vec<Kept>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Leaves and expectation of the i-th value of a type, computed once.
fn kept(desc: &'static str, l: Layout, i: usize) -> &'static (Vec<u64>, Item) {
    let key = (desc, l, i);
    if let Some(k) = KEPT.with_borrow(|k| k.iter().find(|x| x.0 == key).map(|x| x.1)) {
        return k;
    }
    let k: &'static _ = Box::leak(Box::new(item(&facts(desc, l), i)));
    KEPT.with_borrow_mut(|v| v.push((key, k)));
    k
}

/// Its value comes from a conversion with something to drop and that may panic.
struct Costly(Box<u32>);

thread_local! {
    static FUSE: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
fn fuse() {
    let n = FUSE.get();
    FUSE.set(n.wrapping_sub(1));
    assert!(n != 0, "caller");
}

macro_rules! histories {
    ($f:ident, $l:ident, $layout:expr, $as:ident, $write:ident, $to:ident, $from:ident, $wm:ident, $ssize:ident, $size:ident) => {
        mod $l {
            use super::*;
            use crevice::$l::{self as lay, $as, $write, Writer};
            use std::panic::{catch_unwind, AssertUnwindSafe};

            #[derive(crevice::$l::$as)]
            struct D {
                a: f32,
                b: bool,
                c: mint::Vector3<f32>,
            }
            impl Shape for D {
                fn make(s: &mut Src) -> Self {
                    D { a: Shape::make(s), b: Shape::make(s), c: Shape::make(s) }
                }
                fn leaves(&self, o: &mut Vec<u64>) {
                    self.a.leaves(o);
                    self.b.leaves(o);
                    self.c.leaves(o);
                }
            }
            impl $as for Costly {
                type Output = lay::UVec3;
                fn $to(&self) -> lay::UVec3 {
                    fuse();
                    lay::UVec3 { x: *self.0, y: *self.0 + 1, z: *self.0 + 2, ..bytemuck::Zeroable::zeroed() }
                }
                fn $from(v: lay::UVec3) -> Self {
                    Costly(Box::new(v.x))
                }
            }
            /// composed by the user
            struct Both(f32, Vec<u32>);
            impl $write for Both {
                fn $wm<W: Write>(&self, w: &mut Writer<W>) -> std::io::Result<usize> {
                    let at = w.write(&self.0)?;
                    fuse();
                    w.write(&self.1[..])?;
                    Ok(at)
                }
                fn $size(&self) -> usize {
                    4 + 4 * self.1.len()
                }
            }

            type Op = (&'static str, usize, fn(&mut Writer<Any<'_>>) -> std::io::Result<usize>, fn() -> Vec<Item>);

            fn items<S: Shape>(desc: &'static str, n: usize) -> Vec<Item> {
                (0..n).map(|i| kept(desc, $layout, i).1.clone()).collect()
            }
            fn vals<S: Shape>(desc: &'static str, n: usize) -> Vec<S> {
                (0..n).map(|i| make::<S>(&kept(desc, $layout, i).0)).collect()
            }
            fn words(w: &[u32]) -> Vec<u8> {
                w.iter().flat_map(|w| w.to_ne_bytes()).collect()
            }

            const OPS: &[Op] = &[
                ("f32", 1, |w| w.write(&vals::<f32>("float", 1)[0]), || items::<f32>("float", 1)),
                ("bool", 1, |w| w.write(&vals::<bool>("bool", 2)[1]), || items::<bool>("bool", 2)[1..].to_vec()),
                ("dvec3", 1, |w| w.write(&vals::<mint::Vector3<f64>>("dvec3", 1)[0]), || items::<f32>("dvec3", 1)),
                ("D", 1, |w| w.write(&vals::<D>("D{a:float,b:bool,c:vec3}", 1)[0]), || items::<D>("D{a:float,b:bool,c:vec3}", 1)),
                ("[D; 3]", 3, |w| w.write(&vals::<D>("D{a:float,b:bool,c:vec3}", 3)[..]), || items::<D>("D{a:float,b:bool,c:vec3}", 3)),
                ("D iter 2", 2, |w| w.write_iter(vals::<D>("D{a:float,b:bool,c:vec3}", 2).into_iter().filter(|_| true)), || {
                    items::<D>("D{a:float,b:bool,c:vec3}", 2)
                }),
                ("[f32; 0]", 0, |w| w.write(&[0f32; 0][..]), || vec![]),
                ("mat3 direct", 1, |w| w.$wm(&vals::<mint::ColumnMatrix3<f32>>("mat3", 1)[0].$to()), || items::<f32>("mat3", 1)),
                ("[Costly; 2]", 2, |w| w.write(&[Costly(Box::new(5)), Costly(Box::new(50))][..]), || {
                    vec![(16, words(&[5, 6, 7])), (16, words(&[50, 51, 52]))]
                }),
                ("Costly iter 3", 3, |w| w.write_iter((0..3).map(|i| Costly(Box::new(i)))), || {
                    (0..3).map(|i| (16, words(&[i, i + 1, i + 2]))).collect()
                }),
                ("[Both; 2]", 2, |w| w.write(&[Both(1.0, vec![1, 2]), Both(2.0, vec![])][..]), || {
                    vec![(4, words(&[1f32.to_bits()])), (4, words(&[1, 2])), (4, words(&[2f32.to_bits()]))]
                }),
            ];

            /// The stream of operations, and where each begins and ends.
            fn stream(ops: &[usize]) -> (Vec<u8>, Vec<(usize, usize)>) {
                let mut out = Vec::new();
                let mut at = vec![];
                for o in ops {
                    let items = OPS[*o].3();
                    let mut first = None;
                    for (a, b) in items {
                        let n = up(out.len(), a);
                        out.resize(n, 0);
                        first.get_or_insert(n);
                        out.extend(b);
                    }
                    at.push((first.unwrap_or(out.len()), out.len()));
                }
                (out, at)
            }

            pub fn $f(part: usize, parts: usize, tier: &str) {
                let deep = tier == "thorough";
                let n = OPS.len();
                let mut k = 0;
                // on further hosts, half of the operations
                let some: Vec<usize> = (0..n).filter(|i| tier != "brief" || [1, 2, 3, 4, 8, 10].contains(i)).collect();
                for a in some.iter().copied() {
                    for b in some.iter().copied() {
                        k += 1;
                        if k % parts != part {
                            continue;
                        }
                        let ops = [a, b, (a + b) % n];
                        let what = format!("[{}] {}", stringify!($l), ops.map(|o| OPS[o].0).join(", "));
                        begin(&what);
                        let (want, at) = stream(&ops);
                        for mode in [Mode::All, Mode::Bytes] {
                            let mut out = Vec::new();
                            let mut w = Writer::new(Any { out: &mut out, mode, calls: 0 });
                            for (o, at) in ops.iter().zip(&at) {
                                if OPS[*o].2(&mut w).ok() != Some(at.0) || w.len() != at.1 {
                                    bad(&what, "offset or length");
                                }
                            }
                            drop(w);
                            if out != want {
                                bad(&what, "stream");
                            }
                        }
                        // cut short at some byte of the second operation, or by the caller's code
                        let (lo, hi) = (at[0].1, at[1].1);
                        let cuts: Vec<usize> = if deep { (lo..hi).collect() } else { [lo, lo + 1, at[1].0, at[1].0 + 2, hi.saturating_sub(1)].into_iter().filter(|c| (lo..hi).contains(c)).collect() };
                        let mut faults: Vec<(Mode, usize)> = cuts.iter().flat_map(|c| [(Mode::Fail(*c), usize::MAX), (Mode::Panic(*c), usize::MAX)]).collect();
                        faults.extend((0..if deep { 4 } else { 2 }).map(|f| (Mode::All, f)));
                        for (mode, f) in faults {
                            let mut out = Vec::new();
                            let mut w = Writer::new(Any { out: &mut out, mode, calls: 0 });
                            FUSE.set(f);
                            for o in &ops {
                                match catch_unwind(AssertUnwindSafe(|| OPS[*o].2(&mut w))) {
                                    Ok(Ok(_)) => {}
                                    _ => break,
                                }
                            }
                            FUSE.set(usize::MAX);
                            let n = w.len();
                            drop(w);
                            if n > out.len() || want[..out.len()] != out[..] {
                                bad(&what, &format!("stream of {mode:?}, {f}"));
                            }
                        }
                    }
                }
            }

            /// Objects used on several threads at once, and moved between them.
            pub fn threads() {
                begin(concat!(stringify!($l), " on several threads"));
                let mut w = Writer::new(Vec::<u8>::new());
                w.write(&1f32).unwrap();
                let shared = std::sync::Arc::new(vals::<D>("D{a:float,b:bool,c:vec3}", 3));
                let hs: Vec<_> = (0..3)
                    .map(|i| {
                        let d = shared.clone();
                        std::thread::spawn(move || {
                            let mut out = Vec::new();
                            let mut w = Writer::new(&mut out);
                            let mut s = lay::Sizer::new();
                            for _ in 0..2 {
                                w.write(&d[i]).unwrap();
                                s.add::<D>();
                                w.write(&d[..]).unwrap();
                                w.write_iter((0..2).map(|i| Costly(Box::new(i)))).unwrap();
                                let back = D::$from(d[i].$to());
                                assert!(back.a == d[i].a && D::$ssize() == 32 && d[..].$size() == 96);
                            }
                            (out.len(), s.len())
                        })
                    })
                    .collect();
                w.write(&2f32).unwrap();
                let go = crate::indep::Sent(move || {
                    w.write(&3f32).unwrap();
                    w.len()
                });
                let h = std::thread::spawn(move || go.call());
                let got: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                if h.join().unwrap() != 12 || got.iter().any(|g| *g != got[0]) {
                    bad(stringify!($l), "threads");
                }
            }
        }
    };
}
histories!(run, std140, Layout::Std140, AsStd140, WriteStd140, as_std140, from_std140, write_std140, std140_size_static, std140_size);
histories!(run, std430, Layout::Std430, AsStd430, WriteStd430, as_std430, from_std430, write_std430, std430_size_static, std430_size);

#[derive(crevice::glsl::GlslStruct)]
#[allow(dead_code)]
struct G {
    a: f32,
    b: mint::Vector3<f64>,
}

/// `mcsound <tier> <what> <part> <parts>`
pub fn main(tier: &str, what: &str, part: usize, parts: usize) {
    quiet_panics();
    match what {
        "types" => {
            for (i, e) in crate::builtin::entries().into_iter().enumerate() {
                if i % parts == part {
                    (e.sound)();
                }
            }
            #[cfg(feature = "math")]
            crate::math::sounds(part, parts, tier != "brief");
        }
        "histories" => {
            std140::run(part, parts, tier);
            std430::run(part, parts, tier);
            if part == 0 {
                std140::threads();
                std430::threads();
                begin("GLSL declaration");
                let t = <G as crevice::glsl::GlslStruct>::glsl_definition();
                if !t.contains("dvec3") {
                    bad("GLSL declaration", &t);
                }
            }
        }
        _ => panic!("{what}"),
    }
    done();
}
