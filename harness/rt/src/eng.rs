//! Writer / Sizer engine: types and operations, erased over both layouts.

use crate::*;
use crevice::{std140, std430};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

// ------------------------------------------------------------------- sink --

/// What the environment answers to one `write` call.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ans {
    All,
    Short(usize),
    Interrupted,
    Zero,
    Err(io::ErrorKind),
}

#[derive(Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    /// lengths of the buffers offered, one per `write` call
    pub calls: Vec<usize>,
    /// (call number, answer), ascending; every other call accepts everything
    pub script: Vec<(usize, Ans)>,
    /// accepts only this many bytes in total (like `&mut [u8]`)
    pub cap: Option<usize>,
    /// accepts at most this many bytes per call
    pub max: Option<usize>,
    /// is interrupted this many times before every other answer
    pub intr: usize,
    pub intr_left: Option<usize>,
    /// takes all buffers of a vectored write, not only the first
    pub vectored: bool,
    /// script entries consumed
    pub consumed: usize,
}

#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Sink {
    pub fn with_script(script: &[(usize, Ans)]) -> Sink {
        let s = Sink::default();
        s.0.borrow_mut().script = script.to_vec();
        s
    }
    pub fn len(&self) -> usize {
        self.0.borrow().data.len()
    }
    pub fn tail(&self, from: usize) -> Vec<u8> {
        self.0.borrow().data[from..].to_vec()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let s = &mut *self.0.borrow_mut();
        // a writer gone wild must not take the machine down with it
        assert!(s.data.len() < 512 << 20 && s.calls.len() < 128 << 20, "the writer emits without end");
        let n = s.calls.len();
        s.calls.push(buf.len());
        if s.intr > 0 {
            let left = s.intr_left.unwrap_or(s.intr);
            if left > 0 {
                s.intr_left = Some(left - 1);
                return Err(io::ErrorKind::Interrupted.into());
            }
            s.intr_left = None;
        }
        let a = match s.script.iter().find(|(i, _)| *i == n) {
            Some(x) => {
                s.consumed += 1;
                x.1
            }
            None => Ans::All,
        };
        let most = s.max.unwrap_or(usize::MAX);
        let room = s.cap.map(|c| c.saturating_sub(s.data.len())).unwrap_or(usize::MAX).min(most);
        let a = if a == Ans::All && room < buf.len() { Ans::Short(room) } else { a };
        match a {
            Ans::All => {
                s.data.extend_from_slice(buf);
                Ok(buf.len())
            }
            Ans::Short(k) => {
                let k = k.min(buf.len());
                s.data.extend_from_slice(&buf[..k]);
                Ok(k)
            }
            Ans::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Ans::Zero => Ok(0),
            Ans::Err(k) => Err(k.into()),
        }
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        if self.0.borrow().vectored {
            return self.write(&bufs.iter().flat_map(|b| b.iter().copied()).collect::<Vec<u8>>());
        }
        self.write(bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub enum LW {
    A(std140::Writer<Sink>),
    B(std430::Writer<Sink>),
}
impl LW {
    pub fn new(l: Layout, s: Sink) -> LW {
        match l {
            Layout::Std140 => LW::A(std140::Writer::new(s)),
            Layout::Std430 => LW::B(std430::Writer::new(s)),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            LW::A(w) => w.len(),
            LW::B(w) => w.len(),
        }
    }
}

pub enum LS {
    A(std140::Sizer),
    B(std430::Sizer),
}
impl LS {
    pub fn new(l: Layout) -> LS {
        match l {
            Layout::Std140 => LS::A(std140::Sizer::new()),
            Layout::Std430 => LS::B(std430::Sizer::new()),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            LS::A(w) => w.len(),
            LS::B(w) => w.len(),
        }
    }
}

// ------------------------------------------------------------------ types --

/// How a value (or batch) is handed to the writer.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum How {
    /// `writer.write(&value)`
    One,
    /// `writer.write_std140(&converted)`
    Direct,
    /// `writer.write(&slice[..])`
    Slice,
    /// `writer.write_iter(..)`, with an iterator of the given behaviour
    Iter(Hint),
    /// `writer.write_slice(..)` (std140 only)
    WriteSlice,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Hint {
    /// a `Vec`
    Exact,
    /// size_hint (0, None)
    Unknown,
    /// size_hint (0, Some(usize::MAX))
    Loose,
    /// yields its items, `None`, and then items again (like `mpsc::TryIter`)
    Unfused,
    /// `None` at first, items only afterwards
    NoneFirst,
}

struct It<T> {
    v: std::vec::IntoIter<T>,
    h: Hint,
    more: Vec<T>,
}
impl<T> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.v.next();
        if x.is_none() && !self.more.is_empty() {
            self.v = std::mem::take(&mut self.more).into_iter();
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.h {
            Hint::Exact => self.v.size_hint(),
            Hint::Loose => (0, Some(usize::MAX)),
            _ => (0, None),
        }
    }
}

pub type Vals<'a> = &'a [Vec<u64>];

#[derive(Clone, Copy)]
pub struct TyFns {
    pub align: usize,
    pub write: fn(&mut LW, How, Vals) -> io::Result<usize>,
    pub add: fn(&mut LS) -> usize,
    /// per-value size query of a single value
    pub size_val: fn(&[u64]) -> usize,
    /// per-value size query of a slice
    pub size_slice: fn(Vals) -> usize,
    pub size_static: fn() -> usize,
    /// leaf bits -> bytes of the converted value
    pub enc: fn(&[u64]) -> Vec<u8>,
    /// leaf bits -> convert -> back
    pub trip: fn(&[u64]) -> Vec<u64>,
    pub from_bytes: fn(&[u8]) -> Vec<u64>,
}

#[derive(Clone)]
pub struct TyDef {
    pub name: String,
    pub ty: Ty,
    pub f: TyFns,
}

macro_rules! erase {
    ($f:ident, $w:ident, $m:ident, $As:ident, $Std:ident, $WriteTr:ident, $to:ident, $from:ident, $size:ident,
     $size_static:ident, $direct:ident, $arm:ident, $ws:expr) => {
        fn $w<T: Shape + crevice::$m::$As>(lw: &mut LW, how: How, v: Vals) -> io::Result<usize> {
            let LW::$arm(w) = lw else { unreachable!() };
            match how {
                How::One => w.write(&make::<T>(&v[0])),
                How::Direct => w.$direct(&make::<T>(&v[0]).$to()),
                How::Slice => {
                    let v: Vec<T> = v.iter().map(|b| make::<T>(b)).collect();
                    w.write(&v[..])
                }
                How::Iter(h) => {
                    let x: Vec<T> = v.iter().map(|b| make::<T>(b)).collect();
                    let again = || -> Vec<T> { v.iter().map(|b| make::<T>(b)).collect() };
                    match h {
                        Hint::Exact => w.write_iter(x),
                        Hint::Unfused => w.write_iter(It { v: x.into_iter(), h, more: again() }),
                        Hint::NoneFirst => w.write_iter(It { v: Vec::new().into_iter(), h, more: x }),
                        _ => w.write_iter(It { v: x.into_iter(), h, more: Vec::new() }),
                    }
                }
                How::WriteSlice => {
                    let x: Vec<T> = v.iter().map(|b| make::<T>(b)).collect();
                    let f: fn(&mut crevice::$m::Writer<Sink>, &[T]) -> io::Result<usize> = $ws;
                    f(w, &x)
                }
            }
        }
        pub fn $f<T: Shape + crevice::$m::$As>() -> TyFns {
            use crevice::$m::{$Std, $WriteTr};
            TyFns {
                align: <T::Output as $Std>::ALIGNMENT,
                write: $w::<T>,
                add: |s| {
                    let LS::$arm(s) = s else { unreachable!() };
                    s.add::<T>()
                },
                size_val: |b| $WriteTr::$size(&make::<T>(b)),
                size_slice: |v| {
                    let v: Vec<T> = v.iter().map(|b| make::<T>(b)).collect();
                    $WriteTr::$size(&v[..])
                },
                size_static: || T::$size_static(),
                enc: |b| $Std::as_bytes(&make::<T>(b).$to()).to_vec(),
                trip: |b| leaves_of(&T::$from(make::<T>(b).$to())),
                from_bytes: |b| leaves_of(&T::$from(bytemuck::pod_read_unaligned::<T::Output>(b))),
            }
        }
    };
}
#[allow(deprecated)]
mod er {
    use super::*;
    erase!(e140, w140, std140, AsStd140, Std140, WriteStd140, as_std140, from_std140, std140_size,
        std140_size_static, write_std140, A, |w, x| w.write_slice(x));
    erase!(e430, w430, std430, AsStd430, Std430, WriteStd430, as_std430, from_std430, std430_size,
        std430_size_static, write_std430, B, |w, x| w.write(x));
}
pub use er::{e140, e430};

pub use crate::Blob;

/// A few derived structs for histories.
pub mod structs {
    use crate::{Shape, Src};
    use crevice::{std140::AsStd140, std430::AsStd430};
    macro_rules! st {
        ($($n:ident { $($f:ident: $t:ty),* })*) => { $(
            #[derive(AsStd140, AsStd430)]
            pub struct $n { $(pub $f: $t),* }
            impl Shape for $n {
                #[allow(unused_variables)]
                fn make(s: &mut Src) -> Self { $n { $($f: Shape::make(s)),* } }
                #[allow(unused_variables)]
                fn leaves(&self, o: &mut Vec<u64>) { $(self.$f.leaves(o);)* }
            }
        )* };
    }
    st! {
        SA { a: f32 }
        SB { a: mint::Vector3<f32>, b: mint::Vector2<f32> }
        SC { a: f64, b: bool }
        SD { a: SB, b: mint::Vector3<f64>, c: SA }
        SE { a: u32, b: u32, c: u32 }
        SF { a: mint::ColumnMatrix3<f32>, b: bool }
        SN { }
    }
    #[derive(AsStd140)]
    pub struct SDyn {
        pub a: f32,
        pub b: crevice::std140::DynamicUniform<mint::Vector2<f32>>,
    }
    impl Shape for SDyn {
        fn make(s: &mut Src) -> Self {
            SDyn { a: Shape::make(s), b: Shape::make(s) }
        }
        fn leaves(&self, o: &mut Vec<u64>) {
            self.a.leaves(o);
            self.b.leaves(o);
        }
    }
}

pub fn types(l: Layout) -> Vec<TyDef> {
    let mut v: Vec<TyDef> = Vec::new();
    macro_rules! t {
        ($d:expr, $t:ty) => {{
            let f = match l {
                Layout::Std140 => e140::<$t>(),
                Layout::Std430 => e430::<$t>(),
            };
            v.push(TyDef { name: stringify!($t).replace(' ', ""), ty: Ty::decode($d), f });
        }};
    }
    macro_rules! t140 {
        ($d:expr, $t:ty) => {{
            if l == Layout::Std140 {
                v.push(TyDef { name: stringify!($t).replace(' ', ""), ty: Ty::decode($d), f: e140::<$t>() });
            }
        }};
    }
    use mint::*;
    use structs::*;
    t!("float", f32);
    t!("double", f64);
    t!("int", i32);
    t!("uint", u32);
    t!("bool", bool);
    t!("vec2", Vector2<f32>);
    t!("vec3", Vector3<f32>);
    t!("vec4", Vector4<f32>);
    t!("dvec2", Vector2<f64>);
    t!("dvec3", Vector3<f64>);
    t!("dvec4", Vector4<f64>);
    t!("ivec2", Vector2<i32>);
    t!("ivec3", Vector3<i32>);
    t!("ivec4", Vector4<i32>);
    t!("uvec2", Vector2<u32>);
    t!("uvec3", Vector3<u32>);
    t!("uvec4", Vector4<u32>);
    t!("bvec2", Vector2<bool>);
    t!("bvec3", Vector3<bool>);
    t!("bvec4", Vector4<bool>);
    t!("mat2", ColumnMatrix2<f32>);
    t!("mat3", ColumnMatrix3<f32>);
    t!("mat4", ColumnMatrix4<f32>);
    t!("dmat2", ColumnMatrix2<f64>);
    t!("dmat3", ColumnMatrix3<f64>);
    t!("dmat4", ColumnMatrix4<f64>);
    t!("vec2", Point2<f32>);
    t!("vec3", Point3<f32>);
    t!("SA{a:float}", SA);
    t!("SB{a:vec3,b:vec2}", SB);
    t!("SC{a:double,b:bool}", SC);
    t!("SD{a:SB{a:vec3,b:vec2},b:dvec3,c:SA{a:float}}", SD);
    t!("SE{a:uint,b:uint,c:uint}", SE);
    t!("SF{a:mat3,b:bool}", SF);
    t!("SN{}", SN);
    t!("#1x0", Blob<1, 0>);
    t!("#1x4", Blob<1, 1>);
    t!("#2x4", Blob<2, 1>);
    t!("#4x12", Blob<4, 3>);
    t!("#64x0", Blob<64, 0>);
    t!("#64x4", Blob<64, 1>);
    t!("#128x132", Blob<128, 33>);
    t!("#256x4", Blob<256, 1>);
    t!("#512x8", Blob<512, 2>);
    t!("#1024x20", Blob<1024, 5>);
    t140!("@float", std140::DynamicUniform<f32>);
    t140!("@bool", std140::DynamicUniform<bool>);
    t140!("@dvec3", std140::DynamicUniform<Vector3<f64>>);
    t140!("@mat3", std140::DynamicUniform<ColumnMatrix3<f32>>);
    t140!("@SB{a:vec3,b:vec2}", std140::DynamicUniform<SB>);
    t140!("@SD{a:SB{a:vec3,b:vec2},b:dvec3,c:SA{a:float}}", std140::DynamicUniform<SD>);
    t140!("@@float", std140::DynamicUniform<std140::DynamicUniform<f32>>);
    t140!("@#512x8", std140::DynamicUniform<Blob<512, 2>>);
    t140!("@#1024x20", std140::DynamicUniform<Blob<1024, 5>>);
    t140!("@#64x0", std140::DynamicUniform<Blob<64, 0>>);
    t140!("@SDyn{a:float,b:@vec2}", std140::DynamicUniform<SDyn>);
    t140!("SDyn{a:float,b:@vec2}", SDyn);
    v
}

/// The layout types themselves (written without conversion).
pub fn std_types(l: Layout) -> Vec<TyDef> {
    let mut v: Vec<TyDef> = Vec::new();
    macro_rules! t {
        ($($n:ident)*) => { $(
            match l {
                Layout::Std140 => v.push(TyDef {
                    name: concat!("std140::", stringify!($n)).into(),
                    ty: Ty::decode(&stringify!($n).to_lowercase()),
                    f: e140::<std140::$n>(),
                }),
                Layout::Std430 => v.push(TyDef {
                    name: concat!("std430::", stringify!($n)).into(),
                    ty: Ty::decode(&stringify!($n).to_lowercase()),
                    f: e430::<std430::$n>(),
                }),
            }
        )* };
    }
    t!(Bool Vec2 Vec3 Vec4 DVec2 DVec3 DVec4 IVec2 IVec3 IVec4 UVec2 UVec3 UVec4 BVec2 BVec3 BVec4
       Mat2 Mat3 Mat4 DMat2 DMat3 DMat4);
    v
}

// -------------------------------------------------------------- operations --

#[derive(Clone)]
pub struct Op {
    pub t: TyDef,
    pub how: How,
    pub n: usize,
    pub fill: Fill,
}

/// The values an operation writes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fill {
    /// all bytes non-zero and different from their neighbours
    Distinct,
    /// every component zero (false)
    Zeros,
    /// every bit set (true)
    Ones,
}

impl Op {
    pub fn new(t: &TyDef, how: How, n: usize) -> Op {
        Op { t: t.clone(), how, n, fill: Fill::Distinct }
    }
    pub fn with(mut self, fill: Fill) -> Op {
        self.fill = fill;
        self
    }
    pub fn name(&self) -> String {
        let t = &self.t.name;
        let s = match self.how {
            How::One => format!("write({t})"),
            How::Direct => format!("write_std({t})"),
            How::Slice => format!("write([{t};{}])", self.n),
            How::Iter(h) => format!("write_iter({t}x{} {h:?})", self.n),
            How::WriteSlice => format!("write_slice([{t};{}])", self.n),
        };
        match self.fill {
            Fill::Distinct => s,
            f => format!("{s} {f:?}"),
        }
    }
    pub fn vals(&self, salt: usize) -> Vec<Vec<u64>> {
        let scs = self.t.ty.scalars();
        (0..self.n)
            .map(|k| {
                scs.iter()
                    .enumerate()
                    .map(|(i, s)| match (self.fill, s) {
                        (Fill::Distinct, _) => mcmodel::base_bits(*s, i + 5 * k, salt),
                        (Fill::Zeros, _) => 0,
                        (Fill::Ones, Sc::Bool) => 1,
                        (Fill::Ones, Sc::F64) => u64::MAX,
                        (Fill::Ones, _) => u32::MAX as u64,
                    })
                    .collect()
            })
            .collect()
    }
    pub fn batch(&self) -> bool {
        !matches!(self.how, How::One | How::Direct)
    }
}

/// A model outcome of an operation: returned offset and bytes emitted.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub ret: usize,
    pub emitted: Vec<u8>,
    /// value ranges, relative to the stream start
    pub ranges: Vec<(usize, usize)>,
}

/// Items one at a time.
pub fn packed(l: Layout, t: &Ty, len: usize, vals: Vals) -> Out {
    let mut out = Vec::new();
    let mut ret = len;
    let mut ranges = Vec::new();
    for (i, b) in vals.iter().enumerate() {
        let at = mcmodel::round_up(len + out.len(), t.align(l));
        out.resize(at - len, 0);
        if i == 0 {
            ret = at;
        }
        out.extend_from_slice(&t.image(l, b));
        ranges.push((at, len + out.len()));
    }
    Out { ret, emitted: out, ranges }
}

/// As a GLSL array of that element type.
pub fn arrayed(l: Layout, t: &Ty, len: usize, vals: Vals) -> Out {
    if vals.is_empty() {
        return Out { ret: len, emitted: vec![], ranges: vec![] };
    }
    let a = Ty::Array(Box::new(t.clone()), vals.len());
    let at = mcmodel::round_up(len, a.align(l));
    let stride = mcmodel::array_stride(t, l);
    let mut out = vec![0; at - len];
    let mut ranges = Vec::new();
    for b in vals {
        let st = out.len();
        out.extend_from_slice(&t.image(l, b));
        ranges.push((len + st, len + out.len()));
        out.resize(st + stride, 0);
    }
    Out { ret: at, emitted: out, ranges }
}

/// Acceptable outcomes.  A slice may be laid out element by element or as the
/// GLSL array (which of the two is decided by property C17).
pub fn expected(l: Layout, op: &Op, len: usize, vals: Vals) -> Vec<Out> {
    let vals: Vals = if op.how == How::Iter(Hint::NoneFirst) { &[] } else { vals };
    let mut v = vec![packed(l, &op.t.ty, len, vals)];
    if matches!(op.how, How::Slice | How::WriteSlice) {
        v.push(arrayed(l, &op.t.ty, len, vals));
    }
    v
}
