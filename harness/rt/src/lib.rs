//! Harness runtime: builds values of crevice-supported types from bit
//! patterns, drives the real conversions and compares with `mcmodel`.

pub use bytemuck;
pub use crevice;
pub use mcmodel;
pub use mcmodel::{Layout, Sc, Ty};
pub use mint;
#[cfg(feature = "math")]
pub use {cgmath, glam, nalgebra};

use crevice::std140::{AsStd140, Std140};
use crevice::std430::{AsStd430, Std430};

#[cfg(feature = "std")]
pub mod glsl;
#[cfg(feature = "std")]
pub mod builtin;
pub mod config;
#[cfg(feature = "std")]
pub mod eng;
#[cfg(all(feature = "std", feature = "math"))]
pub mod math;
#[cfg(feature = "std")]
pub mod faults;
#[cfg(feature = "std")]
pub mod indep;
#[cfg(feature = "std")]
pub mod unwind;
#[cfg(feature = "std")]
pub mod sound;
pub mod structs;
#[cfg(feature = "std")]
pub mod writer;

/// Source of leaf bit patterns.
pub struct Src<'a> {
    pub bits: &'a [u64],
    pub pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(bits: &'a [u64]) -> Self {
        Src { bits, pos: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let v = self.bits[self.pos];
        self.pos += 1;
        v
    }
}

/// A value that can be built from, and taken apart into, scalar leaf bits in
/// declaration (for matrices: column-major) order.
pub trait Shape: Sized {
    fn make(s: &mut Src) -> Self;
    fn leaves(&self, o: &mut Vec<u64>);
}

pub fn make<S: Shape>(bits: &[u64]) -> S {
    let mut s = Src::new(bits);
    let v = S::make(&mut s);
    assert_eq!(s.pos, bits.len(), "harness: leaf count");
    v
}

pub fn leaves_of<S: Shape>(s: &S) -> Vec<u64> {
    let mut o = Vec::new();
    s.leaves(&mut o);
    o
}

/// Scalar leaf: identified with its bits.
pub trait Scalar: Copy {
    const SC: Sc;
    fn from_b(b: u64) -> Self;
    fn to_b(self) -> u64;
}
macro_rules! scalar {
    ($($t:ty, $sc:expr, $from:expr, $to:expr;)*) => { $(
        impl Scalar for $t {
            const SC: Sc = $sc;
            #[inline]
            fn from_b(b: u64) -> Self { let f: fn(u64) -> $t = $from; f(b) }
            #[inline]
            fn to_b(self) -> u64 { let f: fn($t) -> u64 = $to; f(self) }
        }
        impl Shape for $t {
            fn make(s: &mut Src) -> Self { <$t as Scalar>::from_b(s.next()) }
            fn leaves(&self, o: &mut Vec<u64>) { o.push(self.to_b()) }
        }
    )* };
}
scalar! {
    f32, Sc::F32, |b| f32::from_bits(b as u32), |x| x.to_bits() as u64;
    f64, Sc::F64, f64::from_bits, |x| x.to_bits();
    i32, Sc::I32, |b| b as u32 as i32, |x| x as u32 as u64;
    u32, Sc::U32, |b| b as u32, |x| x as u64;
    bool, Sc::Bool, |b| { assert!(b < 2); b == 1 }, |x| x as u64;
    // The layout type of a boolean, read back through its public conversion.
    crevice::std140::Bool, Sc::Bool, |b| { assert!(b < 2); (b == 1).into() }, |x| bool::from(x) as u64;
}

macro_rules! fields_shape {
    ($( [$($g:ident: $b:path)?] $t:ty { $($f:ident),* } )*) => { $(
        impl $(<$g: $b>)? Shape for $t {
            #[allow(clippy::needless_update)]
            fn make(s: &mut Src) -> Self { $( let $f = Shape::make(s); )* Self { $($f),* } }
            fn leaves(&self, o: &mut Vec<u64>) { $( self.$f.leaves(o); )* }
        }
    )* };
}
macro_rules! mint_shape {
    ($($s:ty),*) => { $(
        fields_shape! {
            [] mint::Vector2<$s> { x, y }
            [] mint::Vector3<$s> { x, y, z }
            [] mint::Vector4<$s> { x, y, z, w }
            [] mint::Point2<$s> { x, y }
            [] mint::Point3<$s> { x, y, z }
        }
    )* };
}
mint_shape!(f32, f64, i32, u32, bool);
macro_rules! mint_mat {
    ($($s:ty),*) => { $(
        fields_shape! {
            [] mint::ColumnMatrix2<$s> { x, y }
            [] mint::ColumnMatrix3<$s> { x, y, z }
            [] mint::ColumnMatrix4<$s> { x, y, z, w }
        }
    )* };
}
mint_mat!(f32, f64);

macro_rules! std_types {
    ($m:ident) => {
        pub mod $m {
            use crate::{Shape, Src};
            use crevice::$m::*;
            fields_shape! {
                [] Vec2 { x, y }  [] Vec3 { x, y, z }  [] Vec4 { x, y, z, w }
                [] DVec2 { x, y } [] DVec3 { x, y, z } [] DVec4 { x, y, z, w }
                [] IVec2 { x, y } [] IVec3 { x, y, z } [] IVec4 { x, y, z, w }
                [] UVec2 { x, y } [] UVec3 { x, y, z } [] UVec4 { x, y, z, w }
                [] BVec2 { x, y } [] BVec3 { x, y, z } [] BVec4 { x, y, z, w }
            }
            // Matrices have private padding members: build them zeroed and
            // assign the public columns.
            macro_rules! mats {
                ($t2:ident, $t3:ident, $t4:ident) => {
                    impl Shape for $t2 {
                        fn make(s: &mut Src) -> Self {
                            let mut m: Self = bytemuck::Zeroable::zeroed();
                            m.x = Shape::make(s);
                            m.y = Shape::make(s);
                            m
                        }
                        fn leaves(&self, o: &mut Vec<u64>) { self.x.leaves(o); self.y.leaves(o); }
                    }
                    impl Shape for $t3 {
                        fn make(s: &mut Src) -> Self {
                            let mut m: Self = bytemuck::Zeroable::zeroed();
                            m.x = Shape::make(s);
                            m.y = Shape::make(s);
                            m.z = Shape::make(s);
                            m
                        }
                        fn leaves(&self, o: &mut Vec<u64>) { self.x.leaves(o); self.y.leaves(o); self.z.leaves(o); }
                    }
                    impl Shape for $t4 {
                        fn make(s: &mut Src) -> Self {
                            let mut m: Self = bytemuck::Zeroable::zeroed();
                            m.x = Shape::make(s);
                            m.y = Shape::make(s);
                            m.z = Shape::make(s);
                            m.w = Shape::make(s);
                            m
                        }
                        fn leaves(&self, o: &mut Vec<u64>) {
                            self.x.leaves(o); self.y.leaves(o); self.z.leaves(o); self.w.leaves(o);
                        }
                    }
                };
            }
            mats!(Mat2, Mat3, Mat4);
            mats!(DMat2, DMat3, DMat4);
        }
    };
}
std_types!(std140);
std_types!(std430);

impl<T: Shape> Shape for crevice::std140::DynamicUniform<T> {
    fn make(s: &mut Src) -> Self {
        crevice::std140::DynamicUniform(T::make(s))
    }
    fn leaves(&self, o: &mut Vec<u64>) {
        self.0.leaves(o)
    }
}

impl<T: Shape, const N: usize> Shape for [T; N] {
    fn make(s: &mut Src) -> Self {
        core::array::from_fn(|_| T::make(s))
    }
    fn leaves(&self, o: &mut Vec<u64>) {
        for x in self {
            x.leaves(o);
        }
    }
}

/// What a type does under one layout, as plain functions on bits and bytes.
#[derive(Clone, Copy)]
pub struct Fns {
    pub align: usize,
    pub size_of: usize,
    pub size_static: fn() -> usize,
    /// leaf bits -> bytes of the converted value
    pub enc: fn(&[u64]) -> Vec<u8>,
    /// bytes (any address) -> leaf bits of the value read back
    pub dec: fn(&[u8]) -> Vec<u64>,
    /// leaf bits -> convert -> convert back -> leaf bits
    pub trip: fn(&[u64]) -> Vec<u64>,
    /// bytes -> converted value -> bytes
    pub pod: fn(&[u8]) -> Vec<u8>,
}

macro_rules! fns {
    ($f:ident, $as:ident, $std:ident, $to:ident, $from:ident, $size:ident) => {
        pub fn $f<S: Shape + $as>() -> Fns {
            Fns {
                align: <S::Output as $std>::ALIGNMENT,
                size_of: core::mem::size_of::<S::Output>(),
                size_static: S::$size,
                enc: |b| $std::as_bytes(&make::<S>(b).$to()).to_vec(),
                dec: |b| leaves_of(&S::$from(bytemuck::pod_read_unaligned::<S::Output>(b))),
                trip: |b| leaves_of(&S::$from(make::<S>(b).$to())),
                pod: |b| bytemuck::bytes_of(&bytemuck::pod_read_unaligned::<S::Output>(b)).to_vec(),
            }
        }
    };
}
fns!(f140, AsStd140, Std140, as_std140, from_std140, std140_size_static);
fns!(f430, AsStd430, Std430, as_std430, from_std430, std430_size_static);

/// GLSL view of a struct.
#[cfg(feature = "std")]
#[derive(Clone)]
pub struct GlslView {
    pub name: &'static str,
    pub fields: Vec<(&'static str, &'static str)>,
    pub text: String,
}
#[cfg(feature = "std")]
pub fn glsl_view<S: crevice::glsl::GlslStruct>() -> GlslView {
    GlslView {
        name: S::NAME,
        fields: S::FIELDS.iter().map(|f| (f.ty, f.name)).collect(),
        text: S::glsl_definition(),
    }
}

/// One type under test.
#[derive(Clone)]
pub struct Entry {
    pub desc: &'static str,
    pub l140: Option<Fns>,
    pub l430: Option<Fns>,
    /// bytes through the inherent accessor of generated structs
    pub inh140: Option<fn(&[u64]) -> Vec<u8>>,
    pub inh430: Option<fn(&[u64]) -> Vec<u8>>,
    /// the derive's introspection: metrics, definitions
    pub dbg140: Option<(fn() -> String, fn() -> &'static str)>,
    pub dbg430: Option<(fn() -> String, fn() -> &'static str)>,
    #[cfg(feature = "std")]
    pub glsl: Option<fn() -> GlslView>,
    pub src: &'static str,
}

impl Entry {
    pub fn new(desc: &'static str, src: &'static str) -> Entry {
        Entry {
            desc,
            src,
            l140: None,
            l430: None,
            inh140: None,
            inh430: None,
            dbg140: None,
            dbg430: None,
            #[cfg(feature = "std")]
            glsl: None,
        }
    }
    pub fn views(&self) -> Vec<(Layout, Fns, Option<fn(&[u64]) -> Vec<u8>>)> {
        let mut v = Vec::new();
        if let Some(f) = self.l140 {
            v.push((Layout::Std140, f, self.inh140));
        }
        if let Some(f) = self.l430 {
            v.push((Layout::Std430, f, self.inh430));
        }
        v
    }
}

/// Overwrite a stretch of stack below the caller's frame with a non-zero
/// pattern, so that any uninitialised byte read later shows.
#[inline(never)]
pub fn dirty_stack(pat: u8) {
    let mut a = [0u8; 24 * 1024];
    for x in a.iter_mut() {
        unsafe { core::ptr::write_volatile(x, pat) };
    }
    std::hint::black_box(&a);
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        format!("panicked: {m}")
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Harness-defined layout type of arbitrary alignment and size.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Blob<const A: usize, const N: usize>(pub [u32; N]);
unsafe impl<const A: usize, const N: usize> bytemuck::Zeroable for Blob<A, N> {}
unsafe impl<const A: usize, const N: usize> bytemuck::Pod for Blob<A, N> {}
unsafe impl<const A: usize, const N: usize> crevice::std140::Std140 for Blob<A, N> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const A: usize, const N: usize> crevice::std430::Std430 for Blob<A, N> {
    const ALIGNMENT: usize = A;
}
impl<const A: usize, const N: usize> Shape for Blob<A, N> {
    fn make(s: &mut Src) -> Self {
        Blob(core::array::from_fn(|_| s.next() as u32))
    }
    fn leaves(&self, o: &mut Vec<u64>) {
        o.extend(self.0.iter().map(|x| *x as u64))
    }
}


/// Names for types of members.
#[allow(non_camel_case_types)]
pub mod alias {
    pub type Float = f32;
    /// not what it is called
    pub type Vec2 = mint::Vector3<core::primitive::f64>;
    pub type f64 = f32;
    pub type Many<T> = mint::Vector4<T>;
    pub trait Same {
        type Itself;
    }
    impl<T> Same for T {
        type Itself = T;
    }
}
