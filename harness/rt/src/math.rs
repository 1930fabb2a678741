//! C11: types of the supported math libraries.

use crate::builtin::{check_all, Named};
use crate::eng::{e140, e430, Hint, How, Op, Sink, TyDef, LW};
use crate::*;
use crevice::glsl::{Glsl, GlslStruct};
use crevice::{std140::AsStd140, std430::AsStd430};
use mcmodel::report::{hex, Report};

macro_rules! vecs {
    ($($t:ty { $($f:ident),* })*) => { $(
        impl Shape for $t {
            fn make(s: &mut Src) -> Self { $( let $f = Shape::make(s); )* <$t>::new($($f),*) }
            fn leaves(&self, o: &mut Vec<u64>) { $( self.$f.leaves(o); )* }
        }
    )* };
}
macro_rules! cg {
    ($($s:ty),*) => { $(
        vecs! {
            cgmath::Vector2<$s> { x, y } cgmath::Vector3<$s> { x, y, z } cgmath::Vector4<$s> { x, y, z, w }
            cgmath::Point2<$s> { x, y } cgmath::Point3<$s> { x, y, z }
        }
    )* };
}
cg!(f32, f64, i32, u32, bool);
macro_rules! cgm {
    ($($s:ty),*) => { $(
        impl Shape for cgmath::Matrix2<$s> {
            fn make(s: &mut Src) -> Self { let (x, y) = (Shape::make(s), Shape::make(s)); cgmath::Matrix2::from_cols(x, y) }
            fn leaves(&self, o: &mut Vec<u64>) { for c in 0..2 { for r in 0..2 { self[c][r].leaves(o) } } }
        }
        impl Shape for cgmath::Matrix3<$s> {
            fn make(s: &mut Src) -> Self {
                let (x, y, z) = (Shape::make(s), Shape::make(s), Shape::make(s));
                cgmath::Matrix3::from_cols(x, y, z)
            }
            fn leaves(&self, o: &mut Vec<u64>) { for c in 0..3 { for r in 0..3 { self[c][r].leaves(o) } } }
        }
        impl Shape for cgmath::Matrix4<$s> {
            fn make(s: &mut Src) -> Self {
                let (x, y, z, w) = (Shape::make(s), Shape::make(s), Shape::make(s), Shape::make(s));
                cgmath::Matrix4::from_cols(x, y, z, w)
            }
            fn leaves(&self, o: &mut Vec<u64>) { for c in 0..4 { for r in 0..4 { self[c][r].leaves(o) } } }
        }
    )* };
}
cgm!(f32, f64);

vecs! {
    glam::Vec2 { x, y } glam::Vec3 { x, y, z } glam::Vec4 { x, y, z, w }
    glam::DVec2 { x, y } glam::DVec3 { x, y, z } glam::DVec4 { x, y, z, w }
    glam::IVec2 { x, y } glam::IVec3 { x, y, z } glam::IVec4 { x, y, z, w }
    glam::UVec2 { x, y } glam::UVec3 { x, y, z } glam::UVec4 { x, y, z, w }
}
macro_rules! gm {
    ($($t:ty, $n:literal, $v:ty, ($($c:ident),*);)*) => { $(
        impl Shape for $t {
            fn make(s: &mut Src) -> Self { $( let $c: $v = Shape::make(s); )* <$t>::from_cols($($c),*) }
            fn leaves(&self, o: &mut Vec<u64>) { for c in 0..$n { for r in 0..$n { self.col(c)[r].leaves(o) } } }
        }
    )* };
}
gm! {
    glam::Mat2, 2, glam::Vec2, (x, y);
    glam::Mat3, 3, glam::Vec3, (x, y, z);
    glam::Mat4, 4, glam::Vec4, (x, y, z, w);
    glam::DMat2, 2, glam::DVec2, (x, y);
    glam::DMat3, 3, glam::DVec3, (x, y, z);
    glam::DMat4, 4, glam::DVec4, (x, y, z, w);
}

macro_rules! na {
    ($($s:ty),*) => { $(
        vecs! {
            nalgebra::Vector2<$s> { x, y } nalgebra::Vector3<$s> { x, y, z } nalgebra::Vector4<$s> { x, y, z, w }
            nalgebra::Point2<$s> { x, y } nalgebra::Point3<$s> { x, y, z }
        }
    )* };
}
na!(f32, f64, i32, u32, bool);
macro_rules! nam {
    ($($t:ident $n:literal),*) => { nam!(@ f32 $($t $n),*); nam!(@ f64 $($t $n),*); };
    (@ $s:ty, $($x:tt)*) => { };
    (@ $s:ident $($t:ident $n:literal),*) => { $(
        impl Shape for nalgebra::$t<$s> {
            fn make(s: &mut Src) -> Self {
                // row r, column c of the mathematical matrix; leaves arrive
                // column by column
                let v: Vec<$s> = (0..$n * $n).map(|_| Shape::make(s)).collect();
                nalgebra::$t::from_fn(|r, c| v[c * $n + r])
            }
            fn leaves(&self, o: &mut Vec<u64>) {
                for c in 0..$n { for r in 0..$n { self[(r, c)].leaves(o) } }
            }
        }
    )* };
}
nam!(Matrix2 2, Matrix3 3, Matrix4 4);

/// A library type, the struct around it, and its mint counterpart.
struct Lib {
    plain: Named,
    wrapped: Entry,
    glsl: fn() -> GlslView,
    ty: [TyDef; 2],
    mint: [TyDef; 2],
}

fn def(name: &str, desc: &str, f: crate::eng::TyFns) -> TyDef {
    TyDef { name: name.into(), ty: Ty::decode(desc), f }
}

macro_rules! libs {
    ($v:ident: $( $d:literal $t:ty => $m:ty; )*) => { $(
        $v.push(|sound: Option<bool>| {
            #[derive(AsStd140, AsStd430, GlslStruct)]
            struct W { a: f32, m: $t, b: bool, n: $t, c: f64 }
            impl Shape for W {
                fn make(s: &mut Src) -> Self {
                    W { a: Shape::make(s), m: Shape::make(s), b: Shape::make(s), n: Shape::make(s), c: Shape::make(s) }
                }
                fn leaves(&self, o: &mut Vec<u64>) {
                    self.a.leaves(o); self.m.leaves(o); self.b.leaves(o); self.n.leaves(o); self.c.leaves(o);
                }
            }
            if let Some(in_structs) = sound {
                crate::sound::both::<$t>(stringify!($t), $d);
                if !in_structs {
                    return None;
                }
                crate::sound::both::<W>(concat!("W of ", stringify!($t)), concat!("W{a:float,m:", $d, ",b:bool,n:", $d, ",c:double}"));
                return None;
            }
            let mut e = Entry::new($d, stringify!($t));
            e.l140 = Some(f140::<$t>());
            e.l430 = Some(f430::<$t>());
            let mut w = Entry::new(
                concat!("W{a:float,m:", $d, ",b:bool,n:", $d, ",c:double}"),
                concat!("struct W { a: f32, m: ", stringify!($t), ", b: bool, n: ", stringify!($t), ", c: f64 }"),
            );
            w.l140 = Some(f140::<W>());
            w.l430 = Some(f430::<W>());
            Some(Lib {
                plain: Named { e, names: vec![<$t as Glsl>::NAME], sound: || () },
                wrapped: w,
                glsl: glsl_view::<W>,
                ty: [def(stringify!($t), $d, e140::<$t>()), def(stringify!($t), $d, e430::<$t>())],
                mint: [def(stringify!($m), $d, e140::<$m>()), def(stringify!($m), $d, e430::<$m>())],
            })
        });
    )* };
}

fn builders() -> Vec<fn(Option<bool>) -> Option<Lib>> {
    let mut v: Vec<fn(Option<bool>) -> Option<Lib>> = Vec::new();
    libs! { v:
        "vec2" cgmath::Vector2<f32> => mint::Vector2<f32>;
        "vec3" cgmath::Vector3<f32> => mint::Vector3<f32>;
        "vec4" cgmath::Vector4<f32> => mint::Vector4<f32>;
        "vec2" cgmath::Point2<f32> => mint::Vector2<f32>;
        "vec3" cgmath::Point3<f32> => mint::Vector3<f32>;
        "dvec2" cgmath::Vector2<f64> => mint::Vector2<f64>;
        "dvec3" cgmath::Vector3<f64> => mint::Vector3<f64>;
        "dvec4" cgmath::Vector4<f64> => mint::Vector4<f64>;
        "dvec2" cgmath::Point2<f64> => mint::Vector2<f64>;
        "dvec3" cgmath::Point3<f64> => mint::Vector3<f64>;
        "ivec2" cgmath::Vector2<i32> => mint::Vector2<i32>;
        "ivec3" cgmath::Vector3<i32> => mint::Vector3<i32>;
        "ivec4" cgmath::Vector4<i32> => mint::Vector4<i32>;
        "ivec2" cgmath::Point2<i32> => mint::Vector2<i32>;
        "ivec3" cgmath::Point3<i32> => mint::Vector3<i32>;
        "uvec2" cgmath::Vector2<u32> => mint::Vector2<u32>;
        "uvec3" cgmath::Vector3<u32> => mint::Vector3<u32>;
        "uvec4" cgmath::Vector4<u32> => mint::Vector4<u32>;
        "uvec2" cgmath::Point2<u32> => mint::Vector2<u32>;
        "uvec3" cgmath::Point3<u32> => mint::Vector3<u32>;
        "bvec2" cgmath::Vector2<bool> => mint::Vector2<bool>;
        "bvec3" cgmath::Vector3<bool> => mint::Vector3<bool>;
        "bvec4" cgmath::Vector4<bool> => mint::Vector4<bool>;
        "bvec2" cgmath::Point2<bool> => mint::Vector2<bool>;
        "bvec3" cgmath::Point3<bool> => mint::Vector3<bool>;
        "mat2" cgmath::Matrix2<f32> => mint::ColumnMatrix2<f32>;
        "mat3" cgmath::Matrix3<f32> => mint::ColumnMatrix3<f32>;
        "mat4" cgmath::Matrix4<f32> => mint::ColumnMatrix4<f32>;
        "dmat2" cgmath::Matrix2<f64> => mint::ColumnMatrix2<f64>;
        "dmat3" cgmath::Matrix3<f64> => mint::ColumnMatrix3<f64>;
        "dmat4" cgmath::Matrix4<f64> => mint::ColumnMatrix4<f64>;

        "vec2" glam::Vec2 => mint::Vector2<f32>;
        "vec3" glam::Vec3 => mint::Vector3<f32>;
        "vec4" glam::Vec4 => mint::Vector4<f32>;
        "ivec2" glam::IVec2 => mint::Vector2<i32>;
        "ivec3" glam::IVec3 => mint::Vector3<i32>;
        "ivec4" glam::IVec4 => mint::Vector4<i32>;
        "uvec2" glam::UVec2 => mint::Vector2<u32>;
        "uvec3" glam::UVec3 => mint::Vector3<u32>;
        "uvec4" glam::UVec4 => mint::Vector4<u32>;
        "dvec2" glam::DVec2 => mint::Vector2<f64>;
        "dvec3" glam::DVec3 => mint::Vector3<f64>;
        "dvec4" glam::DVec4 => mint::Vector4<f64>;
        "mat2" glam::Mat2 => mint::ColumnMatrix2<f32>;
        "mat3" glam::Mat3 => mint::ColumnMatrix3<f32>;
        "mat4" glam::Mat4 => mint::ColumnMatrix4<f32>;
        "dmat2" glam::DMat2 => mint::ColumnMatrix2<f64>;
        "dmat3" glam::DMat3 => mint::ColumnMatrix3<f64>;
        "dmat4" glam::DMat4 => mint::ColumnMatrix4<f64>;

        "vec2" nalgebra::Vector2<f32> => mint::Vector2<f32>;
        "vec3" nalgebra::Vector3<f32> => mint::Vector3<f32>;
        "vec4" nalgebra::Vector4<f32> => mint::Vector4<f32>;
        "vec2" nalgebra::Point2<f32> => mint::Vector2<f32>;
        "vec3" nalgebra::Point3<f32> => mint::Vector3<f32>;
        "ivec2" nalgebra::Vector2<i32> => mint::Vector2<i32>;
        "ivec3" nalgebra::Vector3<i32> => mint::Vector3<i32>;
        "ivec4" nalgebra::Vector4<i32> => mint::Vector4<i32>;
        "ivec2" nalgebra::Point2<i32> => mint::Vector2<i32>;
        "ivec3" nalgebra::Point3<i32> => mint::Vector3<i32>;
        "uvec2" nalgebra::Vector2<u32> => mint::Vector2<u32>;
        "uvec3" nalgebra::Vector3<u32> => mint::Vector3<u32>;
        "uvec4" nalgebra::Vector4<u32> => mint::Vector4<u32>;
        "uvec2" nalgebra::Point2<u32> => mint::Vector2<u32>;
        "uvec3" nalgebra::Point3<u32> => mint::Vector3<u32>;
        "bvec2" nalgebra::Vector2<bool> => mint::Vector2<bool>;
        "bvec3" nalgebra::Vector3<bool> => mint::Vector3<bool>;
        "bvec4" nalgebra::Vector4<bool> => mint::Vector4<bool>;
        "bvec2" nalgebra::Point2<bool> => mint::Vector2<bool>;
        "bvec3" nalgebra::Point3<bool> => mint::Vector3<bool>;
        "dvec2" nalgebra::Vector2<f64> => mint::Vector2<f64>;
        "dvec3" nalgebra::Vector3<f64> => mint::Vector3<f64>;
        "dvec4" nalgebra::Vector4<f64> => mint::Vector4<f64>;
        "dvec2" nalgebra::Point2<f64> => mint::Vector2<f64>;
        "dvec3" nalgebra::Point3<f64> => mint::Vector3<f64>;
        "mat2" nalgebra::Matrix2<f32> => mint::ColumnMatrix2<f32>;
        "mat3" nalgebra::Matrix3<f32> => mint::ColumnMatrix3<f32>;
        "mat4" nalgebra::Matrix4<f32> => mint::ColumnMatrix4<f32>;
        "dmat2" nalgebra::Matrix2<f64> => mint::ColumnMatrix2<f64>;
        "dmat3" nalgebra::Matrix3<f64> => mint::ColumnMatrix3<f64>;
        "dmat4" nalgebra::Matrix4<f64> => mint::ColumnMatrix4<f64>;

        "vec2" mint::Point2<f32> => mint::Vector2<f32>;
        "vec3" mint::Point3<f32> => mint::Vector3<f32>;
        "ivec2" mint::Point2<i32> => mint::Vector2<i32>;
        "ivec3" mint::Point3<i32> => mint::Vector3<i32>;
        "uvec2" mint::Point2<u32> => mint::Vector2<u32>;
        "uvec3" mint::Point3<u32> => mint::Vector3<u32>;
        "bvec2" mint::Point2<bool> => mint::Vector2<bool>;
        "bvec3" mint::Point3<bool> => mint::Vector3<bool>;
        "dvec2" mint::Point2<f64> => mint::Vector2<f64>;
        "dvec3" mint::Point3<f64> => mint::Vector3<f64>;
        "vec2" mint::Vector2<f32> => mint::Vector2<f32>;
        "vec3" mint::Vector3<f32> => mint::Vector3<f32>;
        "vec4" mint::Vector4<f32> => mint::Vector4<f32>;
        "mat2" mint::ColumnMatrix2<f32> => mint::ColumnMatrix2<f32>;
        "mat3" mint::ColumnMatrix3<f32> => mint::ColumnMatrix3<f32>;
        "mat4" mint::ColumnMatrix4<f32> => mint::ColumnMatrix4<f32>;
        "dmat2" mint::ColumnMatrix2<f64> => mint::ColumnMatrix2<f64>;
        "dmat3" mint::ColumnMatrix3<f64> => mint::ColumnMatrix3<f64>;
        "dmat4" mint::ColumnMatrix4<f64> => mint::ColumnMatrix4<f64>;
    }
    v
}

fn writes(l: Layout, t: &TyDef, how: How, n: usize, pre: usize) -> Result<(usize, usize, Vec<u8>, usize), String> {
    guarded(|| {
        let sink = Sink::default();
        let mut w = LW::new(l, sink.clone());
        let f = def("f32", "float", if l == Layout::Std140 { e140::<f32>() } else { e430::<f32>() });
        for _ in 0..pre {
            (f.f.write)(&mut w, How::One, &[vec![0x11223344]]).map_err(|e| e.to_string())?;
        }
        let op = Op::new(t, how, n);
        let v = op.vals(1);
        let r = (t.f.write)(&mut w, how, &v).map_err(|e| e.to_string())?;
        let size = if op.batch() { (t.f.size_slice)(&v) } else { (t.f.size_val)(&v[0]) };
        Ok((r, w.len(), sink.tail(0), size))
    })?
}

/// C21: everything the library types can do.
pub fn sounds(part: usize, parts: usize, in_structs: bool) {
    for f in builders().into_iter().skip(part).step_by(parts) {
        f(Some(in_structs));
    }
}

fn entries() -> Vec<Lib> {
    builders().into_iter().filter_map(|f| f(None)).collect()
}

/// `mcmath <tier> [mode]`
pub fn run(mode: &str) {
    let mut r = Report::new();
    let es = entries();
    r.add("library_types", es.len() as u64);
    for e in &es {
        check_all(&mut r, &e.plain, mode);
        let w = Named { e: e.wrapped.clone(), names: vec![], sound: || () };
        check_all(&mut r, &w, mode);
        if mode != "all" && mode != "glsl" {
            continue;
        }
        match guarded(e.glsl) {
            Ok(g) => {
                r.add("declarations", 1);
                let n = Ty::decode(e.plain.e.desc).glsl();
                let want = [("float", "a"), (&n[..], "m"), ("bool", "b"), (&n[..], "n"), ("double", "c")];
                if g.fields != want {
                    r.violation(&format!("{}: GLSL members {:?} instead of {want:?}", e.wrapped.src, g.fields), e.wrapped.src, "");
                }
            }
            Err(m) => r.violation(&format!("{}: {m}", e.wrapped.src), e.wrapped.src, ""),
        }
        if mode == "glsl" {
            continue;
        }
        // in place of the mint type, anywhere in a write sequence
        for (i, l) in [Layout::Std140, Layout::Std430].into_iter().enumerate() {
            for pre in 0..8 {
                for (how, n) in [(How::One, 1), (How::Direct, 1), (How::Slice, 0), (How::Slice, 1), (How::Slice, 3), (How::Iter(Hint::Exact), 2)] {
                    r.add("histories", 1);
                    let (a, b) = (writes(l, &e.ty[i], how, n, pre), writes(l, &e.mint[i], how, n, pre));
                    if a != b || a.is_err() {
                        let f = |x: &Result<(usize, usize, Vec<u8>, usize), String>| match x {
                            Ok((o, n, b, s)) => format!("at {o}, length {n}, size query {s}, bytes {}", hex(b)),
                            Err(m) => m.clone(),
                        };
                        r.violation(
                            &format!("[{}] {how:?} x{n} of {} after {pre} words: {}; the same of {}: {}", l.name(), e.ty[i].name, f(&a), e.mint[i].name, f(&b)),
                            &e.ty[i].name,
                            "",
                        );
                    }
                }
            }
        }
        if e.plain.e.desc == "mat3" {
            r.sample(format!("{} = {}", e.plain.e.src, e.plain.e.desc));
            r.sample(e.wrapped.src.to_string());
        }
    }
    r.finish();
}
