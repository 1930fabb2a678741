//! C03: the built-in types of both layouts, completely.

use crate::structs::{check_layout, check_readback, check_trip, check_zero};
use crate::*;
use crevice::glsl::Glsl;
use mcmodel::report::Report;

/// (type, std140 align, std140 size, std430 align, std430 size, column stride
/// std140 / std430): written down from the GLSL specification, independently
/// of the model's rules.
pub const TABLE: &[(&str, [usize; 6])] = &[
    ("float", [4, 4, 4, 4, 0, 0]),
    ("double", [8, 8, 8, 8, 0, 0]),
    ("int", [4, 4, 4, 4, 0, 0]),
    ("uint", [4, 4, 4, 4, 0, 0]),
    ("bool", [4, 4, 4, 4, 0, 0]),
    ("vec2", [8, 8, 8, 8, 0, 0]),
    ("vec3", [16, 12, 16, 12, 0, 0]),
    ("vec4", [16, 16, 16, 16, 0, 0]),
    ("dvec2", [16, 16, 16, 16, 0, 0]),
    ("dvec3", [32, 24, 32, 24, 0, 0]),
    ("dvec4", [32, 32, 32, 32, 0, 0]),
    ("ivec2", [8, 8, 8, 8, 0, 0]),
    ("ivec3", [16, 12, 16, 12, 0, 0]),
    ("ivec4", [16, 16, 16, 16, 0, 0]),
    ("uvec2", [8, 8, 8, 8, 0, 0]),
    ("uvec3", [16, 12, 16, 12, 0, 0]),
    ("uvec4", [16, 16, 16, 16, 0, 0]),
    ("bvec2", [8, 8, 8, 8, 0, 0]),
    ("bvec3", [16, 12, 16, 12, 0, 0]),
    ("bvec4", [16, 16, 16, 16, 0, 0]),
    ("mat2", [16, 32, 8, 16, 16, 8]),
    ("mat3", [16, 48, 16, 48, 16, 16]),
    ("mat4", [16, 64, 16, 64, 16, 16]),
    ("dmat2", [16, 32, 16, 32, 16, 16]),
    ("dmat3", [32, 96, 32, 96, 32, 32]),
    ("dmat4", [32, 128, 32, 128, 32, 32]),
];

/// The reference model agrees with the table.
pub fn model_selftest() {
    let all = mcmodel::builtins();
    assert_eq!(all.len(), TABLE.len());
    for (n, t) in TABLE {
        let ty = Ty::builtin_from_glsl(n).unwrap();
        let (a, b) = (Layout::Std140, Layout::Std430);
        assert_eq!([ty.align(a), ty.size(a), ty.align(b), ty.size(b)], t[..4], "model: {n}");
        if let Ty::Mat(_, k) = ty {
            for (l, s) in [(a, t[4]), (b, t[5])] {
                let lv = ty.leaves(l);
                for c in 0..k {
                    assert_eq!(lv[c * k].0, c * s, "model: {n}");
                }
            }
        }
    }
}

pub struct Named {
    pub e: Entry,
    pub names: Vec<&'static str>,
    /// C21: everything it can do
    pub sound: fn(),
}

macro_rules! host {
    ($v:ident: $($d:literal $t:ty;)*) => { $(
        {
            let mut e = Entry::new($d, stringify!($t));
            e.l140 = Some(f140::<$t>());
            e.l430 = Some(f430::<$t>());
            $v.push(Named { e, names: vec![<$t as Glsl>::NAME], sound: || crate::sound::both::<$t>(stringify!($t), $d) });
        }
    )* };
}
macro_rules! stdt {
    ($v:ident: $($d:literal $t:ident;)*) => { $(
        {
            let mut e = Entry::new($d, concat!("std140::", stringify!($t)));
            e.l140 = Some(f140::<crevice::std140::$t>());
            $v.push(Named { e, names: vec![<crevice::std140::$t as Glsl>::NAME], sound: || {
                crate::sound::s140::<crevice::std140::$t>(concat!("std140::", stringify!($t)), &crate::sound::facts($d, Layout::Std140), None)
            } });
            let mut e = Entry::new($d, concat!("std430::", stringify!($t)));
            e.l430 = Some(f430::<crevice::std430::$t>());
            $v.push(Named { e, names: vec![<crevice::std430::$t as Glsl>::NAME], sound: || {
                crate::sound::s430::<crevice::std430::$t>(concat!("std430::", stringify!($t)), &crate::sound::facts($d, Layout::Std430), None)
            } });
        }
    )* };
}

pub fn entries() -> Vec<Named> {
    let mut v = Vec::new();
    use mint::*;
    host! { v:
        "float" f32; "double" f64; "int" i32; "uint" u32; "bool" bool;
        "vec2" Vector2<f32>; "vec3" Vector3<f32>; "vec4" Vector4<f32>;
        "vec2" Point2<f32>; "vec3" Point3<f32>;
        "dvec2" Vector2<f64>; "dvec3" Vector3<f64>; "dvec4" Vector4<f64>;
        "dvec2" Point2<f64>; "dvec3" Point3<f64>;
        "ivec2" Vector2<i32>; "ivec3" Vector3<i32>; "ivec4" Vector4<i32>;
        "ivec2" Point2<i32>; "ivec3" Point3<i32>;
        "uvec2" Vector2<u32>; "uvec3" Vector3<u32>; "uvec4" Vector4<u32>;
        "uvec2" Point2<u32>; "uvec3" Point3<u32>;
        "bvec2" Vector2<bool>; "bvec3" Vector3<bool>; "bvec4" Vector4<bool>;
        "bvec2" Point2<bool>; "bvec3" Point3<bool>;
        "mat2" ColumnMatrix2<f32>; "mat3" ColumnMatrix3<f32>; "mat4" ColumnMatrix4<f32>;
        "dmat2" ColumnMatrix2<f64>; "dmat3" ColumnMatrix3<f64>; "dmat4" ColumnMatrix4<f64>;
    }
    stdt! { v:
        "bool" Bool;
        "vec2" Vec2; "vec3" Vec3; "vec4" Vec4;
        "dvec2" DVec2; "dvec3" DVec3; "dvec4" DVec4;
        "ivec2" IVec2; "ivec3" IVec3; "ivec4" IVec4;
        "uvec2" UVec2; "uvec3" UVec3; "uvec4" UVec4;
        "bvec2" BVec2; "bvec3" BVec3; "bvec4" BVec4;
        "mat2" Mat2; "mat3" Mat3; "mat4" Mat4;
        "dmat2" DMat2; "dmat3" DMat3; "dmat4" DMat4;
    }
    v
}

pub fn check_name(r: &mut Report, n: &Named) {
    let ty = Ty::decode(n.e.desc);
    for name in &n.names {
        r.add("names", 1);
        if *name != ty.glsl() {
            r.violation(&format!("{}: GLSL name `{name}` instead of `{}`", n.e.src, ty.glsl()), n.e.src, "");
        }
    }
}

/// `mode`: one of the structural checks, or all of them.
pub fn check_all(r: &mut Report, n: &Named, mode: &str) {
    let all = mode == "all";
    if all || mode == "layout" {
        check_layout(r, &n.e, None);
    }
    if all || mode == "zero" {
        check_zero(r, &n.e);
    }
    if all || mode == "trip" {
        check_trip(r, &n.e);
    }
    if all || mode == "readback" {
        check_readback(r, &n.e);
    }
    if !n.names.is_empty() && (all || mode == "glsl") {
        check_name(r, n);
    }
}

/// Every pair of components through every pair of boundary patterns.
fn pairs(r: &mut Report, e: &Entry) {
    let ty = Ty::decode(e.desc);
    let scs = ty.scalars();
    for (l, f, _) in e.views() {
        let base: Vec<u64> = scs.iter().enumerate().map(|(i, s)| mcmodel::base_bits(*s, i, 2)).collect();
        for a in 0..scs.len() {
            for b in 0..a {
                for x in mcmodel::special_bits(scs[a]) {
                    for y in mcmodel::special_bits(scs[b]) {
                        let mut v = base.clone();
                        v[a] = *x;
                        v[b] = *y;
                        r.add("value_pairs", 1);
                        let ok = guarded(|| (f.enc)(&v) == ty.image(l, &v) && (f.trip)(&v) == v);
                        if ok != Ok(true) {
                            r.violation(
                                &format!("{} [{}]: components {b}={y:#x}, {a}={x:#x}: wrong bytes or round trip", e.src, l.name()),
                                e.src,
                                "",
                            );
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Every word through one component of a type: bytes, and the value read
/// back, are what the word says.
fn sweep<S: Shape>(r: &mut Report, what: &str, l: Layout, desc: &str, k: usize, f: impl Fn(S) -> (u64, S) + Sync) {
    let ty = Ty::decode(desc);
    let n = ty.scalars().len();
    let sc = ty.scalars()[k];
    let bits: Vec<u64> = ty.scalars().iter().enumerate().map(|(i, s)| mcmodel::base_bits(*s, i, 3)).collect();
    let work: Vec<u64> = (0..256).collect();
    let rep = crate::writer::parallel(work, |hi, r| {
        let mut v = bits.clone();
        let mut back = Vec::with_capacity(n);
        for lo in 0..1u64 << 24 {
            let w = (hi << 24) | lo;
            // a boolean has two values; every word is one of them
            v[k] = if sc == Sc::Bool { w & 1 } else { w };
            let (word, b) = f(make::<S>(&v));
            back.clear();
            b.leaves(&mut back);
            if word != v[k] || back != v {
                r.violation(
                    &format!("{what} [{}]: component {k} = {w:#x}: stored as {word:#x}, read back as {:#x}", l.name(), back[k]),
                    what,
                    "",
                );
                return;
            }
            if sc == Sc::Bool && lo == 1 {
                break;
            }
        }
        r.add("words", if sc == Sc::Bool { 2 } else { 1 << 24 });
    });
    r.add("sweeps", 1);
    r.add("words", rep.counts.get("words").copied().unwrap_or(0));
    r.violations += rep.violations;
}

macro_rules! sweeps {
    ($r:ident: $($d:literal $t:ty;)*) => { $( {
        use crevice::{std140::AsStd140, std430::AsStd430};
        let ty = Ty::decode($d);
        for k in 0..ty.scalars().len() {
            let o = ty.leaves(Layout::Std140)[k].0;
            sweep::<$t>($r, stringify!($t), Layout::Std140, $d, k, move |v| {
                let s = v.as_std140();
                let b = bytemuck::bytes_of(&s);
                (u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as u64, <$t as AsStd140>::from_std140(s))
            });
            let o = ty.leaves(Layout::Std430)[k].0;
            sweep::<$t>($r, stringify!($t), Layout::Std430, $d, k, move |v| {
                let s = v.as_std430();
                let b = bytemuck::bytes_of(&s);
                (u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as u64, <$t as AsStd430>::from_std430(s))
            });
        }
    } )* };
}

/// Every one of the 2^32 words as a GPU-written boolean.
fn bool_words(r: &mut Report) {
    use crevice::{std140::AsStd140, std430::AsStd430};
    let rep = crate::writer::parallel((0..256u32).collect(), |hi, r| {
        for lo in 0..1u32 << 24 {
            let w = (hi << 24) | lo;
            let a: crevice::std140::Bool = bytemuck::pod_read_unaligned(&w.to_ne_bytes());
            let b: crevice::std430::Bool = bytemuck::pod_read_unaligned(&w.to_ne_bytes());
            let ok = bool::from_std140(a) == (w != 0)
                && bool::from_std430(b) == (w != 0)
                && bool::from(a) == (w != 0)
                && bytemuck::bytes_of(&a) == w.to_ne_bytes();
            if !ok {
                r.violation(&format!("the word {w:#x} is read as the boolean {}", bool::from(a)), "bool", "");
                return;
            }
            for t in [false, true] {
                if (a == crevice::std140::Bool::from(t)) != (t == (w != 0)) || (b != crevice::std430::Bool::from(t)) != (t != (w != 0)) {
                    r.violation(&format!("the boolean stored as {w:#x} compares wrongly with {t}"), "bool", "");
                    return;
                }
            }
        }
        r.add("boolean_words", 1 << 24);
    });
    r.add("boolean_words", rep.counts.get("boolean_words").copied().unwrap_or(0));
    r.violations += rep.violations;
}

/// Layout booleans and vectors are equal exactly if their components are, as
/// GLSL values.
fn equality(r: &mut Report) {
    use crevice::std140::*;
    let mut words = vec![0u32, 3, 0x7fff_ffff, 0xffff_fffe, u32::MAX, 0x0101_0101, 0xff00];
    words.extend((0..32).map(|b| 1 << b));
    let of = |w: u32| -> Bool { bytemuck::pod_read_unaligned(&w.to_ne_bytes()) };
    let mut bad = |what: String| r.violation(&what, "equality", "");
    let mut n = 0u64;
    for &x in &words {
        let t = format!("{:?}", Bool::from(x != 0));
        if format!("{:?}", of(x)) != t {
            bad(format!("the boolean stored as {x:#x} prints as {:?} instead of {t}", of(x)));
        }
        for &y in &words {
            n += 1;
            if (of(x) == of(y)) != ((x != 0) == (y != 0)) {
                bad(format!("booleans stored as {x:#x} and {y:#x}: equality is {}", of(x) == of(y)));
            }
            for k in 0..4 {
                let c = |i: usize, w: u32| if i == k { of(w) } else { Bool::from(i % 2 == 0) };
                let a2 = |w| BVec2 { x: c(0, w), y: c(1, w) };
                let a3 = |w| BVec3 { x: c(0, w), y: c(1, w), z: c(2, w) };
                let a4 = |w| BVec4 { x: c(0, w), y: c(1, w), z: c(2, w), w: c(3, w) };
                let want = (x != 0) == (y != 0);
                if (k < 2 && (a2(x) == a2(y)) != want) || (k < 3 && (a3(x) == a3(y)) != want) || (a4(x) == a4(y)) != want {
                    bad(format!("boolean vectors whose component {k} is stored as {x:#x} and {y:#x}: not equality of the booleans"));
                }
            }
        }
    }
    macro_rules! vectors {
        ($($t:ident<$p:ty> { $($f:ident)* } $vs:expr;)*) => { $(
            let vs: &[$p] = &$vs;
            for k in 0..4 {
                for &x in vs {
                    for &y in vs {
                        n += 1;
                        let mk = |v: $p| {
                            let mut i = 0;
                            $( let $f = if { i += 1; i - 1 } == k { v } else { vs[0] }; )*
                            ($t { $($f),* }, i)
                        };
                        let ((a, len), (b, _)) = (mk(x), mk(y));
                        if k < len && (a == b) != (x == y && vs[0] == vs[0]) {
                            bad(format!("{} with component {k} {x:?} and {y:?}: equality is {}", stringify!($t), a == b));
                        }
                    }
                }
            }
        )* };
    }
    vectors! {
        Vec2<f32> { x y } [1.0, 0.0, -0.0, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 1e-45, 16777217.0];
        Vec3<f32> { x y z } [1.0, 0.0, -0.0, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 1e-45, 16777217.0];
        Vec4<f32> { x y z w } [1.0, 0.0, -0.0, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 1e-45, 16777217.0];
        DVec2<f64> { x y } [1.0, 0.0, -0.0, f64::NAN, f64::INFINITY, 5e-324, 1.0000000001];
        DVec3<f64> { x y z } [1.0, 0.0, -0.0, f64::NAN, f64::INFINITY, 5e-324, 1.0000000001];
        DVec4<f64> { x y z w } [1.0, 0.0, -0.0, f64::NAN, f64::INFINITY, 5e-324, 1.0000000001];
        IVec2<i32> { x y } [1, 0, -1, i32::MIN, i32::MAX, 256, 65536];
        IVec3<i32> { x y z } [1, 0, -1, i32::MIN, i32::MAX, 256, 65536];
        IVec4<i32> { x y z w } [1, 0, -1, i32::MIN, i32::MAX, 256, 65536];
        UVec2<u32> { x y } [1, 0, 2, u32::MAX, 256, 65536, 1 << 31];
        UVec3<u32> { x y z } [1, 0, 2, u32::MAX, 256, 65536, 1 << 31];
        UVec4<u32> { x y z w } [1, 0, 2, u32::MAX, 256, 65536, 1 << 31];
    }
    r.add("comparisons", n);
}

fn exhaustive(r: &mut Report, thorough: bool) {
    use mint::*;
    bool_words(r);
    sweeps! { r: "float" f32; "int" i32; "uint" u32; "bool" bool; }
    if !thorough {
        return;
    }
    sweeps! { r:
        "vec3" Vector3<f32>; "ivec2" Vector2<i32>; "uvec2" Vector2<u32>; "bvec2" Vector2<bool>;
    }
}

/// `mcbuiltin <tier> [mode]`
pub fn run(tier: &str, mode: &str) {
    model_selftest();
    let mut r = Report::new();
    if mode == "bools" {
        bool_words(&mut r);
        equality(&mut r);
        r.finish();
        return;
    }
    if mode == "words" {
        exhaustive(&mut r, tier == "thorough");
        r.finish();
        return;
    }
    let es = entries();
    r.add("entries", es.len() as u64);
    for n in &es {
        check_all(&mut r, n, mode);
        if mode == "all" {
            pairs(&mut r, &n.e);
        }
        if n.e.src.ends_with("3") {
            r.sample(format!("{} = {}", n.e.src, n.e.desc));
        }
    }
    r.finish();
}
