//! Field alphabets and bounded families of struct shapes.

use crate::{builtins, Layout, Sc, Ty};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Field {
    /// Rust spelling of the type.
    pub spell: String,
    pub ty: Ty,
    /// Has a GLSL name (can be a field of a GlslStruct).
    pub glsl: bool,
    pub l140: bool,
    pub l430: bool,
}

impl Field {
    pub fn both(spell: &str, ty: Ty) -> Field {
        Field { spell: spell.into(), ty, glsl: true, l140: true, l430: true }
    }
    pub fn on(&self, l: Layout) -> bool {
        match l {
            Layout::Std140 => self.l140,
            Layout::Std430 => self.l430,
        }
    }
}

pub fn rust_scalar(s: Sc) -> &'static str {
    match s {
        Sc::F32 => "f32",
        Sc::F64 => "f64",
        Sc::I32 => "i32",
        Sc::U32 => "u32",
        Sc::Bool => "bool",
    }
}

pub fn mint_spell(t: &Ty) -> String {
    match t {
        Ty::Scalar(s) => rust_scalar(*s).to_string(),
        Ty::Vec(s, n) => format!("mint::Vector{n}<{}>", rust_scalar(*s)),
        Ty::Mat(s, n) => format!("mint::ColumnMatrix{n}<{}>", rust_scalar(*s)),
        _ => panic!(),
    }
}

/// Spelling of crevice's own layout type for a built-in.
pub fn std_spell(t: &Ty, l: Layout) -> String {
    let m = format!("crevice::{}", l.name());
    match t {
        Ty::Scalar(Sc::Bool) => format!("{m}::Bool"),
        Ty::Scalar(s) => rust_scalar(*s).to_string(),
        _ => {
            let g = t.glsl();
            let (p, rest) = if g.starts_with('v') || g.starts_with('m') { ("", &g[..]) } else { (&g[..1], &g[1..]) };
            format!("{m}::{}{}{}", p.to_uppercase(), rest[..1].to_uppercase(), &rest[1..])
        }
    }
}

pub fn builtin_fields() -> Vec<Field> {
    builtins().into_iter().map(|t| Field::both(&mint_spell(&t), t)).collect()
}

pub fn std_fields(l: Layout) -> Vec<Field> {
    builtins()
        .into_iter()
        .filter(|t| !matches!(t, Ty::Scalar(s) if *s != Sc::Bool))
        .map(|t| Field {
            spell: std_spell(&t, l),
            ty: t,
            glsl: true,
            l140: l == Layout::Std140,
            l430: l == Layout::Std430,
        })
        .collect()
}

/// mint's points, which stand for vectors.
pub fn point_fields() -> Vec<Field> {
    let mut v = Vec::new();
    for s in [Sc::F32, Sc::F64, Sc::I32, Sc::U32, Sc::Bool] {
        for n in 2..4 {
            v.push(Field::both(&format!("mint::Point{n}<{}>", rust_scalar(s)), Ty::Vec(s, n)));
        }
    }
    v
}

/// Layout types a user has defined: sizes and alignments no built-in has.
pub fn user_fields() -> Vec<Field> {
    [(1, 0), (1, 1), (2, 1), (4, 3), (8, 5), (16, 1), (16, 9), (32, 1), (64, 0), (64, 1), (128, 33), (256, 1), (512, 2), (1024, 5)]
        .iter()
        .map(|&(a, n)| Field { glsl: false, ..Field::both(&format!("mcrt::Blob<{a}, {n}>"), Ty::Blob(a, 4 * n)) })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub name: String,
    pub fields: Vec<(String, Field)>,
    /// what stands in front of each member, and in front of the struct
    pub deco: Vec<&'static str>,
}

impl Shape {
    pub fn ty(&self) -> Ty {
        Ty::Struct(self.name.clone(), self.fields.iter().map(|(n, f)| (n.clone(), f.ty.clone())).collect())
    }
    pub fn as_field(&self) -> Field {
        Field {
            spell: self.name.clone(),
            ty: self.ty(),
            // GLSL has no structs without members
            glsl: !self.fields.is_empty() && self.fields.iter().all(|f| f.1.glsl),
            l140: self.fields.iter().all(|f| f.1.l140),
            l430: self.fields.iter().all(|f| f.1.l430),
        }
    }
    pub fn of(name: &str, fs: &[Field]) -> Shape {
        Shape {
            deco: vec![],
            name: name.into(),
            fields: fs.iter().enumerate().map(|(i, f)| (format!("f{i}"), f.clone())).collect(),
        }
    }
}

/// Attributes, visibilities and the like in front of a member, none of which
/// has anything to do with its layout.
pub const MEMBER_DECO: [&str; 11] = [
    "#[doc = \"documented\"] ",
    "pub ",
    "pub(crate) ",
    "pub(self) ",
    "#[allow(dead_code)] ",
    "#[cfg(all())] ",
    "#[cfg(any())] gone: f64, ",
    "#[doc(hidden)] pub ",
    "#[deprecated] ",
    "#[cfg_attr(all(), doc = \"x\")] #[allow(unused)] ",
    "#[cfg_attr(any(), serde(skip))] pub(in self) ",
];
pub const STRUCT_DECO: [&str; 12] = [
    "pub ",
    "pub(crate) ",
    "#[doc = \"documented\"] ",
    "#[repr(C)] ",
    "#[repr(align(64))] ",
    "#[repr(C, align(2))] pub ",
    "#[must_use] ",
    "#[non_exhaustive] pub ",
    "#[allow(dead_code)] #[doc(hidden)] ",
    "#[derive(Clone, Copy)] ",
    "#[deprecated] ",
    "#[cfg(all())] pub(self) ",
];

/// Other ways to write the types of members.
fn spellings() -> Vec<Field> {
    let f = |spell: &str, g: &str| Field { spell: spell.into(), ..b(g) };
    vec![
        f("core::primitive::f32", "float"),
        f("::std::primitive::f64", "double"),
        f("(f32)", "float"),
        f("((bool))", "bool"),
        f("::mint::Vector3::<f32>", "vec3"),
        f("(mint::ColumnMatrix3<f32>)", "mat3"),
        f("mcrt::alias::Float", "float"),
        f("mcrt::alias::Vec2", "dvec3"),
        f("mcrt::alias::f64", "float"),
        f("mcrt::alias::Many<f64>", "dvec4"),
        f("<f32 as mcrt::alias::Same>::Itself", "float"),
        f("<mint::Vector3<bool> as mcrt::alias::Same>::Itself", "bvec3"),
    ]
}

/// A struct without members, and one which has only that.
pub fn empties() -> [Shape; 2] {
    let e = Shape::of("N0", &[]);
    let d = Shape::of("N1", &[e.as_field()]);
    [e, d]
}

/// Every decoration of every member of small structs, of the structs
/// themselves, and every spelling of a member.
pub fn decorated() -> Vec<Shape> {
    let ts = ["float", "vec3", "dvec3", "bool", "mat2"].map(b);
    let mut out: Vec<Shape> = Vec::new();
    let mut push = |fs: &[Field], deco: Vec<&'static str>| {
        let n = out.len();
        let mut s = Shape::of(&format!("K{n}"), fs);
        s.deco = deco;
        out.push(s);
    };
    for (i, x) in ts.iter().enumerate() {
        for y in [&ts[(i + 2) % 5], &ts[(i + 4) % 5]] {
            let fs = [x.clone(), y.clone(), ts[1].clone()];
            for m in MEMBER_DECO {
                for at in 0..3 {
                    let mut d = vec![""; 4];
                    d[at] = m;
                    push(&fs, d);
                }
                push(&fs[..1], vec![m, ""]);
            }
            for sd in STRUCT_DECO {
                push(&fs, vec!["", "", "", sd]);
            }
        }
    }
    // members without members
    let [none, deep] = empties().map(|s| s.as_field());
    for x in ts.iter().chain([&none]) {
        for e in [&none, &deep] {
            push(&[e.clone(), x.clone()], vec![]);
            push(&[x.clone(), e.clone()], vec![]);
            push(&[x.clone(), e.clone(), x.clone(), e.clone(), e.clone(), ts[1].clone()], vec![]);
        }
    }
    // everything decorated at once
    for i in 0..MEMBER_DECO.len() {
        for k in [2, 5, 9] {
            let fs: Vec<Field> = (0..k).map(|j| ts[(i + j * 2) % ts.len()].clone()).collect();
            let mut d: Vec<&'static str> = (0..k).map(|j| MEMBER_DECO[(i + j) % MEMBER_DECO.len()]).collect();
            if d.iter().filter(|x| x.contains("gone")).count() > 1 {
                d.retain(|x| !x.contains("gone"));
                d.resize(k, "");
            }
            d.push(STRUCT_DECO[i % STRUCT_DECO.len()]);
            push(&fs, d);
        }
    }
    for sp in spellings() {
        for x in &ts {
            push(&[sp.clone(), x.clone()], vec![]);
            push(&[x.clone(), sp.clone(), x.clone()], vec![]);
        }
        for sq in spellings() {
            push(&[sp.clone(), sq], vec![]);
        }
    }
    // type names which mean something else where the struct is
    let names = shadowed();
    let f = |spell: &str, g: &str| Field { spell: spell.into(), ..b(g) };
    let real = [
        f("mint::Vector3<::core::primitive::f32>", "vec3"),
        f("::core::primitive::f32", "float"),
        f("::core::primitive::bool", "bool"),
    ];
    for x in &names {
        let n = out.len();
        out.push(Shape::of(&format!("W{n}"), &[x.clone()]));
        for y in &names {
            let n = out.len();
            out.push(Shape::of(&format!("W{n}"), &[x.clone(), y.clone()]));
            out.push(Shape::of(&format!("W{}", n + 1), &[real[0].clone(), x.clone(), real[1].clone(), y.clone(), real[2].clone()]));
        }
    }
    out
}

/// What the module around the structs called `W…` declares.
pub const SHADOWS: &str = "type f32 = ::core::primitive::f64; type f64 = ::mint::Vector3<::core::primitive::f32>; \
    type i32 = ::mint::ColumnMatrix2<::core::primitive::f32>; type u32 = ::core::primitive::bool; type bool = ::core::primitive::u32; \
    type Vec3 = ::core::primitive::f32; type Mat4 = ::mint::Vector3<::core::primitive::f64>; type Bool = ::core::primitive::f64; type Vector3<T> = T; ";
fn shadowed() -> Vec<Field> {
    let f = |spell: &str, g: &str| Field { spell: spell.into(), ..b(g) };
    vec![
        f("f32", "double"),
        f("f64", "vec3"),
        f("i32", "mat2"),
        f("u32", "bool"),
        f("bool", "uint"),
        f("Vec3", "float"),
        f("Mat4", "dvec3"),
        f("Bool", "double"),
        f("Vector3<Mat4>", "dvec3"),
        f("self::f32", "double"),
    ]
}

fn b(s: &str) -> Field {
    let t = Ty::builtin_from_glsl(s).unwrap();
    Field::both(&mint_spell(&t), t)
}

/// Nested-struct alphabet: definitions (to be emitted first, in order).
/// Covers every (alignment, size class) nested structs can have, including a
/// chain of nesting.
pub fn nested_defs() -> Vec<Shape> {
    let mut v: Vec<Shape> = Vec::new();
    let add = |n: &str, fs: &[Field], v: &mut Vec<Shape>| {
        let s = Shape::of(n, fs);
        v.push(s.clone());
        s.as_field()
    };
    let na = add("NA", &[b("float")], &mut v);
    let nb = add("NB", &[b("vec3")], &mut v);
    add("NC", &[b("double")], &mut v);
    add("ND", &[b("dvec3")], &mut v);
    add("NE", &[b("vec2"), b("float")], &mut v);
    add("NF", &[b("float"), b("float"), b("float")], &mut v);
    add("NG", &[b("vec4"), b("uint")], &mut v);
    add("NH", &[b("mat3"), b("bool")], &mut v);
    let ni = add("NI", &[na.clone(), b("float")], &mut v);
    let nj = add("NJ", &[b("int"), nb.clone()], &mut v);
    let nk = add("NK", &[ni, nj.clone(), na], &mut v);
    add("NL", &[nk, b("dmat2"), nj], &mut v);
    v
}

pub fn dyn_field(inner: &Field) -> Field {
    Field {
        spell: format!("crevice::std140::DynamicUniform<{}>", inner.spell),
        ty: Ty::Dyn(Box::new(inner.ty.clone())),
        glsl: false,
        l140: true,
        l430: false,
    }
}

/// One representative field per distinct (alignment, size) under `l`.
pub fn classes(fs: &[Field], l: Layout) -> Vec<Field> {
    let mut seen = HashSet::new();
    fs.iter().filter(|f| f.on(l) && seen.insert((f.ty.align(l), f.ty.size(l)))).cloned().collect()
}

/// One representative per distinct (alignment, size modulo 32).
pub fn coarse_classes(fs: &[Field], l: Layout) -> Vec<Field> {
    let mut seen = HashSet::new();
    fs.iter().filter(|f| f.on(l) && seen.insert((f.ty.align(l), f.ty.size(l) % 32))).cloned().collect()
}

/// All sequences of length exactly `n` over `fs`.
pub fn product(fs: &[Field], n: usize) -> Vec<Vec<Field>> {
    let mut out: Vec<Vec<Field>> = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::with_capacity(out.len() * fs.len());
        for p in &out {
            for f in fs {
                let mut q = p.clone();
                q.push(f.clone());
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// A cyclic sequence in which every ordered pair of symbols 0..k is adjacent.
pub fn de_bruijn2(k: usize) -> Vec<usize> {
    // Eulerian circuit of the complete digraph with loops (Hierholzer).
    let mut next = vec![0usize; k];
    let mut stack = vec![0usize];
    let mut circuit = Vec::new();
    while let Some(&v) = stack.last() {
        if next[v] < k {
            let w = next[v];
            next[v] += 1;
            stack.push(w);
        } else {
            circuit.push(v);
            stack.pop();
        }
    }
    circuit.pop();
    circuit.reverse();
    circuit
}

/// Windows of the pair-covering sequence, at many lengths and phases: every
/// adjacent pair of classes at many field indices.
pub fn long_shapes(fs: &[Field], lengths: &[usize]) -> Vec<Vec<Field>> {
    let db = de_bruijn2(fs.len());
    let mut out = Vec::new();
    for &len in lengths {
        let mut s = 0;
        while s < db.len() {
            out.push((0..len).map(|i| fs[db[(s + i) % db.len()]].clone()).collect());
            s += (len / 2).max(1);
        }
    }
    out
}

/// `p` scalars, one field of each class, one scalar: every class at every
/// field index up to `max`.
pub fn index_shapes(fs: &[Field], max: usize) -> Vec<Vec<Field>> {
    let mut out = Vec::new();
    for p in 0..=max {
        for f in fs {
            let mut v: Vec<Field> = (0..p).map(|_| b("float")).collect();
            v.push(f.clone());
            v.push(b("uint"));
            out.push(v);
        }
    }
    out
}

pub fn builtin(s: &str) -> Field {
    b(s)
}
