//! Generates the Rust programs that put enumerated struct shapes through the
//! real derive macros.
//!
//!   mcgen <mode> <tier> <outdir> <shards>

use mcmodel::auto;
use mcmodel::report::esc;
use mcmodel::shapes::*;
use mcmodel::{Layout, Ty};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

#[derive(Clone, Copy)]
struct Opts {
    d140: bool,
    d430: bool,
    glsl: bool,
    inherent: bool,
    together: bool,
    debug: bool,
}

fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

fn glsl_ty(t: &Ty) -> Ty {
    match t {
        Ty::Struct(n, fs) => {
            Ty::Struct(unraw(n).to_string(), fs.iter().map(|(n, t)| (unraw(n).to_string(), glsl_ty(t))).collect())
        }
        Ty::Dyn(t) => Ty::Dyn(Box::new(glsl_ty(t))),
        t => t.clone(),
    }
}

fn emit_def(o: &mut String, s: &Shape, op: Opts) -> (bool, bool, bool) {
    let f = s.as_field();
    let (a, b, g) = (op.d140 && f.l140, op.d430 && f.l430, op.glsl && f.glsl && !s.fields.is_empty());
    let mut ds = Vec::new();
    if a {
        ds.push("AsStd140");
    }
    if b {
        ds.push("AsStd430");
    }
    if g {
        ds.push("GlslStruct");
    }
    let n = &s.name;
    write!(o, "/*{n}*/ ").unwrap();
    if op.together {
        write!(o, "#[derive({})] ", ds.join(", ")).unwrap();
    } else {
        for d in ds {
            write!(o, "#[derive({d})] ").unwrap();
        }
    }
    let deco = |i: usize| s.deco.get(i).copied().unwrap_or("");
    write!(o, "{}struct {n} {{ ", deco(s.fields.len())).unwrap();
    for (i, (fname, fl)) in s.fields.iter().enumerate() {
        write!(o, "{}{fname}: {}, ", deco(i), fl.spell).unwrap();
    }
    write!(o, "}} impl Shape for {n} {{ fn make(s: &mut Src) -> Self {{ {n} {{ ").unwrap();
    for (fname, _) in &s.fields {
        write!(o, "{fname}: Shape::make(s), ").unwrap();
    }
    write!(o, "}} }} fn leaves(&self, o: &mut Vec<u64>) {{ ").unwrap();
    for (fname, _) in &s.fields {
        write!(o, "self.{fname}.leaves(o); ").unwrap();
    }
    writeln!(o, "}} }}").unwrap();
    (a, b, g)
}

fn emit_entry(o: &mut String, s: &Shape, flags: (bool, bool, bool), op: Opts) {
    let n = &s.name;
    let desc = glsl_ty(&s.ty()).encode();
    write!(o, "    {{ let mut e = mcrt::Entry::new({}, {}); ", esc(&desc), esc(n)).unwrap();
    if flags.0 {
        write!(o, "e.l140 = Some(mcrt::f140::<{n}>()); ").unwrap();
        if op.inherent {
            write!(o, "e.inh140 = Some(|b| {{ let v = mcrt::make::<{n}>(b).as_std140(); v.as_bytes().to_vec() }}); ")
                .unwrap();
        }
    }
    if flags.1 {
        write!(o, "e.l430 = Some(mcrt::f430::<{n}>()); ").unwrap();
        if op.inherent {
            write!(o, "e.inh430 = Some(|b| {{ let v = mcrt::make::<{n}>(b).as_std430(); v.as_bytes().to_vec() }}); ")
                .unwrap();
        }
    }
    if op.debug {
        for (on, l) in [(flags.0, "140"), (flags.1, "430")] {
            if on {
                write!(o, "type D{l} = <{n} as AsStd{l}>::Output; e.dbg{l} = Some((D{l}::debug_metrics, D{l}::debug_definitions)); ").unwrap();
            }
        }
    }
    if flags.2 {
        write!(o, "e.glsl = Some(mcrt::glsl_view::<{n}>); ").unwrap();
    }
    writeln!(o, "v.push(e); }}").unwrap();
}

fn emit_program(defs: &[Shape], shapes: &[Shape], op: Opts) -> String {
    let nested = defs;
    let mut defs = String::from(
        "#![allow(warnings)]\n#![recursion_limit = \"2048\"]\nuse crevice::std140::AsStd140; use crevice::std430::AsStd430; use crevice::glsl::GlslStruct;\nuse mcrt::{Shape, Src};\n",
    );
    let mut body = String::new();
    for s in nested {
        let fl = emit_def(&mut defs, s, op);
        emit_entry(&mut body, s, fl, op);
    }
    for (j, s) in shapes.iter().enumerate() {
        // every other struct shares its name with structs of other shapes in
        // other modules
        let plain = s.name.strip_prefix('S').map_or(false, |r| r.bytes().all(|c| c.is_ascii_digit()));
        if plain && j % 2 == 1 && !op.debug {
            let mut t = s.clone();
            t.name = ["Node", "Item"][j / 2 % 2].to_string();
            write!(defs, "mod h{j} {{ use super::*; ").unwrap();
            let fl = emit_def(&mut defs, &t, op);
            let mut e = String::new();
            emit_entry(&mut e, &t, fl, op);
            let label = format!("{} as h{j}::{}", s.name, t.name);
            let e = e.replacen(&format!(", {})", esc(&t.name)), &format!(", {})", esc(&label)), 1);
            assert!(e.contains(&label));
            writeln!(defs, "pub fn entry(v: &mut Vec<mcrt::Entry>) {{ {e} }} }}").unwrap();
            writeln!(body, "    h{j}::entry(&mut v);").unwrap();
            continue;
        }
        if s.name.starts_with('W') && s.name[1..].bytes().all(|c| c.is_ascii_digit()) {
            if !op.debug {
                write!(defs, "mod h{j} {{ use super::*; {SHADOWS}").unwrap();
                let fl = emit_def(&mut defs, s, op);
                let mut e = String::new();
                emit_entry(&mut e, s, fl, op);
                writeln!(defs, "pub fn entry(v: &mut Vec<mcrt::Entry>) {{ {e} }} }}").unwrap();
                writeln!(body, "    h{j}::entry(&mut v);").unwrap();
            }
            continue;
        }
        let fl = emit_def(&mut defs, s, op);
        emit_entry(&mut body, s, fl, op);
    }
    format!(
        "{defs}fn entries() -> Vec<mcrt::Entry> {{\n    let mut v = Vec::new();\n{body}    v\n}}\nfn main() {{ mcrt::structs::run(&std::env::args().nth(1).unwrap(), &entries()); }}\n"
    )
}

/// The facts of a type under a layout, as an expression.
fn facts(t: &Ty, l: Layout) -> String {
    let lv: Vec<String> = t
        .leaves(l)
        .into_iter()
        .map(|(o, s)| format!("({o},b'{}')", if s == mcmodel::Sc::Bool { "b".to_string() } else { s.n().to_string() }))
        .collect();
    format!("mcrt::sound::Facts {{ align: {}, size: {}, leaves: &[{}] }}", t.align(l), t.size(l), lv.join(","))
}

/// A program for the interpreter: no model at run time.
fn emit_sound(defs: &[Shape], shapes: &[Shape], op: Opts) -> String {
    let mut text = String::from(
        "#![allow(warnings)]\n#![recursion_limit = \"2048\"]\nuse crevice::std140::AsStd140; use crevice::std430::AsStd430; use crevice::glsl::GlslStruct;\nuse mcrt::{Shape, Src};\n",
    );
    let mut body = String::new();
    // one value is printed (slow)
    let mut shown = false;
    for (s, own) in defs.iter().map(|s| (s, false)).chain(shapes.iter().map(|s| (s, true))) {
        let (a, b, _) = emit_def(&mut text, s, op);
        if !own {
            continue;
        }
        let (n, t) = (&s.name, s.ty());
        for (on, l, f) in [(a, Layout::Std140, "s140"), (b, Layout::Std430, "s430")] {
            if on {
                let desc = format!("{n} = {} [{}]", glsl_ty(&t).encode(), l.name());
                let show = if s.fields.len() == 3 && !std::mem::replace(&mut shown, true) { "format!(\"{o:?}\"); " } else { "" };
                writeln!(body, "    mcrt::sound::{f}::<{n}>({}, &{}, Some(|o| {{ {show}o.as_bytes().len() }}));", esc(&desc), facts(&t, l)).unwrap();
            }
        }
    }
    format!("{text}fn main() {{\n{body}    mcrt::sound::done();\n}}\n")
}

fn key(fs: &[Field]) -> String {
    fs.iter().map(|f| f.spell.clone()).collect::<Vec<_>>().join(",")
}

/// The bounded family of shapes for one layout.
fn family(l: Layout, thorough: bool, stats: &mut BTreeMap<String, u64>) -> Vec<Vec<Field>> {
    let nested: Vec<Field> = nested_defs().iter().map(|s| s.as_field()).filter(|f| f.on(l)).collect();
    let built = builtin_fields();
    let mut std = std_fields(l);
    std.extend(point_fields());
    let mut dyns = Vec::new();
    if l == Layout::Std140 {
        dyns.push(dyn_field(&builtin("float")));
        dyns.push(dyn_field(&builtin("dvec3")));
        dyns.push(dyn_field(nested.iter().find(|f| f.spell == "NK").unwrap()));
    }
    let mut all: Vec<Field> = built.clone();
    all.extend(nested.iter().cloned());
    let mut full = all.clone();
    full.extend(dyns.iter().cloned());

    let mut out: Vec<Vec<Field>> = Vec::new();

    // automaton over the distinct (alignment, size) classes
    let cls = classes(&all, l);
    let mut clsd = cls.clone();
    clsd.extend(classes(&dyns, l));
    let tys: Vec<Ty> = cls.iter().map(|f| f.ty.clone()).collect();
    let ex = auto::explore(&tys, l);
    stats.insert("model_states".into(), ex.states.len() as u64);
    stats.insert("model_transitions".into(), ex.transitions.len() as u64);
    stats.insert("model_modulus".into(), ex.modulus as u64);
    stats.insert("field_types".into(), full.len() as u64);
    stats.insert("field_classes".into(), cls.len() as u64);
    for (_, _, _, w) in &ex.transitions {
        out.push(w.iter().map(|i| cls[*i].clone()).collect());
    }
    // every transition followed by every alignment (so that the padding after
    // it is observed, not just its end): last field per alignment
    let mut by_align: BTreeMap<usize, Field> = BTreeMap::new();
    for f in &cls {
        by_align.entry(f.ty.align(l)).or_insert(f.clone());
    }
    if thorough {
        for (_, _, _, w) in &ex.transitions {
            for f in by_align.values() {
                let mut v: Vec<Field> = w.iter().map(|i| cls[*i].clone()).collect();
                v.push(f.clone());
                out.push(v);
            }
        }
    }
    // all shapes of length 1 and 2 over every field type
    for f in std.iter() {
        out.push(vec![f.clone()]);
        out.push(vec![builtin("float"), f.clone(), builtin("uint")]);
    }
    out.extend(product(&full, 1));
    out.extend(product(&full, 2));
    // layout types the user defines
    let user = user_fields();
    stats.insert("user_field_types".into(), user.len() as u64);
    out.extend(product(&user, 1));
    out.extend(product(&user, 2));
    for u in &user {
        for f in if thorough { &full[..] } else { &cls[..] } {
            out.push(vec![f.clone(), u.clone()]);
            out.push(vec![u.clone(), f.clone()]);
        }
        for a in by_align.values() {
            for b in by_align.values() {
                out.push(vec![a.clone(), u.clone(), b.clone()]);
            }
        }
    }
    // far offsets
    let far = Field { glsl: false, ..Field::both("mcrt::Blob<4, 16385>", Ty::Blob(4, 65540)) };
    for f in &cls {
        out.push(vec![far.clone(), f.clone(), builtin("float")]);
    }
    // members at indices where counters of a byte would end
    for n in [127, 130, 254, 255, 256, 257, 300] {
        if thorough || n % 2 == 1 {
            for f in by_align.values() {
                let mut v = vec![builtin("float"); n];
                v.push(f.clone());
                v.push(builtin("bool"));
                out.push(v);
            }
        }
    }
    // longer products over ever coarser classes
    let coarse = coarse_classes(&all, l);
    stats.insert("coarse_classes".into(), coarse.len() as u64);
    let aligns: Vec<Field> = by_align.values().cloned().collect();
    stats.insert("alignment_classes".into(), aligns.len() as u64);
    if thorough {
        out.extend(product(&full, 3));
        out.extend(product(&coarse[..coarse.len().min(10)], 4));
        out.extend(product(&aligns, 5));
        let three: Vec<Field> =
            ["float", "vec3", "dvec3"].iter().map(|s| builtin(s)).collect();
        out.extend(product(&three, 6));
        out.extend(product(&three, 7));
        out.extend(long_shapes(&clsd, &[5, 6, 7, 8, 9, 11, 13, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 100, 128]));
        out.extend(index_shapes(&aligns, 70));
        out.push((0..256).map(|i| cls[i % cls.len()].clone()).collect());
    } else {
        out.extend(product(&coarse[..coarse.len().min(9)], 3));
        out.extend(product(&aligns, 4));
        out.extend(long_shapes(&clsd, &[5, 7, 8, 12, 16, 17, 24, 32, 40, 64]));
        out.extend(index_shapes(&aligns, 33));
        out.push((0..100).map(|i| cls[i % cls.len()].clone()).collect());
    }
    let mut seen = HashSet::new();
    out.retain(|v| seen.insert(key(v)));
    out
}

/// A smaller family for the checks that enumerate values per shape.
fn value_family(thorough: bool, stats: &mut BTreeMap<String, u64>) -> Vec<Vec<Field>> {
    let mut out = Vec::new();
    let nested: Vec<Field> = nested_defs().iter().map(|s| s.as_field()).collect();
    let mut all = builtin_fields();
    all.extend(nested.clone());
    let mut m = 0;
    let mut t = 0;
    for l in [Layout::Std140, Layout::Std430] {
        let cls = classes(&all, l);
        let tys: Vec<Ty> = cls.iter().map(|f| f.ty.clone()).collect();
        let ex = auto::explore(&tys, l);
        m += ex.states.len() as u64;
        t += ex.transitions.len() as u64;
        for (_, _, _, w) in &ex.transitions {
            out.push(w.iter().map(|i| cls[*i].clone()).collect::<Vec<_>>());
        }
        for f in std_fields(l).into_iter().chain(point_fields()) {
            out.push(vec![f.clone()]);
            out.push(vec![builtin("float"), f.clone(), builtin("bool")]);
        }
        if thorough {
            out.extend(product(&coarse_classes(&all, l), 3));
        }
    }
    stats.insert("model_states".into(), m);
    stats.insert("model_transitions".into(), t);
    for u in user_fields() {
        out.push(vec![u.clone()]);
        for f in ["float", "bool", "dvec3"] {
            out.push(vec![u.clone(), builtin(f), u.clone()]);
            out.push(vec![builtin(f), u.clone(), builtin("vec3")]);
        }
    }
    let mut dyns = vec![dyn_field(&builtin("float")), dyn_field(&builtin("bvec3")), dyn_field(&nested[9])];
    if !thorough {
        // all ordered pairs of builtin types
        out.extend(product(&builtin_fields(), 1));
        out.extend(product(&all, 2));
    } else {
        out.extend(product(&all, 1));
        out.extend(product(&all, 2));
        let some: Vec<Field> = ["float", "bool", "double", "vec3", "bvec2", "ivec3", "dvec3", "mat2", "mat3"]
            .iter()
            .map(|s| builtin(s))
            .chain(nested.iter().filter(|f| f.spell == "NA" || f.spell == "NK").cloned())
            .collect();
        out.extend(product(&some, 3));
    }
    for d in &dyns {
        for f in &all {
            out.push(vec![d.clone(), f.clone()]);
            out.push(vec![f.clone(), d.clone()]);
        }
    }
    dyns.push(builtin("vec3"));
    dyns.push(builtin("float"));
    out.extend(product(&dyns, 3));
    let some: Vec<Field> =
        ["float", "bool", "dvec3", "vec3", "mat3", "mat2"].iter().map(|s| builtin(s)).collect();
    out.extend(long_shapes(&some, if thorough { &[5, 6, 9, 12, 16, 20, 24, 32, 48] } else { &[6, 9, 16, 24, 40] }));
    out.extend(index_shapes(&some[..4], if thorough { 40 } else { 20 }));
    let mut seen = HashSet::new();
    out.retain(|v| seen.insert(key(v)));
    out
}

/// C13: shapes with dynamic-uniform members, and wrappers around them.
fn dynamic_family(thorough: bool, stats: &mut BTreeMap<String, u64>) -> (Vec<Shape>, Vec<Vec<Field>>) {
    let mut defs = nested_defs();
    let find = |defs: &[Shape], n: &str| defs.iter().find(|s| s.name == n).unwrap().as_field();
    let add = |defs: &mut Vec<Shape>, n: &str, fs: &[Field]| {
        let s = Shape::of(n, fs);
        defs.push(s.clone());
        s.as_field()
    };
    let d = |f: &Field| dyn_field(f);
    let pa = add(&mut defs, "PA", &[d(&builtin("float"))]);
    let pb = add(&mut defs, "PB", &[builtin("float"), d(&builtin("vec3")), builtin("bool")]);
    let nk = find(&defs, "NK");
    let pc = add(&mut defs, "PC", &[d(&pb), builtin("float"), d(&d(&nk))]);
    let pd = add(&mut defs, "PD", &[pa.clone(), pc.clone(), d(&pa)]);
    let mut all = builtin_fields();
    all.extend(defs.iter().map(|s| s.as_field()));
    let mut dyns: Vec<Field> = all.iter().map(dyn_field).collect();
    dyns.extend(point_fields().iter().map(dyn_field));
    dyns.extend(std_fields(Layout::Std140).iter().map(dyn_field));
    dyns.push(d(&d(&builtin("float"))));
    dyns.push(d(&d(&d(&pb))));
    dyns.extend(user_fields().iter().map(dyn_field));
    stats.insert("field_types".into(), (all.len() + dyns.len()) as u64);
    let mut out: Vec<Vec<Field>> = Vec::new();
    for x in &dyns {
        out.push(vec![x.clone()]);
        for f in if thorough { &all[..] } else { &all[..8] } {
            out.push(vec![x.clone(), f.clone()]);
            out.push(vec![f.clone(), x.clone()]);
        }
    }
    let cls = classes(&dyns, Layout::Std140);
    out.extend(product(&cls, 2));
    let mut some: Vec<Field> = ["float", "dvec3"].iter().map(|s| builtin(s)).collect();
    some.extend([d(&builtin("float")), d(&builtin("bvec3")), d(&nk), pb.clone(), pd.clone(), d(&pd)]);
    out.extend(product(&some, if thorough { 4 } else { 3 }));
    out.extend(index_shapes(&some[2..], if thorough { 48 } else { 12 }));
    out.extend(long_shapes(&some, if thorough { &[6, 7, 9, 12, 16, 17, 24, 33] } else { &[6, 9, 17] }));
    let mut alpha = cls;
    alpha.extend(classes(&all, Layout::Std140));
    let tys: Vec<Ty> = alpha.iter().map(|f| f.ty.clone()).collect();
    let ex = auto::explore(&tys, Layout::Std140);
    stats.insert("model_states".into(), ex.states.len() as u64);
    stats.insert("model_transitions".into(), ex.transitions.len() as u64);
    // every transition that appends a wrapped member or follows one
    for (_, _, _, w) in &ex.transitions {
        let v: Vec<Field> = w.iter().map(|i| alpha[*i].clone()).collect();
        if thorough || v.len() <= 3 {
            if v.iter().any(|f| f.spell.contains("Dynamic")) {
                out.push(v);
            }
        }
    }
    let mut seen = HashSet::new();
    out.retain(|v| seen.insert(key(v)));
    (defs, out)
}

/// Field names that are valid GLSL identifiers and stress the generator.
const NAMES: &[&str] = &[
    "foo", "bar", "f0", "x", "y", "_x", "_pad0", "_pad1", "__pad0", "pad0", "value", "input_", "offset", "size",
    "align", "color2", "aB", "Cc", "SCREAMING_CASE", "trailing_", "r#type", "r#fn", "r#match", "r#move", "r#ref",
    "r#loop", "r#mod", "r#impl", "r#use", "r#where", "r#dyn", "r#async", "r#box", "a_very_long_member_name_0123456789",
    "output_", "name", "fields", "len", "i", "std140", "vec", "T", "Self_", "NAME", "ty",
];

fn glsl_family(thorough: bool, stats: &mut BTreeMap<String, u64>) -> Vec<Shape> {
    let mut out: Vec<Shape> = Vec::new();
    let nested: Vec<Field> = nested_defs().iter().map(|s| s.as_field()).collect();
    let mut all = builtin_fields();
    all.extend(nested.clone());
    for l in [Layout::Std140, Layout::Std430] {
        all.extend(std_fields(l));
    }
    all.extend(point_fields());
    let mut push = |fs: Vec<(String, Field)>| {
        if fs.iter().all(|f| f.1.l140) || fs.iter().all(|f| f.1.l430) {
            let n = out.len();
            out.push(Shape { name: format!("S{n}"), fields: fs, deco: vec![] });
        }
    };
    let nm = |i: usize| NAMES[i % NAMES.len()].to_string();
    for f in &all {
        push(vec![(nm(0), f.clone())]);
    }
    let pair: Vec<Field> = if thorough { all.clone() } else { builtin_fields().into_iter().chain(nested.clone()).collect() };
    let mut k = 0;
    for a in &pair {
        for b in &pair {
            push(vec![(nm(k), a.clone()), (nm(k + 1), b.clone())]);
            k += 1;
        }
    }
    // every ordered pair of names
    for (i, a) in NAMES.iter().enumerate() {
        push(vec![(a.to_string(), builtin("float"))]);
        for b in NAMES.iter().skip(if thorough { 0 } else { i % 3 }).step_by(if thorough { 1 } else { 3 }) {
            if a != b {
                push(vec![(a.to_string(), builtin("vec3")), (b.to_string(), builtin("uint"))]);
            }
        }
    }
    // long declarations
    for n in [3, 4, 5, 8, 16, 17, 32, 45] {
        for rot in 0..4 {
            push((0..n).map(|i| (NAMES[(i + rot * 7) % NAMES.len()].to_string(), pair[(i * (rot + 1)) % pair.len()].clone())).collect());
        }
    }
    for n in if thorough { &[64, 65, 70, 100, 127, 128, 129, 256, 257, 300][..] } else { &[65, 129][..] } {
        push((0..*n).map(|i| (format!("m{i}"), pair[(i * 3) % pair.len()].clone())).collect());
    }
    for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500] {
        push(vec![("a".repeat(n), builtin("vec3")), (format!("{}b", "a".repeat(n - 1)), builtin("float"))]);
    }
    // triples
    let three: Vec<Field> = ["float", "bvec2", "dmat3", "ivec4"].iter().map(|s| builtin(s)).chain(nested[9..10].iter().cloned()).collect();
    for t in product(&three, if thorough { 4 } else { 3 }) {
        push(t.into_iter().enumerate().map(|(i, f)| (NAMES[(i * 11 + 3) % NAMES.len()].to_string(), f)).collect());
    }
    stats.insert("field_types".into(), all.len() as u64);
    stats.insert("field_names".into(), NAMES.len() as u64);
    let n = out.len();
    // struct names, including raw identifiers and case variants
    for (i, sn) in ["lower", "r#virtual", "r#macro", "UPPER", "_Under", "A", "With_Underscore9", "Output", "Input", "Glsl", "Field"].iter().enumerate() {
        out.push(Shape { name: sn.to_string(), fields: vec![("a".into(), builtin("vec3")), (NAMES[20 + i].to_string(), builtin("bool"))], deco: vec![] });
    }
    // nesting of such names
    let by: Vec<Field> = out[n..].iter().map(|s| s.as_field()).collect();
    for (i, f) in by.into_iter().enumerate() {
        out.push(Shape { name: format!("Outer{i}"), fields: vec![("inner".into(), f), ("tail".into(), builtin("float"))], deco: vec![] });
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, tier, out, shards) = (&a[1][..], &a[2][..], &a[3][..], a[4].parse::<usize>().unwrap());
    let thorough = tier == "thorough";
    let mut stats = BTreeMap::new();
    let base = Opts { d140: true, d430: true, glsl: false, inherent: false, together: true, debug: false };
    // every third shape has other member names, every seventh struct another
    // style of name
    let name = |v: Vec<Vec<Field>>| -> Vec<Shape> {
        v.into_iter()
            .enumerate()
            .map(|(i, f)| {
                let mut s = Shape::of(&if i % 7 == 3 { format!("r#s{i}_a") } else { format!("S{i}") }, &f);
                if i % 3 == 1 && s.fields.len() <= NAMES.len() {
                    for (j, f) in s.fields.iter_mut().enumerate() {
                        f.0 = NAMES[(i * 7 + j) % NAMES.len()].to_string();
                    }
                }
                s
            })
            .collect()
    };
    let mut defs = nested_defs();
    let (shapes, op) = match mode {
        "dynu" => {
            let (d, v) = dynamic_family(thorough, &mut stats);
            defs = d;
            (name(v), Opts { d430: false, inherent: true, ..base })
        }
        "layout140" => (name(family(Layout::Std140, thorough, &mut stats)), Opts { d430: false, inherent: !thorough, ..base }),
        "layout430" => (name(family(Layout::Std430, thorough, &mut stats)), Opts { d140: false, inherent: !thorough, ..base }),
        "zero" => (name(value_family(thorough, &mut stats)), Opts { inherent: true, ..base }),
        "trip" | "readback" => (name(value_family(thorough, &mut stats)), base),
        "debug" => (name(value_family(thorough, &mut stats)), Opts { debug: true, inherent: false, ..base }),
        "glsl" => (glsl_family(thorough, &mut stats), Opts { glsl: true, ..base }),
        // one representative per class, for configuration transcripts
        m if m.starts_with("config") => {
            let mut v = value_family(false, &mut stats);
            let mut seen = HashSet::new();
            v.retain(|fs| {
                (fs.len() <= 3 || fs.len() > 8)
                    && seen.insert(
                        fs.iter()
                            .map(|f| {
                                [Layout::Std140, Layout::Std430].map(|l| if f.on(l) { (f.ty.align(l), f.ty.size(l)) } else { (0, 0) })
                            })
                            .collect::<Vec<_>>(),
                    )
            });
            let op = match m {
                "config-140" => Opts { d430: false, ..base },
                "config-430" => Opts { d140: false, ..base },
                "config-apart" => Opts { together: false, ..base },
                _ => base,
            };
            (name(v), op)
        }
        // for the interpreter: every field type, then classes
        "sound" => {
            let mut v: Vec<Vec<Field>> = Vec::new();
            let mut fs: Vec<Field> = builtin_fields();
            fs.extend(nested_defs().iter().map(|s| s.as_field()));
            for f in &fs {
                v.push(vec![f.clone()]);
                v.push(vec![builtin("bool"), f.clone(), builtin("float")]);
            }
            let mut more = value_family(false, &mut stats);
            let mut seen = HashSet::new();
            more.retain(|fs| {
                fs.len() <= if thorough { 4 } else { 2 }
                    && seen.insert(
                        fs.iter()
                            .map(|f| {
                                let (a, b) = (f.ty.align(Layout::Std430), f.ty.size(Layout::Std430));
                                (f.l140, f.l430, a, b % if thorough { 64 } else { 16 }, f.ty.align(Layout::Std140))
                            })
                            .collect::<Vec<_>>(),
                    )
            });
            v.extend(more);
            for n in [9, 17] {
                v.push((0..n).map(|i| fs[i * 5 % 26].clone()).collect());
            }
            let mut seen = HashSet::new();
            v.retain(|v| v.iter().all(|f| f.ty.size(Layout::Std140).max(f.ty.size(Layout::Std430)) < 1000) && seen.insert(key(v)));
            (name(v), base)
        }
        m => panic!("mode {m}"),
    };
    let mut shapes = shapes;
    if !mode.starts_with("config") && mode != "dynu" && mode != "sound" {
        let more = decorated();
        stats.insert("decorated_shapes".into(), more.len() as u64);
        shapes.splice(0..0, more);
        defs.splice(0..0, empties());
    }
    stats.insert("shapes".into(), shapes.len() as u64);
    stats.insert("max_fields".into(), shapes.iter().map(|s| s.fields.len()).max().unwrap() as u64);
    stats.insert("fields_total".into(), shapes.iter().map(|s| s.fields.len()).sum::<usize>() as u64);
    std::fs::create_dir_all(format!("{out}/src/bin")).unwrap();
    // deal shapes out so that shards have similar weight, and none needs too
    // much compiler memory
    let fields: usize = shapes.iter().map(|s| s.fields.len() + 1).sum();
    let shards = shards.max(fields / 5000 + 1);
    if mode == "sound" {
        defs.splice(0..0, empties());
        shapes.extend(empties().into_iter().map(|mut s| {
            s.name = format!("Empty{}", s.name);
            s
        }));
    }
    let mut parts: Vec<Vec<Shape>> = vec![Vec::new(); shards];
    if mode == "glsl" {
        // named structs refer to one another: keep the tail together
        let cut = shapes.iter().position(|s| s.name == "lower").unwrap();
        for (i, s) in shapes[..cut].iter().enumerate() {
            parts[i % shards].push(s.clone());
        }
        parts[0].extend(shapes[cut..].iter().cloned());
    } else {
        for (i, s) in shapes.into_iter().enumerate() {
            parts[i % shards].push(s);
        }
    }
    for (i, p) in parts.iter().enumerate() {
        if mode == "sound" {
            std::fs::write(format!("{out}/src/bin/g{i:03}.rs"), emit_sound(&defs, p, op)).unwrap();
            continue;
        }
        let mut t = emit_program(&defs, p, op);
        if mode.starts_with("config") {
            t = t.replace("mcrt::structs::run(&std::env::args().nth(1).unwrap(), &entries())", "mcrt::config::run(&entries())");
        }
        if mode == "config-nostd" {
            t = t.replace("use crevice::glsl::GlslStruct;", "");
        }
        std::fs::write(format!("{out}/src/bin/g{i:03}.rs"), t).unwrap();
    }
    for (k, n) in stats {
        println!("MC {{\"kind\":\"gen\",\"key\":{},\"n\":{n}}}", esc(&k));
    }
}
