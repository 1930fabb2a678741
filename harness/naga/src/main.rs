//! An independent GLSL front end (naga) beside the reference model.
//!
//! `mcnaga layout MAX`: the model's member offsets and sizes against those naga
//! computes for uniform and storage blocks.
//!
//! `mcnaga text FILE...`: generated declarations (lines of `type TAB hex of the
//! text`) must be accepted, declare the members of the type, and, in a block,
//! put them where the model puts them.
//!
//! What naga 22 cannot decide is left out and counted: booleans in blocks
//! (it gives them one byte), matrices of two-row columns in std140 or in
//! structs outside blocks (it refuses them), nested structs in std140 (it does not round their alignment up).

use mcmodel::report::Report;
use mcmodel::shapes::nested_defs;
use mcmodel::*;
use naga::{Module, ScalarKind, TypeInner};
use std::collections::HashMap;

fn parse(src: &str) -> Result<Module, String> {
    let go = || {
        let mut f = naga::front::glsl::Frontend::default();
        f.parse(&naga::front::glsl::Options::from(naga::ShaderStage::Compute), src).map_err(|e| e.emit_to_string(src))
    };
    std::panic::catch_unwind(go).unwrap_or_else(|_| Err("naga panics".into()))
}

/// Spells a type of naga's the GLSL way; structs by name.
fn spell(m: &Module, t: naga::Handle<naga::Type>) -> String {
    let pre = |s: naga::Scalar| match (s.kind, s.width) {
        (ScalarKind::Float, 4) => ("", "float"),
        (ScalarKind::Float, 8) => ("d", "double"),
        (ScalarKind::Sint, 4) => ("i", "int"),
        (ScalarKind::Uint, 4) => ("u", "uint"),
        (ScalarKind::Bool, _) => ("b", "bool"),
        _ => ("?", "?"),
    };
    match &m.types[t].inner {
        TypeInner::Scalar(s) => pre(*s).1.to_string(),
        TypeInner::Vector { size, scalar } => format!("{}vec{}", pre(*scalar).0, *size as u8),
        TypeInner::Matrix { columns, rows, scalar } if columns == rows => format!("{}mat{}", pre(*scalar).0, *columns as u8),
        TypeInner::Struct { .. } => m.types[t].name.clone().unwrap_or_default(),
        x => format!("{x:?}"),
    }
}

struct Seen {
    members: Vec<(String, String, usize)>,
    span: usize,
}

fn find(m: &Module, name: &str) -> Option<Seen> {
    m.types.iter().filter(|(_, t)| t.name.as_deref() == Some(name)).last().map(|(_, t)| {
        let TypeInner::Struct { members, span } = &t.inner else { return Seen { members: vec![], span: 0 } };
        Seen {
            members: members.iter().map(|x| (spell(m, x.ty), x.name.clone().unwrap_or_default(), x.offset as usize)).collect(),
            span: *span as usize,
        }
    })
}

/// Whether naga can lay this out the way the specification says.
fn decidable(t: &Ty, l: Layout, depth: usize) -> bool {
    match t {
        Ty::Scalar(s) => *s != Sc::Bool,
        Ty::Vec(s, _) => *s != Sc::Bool,
        Ty::Mat(_, n) => *n != 2 || l == Layout::Std430 && depth < 2,
        Ty::Struct(_, fs) => (depth == 0 || l == Layout::Std430) && fs.iter().all(|f| decidable(&f.1, l, depth + 1)),
        _ => false,
    }
}

fn block(l: Layout, decls: &str, members: &str) -> String {
    let kind = if l == Layout::Std140 { "uniform" } else { "buffer" };
    format!("#version 450\n{decls}\nlayout({}, set = 0, binding = 0) {kind} MCBlock {{ {members} }} mc_block; void main() {{}}\n", l.name())
}

fn decl(t: &Ty, out: &mut String) {
    let Ty::Struct(n, fs) = t else { return };
    for f in fs {
        decl(&f.1, out);
    }
    let d = format!("struct {n} {{ {} }};\n", members(fs));
    if !out.contains(&d) {
        out.push_str(&d);
    }
}

fn members(fs: &[(String, Ty)]) -> String {
    fs.iter().map(|(n, t)| format!("{} {n};", t.glsl())).collect::<Vec<_>>().join(" ")
}

fn compare(r: &mut Report, t: &Ty, l: Layout) -> Result<(), String> {
    let Ty::Struct(_, fs) = t else { unreachable!() };
    let mut decls = String::new();
    for f in fs {
        decl(&f.1, &mut decls);
    }
    let src = block(l, &decls, &members(fs));
    let m = parse(&src)?;
    let s = find(&m, "MCBlock").ok_or("no block")?;
    let got: Vec<usize> = s.members.iter().map(|x| x.2).collect();
    r.add("blocks", 1);
    r.add("members", got.len() as u64);
    // std140 rounds a struct's own size up to vec4s, naga a block's not
    let size = if l == Layout::Std140 { round_up(s.span, 16) } else { s.span };
    if got != t.offsets(l) || size != t.size(l) {
        return Err(format!("naga has {got:?} and size {size}, the model {:?} and {}", t.offsets(l), t.size(l)));
    }
    Ok(())
}

fn layout(max: usize) {
    let mut r = Report::new();
    for l in [Layout::Std140, Layout::Std430] {
        let mut alpha: Vec<Ty> = builtins();
        alpha.extend(nested_defs().iter().map(|s| s.ty()));
        let all = alpha.len();
        alpha.retain(|t| decidable(t, l, 1));
        r.add(&format!("{}-types", l.name()), alpha.len() as u64);
        r.add(&format!("{}-types-naga-cannot-lay-out", l.name()), (all - alpha.len()) as u64);
        let mut seqs: Vec<Vec<&Ty>> = vec![vec![]];
        let mut level = seqs.clone();
        for _ in 0..max {
            level = level.iter().flat_map(|s| alpha.iter().map(move |t| [&s[..], &[t]].concat())).collect();
            seqs.extend(level.iter().cloned());
        }
        // and long ones
        for step in 1..alpha.len() {
            for len in [9, 17, 40] {
                seqs.push((0..len).map(|i| &alpha[(i * step + len) % alpha.len()]).collect());
            }
        }
        for s in seqs {
            if s.is_empty() {
                continue;
            }
            let t = Ty::Struct("S".into(), s.iter().enumerate().map(|(i, t)| (format!("m{i}"), (*t).clone())).collect());
            if let Err(e) = compare(&mut r, &t, l) {
                r.violation(&format!("{} [{}]: {e}", t.encode(), l.name()), "", "");
            }
        }
    }
    r.finish();
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

/// All names in a type: structs' and members'.
fn names(t: &Ty, out: &mut Vec<String>) {
    if let Ty::Struct(n, fs) = t {
        out.push(n.clone());
        for f in fs {
            out.push(f.0.clone());
            names(&f.1, out);
        }
    }
}

fn any(t: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
    f(t) || matches!(t, Ty::Struct(_, fs) if fs.iter().any(|x| any(&x.1, f)))
}

/// Names GLSL keeps for itself: Rust allows them, no shader can use them.
const RESERVED: &str = "const uniform buffer shared attribute varying coherent volatile restrict readonly writeonly \
atomic_uint layout centroid flat smooth noperspective patch sample invariant precise break continue do for while \
switch case default if else subroutine in out inout true false discard return struct lowp mediump highp precision \
common partition active asm class union enum typedef template this resource goto inline noinline public static \
extern external interface long short half fixed unsigned superp input output filter sizeof cast namespace using \
sampler int uint float double bool void demote";

fn text(files: &[String]) {
    let mut r = Report::new();
    for file in files {
        let data = std::fs::read_to_string(file).unwrap();
        let mut reg: HashMap<String, String> = HashMap::new();
        let lines: Vec<(Ty, String)> = data
            .lines()
            .map(|x| {
                let (d, h) = x.split_once('\t').unwrap();
                (Ty::decode(d), unhex(h))
            })
            .collect();
        for (t, s) in &lines {
            if let Ty::Struct(n, _) = t {
                reg.insert(n.clone(), s.clone());
            }
        }
        // the declarations of nested structs, innermost first
        fn all(t: &Ty, reg: &HashMap<String, String>, out: &mut Vec<String>, top: bool) {
            if let Ty::Struct(n, fs) = t {
                for f in fs {
                    all(&f.1, reg, out, false);
                }
                if !top {
                    let d = reg.get(n).cloned().unwrap_or_default();
                    if !out.contains(&d) {
                        out.push(d);
                    }
                }
            }
        }
        for (t, s) in &lines {
            let Ty::Struct(n, fs) = t else { unreachable!() };
            let mut ns = vec![];
            names(t, &mut ns);
            if ns.iter().any(|x| RESERVED.split_whitespace().any(|w| w == x)) {
                r.add("names_reserved_in_glsl", 1);
                continue;
            }
            let mut ds = vec![];
            all(t, &reg, &mut ds, true);
            ds.push(s.clone());
            let res = (|| -> Result<(), String> {
                let two = |t: &Ty| matches!(t, Ty::Mat(_, 2));
                if any(t, &two) && fs.iter().any(|f| !two(&f.1) && any(&f.1, &two)) {
                    r.add("declarations_naga_refuses", 1);
                    return Ok(());
                }
                // the members of the declaration as those of a block, and,
                // where naga can, the declaration as it is
                let (outer, own) = (ds[..ds.len() - 1].join("\n"), ds.last().unwrap());
                r.add("declarations", 1);
                let mut ways = vec![];
                for l in [Layout::Std140, Layout::Std430] {
                    if l == Layout::Std140 && any(t, &two) {
                        continue;
                    }
                    let kind = if l == Layout::Std140 { "uniform" } else { "buffer" };
                    let b = own.replacen("struct", &format!("layout({}, set = 0, binding = 0) {kind}", l.name()), 1);
                    ways.push((format!("#version 450\n{outer}\n{b}\nvoid main() {{}}\n"), decidable(t, l, 0).then_some(l)));
                }
                if !any(t, &two) {
                    ways.push((format!("#version 450\n{outer}\n{own}\nvoid main() {{}}\n"), None));
                }
                for (src, l) in ways {
                    let m = parse(&src)?;
                    let seen = find(&m, n).ok_or("the struct is not declared")?;
                    let got: Vec<(String, String)> = seen.members.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
                    let want: Vec<(String, String)> = fs.iter().map(|(n, t)| (t.glsl(), n.clone())).collect();
                    if got != want {
                        return Err(format!("naga reads members {got:?} instead of {want:?}"));
                    }
                    let Some(l) = l else { continue };
                    let off: Vec<usize> = seen.members.iter().map(|x| x.2).collect();
                    let size = if l == Layout::Std140 { round_up(seen.span, 16) } else { seen.span };
                    r.add("blocks", 1);
                    if off != t.offsets(l) || size != t.size(l) {
                        return Err(format!(
                            "[{}] naga lays the declaration out at {off:?}, size {size}, instead of {:?}, size {}",
                            l.name(), t.offsets(l), t.size(l)
                        ));
                    }
                }
                Ok(())
            })();
            if let Err(e) = res {
                r.violation(&format!("{}: {e}", t.encode()), &ds.join("\n"), "");
            }
        }
    }
    r.finish();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match &a[1][..] {
        "layout" => layout(a[2].parse().unwrap()),
        _ => text(&a[2..]),
    }
}
