//! C12: the generated GLSL declaration against the bytes.

use crate::structs::base;
use crate::*;
use mcmodel::report::{hex, Report};
use std::collections::HashMap;

type Members = Vec<(String, String)>;

fn valid_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|x| x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
}

/// A tiny GLSL struct-declaration parser: whitespace and comments are free.
pub fn parse(text: &str) -> Result<(String, Members), String> {
    let b: Vec<char> = text.chars().collect();
    let mut toks: Vec<String> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_ascii_alphanumeric() || c == '_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            toks.push(b[st..i].iter().collect());
        } else {
            toks.push(c.to_string());
            i += 1;
        }
    }
    let mut p = 0;
    let mut next = |what: &str| -> Result<String, String> {
        let t = toks.get(p).cloned().ok_or_else(|| format!("declaration ends where {what} is expected"))?;
        p += 1;
        Ok(t)
    };
    let want = |t: String, w: &str| if t == w { Ok(()) } else { Err(format!("found `{t}` where `{w}` is expected")) };
    want(next("struct")?, "struct")?;
    let name = next("name")?;
    if !valid_ident(&name) {
        return Err(format!("`{name}` is not a GLSL identifier"));
    }
    want(next("{")?, "{")?;
    let mut members = Vec::new();
    loop {
        let t = next("member or }")?;
        if t == "}" {
            break;
        }
        loop {
            let n = next("member name")?;
            if !valid_ident(&t) || !valid_ident(&n) {
                return Err(format!("`{t} {n}` is not a valid member declaration"));
            }
            members.push((t.clone(), n));
            let sep = next("; or ,")?;
            if sep != "," {
                want(sep, ";")?;
                break;
            }
        }
    }
    want(next(";")?, ";")?;
    if p != toks.len() {
        return Err("trailing tokens after the declaration".into());
    }
    Ok((name, members))
}

fn resolve(name: &str, members: &Members, reg: &HashMap<String, Members>, depth: usize) -> Result<Ty, String> {
    if depth > 32 {
        return Err("recursive declaration".into());
    }
    let mut fs = Vec::new();
    for (t, n) in members {
        let ty = match Ty::builtin_from_glsl(t) {
            Some(x) => x,
            None => match reg.get(t) {
                Some(m) => resolve(t, m, reg, depth + 1)?,
                None => return Err(format!("type `{t}` is neither built in nor declared")),
            },
        };
        fs.push((n.clone(), ty));
    }
    Ok(Ty::Struct(name.to_string(), fs))
}

pub fn run(entries: &[Entry]) {
    quiet_panics();
    let mut r = Report::new();
    let mut reg: HashMap<String, Members> = HashMap::new();
    let mut views = Vec::new();
    for e in entries {
        let Some(g) = e.glsl else {
            views.push(None);
            continue;
        };
        match guarded(g) {
            Ok(v) => {
                if let Ok((n, m)) = parse(&v.text) {
                    reg.insert(n, m);
                }
                views.push(Some(v));
            }
            Err(m) => {
                r.violation(&format!("{}: generating GLSL {m}", e.desc), e.src, "");
                views.push(None);
            }
        }
    }
    let mut dump = String::new();
    for (i, (e, v)) in entries.iter().zip(&views).enumerate() {
        let Some(v) = v else { continue };
        let ty = Ty::decode(e.desc);
        r.add("declarations", 1);
        dump += &format!("{}\t{}\n", e.desc, hex(v.text.as_bytes()).replace(' ', ""));
        if i % (entries.len() / 3 + 1) == 0 {
            r.sample(format!("{} -> {}", e.desc, v.text.replace('\n', " ")));
        }
        let res = (|| -> Result<(), String> {
            let (n, m) = parse(&v.text)?;
            r.add("members", m.len() as u64);
            let got = resolve(&n, &m, &reg, 0)?;
            if got != ty {
                return Err(format!("declares {} instead of {}", got.encode(), ty.encode()));
            }
            let Ty::Struct(tn, fs) = &ty else { unreachable!() };
            if v.name != tn {
                return Err(format!("GLSL name `{}` instead of `{tn}`", v.name));
            }
            let want: Vec<(String, String)> = fs.iter().map(|(n, t)| (t.glsl(), n.clone())).collect();
            let have: Vec<(String, String)> =
                v.fields.iter().map(|(t, n)| (t.to_string(), n.to_string())).collect();
            if want != have {
                return Err(format!("field list {have:?} instead of {want:?}"));
            }
            for (l, f, _) in e.views() {
                if f.align != got.align(l) || f.size_of != got.size(l) {
                    return Err(format!(
                        "[{}] declaration needs align {} size {}, converted type has {} / {}",
                        l.name(),
                        got.align(l),
                        got.size(l),
                        f.align,
                        f.size_of
                    ));
                }
                let mask = got.member_mask(l);
                for salt in 0..2 {
                    let bits = base(&got, salt);
                    let want = got.image(l, &bits);
                    let img = guarded(|| (f.enc)(&bits))?;
                    r.add("images", 1);
                    if img.len() != want.len() || (0..want.len()).any(|i| mask[i] && want[i] != img[i]) {
                        return Err(format!(
                            "[{}] bytes {} do not match the declared members {}",
                            l.name(),
                            hex(&img),
                            hex(&want)
                        ));
                    }
                }
            }
            Ok(())
        })();
        if let Err(m) = res {
            r.violation(&format!("{}: {m}", e.desc), &format!("{} generates:\n{}", e.desc, v.text), "");
        }
    }
    if let Ok(d) = std::env::var("MC_GLSL_DUMP") {
        let exe = std::env::current_exe().unwrap();
        std::fs::write(std::path::Path::new(&d).join(exe.file_name().unwrap()), dump).unwrap();
    }
    r.finish();
}
