//! Checks on enumerated struct shapes (and built-in types).

use crate::*;
use mcmodel::report::{esc, hex, Report};
use mcmodel::{base_bits, special_bits, BOOL_WORDS};

pub fn base(ty: &Ty, salt: usize) -> Vec<u64> {
    ty.scalars().iter().enumerate().map(|(i, s)| base_bits(*s, i, salt)).collect()
}

fn describe(e: &Entry, ty: &Ty, l: Layout) -> String {
    format!("{} [{}] {} expected align {} size {} offsets {:?}", e.src, l.name(), e.desc, ty.align(l), ty.size(l), ty.offsets(l))
}

/// A small Rust `main` body asserting the expected image; the driver prepends
/// the definitions.
fn repro(e: &Entry, ty: &Ty, l: Layout) -> String {
    let n = l.name();
    let t = if l == Layout::Std140 { ("AsStd140", "Std140") } else { ("AsStd430", "Std430") };
    format!(
        "// type {}\nuse crevice::{n}::{{{} as _, {} as _}};\ntype O = <{} as crevice::{n}::{}>::Output;\nassert_eq!(<O as crevice::{n}::{}>::ALIGNMENT, {});\nassert_eq!(std::mem::size_of::<O>(), {});\n// expected member offsets {:?}; all other bytes zero",
        e.desc, t.0, t.1, e.src, t.0, t.1, ty.align(l), ty.size(l), ty.offsets(l)
    )
}

struct Cx<'a> {
    r: &'a mut Report,
    e: &'a Entry,
    ty: &'a Ty,
    l: Layout,
}

impl Cx<'_> {
    fn fail(&mut self, what: String) {
        let d = describe(self.e, self.ty, self.l);
        let p = repro(self.e, self.ty, self.l);
        self.r.violation(&format!("{} [{}]: {}", self.e.desc, self.l.name(), what), &d, &p);
    }
    fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("{what} {m}"));
                None
            }
        }
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i))
}

/// Where the bytes of leaf `i` actually are, for the message.
fn locate(img: &[u8], sc: Sc, bits: u64) -> Vec<usize> {
    let mut pat = vec![0; sc.n()];
    mcmodel::put(&mut pat, 0, sc, bits);
    (0..img.len().saturating_sub(sc.n() - 1)).filter(|&o| img[o..o + sc.n()] == pat[..]).collect()
}

/// C01/C02/C03: alignment, size and member offsets.
pub fn check_layout(r: &mut Report, e: &Entry, only: Option<Layout>) {
    let ty = Ty::decode(e.desc);
    for (l, f, inh) in e.views() {
        if only.is_some_and(|o| o != l) {
            continue;
        }
        r.add("types", 1);
        r.add("members", ty.offsets(l).len() as u64);
        let mut c = Cx { r, e, ty: &ty, l };
        if f.align != ty.align(l) {
            c.fail(format!("alignment {} instead of {}", f.align, ty.align(l)));
        }
        let st = (f.size_static)();
        if f.size_of != ty.size(l) || st != ty.size(l) {
            c.fail(format!("size {} (reported {}) instead of {}", f.size_of, st, ty.size(l)));
        }
        let lv = ty.leaves(l);
        let mask = ty.member_mask(l);
        for salt in 0..2 {
            let bits = base(&ty, salt);
            let Some(img) = c.call("conversion", || (f.enc)(&bits)) else { return };
            c.r.add("images", 1);
            let want = ty.image(l, &bits);
            if img.len() != want.len() {
                c.fail(format!("byte image has {} bytes instead of {}", img.len(), want.len()));
                break;
            }
            let mut bad = (0..img.len()).filter(|&i| mask[i] && img[i] != want[i]);
            if let Some(i) = bad.next() {
                let k = lv.iter().position(|(o, s)| (*o..o + s.n()).contains(&i)).unwrap();
                let at = locate(&img, lv[k].1, bits[k]);
                c.fail(format!(
                    "component {k} expected at byte {} but its bytes are at {at:?}; image {}",
                    lv[k].0,
                    hex(&img)
                ));
                break;
            }
            if let Some(inh) = inh {
                let Some(b) = c.call("as_bytes", || inh(&bits)) else { return };
                if b.len() != want.len() || (0..b.len()).any(|i| mask[i] && b[i] != want[i]) {
                    c.fail(format!("inherent byte accessor gives {}", hex(&b)));
                    break;
                }
            }
        }
        let (mut x, mut y) = (f.align, f.size_of);
        if x == 0 {
            x = 1;
            y = 0;
        }
        r.add(&format!("outcome:align{x},sizemod32:{}", y % 32), 1);
    }
}

/// C04: every byte outside the members is zero; images are reproducible and
/// equal through every accessor.
pub fn check_zero(r: &mut Report, e: &Entry) {
    let ty = Ty::decode(e.desc);
    for (l, f, inh) in e.views() {
        r.add("types", 1);
        let mask = ty.member_mask(l);
        let npad = mask.iter().filter(|m| !**m).count();
        r.add("padding_bytes", npad as u64);
        let mut c = Cx { r, e, ty: &ty, l };
        let mut seen: Vec<(Vec<u64>, Vec<u8>)> = Vec::new();
        for salt in 0..3 {
            let bits = base(&ty, salt);
            for pat in [0xa5u8, 0xff, 0x00, 0x5a] {
                dirty_stack(pat);
                let Some(img) = c.call("conversion", || (f.enc)(&bits)) else { return };
                c.r.add("images", 1);
                if let Some(i) = (0..img.len()).find(|&i| !mask.get(i).copied().unwrap_or(false) && img[i] != 0) {
                    c.fail(format!("byte {i} is padding but holds {:#04x}; image {}", img[i], hex(&img)));
                    return;
                }
                if img.len() != ty.size(l) {
                    c.fail(format!("image has {} bytes, members and padding need {}", img.len(), ty.size(l)));
                    return;
                }
                let want = ty.image(l, &bits);
                if let Some(i) = first_diff(&img, &want) {
                    c.fail(format!("byte {i} is {:#04x}, expected {:#04x}; image {}", img[i], want[i], hex(&img)));
                    return;
                }
                if let Some(inh) = inh {
                    dirty_stack(pat ^ 0x33);
                    let Some(b) = c.call("as_bytes", || inh(&bits)) else { return };
                    c.r.add("images", 1);
                    if b != img {
                        c.fail(format!("accessors disagree: {} vs {}", hex(&b), hex(&img)));
                        return;
                    }
                }
                seen.push((bits.clone(), img));
            }
        }
        // a function of the member values alone: replay in reverse order
        for (bits, img) in seen.iter().rev() {
            dirty_stack(0x77);
            let Some(b) = c.call("conversion", || (f.enc)(bits)) else { return };
            if &b != img {
                c.fail(format!("same value, different images: {} vs {}", hex(&b), hex(img)));
                return;
            }
        }
        // every leaf through its boundary patterns
        let bits0 = base(&ty, 0);
        for (k, sc) in ty.scalars().into_iter().enumerate() {
            for s in special_bits(sc) {
                let mut bits = bits0.clone();
                bits[k] = *s;
                let Some(img) = c.call("conversion", || (f.enc)(&bits)) else { return };
                c.r.add("images", 1);
                let want = ty.image(l, &bits);
                if img != want {
                    let i = first_diff(&img, &want).unwrap();
                    c.fail(format!("component {k} = {s:#x}: byte {i} wrong; image {}", hex(&img)));
                    return;
                }
            }
        }
    }
}

/// C05: lossless round trip, directly and through bytes at any address.
pub fn check_trip(r: &mut Report, e: &Entry) {
    let ty = Ty::decode(e.desc);
    for (l, f, _) in e.views() {
        r.add("types", 1);
        let mut c = Cx { r, e, ty: &ty, l };
        let scs = ty.scalars();
        let mut vals: Vec<Vec<u64>> = (0..4).map(|s| base(&ty, s)).collect();
        let nb = scs.iter().filter(|s| **s == Sc::Bool).count();
        for (k, sc) in scs.iter().enumerate() {
            for s in special_bits(*sc) {
                let mut v = vals[0].clone();
                v[k] = *s;
                vals.push(v);
            }
        }
        // all boolean combinations
        if nb > 0 && nb <= 6 {
            for m in 0..1u32 << nb {
                let mut v = vals[1].clone();
                let mut j = 0;
                for (k, sc) in scs.iter().enumerate() {
                    if *sc == Sc::Bool {
                        v[k] = ((m >> j) & 1) as u64;
                        j += 1;
                    }
                }
                vals.push(v);
            }
        }
        // uniform extremes
        for i in 0..12 {
            vals.push(scs.iter().map(|s| special_bits(*s)[i % special_bits(*s).len()]).collect());
        }
        let mut buf = vec![0u8; f.size_of + 16];
        for (vi, bits) in vals.iter().enumerate() {
            c.r.add("values", 1);
            let Some(back) = c.call("round trip", || (f.trip)(bits)) else { return };
            if &back != bits {
                let k = (0..bits.len()).find(|&k| back.get(k) != Some(&bits[k])).unwrap();
                c.fail(format!("component {k}: {:#x} came back as {:#x?}", bits[k], back.get(k)));
                return;
            }
            let Some(img) = c.call("conversion", || (f.enc)(bits)) else { return };
            if img.len() != f.size_of {
                c.fail(format!("image length {} != size {}", img.len(), f.size_of));
                return;
            }
            let o = 1 + vi % 15;
            buf[o..o + img.len()].copy_from_slice(&img);
            let Some(back) = c.call("reading bytes", || (f.dec)(&buf[o..o + img.len()])) else { return };
            if &back != bits {
                let k = (0..bits.len()).find(|&k| back.get(k) != Some(&bits[k])).unwrap();
                c.fail(format!("through bytes, component {k}: {:#x} came back as {:#x?}", bits[k], back.get(k)));
                return;
            }
        }
    }
}

/// C06: any byte image is accepted, preserved, and read back from its member
/// bytes only.
pub fn check_readback(r: &mut Report, e: &Entry) {
    let ty = Ty::decode(e.desc);
    for (l, f, _) in e.views() {
        r.add("types", 1);
        let mut c = Cx { r, e, ty: &ty, l };
        let size = ty.size(l);
        if f.size_of != size {
            c.fail(format!("size {} instead of {size}", f.size_of));
            return;
        }
        let bits = base(&ty, 1);
        let clean = ty.image(l, &bits);
        let mask = ty.member_mask(l);
        let lv = ty.leaves(l);
        let mut images: Vec<(Vec<u8>, Vec<u64>)> = Vec::new();
        for g in [0xffu8, 0x01, 0x80, 0xa5] {
            let mut i = clean.clone();
            for k in 0..size {
                if !mask[k] {
                    i[k] = g.wrapping_add(k as u8) | 1;
                }
            }
            images.push((i, bits.clone()));
        }
        for k in 0..size {
            if !mask[k] {
                let mut i = clean.clone();
                i[k] = 0xff;
                images.push((i, bits.clone()));
            }
        }
        for (k, (off, sc)) in lv.iter().enumerate() {
            if *sc == Sc::Bool {
                for w in BOOL_WORDS {
                    let mut i = clean.clone();
                    mcmodel::put(&mut i, *off, *sc, *w as u64);
                    let mut b = bits.clone();
                    b[k] = (*w != 0) as u64;
                    images.push((i, b));
                }
            } else {
                for s in special_bits(*sc) {
                    let mut i = clean.clone();
                    mcmodel::put(&mut i, *off, *sc, *s);
                    let mut b = bits.clone();
                    b[k] = *s;
                    images.push((i, b));
                }
            }
        }
        for w in BOOL_WORDS {
            // all booleans at once, garbage everywhere else
            let mut i: Vec<u8> = (0..size).map(|k| (k as u8).wrapping_mul(37) | 1).collect();
            let mut b = Vec::new();
            for (off, sc) in &lv {
                if *sc == Sc::Bool {
                    mcmodel::put(&mut i, *off, *sc, *w as u64);
                    b.push((*w != 0) as u64);
                } else {
                    let mut v = 0u64;
                    for j in (0..sc.n()).rev() {
                        v = (v << 8) | i[off + j] as u64;
                    }
                    b.push(if cfg!(target_endian = "big") { v.swap_bytes() >> (64 - 8 * sc.n()) } else { v });
                }
            }
            images.push((i, b));
        }
        for (img, want) in &images {
            c.r.add("byte_images", 1);
            let Some(got) = c.call("reading", || (f.dec)(img)) else { return };
            if &got != want {
                let k = (0..want.len()).find(|&k| got.get(k) != Some(&want[k])).unwrap();
                c.fail(format!("image {}: component {k} read as {:#x?}, expected {:#x}", hex(img), got.get(k), want[k]));
                return;
            }
            let Some(back) = c.call("casting", || (f.pod)(img)) else { return };
            if &back != img {
                c.fail(format!("bytes {} became {}", hex(img), hex(&back)));
                return;
            }
        }
    }
}

/// One item of a metrics text.
#[derive(Debug, PartialEq)]
enum Tok {
    Word(String),
    Num(u64),
    Str(String),
}

fn toks(s: &str) -> Vec<Tok> {
    let mut o = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' {
            let mut t = String::new();
            while let Some(c) = it.next() {
                match c {
                    '"' => break,
                    '\\' => t.extend(it.next()),
                    c => t.push(c),
                }
            }
            o.push(Tok::Str(t));
        } else if c.is_alphanumeric() || c == '_' {
            let mut t = String::from(c);
            while let Some(c) = it.peek().filter(|c| c.is_alphanumeric() || **c == '_') {
                t.push(*c);
                it.next();
            }
            o.push(t.parse().map(Tok::Num).unwrap_or(Tok::Word(t.to_lowercase())));
        }
    }
    o
}

/// The value that follows `key`.
fn after<'a>(t: &'a [Tok], key: &str) -> Option<&'a Tok> {
    t.iter().position(|x| matches!(x, Tok::Word(w) if w == key)).and_then(|i| t.get(i + 1))
}

/// C18: what a layout struct says about itself.
pub fn check_debug(r: &mut Report, e: &Entry) {
    let ty = Ty::decode(e.desc);
    let Ty::Struct(_, members) = &ty else { return };
    for (l, d) in [(Layout::Std140, e.dbg140), (Layout::Std430, e.dbg430)] {
        let Some((metrics, definitions)) = d else { continue };
        r.add("types", 1);
        let mut c = Cx { r, e, ty: &ty, l };
        let (Some(m), Some(d)) = (c.call("debug_metrics", metrics), c.call("debug_definitions", definitions)) else { continue };
        let t = toks(&m);
        let num = |k| after(&t, k).and_then(|x| if let Tok::Num(n) = x { Some(*n as usize) } else { None });
        if num("size") != Some(ty.size(l)) || num("align") != Some(ty.align(l)) {
            c.fail(format!("introspection says {m}"));
            continue;
        }
        // one group of name, offset and size per member
        let starts: Vec<usize> = (0..t.len()).filter(|&i| t[i] == Tok::Word("name".into())).collect();
        let mut got = Vec::new();
        for (k, &i) in starts.iter().enumerate() {
            let end = starts.get(k + 1).copied().unwrap_or(t.len());
            let g = &t[i..end];
            let num = |k| after(g, k).and_then(|x| if let Tok::Num(n) = x { Some(*n as usize) } else { None });
            let name = after(g, "name").and_then(|x| if let Tok::Str(n) = x { Some(n.trim_start_matches("r#").to_string()) } else { None });
            got.push((name, num("offset"), num("size")));
        }
        let want: Vec<_> =
            members.iter().zip(ty.offsets(l)).map(|((n, t), o)| (Some(n.clone()), Some(o), Some(t.size(l)))).collect();
        if got != want {
            let k = (0..got.len().max(want.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
            c.fail(format!("introspection reports member {k} as {:?} instead of {:?}", got.get(k), want.get(k)));
            continue;
        }
        r.add("members", want.len() as u64);
        println!(
            "MC {{\"kind\":\"definition\",\"type\":{},\"layout\":\"{}\",\"size\":{},\"members\":[{}],\"offsets\":{:?},\"text\":{}}}",
            esc(e.src),
            l.name(),
            ty.size(l),
            members.iter().map(|m| esc(&m.0)).collect::<Vec<_>>().join(","),
            ty.offsets(l),
            esc(d)
        );
    }
}

pub fn run(mode: &str, entries: &[Entry]) {
    #[cfg(feature = "std")]
    if mode == "glsl" {
        return crate::glsl::run(entries);
    }
    quiet_panics();
    let mut r = Report::new();
    let only = std::env::var("MC_ONLY").ok();
    for (i, e) in entries.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != e.desc) {
            continue;
        }
        if i % (entries.len() / 3 + 1) == 0 {
            r.sample(format!("{} = {}", e.src, e.desc));
        }
        match mode {
            "layout140" => check_layout(&mut r, e, Some(Layout::Std140)),
            "layout430" => check_layout(&mut r, e, Some(Layout::Std430)),
            "layout" => check_layout(&mut r, e, None),
            "zero" => check_zero(&mut r, e),
            "trip" => check_trip(&mut r, e),
            "debug" => check_debug(&mut r, e),
            "readback" => check_readback(&mut r, e),
            m => panic!("mode {m}"),
        }
    }
    r.finish();
}
