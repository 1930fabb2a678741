//! Reference model of the GLSL std140 / std430 layout rules, independent of
//! crevice (this crate does not depend on it).  Written from the text of the
//! OpenGL specification, section "Standard Uniform Block Layout".

pub mod auto;
pub mod report;
pub mod shapes;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sc {
    F32,
    F64,
    I32,
    U32,
    Bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Layout {
    Std140,
    Std430,
}

impl Layout {
    pub fn name(self) -> &'static str {
        match self {
            Layout::Std140 => "std140",
            Layout::Std430 => "std430",
        }
    }
    pub fn parse(s: &str) -> Layout {
        match s {
            "140" | "std140" => Layout::Std140,
            "430" | "std430" => Layout::Std430,
            _ => panic!("layout {s}"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Scalar(Sc),
    Vec(Sc, usize),
    /// Square, column-major.
    Mat(Sc, usize),
    Struct(String, Vec<(String, Ty)>),
    /// Dynamic-uniform wrapper: alignment at least 256, otherwise transparent.
    Dyn(Box<Ty>),
    /// Fixed-size array.
    Array(Box<Ty>, usize),
    /// Harness-defined opaque block: alignment, size (for writer exploration).
    Blob(usize, usize),
}

pub fn round_up(x: usize, a: usize) -> usize {
    // Alignment 0 (a std430 struct without members) constrains nothing.  The black box is there because rustc 1.99.1
    // (thin-local LTO, opt-level 2) wrongly takes the result of the recursive `Ty::align` for non-zero and removes any
    // test for it.
    let a = std::hint::black_box(a).max(1);
    ((x + a - 1) / a) * a
}

impl Sc {
    /// Size in basic machine units ("N" in the specification).
    pub fn n(self) -> usize {
        match self {
            Sc::F64 => 8,
            _ => 4,
        }
    }
    pub fn glsl(self) -> &'static str {
        match self {
            Sc::F32 => "float",
            Sc::F64 => "double",
            Sc::I32 => "int",
            Sc::U32 => "uint",
            Sc::Bool => "bool",
        }
    }
    fn prefix(self) -> &'static str {
        match self {
            Sc::F32 => "",
            Sc::F64 => "d",
            Sc::I32 => "i",
            Sc::U32 => "u",
            Sc::Bool => "b",
        }
    }
    pub const ALL: [Sc; 5] = [Sc::F32, Sc::F64, Sc::I32, Sc::U32, Sc::Bool];
}

fn vec_align(s: Sc, n: usize) -> usize {
    match n {
        2 => 2 * s.n(),
        3 | 4 => 4 * s.n(),
        _ => panic!("vec{n}"),
    }
}

impl Ty {
    pub fn align(&self, l: Layout) -> usize {
        match self {
            // rule 1
            Ty::Scalar(s) => s.n(),
            // rules 2, 3
            Ty::Vec(s, n) => vec_align(*s, *n),
            // rules 5 and 4: a matrix is an array of its column vectors
            Ty::Mat(s, n) => {
                let a = vec_align(*s, *n);
                match l {
                    Layout::Std140 => round_up(a, 16),
                    Layout::Std430 => a,
                }
            }
            // rule 9
            Ty::Struct(_, fields) => {
                let a = fields.iter().map(|f| f.1.align(l)).max().unwrap_or(0);
                match l {
                    Layout::Std140 => round_up(a.max(1), 16),
                    Layout::Std430 => a,
                }
            }
            Ty::Dyn(t) => t.align(l).max(256),
            // rule 4
            Ty::Array(t, _) => match l {
                Layout::Std140 => round_up(t.align(l), 16),
                Layout::Std430 => t.align(l),
            },
            Ty::Blob(a, _) => *a,
        }
    }

    pub fn size(&self, l: Layout) -> usize {
        match self {
            Ty::Scalar(s) => s.n(),
            Ty::Vec(s, n) => s.n() * n,
            Ty::Mat(_, n) => self.align(l) * n,
            Ty::Struct(_, fields) => {
                let mut off = 0;
                for (_, f) in fields {
                    off = round_up(off, f.align(l)) + f.size(l);
                }
                round_up(off, self.align(l))
            }
            Ty::Dyn(t) => t.size(l),
            Ty::Array(t, n) => array_stride(t, l) * n,
            Ty::Blob(_, s) => *s,
        }
    }

    /// Offsets of the direct members of a struct.
    pub fn offsets(&self, l: Layout) -> Vec<usize> {
        match self {
            Ty::Struct(_, fields) => {
                let mut off = 0;
                let mut out = Vec::new();
                for (_, f) in fields {
                    off = round_up(off, f.align(l));
                    out.push(off);
                    off += f.size(l);
                }
                out
            }
            _ => vec![0],
        }
    }

    fn push_leaves(&self, l: Layout, base: usize, out: &mut Vec<(usize, Sc)>) {
        match self {
            Ty::Scalar(s) => out.push((base, *s)),
            Ty::Vec(s, n) => {
                for i in 0..*n {
                    out.push((base + i * s.n(), *s));
                }
            }
            Ty::Mat(s, n) => {
                let stride = self.align(l);
                for c in 0..*n {
                    for r in 0..*n {
                        out.push((base + c * stride + r * s.n(), *s));
                    }
                }
            }
            Ty::Struct(_, fields) => {
                for (o, (_, f)) in self.offsets(l).into_iter().zip(fields) {
                    f.push_leaves(l, base + o, out);
                }
            }
            Ty::Dyn(t) => t.push_leaves(l, base, out),
            Ty::Array(t, n) => {
                let stride = array_stride(t, l);
                for i in 0..*n {
                    t.push_leaves(l, base + i * stride, out);
                }
            }
            Ty::Blob(_, s) => {
                assert!(s % 4 == 0);
                for i in 0..s / 4 {
                    out.push((base + 4 * i, Sc::U32));
                }
            }
        }
    }

    /// Scalar leaves in declaration order with their byte offsets.
    pub fn leaves(&self, l: Layout) -> Vec<(usize, Sc)> {
        let mut v = Vec::new();
        self.push_leaves(l, 0, &mut v);
        v
    }

    pub fn scalars(&self) -> Vec<Sc> {
        self.leaves(Layout::Std430).into_iter().map(|x| x.1).collect()
    }

    /// Expected byte image of a value whose leaves have the given bits.
    pub fn image(&self, l: Layout, bits: &[u64]) -> Vec<u8> {
        let mut out = vec![0u8; self.size(l)];
        let lv = self.leaves(l);
        assert_eq!(lv.len(), bits.len());
        for ((off, sc), b) in lv.into_iter().zip(bits) {
            put(&mut out, off, sc, *b);
        }
        out
    }

    /// true for every byte that belongs to a member.
    pub fn member_mask(&self, l: Layout) -> Vec<bool> {
        let mut out = vec![false; self.size(l)];
        for (off, sc) in self.leaves(l) {
            for b in &mut out[off..off + sc.n()] {
                *b = true;
            }
        }
        out
    }

    pub fn glsl(&self) -> String {
        match self {
            Ty::Scalar(s) => s.glsl().to_string(),
            Ty::Vec(s, n) => format!("{}vec{}", s.prefix(), n),
            Ty::Mat(s, n) => format!("{}mat{}", s.prefix(), n),
            Ty::Struct(name, _) => name.clone(),
            Ty::Dyn(t) => t.glsl(),
            Ty::Array(..) | Ty::Blob(..) => "?".into(),
        }
    }

    pub fn builtin_from_glsl(name: &str) -> Option<Ty> {
        builtins().into_iter().find(|t| t.glsl() == name)
    }

    // ---- text codec: used to hand types from the generator to the harness --

    pub fn encode(&self) -> String {
        match self {
            Ty::Struct(n, fs) => {
                let inner: Vec<String> = fs.iter().map(|(n, t)| format!("{n}:{}", t.encode())).collect();
                format!("{n}{{{}}}", inner.join(","))
            }
            Ty::Dyn(t) => format!("@{}", t.encode()),
            Ty::Array(t, n) => format!("[{};{n}]", t.encode()),
            Ty::Blob(a, s) => format!("#{a}x{s}"),
            _ => self.glsl(),
        }
    }

    pub fn decode(s: &str) -> Ty {
        let b = s.as_bytes();
        let mut i = 0;
        let t = dec(b, &mut i);
        assert!(i == b.len(), "trailing input in type {s}");
        t
    }
}

pub fn array_stride(t: &Ty, l: Layout) -> usize {
    let a = match l {
        Layout::Std140 => round_up(t.align(l), 16),
        Layout::Std430 => t.align(l),
    };
    round_up(t.size(l), a)
}

fn ident(b: &[u8], i: &mut usize) -> String {
    let st = *i;
    while *i < b.len() && !b"{}:,@[];#".contains(&b[*i]) {
        *i += 1;
    }
    String::from_utf8(b[st..*i].to_vec()).unwrap()
}

fn num(b: &[u8], i: &mut usize) -> usize {
    let st = *i;
    while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
    }
    std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap()
}

fn dec(b: &[u8], i: &mut usize) -> Ty {
    match b[*i] {
        b'@' => {
            *i += 1;
            Ty::Dyn(Box::new(dec(b, i)))
        }
        b'[' => {
            *i += 1;
            let t = dec(b, i);
            assert_eq!(b[*i], b';');
            *i += 1;
            let n = num(b, i);
            assert_eq!(b[*i], b']');
            *i += 1;
            Ty::Array(Box::new(t), n)
        }
        b'#' => {
            *i += 1;
            let a = num(b, i);
            assert_eq!(b[*i], b'x');
            *i += 1;
            let s = num(b, i);
            Ty::Blob(a, s)
        }
        _ => {
            let name = ident(b, i);
            if *i < b.len() && b[*i] == b'{' {
                *i += 1;
                let mut fields = Vec::new();
                while b[*i] != b'}' {
                    let f = ident(b, i);
                    assert_eq!(b[*i], b':');
                    *i += 1;
                    fields.push((f, dec(b, i)));
                    if b[*i] == b',' {
                        *i += 1;
                    }
                }
                *i += 1;
                Ty::Struct(name, fields)
            } else {
                Ty::builtin_from_glsl(&name).unwrap_or_else(|| panic!("type {name}"))
            }
        }
    }
}

/// The 26 built-in GLSL types crevice offers.
pub fn builtins() -> Vec<Ty> {
    let mut v = Vec::new();
    for s in Sc::ALL {
        v.push(Ty::Scalar(s));
    }
    for s in Sc::ALL {
        for n in 2..=4 {
            v.push(Ty::Vec(s, n));
        }
    }
    for s in [Sc::F32, Sc::F64] {
        for n in 2..=4 {
            v.push(Ty::Mat(s, n));
        }
    }
    v
}

pub fn put(out: &mut [u8], off: usize, sc: Sc, bits: u64) {
    match sc.n() {
        4 => out[off..off + 4].copy_from_slice(&(bits as u32).to_ne_bytes()),
        _ => out[off..off + 8].copy_from_slice(&bits.to_ne_bytes()),
    }
}

/// Baseline bits of leaf number `i`: every byte non-zero, distinct per leaf,
/// and (unlike a plain counter) different in every byte position.
pub fn base_bits(sc: Sc, i: usize, salt: usize) -> u64 {
    let k = (i * 7 + salt * 31) as u64;
    let b = |j: u64| -> u64 { 1 + ((k * 8 + j * 37 + (k >> 3) * 11) % 255) };
    match sc {
        Sc::Bool => ((i + salt) % 2 == 0) as u64,
        Sc::F64 => (0..8).fold(0, |a, j| a | (b(j) << (8 * j))),
        _ => (0..4).fold(0, |a, j| a | (b(j) << (8 * j))),
    }
}

/// Boundary bit patterns of a scalar.
pub fn special_bits(sc: Sc) -> &'static [u64] {
    match sc {
        Sc::F32 => &[
            0,
            0x8000_0000,
            1,
            0x3f80_0000,
            0x3f80_0001,
            0x7f7f_ffff,
            0x7f80_0000,
            0xff80_0000,
            0x7fc0_0001,
            0xffc1_2345,
            0x7fa0_0001,
            0xffff_ffff,
        ],
        Sc::F64 => &[
            0,
            0x8000_0000_0000_0000,
            1,
            0x3ff0_0000_0000_0000,
            0x3ff0_0000_0000_0001,
            0x7fef_ffff_ffff_ffff,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0001,
            0xfff8_1234_5678_9abc,
            0x7ff4_0000_0000_0001,
            0xffff_ffff_ffff_ffff,
        ],
        Sc::I32 | Sc::U32 => &[
            0,
            1,
            0x7f,
            0x80,
            0xff,
            0x100,
            0x7fff,
            0x8000,
            0xffff,
            0x1_0000,
            0x00ff_ffff,
            0x0100_0001,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_fffe,
            0xffff_ffff,
            0x0102_0304,
        ],
        Sc::Bool => &[0, 1],
    }
}

/// 32-bit words a GPU may store for a boolean.
pub const BOOL_WORDS: &[u32] = &[
    0, 1, 2, 3, 0x80, 0xff, 0x100, 0x8000, 0xff00, 0x1_0000, 0x00ff_0000, 0x0100_0000, 0x8000_0000, 0x7fff_ffff,
    0xffff_fffe, 0xffff_ffff,
];
