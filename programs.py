"""Program families for C14 (must compile, silently, and be right) and C15
(must be rejected)."""
import copy
import itertools, re, os

SC = {"float": "f32", "double": "f64", "int": "i32", "uint": "u32", "bool": "bool"}
PRE = {"float": "", "double": "d", "int": "i", "uint": "u", "bool": "b"}

def builtins():
    """[(rust spelling, GLSL name)]"""
    out = []
    for s, r in SC.items():
        out.append((r, s))
        for n in (2, 3, 4):
            out.append((f"mint::Vector{n}<{r}>", f"{PRE[s]}vec{n}"))
        if s in ("float", "double"):
            for n in (2, 3, 4):
                out.append((f"mint::ColumnMatrix{n}<{r}>", f"{PRE[s]}mat{n}"))
    return out

B = builtins()
BY = {g: r for r, g in B}

ALL = ("AsStd140", "AsStd430", "GlslStruct")
SETS = [("AsStd140",), ("AsStd430",), ("GlslStruct",), ("AsStd140", "AsStd430"), ("AsStd430", "AsStd140"),
        ("AsStd140", "GlslStruct"), ("GlslStruct", "AsStd430"), ALL, ("GlslStruct", "AsStd430", "AsStd140")]
MOD = {"AsStd140": "std140", "AsStd430": "std430", "GlslStruct": "glsl"}


def unraw(s):
    return s[2:] if s.startswith("r#") else s


class F:
    def __init__(self, name, spell, desc, attrs="", l140=True, l430=True, glsl=True):
        self.name, self.spell, self.desc, self.attrs = name, spell, desc, attrs
        self.l140, self.l430, self.glsl = l140, l430, glsl


def f(name, g):
    return F(name, BY[g], g)


def desc(sname, fields):
    return unraw(sname) + "{" + ",".join(f"{unraw(x.name)}:{x.desc}" for x in fields) + "}"


class Case:
    """One struct in one context."""
    def __init__(self, what, fields, name=None, derives=ALL, imp="use", loc="root", svis="", fvis="", attrs="",
                 pre="", edition="2021", trailing=True, together=True, lib_ok=False, check=True, inner="", tail=""):
        self.what, self.fields, self.name = what, fields, name
        d = [x for x in derives]
        if any(not x.l140 for x in fields):
            d = [x for x in d if x != "AsStd140"]
        if any(not x.l430 for x in fields):
            d = [x for x in d if x != "AsStd430"]
        if any(not x.glsl for x in fields) or not fields:
            d = [x for x in d if x != "GlslStruct"]
        self.derives = d
        self.imp, self.loc, self.svis, self.fvis, self.attrs = imp, loc, svis, fvis, attrs
        self.pre, self.edition, self.trailing, self.together = pre, edition, trailing, together
        self.lib_ok, self.check = lib_ok, check
        self.inner, self.tail = inner, tail
        if not check:
            self.attrs += " #[allow(dead_code)]"
            self.pre = self.pre.replace("pub struct", "#[allow(dead_code)] pub struct")

    def uses(self):
        ms = [(MOD[d], d) for d in self.derives]
        if self.imp == "use":
            return "".join(f"use crevice::{m}::{d}; " for m, d in ms)
        if self.imp == "abs":
            return "".join(f"use ::crevice::{m}::{d}; " for m, d in ms)
        if self.imp == "group":
            return "use crevice::{" + ", ".join(f"{m}::{d}" for m, d in ms) + "}; "
        if self.imp == "rename":
            return "".join(f"use crevice::{m}::{d} as Der{i}; " for i, (m, d) in enumerate(ms))
        if self.imp == "module":
            return "".join(f"use crevice::{m}; " for m, d in ms)
        if self.imp == "glob":
            return "".join(f"use crevice::{m}::*; " for m, d in ms)
        return ""

    def paths(self):
        out = []
        for i, d in enumerate(self.derives):
            m = MOD[d]
            out.append({"use": d, "abs": d, "group": d, "glob": d, "rename": f"Der{i}", "module": f"{m}::{d}",
                        "path": f"crevice::{m}::{d}", "abspath": f"::crevice::{m}::{d}"}[self.imp])
        return out

    def definition(self, name, hidden=True):
        ps = self.paths()
        der = f"#[derive({', '.join(ps)})] " if self.together else "".join(f"#[derive({p})] " for p in ps)
        if "cfg_attr" in self.attrs:
            der = f"#[cfg_attr(all(), derive({', '.join(ps)}))] "
        attrs = self.attrs.replace("cfg_attr", "")
        fs = ", ".join(f"{x.attrs} /** member */ {self.fvis} {x.name}: {x.spell}".strip() for x in self.fields)
        if self.trailing and fs:
            fs += ","
        if self.inner:
            fs = fs + " " + self.inner
        return f"/** doc */ {der}{attrs} {self.svis} struct {name}{self.tail} {{ {fs} }} "

    def shape(self, name):
        mk = " ".join(f"{x.name}: ::mcrt::Shape::make(s)," for x in self.fields)
        lv = " ".join(f"::mcrt::Shape::leaves(&self.{x.name}, o);" for x in self.fields)
        s = "s" if self.fields else "_"
        o = "o" if self.fields else "_"
        return (f"#[allow(deprecated)] impl ::mcrt::Shape for {name} {{ fn make({s}: &mut ::mcrt::Src<'_>) -> Self {{ {name} {{ {mk} }} }} "
                f"fn leaves(&self, {o}: &mut ::std::vec::Vec<u64>) {{ {lv} }} }} ")

    def build(self, name):
        if not self.check:
            return "::mcrt::Entry::new(\"float\", \"unchecked\")"
        body = f"{{ let mut e = ::mcrt::Entry::new({q(desc(name, self.fields))}, {q(self.what)}); "
        mut = False
        for d, (field, fn) in {"AsStd140": ("l140", "f140"), "AsStd430": ("l430", "f430"), "GlslStruct": ("glsl", "glsl_view")}.items():
            if d in self.derives:
                mut = True
                v = f"::mcrt::{fn}::<{name}>"
                body += f"e.{field} = ::core::option::Option::Some({v}{'' if d == 'GlslStruct' else '()'}); "
        if not mut:
            body = body.replace("let mut", "let")
        return body + "e }"

    def emit(self, k):
        """A module `c<k>` with `pub fn entry() -> mcrt::Entry`."""
        name = self.name or f"Foo{k}"
        d, s, b = self.definition(name), self.shape(name), self.build(name)
        use_shape = s if self.check else ""
        al = "#[allow(deprecated, unused_mut)] "
        e = f"{al}pub fn entry() -> ::mcrt::Entry {{ {b} }} "
        u = self.uses()
        if not self.check:
            al = ""
        p = self.pre
        loc = self.loc
        if loc == "root":
            t = f"{u}{p} {d} {use_shape} {e}"
        elif loc == "nested":
            t = f"pub mod inner {{ pub mod deeper {{ {u}{p} {d} {use_shape} {e} }} }} pub use self::inner::deeper::entry; "
        elif loc == "fn":
            t = f"pub fn entry() -> ::mcrt::Entry {{ {u}{p} {d} {use_shape} {b} }} "
        elif loc == "fnuse":
            t = f"{u}{p} pub fn entry() -> ::mcrt::Entry {{ {d} {use_shape} {b} }} "
        elif loc == "block":
            t = f"pub fn entry() -> ::mcrt::Entry {{ let e = {{ {{ {u}{p} {d} {use_shape} {b} }} }}; e }} "
        elif loc == "closure":
            t = f"pub fn entry() -> ::mcrt::Entry {{ let g = || {{ {u}{p} {d} {use_shape} {b} }}; g() }} "
        elif loc == "method":
            t = f"struct Holder; impl Holder {{ fn get() -> ::mcrt::Entry {{ {u}{p} {d} {use_shape} {b} }} }} pub fn entry() -> ::mcrt::Entry {{ Holder::get() }} "
        elif loc == "const":
            t = (f"pub trait Give {{ fn give() -> ::mcrt::Entry; }} pub struct Holder; "
                 f"const _: () = {{ {u}{p} {d} {use_shape} impl Give for Holder {{ fn give() -> ::mcrt::Entry {{ {b} }} }} }}; "
                 f"pub fn entry() -> ::mcrt::Entry {{ <Holder as Give>::give() }} ")
        elif loc == "macro_item":
            t = f"{u}{p} macro_rules! m {{ ($i:item) => {{ $i }} }} m! {{ {d} }} {use_shape} {e}"
        elif loc == "macro":
            fs = " ".join(f"{x.name}: {x.spell};" for x in self.fields)
            ps = ", ".join(self.paths())
            t = (f"{u}{p} macro_rules! m {{ ($v:vis $n:ident {{ $($fv:vis $f:ident: $t:ty;)* }}) => {{ #[derive({ps})] {self.attrs.replace('cfg_attr','')} $v struct $n {{ $($fv $f: $t),* }} }} }} "
                 f"m! {{ {self.svis} {name} {{ {' '.join(self.fvis + ' ' + x.name + ': ' + x.spell + ';' for x in self.fields)} }} }} {use_shape} {e}")
        elif loc == "macro_hyg":
            # the struct and its field names come from the macro's own tokens
            t = f"{u}{p} macro_rules! m {{ () => {{ {d} {use_shape} {e} }} }} m!(); "
        elif loc == "macro_fn":
            t = f"macro_rules! m {{ () => {{ {{ {u}{p} {d} {use_shape} {b} }} }} }} pub fn entry() -> ::mcrt::Entry {{ m!() }} "
        else:
            raise KeyError(loc)
        return f"/*{q(self.what)}*/ pub mod c{k} {{ {t} }}\n"


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


KEYWORDS = ("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return "
            "static struct trait true type unsafe use where while async await dyn abstract become box do final macro "
            "override priv typeof unsized virtual yield try gen").split()
WEAK = "union auto default raw macro_rules safe".split()
GENERATED = ("_pad _pad0 _pad1 _pad2 __pad0 __pad1 _pad10 pad0 _pad_0 _padding value output input zeroed offset alignment "
             "starting_offset self_ as_bytes as_std140 from_std140 as_std430 from_std430 std140 std430 core std mem crevice "
             "bytemuck internal glsl size_of align_offset max max_arr i x T E S N Self_ Output ALIGNMENT STARTING_OFFSET NAME "
             "FIELDS Std140 AsStd140 Std430 Zeroable Pod Clone Copy Debug clone default_ name ty fields f u8 u32 usize f32 bool str "
             "Some None Ok Err Vec String debug_metrics write w writer len _0 _a __ ___ a_ A aA").split()
UNICODE = ["größe", "変数", "é", "ñ_0", "Ω"]
LONG = ["a" * 60, "very_" * 40 + "long", "_" * 30]


def names():
    v = ["r#" + k for k in KEYWORDS] + WEAK + GENERATED + LONG
    return v


def cases(thorough):
    out = []
    A = out.append
    b = B
    # --- raw identifiers which are no keywords
    for i, a in enumerate(dict.fromkeys(x for x in GENERATED + WEAK + LONG if unraw(x) not in ("_", "__", "___", "r#_"))):
        r = "r#" + a
        A(Case(f"only field {r}", [f(r, "float")]))
        A(Case(f"field {r} among others", [f("q0", "float"), f(r, "vec3"), f("q1", "bool")]))
        A(Case(f"fields {r}, _{a}", [f(r, "bool"), f("_" + a, "dvec3"), f("_pad0" if a != "_pad0" and a != "pad0" else "q", "float")]))
    for n in range(1, 12):
        A(Case(f"r#_pad0 .. r#_pad{n}", [f(f"r#_pad{i}", ("float", "vec3")[i % 2]) for i in range(n)]))
        A(Case(f"_pad, r#_pad {n}", [f(("r#_pad", "_pad", "r#__pad", "_")[i % 4] + str(i), ("float", "vec3")[i % 2]) for i in range(n)]))
    # --- nothing generic about it
    for ds in SETS:
        for t in ("<>", " where", " where f32: Copy", " where f32: Copy, mint::Vector3<f32>: Clone,", " where Self: Sized", "<> where for<'a> &'a f32: Copy"):
            A(Case(f"struct Foo{t} {ds}", [f("a", "float"), f("b", "vec3")], derives=ds, tail=t))
    # --- number of fields
    top = 130 if thorough else 48
    ns = list(range(0, top + 1)) + ([150, 200, 255, 256, 257, 300] if thorough else [64, 65, 80, 100])
    for n in ns:
        A(Case(f"{n} float fields", [f(f"f{i}", "float") for i in range(n)], check=n > 0))
        A(Case(f"{n} mixed fields", [f(f"f{i}", b[(i * 7 + n) % len(b)][1]) for i in range(n)], check=n > 0))
        if n <= 100:
            A(Case(f"{n} dynamic fields", [F(f"f{i}", f"crevice::std140::DynamicUniform<{BY['vec3']}>", "@vec3", l430=False, glsl=False)
                                           if i % 5 == 0 else f(f"f{i}", "float") for i in range(n)], check=n > 0))
    # --- field names
    nm = names()
    for i, a in enumerate(nm):
        A(Case(f"only field {a}", [f(a, "float")]))
        A(Case(f"field {a} among others", [f("q0", "float"), f(a, "vec3"), f("q1", "bool")]))
        A(Case(f"first field {a}", [f(a, "bool"), f("q0", "dvec3")]))
        A(Case(f"last field {a}", [f("q0", "float"), f(a, "mat2")]))
        for j, c in enumerate(nm):
            if a != c and unraw(a) != unraw(c) and (thorough or (i + j) % 9 == 0):
                A(Case(f"fields {a}, {c}", [f(a, "float"), f(c, "vec3")]))
    seen, alln = set(), []
    for a in nm:
        if unraw(a) not in seen:
            seen.add(unraw(a))
            alln.append(a)
    A(Case("all names", [f(a, b[i % len(b)][1]) for i, a in enumerate(alln)]))
    for n in range(0, 30):
        A(Case(f"_pad0 .. _pad{n}", [f(f"_pad{i}", ("float", "vec3")[i % 2]) for i in range(n + 1)]))
        A(Case(f"__pad, _pad at {n}", [f(("_" * (1 + i % 4)) + f"pad{i // 2}", ("float", "dvec2")[i % 2]) for i in range(n + 1)]))
    for u in UNICODE:
        x = f(u, "vec3")
        x.glsl = False
        A(Case(f"field {u}", [f("a", "float"), x, f("b", "float")]))
        A(Case(f"struct {u}", [f("a", "float"), f("b", "vec3")], name=u, derives=ALL[:2], attrs="#[allow(non_camel_case_types)]"))
    # --- struct names
    for i, s in enumerate(["r#type", "r#fn", "r#struct", "lower", "T", "S", "E", "Output", "Input", "Field", "Std140", "Std430",
                           "AsStd140X", "Std140Std140", "Option_", "Writer", "Sizer", "Vec3", "Mat2", "Bool", "F32", "Glsl", "Zeroable", "Pod",
                           "Zz_9", "_Lead", "__", "A1B2", "UPPER", "u_", "Self_", "Copy_", "Debug_", "X" * 80]):
        for ds in (ALL, ALL[:1], ALL[1:2]):
            A(Case(f"struct name {s} {ds}", [f("a", "float"), f("b", "vec3"), f("_pad0", "bool")], name=s, derives=ds,
                   attrs="#[allow(non_camel_case_types)]", imp=("path" if s in ("Std140", "Std430", "Zeroable", "Pod", "Glsl") else "use")))
    # --- contexts
    imps = ["use", "abs", "group", "rename", "module", "glob", "path", "abspath"]
    locs = ["root", "nested", "fn", "fnuse", "block", "closure", "method", "const", "macro_item", "macro", "macro_hyg", "macro_fn"]
    viss = [("", ""), ("pub", "pub"), ("pub", ""), ("pub(crate)", "pub(crate)"), ("", "pub"), ("pub(super)", "pub(super)"), ("pub", "pub(self)")]
    eds = ["2018", "2021", "2024"]
    n = 0
    for ds in SETS:
        for imp in imps:
            for loc in locs:
                for sv, fv in viss:
                    n += 1
                    if not thorough and (n * 5 + n // 7) % 4:
                        continue
                    fs = [f("a", b[n % len(b)][1]), f(("b", "r#type", "_pad0", "value")[n % 4], b[(n // 3) % len(b)][1]), f("c", "float")]
                    A(Case(f"context {ds} {imp} {loc} '{sv}'/'{fv}'", fs, derives=ds, imp=imp, loc=loc, svis=sv, fvis=fv,
                           edition=eds[n % 3], trailing=n % 2 == 0, together=n % 5 != 0))
    # --- attributes
    at = ["#[derive(Clone)]", "#[derive(Clone, Copy, Debug, PartialEq)]", "#[repr(C)]", "#[repr(align(64))]", "#[repr(C, packed)]", "#[must_use]", "#[allow(dead_code)]",
          "#[deprecated]", "#[doc = \"text\"]", "#[doc(hidden)]", "#[non_exhaustive]", "#[cfg(all())]", "cfg_attr", "#[rustfmt::skip]",
          "#[allow(clippy::all)]", "#[derive()]", "#[expect(dead_code)]"]
    for a in at:
        fs = [f("a", "float"), f("b", "vec3")]
        pre = ""
        if "expect" in a:
            continue
        if "packed" in a:
            # references to packed fields are an error in any Rust code that takes them
            continue
        A(Case(f"struct attribute {a}", fs, attrs=a, pre=pre))
        A(Case(f"struct attribute {a}, path", fs, attrs=a, imp="path", edition="2018"))
    for a in ["/// doc", "#[doc = \"d\"]", "#[allow(unused)]", "#[deprecated]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"x\")]", "#[allow(non_snake_case)]", "#[rustfmt::skip]"]:
        g = f("camelCase", "vec3")
        h = f("z", "float")
        a2 = a.replace("/// doc", "/** doc */")
        g.attrs = a2 + " #[allow(non_snake_case)]"
        h.attrs = a2
        A(Case(f"field attribute {a}", [f("a", "float"), g, h]))
    for ds in SETS:
        for imp in ("use", "path"):
            A(Case(f"deprecated struct {ds} {imp}", [f("a", "float"), f("b", "vec3")], attrs="#[deprecated]", derives=ds, imp=imp))
            A(Case(f"deprecated field type {ds} {imp}", [f("a", "float"), F("b", "Old", "vec3"), F("c", "Old", "vec3")], derives=ds, imp=imp,
                   pre=f"#[deprecated] pub type Old = {BY['vec3']}; ", attrs="#[allow(deprecated)]"))
            g = f("b", "vec3")
            g.attrs = "#[deprecated]"
            A(Case(f"deprecated field {ds} {imp}", [f("a", "float"), g, f("c", "double")], derives=ds, imp=imp))
    for pos in range(3):
        A(Case(f"cfg'd out field at {pos}", [f("a", "float"), f("b", "vec3")], inner="#[cfg(any())] gone: String,", trailing=True))
    # --- field types
    ident = "type Id<X> = X; "
    for i, (r, g) in enumerate(b):
        A(Case(f"type {g}", [f("a", g)]))
        ways = [("alias", f"type Al = {r}; ", "Al"), ("self path", f"pub type Al = {r}; ", "self::Al"), ("paren", "", f"({r})"),
                ("generic alias", ident, f"Id<{r}>"), ("macro", f"macro_rules! ty {{ () => {{ {r} }} }} ", "ty!()"),
                ("projection", "trait Pr { type Ty; } struct Pk; " + f"impl Pr for Pk {{ type Ty = {r}; }} ", "<Pk as Pr>::Ty"),
                ("absolute", "", ("::" + r) if "::" in r else "::core::primitive::" + r), ("nested module", f"mod types {{ pub type Al = {r}; }} ", "types::Al"),
                ("const generic alias", f"type Arr<const K: usize> = {r}; ", "Arr<3>")]
        for w, pre, sp in ways:
            if w == "const generic alias":
                continue
            A(Case(f"type {g} by {w}", [F("a", sp, g), f("b", "float"), F("c", sp, g)], pre=pre, loc=("root", "nested")[i % 2]))
        A(Case(f"dynamic {g}", [f("z", "float"), F("a", f"crevice::std140::DynamicUniform<{r}>", "@" + g, l430=False, glsl=False)]))
        A(Case(f"dynamic dynamic {g}", [F("a", f"crevice::std140::DynamicUniform<crevice::std140::DynamicUniform<{r}>>", "@@" + g, l430=False, glsl=False), f("z", "bool")]))
        if g not in SC or g == "bool":
            for m in ("std140", "std430"):
                p = "" if g[0] in "vm" else g[0].upper()
                base = g if g[0] in "vm" else g[1:]
                sp = f"crevice::{m}::Bool" if g == "bool" else f"crevice::{m}::{p}{base[0].upper()}{base[1:]}"
                A(Case(f"layout type {sp}", [f("z", "float"), F("a", sp, g, l140=m == "std140", l430=m == "std430"), f("y", "bool")]))
    # --- several structs in one scope
    near = ["Foo", "foo", "FOO", "Foo1", "Foo11", "Foo_1", "Foo__1", "FooPad", "FooPad0", "Foo_Pad0", "Foo__Pad0", "_Foo", "__Foo", "Foo_", "Foo__",
            "r#Foo1_0", "Pad", "FooField", "FooOutput"]
    for i, a in enumerate(near):
        for j, c in enumerate(near):
            if a == c or not thorough and (i * 5 + j) % 3:
                continue
            n1, n2 = (2, 12) if (i + j) % 2 else (12, 2)
            loc = ("root", "fn", "nested", "macro_hyg")[(i + j // 3) % 4]
            der = ", ".join(f"crevice::{MOD[d]}::{d}" for d in ALL)
            other = f"#[derive({der})] #[allow(non_camel_case_types, dead_code)] struct {c} {{ " + ", ".join(f"f{x}: {BY[('vec3', 'float')[x % 2]]}" for x in range(n2)) + " } "
            A(Case(f"{a} and {c} in one scope", [f(f"f{x}", ("vec3", "float", "dvec2")[x % 3]) for x in range(n1)], name=a, pre=other, loc=loc,
                   attrs="#[allow(non_camel_case_types)]", imp=("path", "abspath")[j % 2]))
    # --- nesting and user-implemented types
    inner = ("#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)] pub struct In%d { pub a: f32, pub b: mint::Vector3<f32> } "
             "impl ::mcrt::Shape for In%d { fn make(s: &mut ::mcrt::Src<'_>) -> Self { In%d { a: ::mcrt::Shape::make(s), b: ::mcrt::Shape::make(s) } } "
             "fn leaves(&self, o: &mut ::std::vec::Vec<u64>) { ::mcrt::Shape::leaves(&self.a, o); ::mcrt::Shape::leaves(&self.b, o); } } ")
    for i, (vis, loc) in enumerate(itertools.product(["pub struct", "struct"], ["root", "nested", "fn", "macro_item"])):
        for ds in SETS:
            k = 10000 + len(out)
            pre = (inner % (k, k, k)).replace("pub struct", vis)
            A(Case(f"nested {vis} {loc} {ds}", [f("x", "float"), F("n", f"In{k}", f"In{k}{{a:float,b:vec3}}", glsl=False), f("y", "bool")], pre=pre, loc=loc, derives=ds,
                   imp=("use", "path")[i % 2]))
    # a nested struct without members
    none = ("#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430)] pub struct In%d {} "
            "impl ::mcrt::Shape for In%d { fn make(_: &mut ::mcrt::Src<'_>) -> Self { In%d {} } fn leaves(&self, _: &mut ::std::vec::Vec<u64>) {} } ")
    for ds in SETS:
        if ds == ("GlslStruct",):
            continue
        for at in range(8):
            k = 10000 + len(out)
            fs = [F(f"n{j}", f"In{k}", f"In{k}{{}}", glsl=False) if at >> j & 1 else f(f"x{j}", ("float", "vec3", "double")[j]) for j in range(3)]
            if at:
                A(Case(f"empty nested {at:03b} {ds}", fs, pre=none % (k, k, k), derives=ds))
    # a nested struct that has a GLSL name only
    k = 10000 + len(out)
    A(Case("GLSL-only nested", [f("x", "float"), F("n", f"In{k}", f"In{k}{{a:float,b:vec3}}")], derives=("GlslStruct",), check=False,
           pre=f"#[derive(crevice::glsl::GlslStruct)] pub struct In{k} {{ pub a: f32, pub b: mint::Vector3<f32> }} ", svis="pub", fvis="pub"))
    # a user type with its own conversion
    custom = ("#[derive(Clone, Copy)] pub struct Meters(f32); "
              "impl crevice::std140::AsStd140 for Meters { type Output = f32; fn as_std140(&self) -> f32 { self.0 } fn from_std140(v: f32) -> Self { Meters(v) } } "
              "impl crevice::std430::AsStd430 for Meters { type Output = f32; fn as_std430(&self) -> f32 { self.0 } fn from_std430(v: f32) -> Self { Meters(v) } } "
              "unsafe impl crevice::glsl::Glsl for Meters { const NAME: &'static str = \"float\"; } "
              "impl ::mcrt::Shape for Meters { fn make(s: &mut ::mcrt::Src<'_>) -> Self { Meters(::mcrt::Shape::make(s)) } fn leaves(&self, o: &mut ::std::vec::Vec<u64>) { ::mcrt::Shape::leaves(&self.0, o) } } ")
    # inherent methods of the same names must not be picked up
    decoy = custom + "#[allow(dead_code)] impl Meters { fn as_std140(&self) -> u8 { 1 } fn as_std430(&self) -> u8 { 2 } fn from_std140(_: u8) -> u8 { 3 } fn from_std430(_: u8) -> u8 { 4 } } "
    arr = ("unsafe trait Unrelated { fn as_std140(&self) -> u8 { 0 } fn as_std430(&self) -> u8 { 0 } fn as_bytes(&self) -> u8 { 0 } } "
           "unsafe impl<X> Unrelated for X {} ")
    for ds in SETS:
        for imp in ("use", "path", "rename"):
            A(Case(f"user type {ds} {imp}", [f("x", "vec3"), F("m", "Meters", "float"), f("y", "double")], pre=custom, derives=ds, imp=imp))
            A(Case(f"user type with inherent methods {ds} {imp}", [f("x", "vec3"), F("m", "Meters", "float"), f("y", "double")], pre=decoy, derives=ds, imp=imp))
            A(Case(f"other traits with the same method names {ds} {imp}", [f("x", "vec3"), f("y", "double")],
                   pre="#[allow(dead_code)] trait Other { fn as_std140(&self) -> u8 { 0 } fn as_std430(&self) -> u8 { 0 } fn from_std140(_: u8) -> u8 { 0 } fn as_bytes(&self) -> u8 { 0 } } impl<X> Other for X {} ",
                   derives=ds, imp=imp))
    # --- shadowed names around the struct
    shadow = ["mod core {}", "mod std {}", "mod bytemuck {}", "mod internal {}", "mod mem {}", "struct Option;", "struct Vec;", "struct String;",
              "trait Zeroable {}", "trait Pod {}", "trait Into {}", "trait From {}", "trait Default {}", "enum Result {}", "struct Some;",
              "macro_rules! vec { () => {} }", "macro_rules! assert { () => {} }", "macro_rules! concat { () => {} }", "macro_rules! stringify { () => {} }",
              "const ALIGNMENT: usize = 3;", "static OFFSET: usize = 5;", "fn align_offset() {}", "fn max() {}", "fn size_of() {}", "fn zeroed() {}",
              "type Output = u8;", "type Input = u8;", "struct Std140;", "struct Std430;", "trait Debug {}", "trait Clone {}", "trait Copy {}", "fn drop() {}",
              "struct GlslField;", "struct Glsl;", "fn round_up() {}", "struct Writer;", "struct Sized_;", "const NAME: u8 = 1;", "const FIELDS: u8 = 1;",
              "const a: u8 = 1;", "static b: u8 = 2;", "fn value() {}", "fn input() {}", "fn output() {}", "struct a;"]
    for s in shadow:
        for imp in ("use", "abspath"):
            if "mod" in s and imp == "use":
                pass
            A(Case(f"beside `{s}` {imp}", [f("a", "float"), f("b", "vec3"), f("value", "bool")],
                   pre=f"#[allow(warnings)] mod sh {{ }} #[allow(warnings)] {s} " if "macro" not in s else f"#[allow(unused_macros)] {s} ", imp=imp))
            out[-1].shadows = True
    return [c for c in out if c.derives]


def write_accept(d, cs, per=200):
    """Deal the cases into binaries g000...; returns [(bin, edition)]."""
    bins = []
    by = {}
    for c in cs:
        # long structs may need more of the compiler than its default limits
        by.setdefault((c.edition, len(c.fields) > 40), []).append(c)
    n = 0
    for (ed, long), lst in sorted(by.items()):
        shards = max(1, (len(lst) + per - 1) // per)
        for i in range(shards):
            part = lst[i::shards]
            body = "".join(c.emit(j) for j, c in enumerate(part))
            calls = "".join(f"    v.push(c{j}::entry());\n" for j, c in enumerate(part) if c.check)
            limit = '#![recursion_limit = "2048"]\n' if long else ""
            src = ("#![allow(nonstandard_style, unused_parens)]\n" + limit + body + "fn entries() -> Vec<::mcrt::Entry> {\n    let mut v = Vec::new();\n" + calls + "    v\n}\n"
                   "fn main() { ::mcrt::structs::run(&std::env::args().nth(1).unwrap(), &entries()); }\n")
            name = f"g{n:03}"
            n += 1
            with open(os.path.join(d, "src", "bin", name + ".rs"), "w") as fh:
                fh.write(src)
            bins.append((name, ed))
    with open(os.path.join(d, "Cargo.toml")) as fh:
        t = fh.read()
    extra = "".join(f'[[bin]]\nname = "{n}"\npath = "src/bin/{n}.rs"\nedition = "{e}"\n\n' for n, e in bins)
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write(t.replace("[workspace]", extra + "[workspace]"))
    return bins


# ------------------------------------------- whole-crate contexts for C14 --

LIB_HEAD = {
    "std": "#![forbid(unsafe_code)]\n#![deny(missing_docs)]\n#![warn(rust_2018_idioms)]\n//! lib\n",
    "nostd": "#![no_std]\n#![forbid(unsafe_code)]\n//! lib\n",
}


def lib_source(kind, cs):
    """The user's items only, as a library crate."""
    out = ["#![allow(nonstandard_style, unused_parens)]\n" + LIB_HEAD[kind]]
    for k, c in enumerate(cs):
        name = c.name or f"Foo{k}"
        if kind == "nostd":
            # the GLSL declaration needs the standard library
            c = copy.copy(c)
            c.derives = [x for x in c.derives if x != "GlslStruct"]
            if not c.derives:
                continue
        ab = kind == "nostd" and k % 2
        d = c.definition(name)
        if ab:
            d = d.replace("mint::", "::mint::").replace("::::", "::")
        inner = "#![no_implicit_prelude] " if ab else ""
        out.append(f"/** {k} */ pub mod c{k} {{ {inner}{c.uses()}{d} }}\n")
    return "".join(out)


def lib_cases(thorough):
    out = []
    n = 0
    imps = ["use", "abs", "group", "rename", "module", "glob", "path", "abspath"]
    for ds in SETS:
        for imp in imps:
            for size in range(1, 13 if thorough else 6):
                n += 1
                fs = [f(("a", "r#type", "_pad0", "value", "x", "b", "_pad1", "c", "d", "e", "input", "z")[i], B[(n * 3 + i * 5) % len(B)][1]) for i in range(size)]
                out.append(Case(f"library {ds} {imp} {size}", fs, derives=ds, imp="abspath" if n % 2 == 0 else imp if imp != "path" else "abspath", svis="pub", fvis="pub", together=n % 3 != 0))
    # half of the modules have no prelude, so they must use absolute imports
    for i, c in enumerate(out):
        if i % 2 and c.imp not in ("abs", "abspath"):
            c.imp = "abs"
    return out


# ------------------------------------------------------------------- C15 --

BAD_TYPES = """u8 u16 u64 u128 usize i8 i16 i64 i128 isize char ()
&'static+f32 &'static+str &'static+mut+f32 *const+f32 *mut+u32 String Box<f32> Vec<f32> Option<f32> Option<u32> Result<f32,u32>
std::rc::Rc<f32> std::sync::Arc<f32> std::cell::Cell<f32> std::cell::RefCell<f32> std::cell::UnsafeCell<f32> std::num::NonZeroU32 std::num::Wrapping<u32>
std::sync::atomic::AtomicU32 std::marker::PhantomData<f32> std::mem::MaybeUninit<f32> std::mem::ManuallyDrop<f32> std::time::Duration std::cmp::Ordering
std::ops::Range<f32> std::collections::HashMap<u32,f32> fn() fn(f32)->f32 (f32,) (f32,f32) (f32,f32,f32) (f32,f32,f32,f32) (mint::Vector3<f32>,f32)
&'static+[f32] &'static+[f32;3] Box<[f32]> Vec<mint::Vector3<f32>> &'static+mint::Vector3<f32> Option<mint::Vector3<f32>>
mint::Vector2<u8> mint::Vector3<u8> mint::Vector4<u8> mint::Vector2<i8> mint::Vector3<i16> mint::Vector4<u16> mint::Vector2<i64> mint::Vector3<u64> mint::Vector4<usize> mint::Vector3<char>
mint::Quaternion<f32> mint::Quaternion<f64> mint::EulerAngles<f32,mint::IntraXYZ> mint::RowMatrix2<f32> mint::RowMatrix3<f32> mint::RowMatrix4<f32>
mint::ColumnMatrix2x3<f32> mint::ColumnMatrix2x4<f32> mint::ColumnMatrix3x2<f32> mint::ColumnMatrix3x4<f32> mint::ColumnMatrix4x2<f32> mint::ColumnMatrix4x3<f32>
mint::RowMatrix3x4<f32> mint::RowMatrix4x3<f32> mint::ColumnMatrix2<i32> mint::ColumnMatrix3<i32> mint::ColumnMatrix4<u32> mint::ColumnMatrix3<bool> mint::ColumnMatrix4<u8>
mint::Vector3<mint::Vector3<f32>> mint::Vector2<Option<f32>> mint::Point2<u8> mint::Point3<i64> mint::Vector3<String>
Plain TupleT UnitT EnumT UnionT EmptyT GenT<f32>""".split()
BAD_TYPES = [t.replace("+", " ") for t in BAD_TYPES]
# types of the math libraries that stand for no GLSL type
MATH_BAD = """glam::Quat glam::DQuat glam::Vec3A glam::Mat3A glam::Affine2 glam::Affine3A glam::DAffine2 glam::DAffine3 glam::BVec3A
cgmath::Vector1<f32> cgmath::Point1<f32> cgmath::Quaternion<f32> cgmath::Quaternion<f64> cgmath::Rad<f32> cgmath::Deg<f32> cgmath::Euler<cgmath::Rad<f32>>
cgmath::Basis2<f32> cgmath::Basis3<f32> cgmath::Decomposed<cgmath::Vector3<f32>,cgmath::Quaternion<f32>> cgmath::PerspectiveFov<f32>
cgmath::Vector2<u8> cgmath::Vector3<i16> cgmath::Vector4<u64> cgmath::Vector3<usize> cgmath::Point2<i64> cgmath::Point3<u8> cgmath::Matrix2<i32> cgmath::Matrix3<u32> cgmath::Matrix4<bool>
nalgebra::Vector1<f32> nalgebra::Vector5<f32> nalgebra::Vector6<f64> nalgebra::RowVector2<f32> nalgebra::RowVector3<f32> nalgebra::RowVector4<f64>
nalgebra::Point1<f32> nalgebra::Point5<f32> nalgebra::Matrix1<f32> nalgebra::Matrix5<f32> nalgebra::Matrix2x3<f32> nalgebra::Matrix2x4<f32> nalgebra::Matrix3x2<f32>
nalgebra::Matrix3x4<f32> nalgebra::Matrix4x2<f64> nalgebra::Matrix4x3<f64> nalgebra::Matrix2<i32> nalgebra::Matrix3<u32> nalgebra::Matrix4<bool> nalgebra::Matrix3<u8>
nalgebra::Vector2<u8> nalgebra::Vector3<i64> nalgebra::Vector4<usize> nalgebra::Vector3<i16> nalgebra::Point3<u8> nalgebra::Point2<u64>
nalgebra::Quaternion<f32> nalgebra::UnitQuaternion<f32> nalgebra::UnitComplex<f32> nalgebra::Rotation2<f32> nalgebra::Rotation3<f32> nalgebra::Translation2<f32> nalgebra::Translation3<f32>
nalgebra::Isometry2<f32> nalgebra::Isometry3<f32> nalgebra::Similarity3<f32>
nalgebra::Scale3<f32> nalgebra::UnitVector3<f32> nalgebra::Perspective3<f32> nalgebra::Orthographic3<f32>""".split()
BAD_TYPES += [re.sub(r"\b(cgmath|glam|nalgebra)::", r"mcrt::\1::", t) for t in MATH_BAD]

MATH_GOOD = [("mcrt::glam::Vec3", "vec3"), ("mcrt::glam::DMat4", "dmat4"), ("mcrt::cgmath::Matrix3<f32>", "mat3"), ("mcrt::cgmath::Point2<u32>", "uvec2"),
             ("mcrt::nalgebra::Vector4<bool>", "bvec4"), ("mcrt::nalgebra::Matrix2<f64>", "dmat2")]

HELPERS = ("pub struct Plain { pub a: f32 } pub struct TupleT(pub f32); pub struct UnitT; #[repr(u32)] #[derive(Clone, Copy)] pub enum EnumT { A, B } "
           "#[derive(Clone, Copy)] pub union UnionT { pub a: f32, pub b: u32 } pub enum EmptyT {} pub struct GenT<X>(pub X); ")

ITEMS = [
    ("unit struct", "pub struct Foo;"), ("unit struct repr(C)", "#[repr(C)] pub struct Foo;"),
    ("empty tuple struct", "pub struct Foo();"), ("tuple struct of one", "pub struct Foo(pub f32);"),
    ("tuple struct of one private", "pub struct Foo(f32);"),
    ("transparent tuple struct", "#[repr(transparent)] pub struct Foo(pub f32);"),
    ("tuple struct of two", "pub struct Foo(pub f32, pub f32);"),
    ("tuple struct of vectors", "pub struct Foo(pub mint::Vector3<f32>, pub f32, pub bool);"),
    ("tuple struct repr(C)", "#[repr(C)] pub struct Foo(pub mint::Vector4<f32>, pub mint::Vector4<f32>);"),
    ("tuple struct of sixteen", "pub struct Foo(" + ", ".join(["pub f32"] * 16) + ");"),
    ("empty enum", "pub enum Foo {}"), ("unit enum", "pub enum Foo { A }"), ("two-variant enum", "pub enum Foo { A, B }"),
    ("u32 enum", "#[repr(u32)] pub enum Foo { A = 1, B = 2 }"), ("i32 enum", "#[repr(i32)] pub enum Foo { A = -1, B = 2 }"),
    ("C enum", "#[repr(C)] pub enum Foo { A, B, C }"), ("enum with tuple variant", "pub enum Foo { A(f32) }"),
    ("enum with struct variant", "pub enum Foo { A { x: f32 } }"), ("enum of struct variants", "pub enum Foo { A { x: f32 }, B { x: f32 } }"),
    ("enum mixed", "pub enum Foo { A, B(f32), C { x: f32 } }"), ("option-like enum", "pub enum Foo { None, Some(f32) }"),
    ("union of one", "pub union Foo { pub a: f32 }"), ("union of two", "pub union Foo { pub a: f32, pub b: u32 }"),
    ("union repr(C)", "#[repr(C)] pub union Foo { pub a: mint::Vector4<f32>, pub b: mint::Vector2<f64> }"),
]


def rejects(deep):
    """[(what, items, kind)]; kind None: must not compile."""
    out = []
    thorough = True
    dset = [(a,) for a in ALL] + [ALL[:2], ALL]
    if deep:
        dset = [o for n in (1, 2, 3) for o in itertools.permutations(ALL, n)]
    for what, item in ITEMS:
        for ds in dset:
            der = "#[derive(" + ", ".join(f"crevice::{MOD[x]}::{x}" for x in ds) + ")] "
            for extra in ("", "#[derive(Clone, Copy)] "):
                if extra and "union" not in item and not thorough and len(ds) > 1:
                    continue
                out.append((f"{what}, derive {'+'.join(ds)}", der + extra + item, None))
    pos = [("only", lambda t: f"pub bad: {t}"),
           ("first", lambda t: f"pub bad: {t}, pub z: f32"),
           ("last", lambda t: f"pub a: mint::Vector3<f32>, pub bad: {t}"),
           ("middle", lambda t: f"pub a: mint::Vector3<f32>, pub b: bool, pub bad: {t}, pub z: f64"),
           ("private", lambda t: f"pub a: f32, bad: {t}"),
           ("raw-named", lambda t: f"pub r#type: {t}, pub z: f32"),
           ("pad-named", lambda t: f"pub a: f32, pub _pad0: {t}, pub z: f32"),
           ("tenth", lambda t: ", ".join(f"pub f{i}: f32" for i in range(9)) + f", pub bad: {t}")]
    if deep:
        pos += [("commented", lambda t: f"/** doc */ #[allow(dead_code)] pub bad: {t}, pub z: mint::Vector2<f32>"),
                ("after double", lambda t: f"pub a: f64, pub bad: {t}, pub z: mint::ColumnMatrix3<f64>"),
                ("twice", lambda t: f"pub bad: {t}, pub bad2: {t}"),
                ("thirtieth", lambda t: ", ".join(f"pub f{i}: {BY[g]}" for i, g in enumerate(["float", "vec3", "bool"] * 10)) + f", pub bad: {t}"),
                ("in parentheses", lambda t: f"pub a: f32, pub bad: ({t})")]
    for t in BAD_TYPES:
        for ds in dset[:3] + (dset[3:] if thorough else []):
            der = "#[derive(" + ", ".join(f"crevice::{MOD[x]}::{x}" for x in ds) + ")] "
            for pn, mk in pos:
                out.append((f"field of type {t} ({pn}), derive {'+'.join(ds)}", HELPERS_USE + der + f"pub struct Foo {{ {mk(t)} }}", None))
    # a nested struct that derives something else
    for have in ((), ("AsStd140",), ("AsStd430",), ("GlslStruct",), ("AsStd140", "GlslStruct"), ("AsStd430", "GlslStruct"), ("AsStd140", "AsStd430")):
        for want in ALL:
            if want in have:
                continue
            d1 = "".join(f"#[derive(crevice::{MOD[x]}::{x})] " for x in have)
            out.append((f"nested struct deriving {have}, outer {want}", d1 + f"pub struct In {{ pub a: f32 }} #[derive(crevice::{MOD[want]}::{want})] pub struct Foo {{ pub a: f32, pub n: In }}", None))
    # arrays: rejected, or laid out with the GLSL stride
    elems = [g for _, g in B] if thorough else ["float", "double", "int", "bool", "vec2", "vec3", "vec4", "dvec3", "mat2", "mat3", "uvec3", "ivec2"]
    for g in elems:
        for n in (range(0, 33) if deep else (0, 1, 2, 3, 4, 16, 32)):
            for x in ALL:
                for w, (pre, post) in {"only": ("", ""), "middle": ("pub a: f32, ", ", pub z: f32")}.items():
                    out.append((f"array [{g}; {n}] ({w}), derive {x}",
                                f"#[derive(crevice::{MOD[x]}::{x})] pub struct Foo {{ {pre}pub bad: [{BY[g]}; {n}]{post} }}",
                                ("array", x, [("a", "f32", "float")] * (w == "middle") + [("bad", f"[{BY[g]}; {n}]", f"[{g};{n}]")] + [("z", "f32", "float")] * (w == "middle"))))
    for g in ("float", "vec3", "vec4"):
        for x in ALL:
            for a, b in ((2, 2), (3, 4)):
                sp = f"[[{BY[g]}; {a}]; {b}]"
                out.append((f"array of arrays {sp}, derive {x}", f"#[derive(crevice::{MOD[x]}::{x})] pub struct Foo {{ pub bad: {sp} }}",
                            ("array", x, [("bad", sp, f"[[{g};{a}];{b}]")])))
    return out


HELPERS_USE = "#[allow(unused_imports)] use super::helpers::*; "


def controls():
    """Must compile: shows that the module framing itself is accepted."""
    out = []
    for t in BAD_TYPES:
        # the type itself exists: what is rejected is the derive
        out.append((f"type {t}", HELPERS_USE + f"pub struct Hold {{ pub bad: {t} }}", "exists"))
    for ds in SETS:
        der = "#[derive(" + ", ".join(f"crevice::{MOD[x]}::{x}" for x in ds) + ")] "
        for r, g in B + ([(m, g) for m, g in MATH_GOOD] if ds == ALL else []):
            out.append((f"control {r} {ds}", HELPERS_USE + der + f"pub struct Foo {{ pub a: f32, pub bad: {r}, pub z: f64 }}", "control"))
    return out


def reject_source(mods):
    return ("#![allow(warnings)]\npub mod helpers { " + HELPERS + "}\n"
            + "".join(f"pub mod c{i} {{ {src} }}\n" for i, (w, src, k) in mods) + "fn main() {}\n")


def array_entry(i, fields, x):
    """Harness part for an array-field struct the compiler accepted."""
    mk = " ".join(f"{n}: ::mcrt::Shape::make(s)," for n, _, _ in fields)
    lv = " ".join(f"::mcrt::Shape::leaves(&self.{n}, o);" for n, _, _ in fields)
    d = "Foo{" + ",".join(f"{n}:{t}" for n, _, t in fields) + "}"
    fld = {"AsStd140": "l140", "AsStd430": "l430"}[x]
    fn = {"AsStd140": "f140", "AsStd430": "f430"}[x]
    return (f"impl ::mcrt::Shape for Foo {{ fn make(s: &mut ::mcrt::Src) -> Self {{ Foo {{ {mk} }} }} fn leaves(&self, o: &mut Vec<u64>) {{ {lv} }} }} "
            f"pub fn entry() -> ::mcrt::Entry {{ let mut e = ::mcrt::Entry::new({q(d)}, {q('array field')}); e.{fld} = Some(::mcrt::{fn}::<Foo>()); e }}")


# ---------------------------------------------------------------- threads --

def threads():
    """Writers, sizers and values moved to and shared between threads."""
    vals = []
    for m in ("std140", "std430"):
        for g in ("Vec2", "Vec3", "Vec4", "IVec2", "UVec3", "BVec4", "DVec2", "DVec3", "DVec4", "Mat2", "Mat3", "Mat4", "DMat2",
                  "DMat3", "DMat4", "Bool"):
            vals.append(f"crevice::{m}::{g}")
        vals.append(f"<Own as crevice::{m}::As{m.capitalize()}>::Output")
        vals += [f"crevice::{m}::Sizer", f"crevice::{m}::Writer<Vec<u8>>", f"crevice::{m}::Writer<std::io::Sink>"]
    vals += ["crevice::std140::DynamicUniform<f32>", "crevice::std140::DynamicUniform<Own>",
             "<crevice::std140::DynamicUniform<Own> as crevice::std140::AsStd140>::Output", "crevice::glsl::GlslField"]
    body = "".join(f"    both::<{v}>();\n" for v in vals)
    return """#![allow(dead_code)]
use crevice::{std140, std430};
use crevice::std140::AsStd140;
use crevice::std430::AsStd430;
use mcrt::mcmodel::report::Report;

#[derive(AsStd140, AsStd430)]
struct Own { a: f32, b: mint::Vector3<f32>, c: bool, d: mint::ColumnMatrix3<f64> }
fn both<T: Send + Sync + 'static>() {}

macro_rules! travel {
    ($m:ident, $order:expr, $want:expr) => {{
        // every operation on the thread the order says, writer and sizer handed over in between
        let mut w = $m::Writer::new(Vec::<u8>::new());
        let mut s = $m::Sizer::new();
        let mut at = Vec::new();
        for (i, _) in $order.iter().enumerate() {
            let go = move || {
                let x = i as f32 + 1.0;
                let r = match i % 3 {
                    0 => (w.write(&x).unwrap(), s.add::<f32>()),
                    1 => (w.write(&mint::Vector3 { x, y: x, z: x }).unwrap(), s.add::<mint::Vector3<f32>>()),
                    _ => (w.write(&[mint::Vector3 { x: x as f64, y: 0.0, z: 0.0 }][..]).unwrap(), s.add::<mint::Vector3<f64>>()),
                };
                (w, s, r)
            };
            let r;
            (w, s, r) = if $order[i] { std::thread::spawn(go).join().unwrap() } else { go() };
            at.push(r);
        }
        let lens = (w.len(), s.len());
        (at, lens)
    }};
}

fn main() {
""" + body + """    let mut r = Report::new();
    let want = (vec![(0, 0), (16, 16), (32, 32), (56, 56), (64, 64), (96, 96)], (120, 120));
    for bits in 0..64u32 {
        let order: Vec<bool> = (0..6).map(|i| bits >> i & 1 == 1).collect();
        for l in ["std140", "std430"] {
            r.add("schedules", 1);
            let got = if l == "std140" { travel!(std140, order, want) } else { travel!(std430, order, want) };
            if got != want {
                r.violation(&format!("[{l}] a writer and a size calculator moved between threads ({order:?}): {got:?} instead of {want:?}"), "", "");
            }
        }
    }
    r.finish();
}
"""
