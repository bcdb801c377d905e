//! Generated type definitions with `#[derive(Collectable)]`, compiled and visited.

use crate::runner::{fail, hash_str, mix, shrink_vec, Out, Res, Rng};
use crate::rustc::{compile, Work};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    U,
    S,
    /// a pointer under another name
    Alias(u8),
    Plain(u8),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Bx(Box<Ty>),
    Arr(Box<Ty>, u8),
    Tup(Vec<Ty>),
    Cell(Box<Ty>),
    Mtx(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    Map(Box<Ty>),
    /// a type parameter, used as its kind allows
    Param(u8),
    /// an array of as many as a const parameter says
    ConstArr(Box<Ty>),
    Phantom(u8),
    /// something borrowed or owned
    Cow(u8),
    /// recursion
    SelfBox(bool),
    SelfVec,
    SelfGc,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum PKind {
    Free,
    Clone,
    Static,
    /// as the contents of an unsync pointer
    Pointee,
    /// as the contents of a sync pointer
    SyncPointee,
    Unsized,
    /// only an associated type of it is used
    Family,
    Const,
    /// these come first
    Lifetime,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Param {
    name: u8,
    kind: PKind,
    in_where: bool,
    default: bool,
    inst: Ty,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Field {
    name: u8,
    deco: u8,
    ty: Ty,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Named(Vec<Field>),
    Tuple(Vec<Field>),
    Unit,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    Struct(Shape),
    Enum(Vec<(u8, Shape)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Def {
    name: u8,
    deco: u8,
    params: Vec<Param>,
    body: Body,
    /// written by a macro, if the definition is simple
    by_macro: bool,
    vals: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeriveCase {
    pub defs: Vec<Def>,
}

const TYPE_NAMES: &[&str] = &["Node", "Result", "Option", "Visitor", "Ok", "Err", "Some", "r#type", "Box", "Collectable", "V", "Self_", "field0", "Gc"];
const FIELD_NAMES: &[&str] = &["a", "b", "c", "visitor", "value", "r#type", "r#match", "field0", "field1", "self_", "x_1", "ptr", "accept", "V", "_p", "_marker", "__0", "_self", "phantom", "parent", "weak", "cache", "result", "gc", "data"];
const PARAM_NAMES: &[&str] = &["A", "T", "V", "X", "Visitor_", "K", "S", "U", "__T"];
const VARIANT_NAMES: &[&str] = &["One", "Two", "Ok", "Err", "Some", "None", "r#type", "A", "V", "Visitor", "Empty", "field0", "_Hidden", "__V", "Unit", "Default"];
/// definition-level names are made unique by a suffix
fn pick(names: &[&str], i: u8, used: &mut Vec<String>) -> String {
    let mut n = names[i as usize % names.len()].to_string();
    while used.contains(&n) {
        n.push('_');
    }
    used.push(n.clone());
    n
}

const PLAIN: &[(&str, &str)] = &[
    ("u8", "7u8"),
    ("::std::string::String", "::std::string::String::from(\"x\")"),
    ("()", "()"),
    ("char", "'c'"),
    ("[u16; 3]", "[1, 2, 3]"),
    ("f64", "0.5"),
    ("&'static str", "\"s\""),
    ("fn(u8) -> u8", "((|x| x) as fn(u8) -> u8)"),
    ("::std::sync::atomic::AtomicUsize", "::std::sync::atomic::AtomicUsize::new(3)"),
    ("::std::collections::BTreeMap<u8, u8>", "::std::collections::BTreeMap::new()"),
];

const ALIAS: &[(&str, &str)] = &[
    ("crate::Alias", "cx.u()"),
    ("(::dumpster::unsync::Gc<crate::Leaf>)", "cx.u()"),
    ("crate::pointer!()", "cx.s()"),
    ("crate::Generic<crate::Leaf>", "cx.s()"),
    ("crate::Own", "crate::Own(cx.u())"),
    ("crate::Pair", "crate::Pair(cx.u(), cx.s())"),
    ("<crate::FamU as crate::Family>::Out", "cx.u()"),
];

struct R {
    d: Def,
    pnames: Vec<String>,
    name: String,
}
impl R {
    fn new(d: &Def) -> R {
        let mut d = d.clone();
        d.params.sort_by_key(|p| p.kind != PKind::Lifetime);
        let mut used = vec![];
        let pnames = (d.params.iter().enumerate())
            .map(|(i, p)| if p.kind == PKind::Lifetime { format!("'a{i}") } else { pick(PARAM_NAMES, p.name, &mut used) })
            .collect();
        let name = pick(TYPE_NAMES, d.name, &mut used);
        R { d, pnames, name }
    }
    fn param(&self, i: u8, ok: impl Fn(PKind) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.d.params.len()).filter(|&k| ok(self.d.params[k].kind)).collect();
        (!v.is_empty()).then(|| v[i as usize % v.len()])
    }
    fn type_param(&self, i: u8) -> Option<usize> {
        self.param(i, |k| !matches!(k, PKind::Const | PKind::Lifetime))
    }
    fn const_param(&self) -> Option<usize> {
        self.param(0, |k| k == PKind::Const)
    }
    fn self_ty(&self) -> String {
        format!("{}{}", self.name, self.args(|_, n| n.to_string()))
    }
    fn args(&self, f: impl Fn(&Param, &str) -> String) -> String {
        if self.d.params.is_empty() {
            return String::new();
        }
        format!("<{}>", self.d.params.iter().zip(&self.pnames).map(|(p, n)| f(p, n)).collect::<Vec<_>>().join(", "))
    }
    /// can a pointer to the type itself be part of it?
    fn self_gc(&self) -> bool {
        self.d.params.iter().all(|p| matches!(p.kind, PKind::Pointee | PKind::SyncPointee | PKind::Const))
    }
    /// The type as written in the definition.
    fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::U => "::dumpster::unsync::Gc<crate::Leaf>".into(),
            Ty::S => "::dumpster::sync::Gc<crate::Leaf>".into(),
            Ty::Alias(k) => ALIAS[*k as usize % ALIAS.len()].0.into(),
            Ty::Plain(k) => PLAIN[*k as usize % PLAIN.len()].0.into(),
            Ty::Opt(t) => format!("::std::option::Option<{}>", self.ty(t)),
            Ty::Vec(t) => format!("::std::vec::Vec<{}>", self.ty(t)),
            Ty::Bx(t) => format!("::std::boxed::Box<{}>", self.ty(t)),
            Ty::Arr(t, n) => format!("[{}; {}]", self.ty(t), n % 4),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| self.ty(t) + ",").collect::<String>()),
            Ty::Cell(t) => format!("::std::cell::RefCell<{}>", self.ty(t)),
            Ty::Mtx(t) => format!("::std::sync::Mutex<{}>", self.ty(t)),
            Ty::Res(a, b) => format!("::std::result::Result<{}, {}>", self.ty(a), self.ty(b)),
            Ty::Map(t) => format!("::std::collections::BTreeMap<u8, {}>", self.ty(t)),
            Ty::Param(i) => match self.type_param(*i) {
                None => "u8".into(),
                Some(k) => {
                    let n = &self.pnames[k];
                    match self.d.params[k].kind {
                        PKind::Free | PKind::Clone | PKind::Static => n.clone(),
                        PKind::Pointee => format!("::dumpster::unsync::Gc<{n}>"),
                        PKind::SyncPointee => format!("::dumpster::sync::Gc<{n}>"),
                        PKind::Unsized => format!("::std::boxed::Box<{n}>"),
                        PKind::Family => format!("<{n} as crate::Family>::Out"),
                        PKind::Const | PKind::Lifetime => unreachable!(),
                    }
                }
            },
            Ty::ConstArr(t) => match self.const_param() {
                Some(k) => format!("[{}; {}]", self.ty(t), self.pnames[k]),
                None => format!("[{}; 2]", self.ty(t)),
            },
            Ty::Cow(i) => format!("::std::borrow::Cow<{}, ::std::string::String>", self.param(*i, |k| k == PKind::Lifetime).map_or("'static", |k| &self.pnames[k])),
            Ty::Phantom(i) => match self.type_param(*i) {
                Some(k) => format!("::std::marker::PhantomData<{}>", self.pnames[k]),
                None => "::std::marker::PhantomData<u8>".into(),
            },
            Ty::SelfBox(named) => format!("::std::option::Option<::std::boxed::Box<{}>>", if *named { self.self_ty() } else { "Self".into() }),
            Ty::SelfGc if self.self_gc() => "::std::cell::RefCell<::std::option::Option<::dumpster::unsync::Gc<Self>>>".into(),
            Ty::SelfVec | Ty::SelfGc => "::std::vec::Vec<Self>".into(),
        }
    }
    /// The type a parameter stands for.
    fn inst(&self, p: &Param) -> String {
        match p.kind {
            PKind::Const => format!("{}", p.name % 4),
            PKind::Unsized => (if p.name % 2 == 0 { "[::dumpster::unsync::Gc<crate::Leaf>]" } else { "str" }).into(),
            PKind::Family => (if p.name % 2 == 0 { "crate::FamU" } else { "crate::FamV" }).into(),
            PKind::SyncPointee => (if p.name % 2 == 0 { "u32" } else { "::dumpster::sync::Gc<crate::Leaf>" }).into(),
            PKind::Clone => (if p.name % 2 == 0 { "::dumpster::unsync::Gc<crate::Leaf>" } else { "::std::vec::Vec<::dumpster::sync::Gc<crate::Leaf>>" }).into(),
            PKind::Lifetime => "'static".into(),
            _ => R::new(&EMPTY).ty(&p.inst),
        }
    }
    fn value(&self, t: &Ty, r: &mut Rng, depth: u32) -> String {
        let some = |r: &mut Rng| r.below(4) != 0;
        match t {
            Ty::U => "cx.u()".into(),
            Ty::S => "cx.s()".into(),
            Ty::Alias(k) => ALIAS[*k as usize % ALIAS.len()].1.into(),
            Ty::Plain(k) => PLAIN[*k as usize % PLAIN.len()].1.into(),
            Ty::Opt(t) => {
                if some(r) {
                    format!("::std::option::Option::Some({})", self.value(t, r, depth))
                } else {
                    "::std::option::Option::None".into()
                }
            }
            Ty::Vec(t) => {
                let n = r.below(3);
                format!("::std::vec![{}]", (0..n).map(|_| self.value(t, r, depth) + ",").collect::<String>())
            }
            Ty::Bx(t) => format!("::std::boxed::Box::new({})", self.value(t, r, depth)),
            Ty::Arr(t, n) => format!("[{}]", (0..n % 4).map(|_| self.value(t, r, depth) + ",").collect::<String>()),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| self.value(t, r, depth) + ",").collect::<String>()),
            Ty::Cell(t) => {
                let st = r.below(8);
                format!("cx.cell({}, {st})", self.value(t, r, depth))
            }
            Ty::Mtx(t) => {
                let st = r.below(8);
                format!("cx.mutex({}, {st})", self.value(t, r, depth))
            }
            Ty::Res(a, b) => {
                if some(r) {
                    format!("::std::result::Result::Ok({})", self.value(a, r, depth))
                } else {
                    format!("::std::result::Result::Err({})", self.value(b, r, depth))
                }
            }
            Ty::Map(t) => {
                let n = r.below(3);
                format!("::std::collections::BTreeMap::from([{}])", (0..n).map(|i| format!("({i}u8, {}),", self.value(t, r, depth))).collect::<String>())
            }
            Ty::Param(i) => match self.type_param(*i) {
                None => "1u8".into(),
                Some(k) => {
                    let p = &self.d.params[k];
                    let even = p.name % 2 == 0;
                    match p.kind {
                        PKind::Free | PKind::Static => self.value(&p.inst, r, depth),
                        PKind::Clone => (if even { "cx.u()" } else { "::std::vec![cx.s()]" }).into(),
                        PKind::Pointee => format!("cx.gc(|cx| {})", self.value(&p.inst, r, depth)),
                        PKind::SyncPointee => (if even { "cx.sgc(|cx| 5)" } else { "cx.sgc(|cx| cx.s())" }).into(),
                        PKind::Unsized => (if even { "::std::vec![cx.u(), cx.u()].into_boxed_slice()" } else { "\"text\".into()" }).into(),
                        PKind::Family => (if even { "cx.u()" } else { "::std::vec![cx.s(), cx.s()]" }).into(),
                        PKind::Const | PKind::Lifetime => unreachable!(),
                    }
                }
            },
            Ty::ConstArr(t) => {
                let n = self.const_param().map_or(2, |k| self.d.params[k].name % 4);
                format!("[{}]", (0..n).map(|_| self.value(t, r, depth) + ",").collect::<String>())
            }
            Ty::Cow(_) => "::std::borrow::Cow::Owned(::std::string::String::new())".into(),
            Ty::Phantom(_) => "::std::marker::PhantomData".into(),
            Ty::SelfBox(_) => {
                if depth > 0 && some(r) {
                    match self.whole(r, depth - 1, None) {
                        Some(v) => format!("::std::option::Option::Some(::std::boxed::Box::new({v}))"),
                        None => "::std::option::Option::None".into(),
                    }
                } else {
                    "::std::option::Option::None".into()
                }
            }
            Ty::SelfGc if self.self_gc() => {
                if depth > 0 && some(r) {
                    if let Some(v) = self.whole(r, depth - 1, None) {
                        return format!("::std::cell::RefCell::new(::std::option::Option::Some(cx.gc(|cx| {v})))");
                    }
                }
                "::std::cell::RefCell::new(::std::option::Option::None)".into()
            }
            Ty::SelfVec | Ty::SelfGc => {
                if depth > 0 && some(r) {
                    if let Some(v) = self.whole(r, depth - 1, None) {
                        return format!("::std::vec![{v}]");
                    }
                }
                "::std::vec![]".into()
            }
        }
    }
    /// A value of the type (of one variant), if there can be one.
    fn whole(&self, r: &mut Rng, depth: u32, variant: Option<usize>) -> Option<String> {
        match &self.d.body {
            Body::Struct(s) => Some(self.literal(&self.name, s, &self.extra(), r, depth)),
            Body::Enum(v) => {
                let extra = self.extra();
                let n = v.len() + !extra.is_empty() as usize;
                if n == 0 {
                    return None;
                }
                let k = variant.unwrap_or_else(|| r.below(n as u64) as usize) % n;
                let names = self.variants();
                if k == v.len() {
                    return Some(format!("{}::Unused__({})", self.name, "::std::marker::PhantomData,".repeat(extra.len())));
                }
                Some(self.literal(&format!("{}::{}", self.name, names[k]), &v[k].1, &[], r, depth))
            }
        }
    }
    fn literal(&self, path: &str, s: &Shape, extra: &[usize], r: &mut Rng, depth: u32) -> String {
        match s {
            Shape::Named(f) => {
                let names = field_names(f);
                let mut o = format!("{path} {{ ");
                for (f, n) in f.iter().zip(names) {
                    o += &format!("{n}: {}, ", self.value(&f.ty, r, depth));
                }
                for i in extra {
                    o += &format!("unused__{i}: ::std::marker::PhantomData, ");
                }
                o + "}"
            }
            Shape::Tuple(f) => {
                let mut o = format!("{path}(");
                for f in f {
                    o += &format!("{}, ", self.value(&f.ty, r, depth));
                }
                o += &"::std::marker::PhantomData, ".repeat(extra.len());
                o + ")"
            }
            Shape::Unit if !extra.is_empty() => format!("{path}({})", "::std::marker::PhantomData, ".repeat(extra.len())),
            Shape::Unit => path.into(),
        }
    }
    fn variants(&self) -> Vec<String> {
        let mut used = vec![];
        match &self.d.body {
            Body::Enum(v) => v.iter().map(|(n, _)| pick(VARIANT_NAMES, *n, &mut used)).collect(),
            _ => vec![],
        }
    }
    /// Type parameters that no field mentions.
    fn extra(&self) -> Vec<usize> {
        let mut used = vec![false; self.d.params.len()];
        fn go(r: &R, t: &Ty, used: &mut Vec<bool>) {
            match t {
                Ty::Opt(t) | Ty::Vec(t) | Ty::Bx(t) | Ty::Arr(t, _) | Ty::Cell(t) | Ty::Mtx(t) | Ty::Map(t) | Ty::ConstArr(t) => go(r, t, used),
                Ty::Tup(v) => v.iter().for_each(|t| go(r, t, used)),
                Ty::Res(a, b) => {
                    go(r, a, used);
                    go(r, b, used);
                }
                Ty::Param(i) | Ty::Phantom(i) => {
                    if let Some(k) = r.type_param(*i) {
                        used[k] = true;
                    }
                }
                Ty::Cow(i) => {
                    if let Some(k) = r.param(*i, |k| k == PKind::Lifetime) {
                        used[k] = true;
                    }
                }
                _ => {}
            }
        }
        for f in all_fields(&self.d.body) {
            go(self, &f.ty, &mut used);
        }
        (0..used.len()).filter(|&i| !used[i] && self.d.params[i].kind != PKind::Const).collect()
    }
    fn bounds(&self, p: &Param) -> &'static str {
        match p.kind {
            PKind::Free | PKind::Const | PKind::Lifetime => "",
            PKind::Clone => "Clone",
            PKind::Static => "'static + Sized",
            PKind::Pointee => "::dumpster::Collectable + 'static",
            PKind::SyncPointee => "::dumpster::Collectable + Send + Sync + 'static",
            PKind::Unsized => "?Sized",
            PKind::Family => "crate::Family",
        }
    }
    /// Parameters as declared, and the where clause. For an impl if `collectable`.
    fn generics(&self, collectable: bool) -> (String, String) {
        if self.d.params.is_empty() {
            return (String::new(), if self.d.deco % 5 == 4 { " where u8: Copy".into() } else { String::new() });
        }
        let mut g = vec![];
        let mut w = vec![];
        for (i, (p, n)) in self.d.params.iter().zip(&self.pnames).enumerate() {
            if p.kind == PKind::Const {
                let d = if !collectable && self.trailing_defaults(i) { " = 3" } else { "" };
                g.push(format!("const {n}: usize{d}"));
                continue;
            }
            if p.kind == PKind::Lifetime {
                g.push(n.clone());
                continue;
            }
            let mut b: Vec<&str> = vec![];
            let own = self.bounds(p);
            if !own.is_empty() {
                if p.in_where && p.kind != PKind::Unsized {
                    w.push(format!("{n}: {own}"));
                } else {
                    b.push(own);
                }
            }
            if p.kind == PKind::Family {
                w.push(format!("<{n} as crate::Family>::Out: ::dumpster::Collectable"));
            }
            if collectable {
                b.push("::dumpster::Collectable");
            }
            let d = if !collectable && self.trailing_defaults(i) && p.kind != PKind::Unsized { format!(" = {}", self.inst(p)) } else { String::new() };
            g.push(format!("{n}{}{}{d}", if b.is_empty() { "" } else { ": " }, b.join(" + ")));
        }
        (format!("<{}>", g.join(", ")), if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) })
    }
    fn unused(&self, i: usize) -> String {
        let n = &self.pnames[i];
        if n.starts_with('\'') {
            format!("::std::marker::PhantomData<&{n} u8>")
        } else {
            format!("::std::marker::PhantomData<{n}>")
        }
    }
    fn trailing_defaults(&self, i: usize) -> bool {
        self.d.params[i..].iter().all(|p| p.default && p.kind != PKind::Unsized)
    }
    fn fields(&self, s: &Shape, extra: &[usize], vis: bool) -> String {
        let deco = |f: &Field| match f.deco % 6 {
            1 => "/// a field\n",
            2 if vis => "pub ",
            3 if vis => "pub(crate) ",
            4 => "#[cfg(all())] ",
            _ => "",
        };
        match s {
            Shape::Named(f) => {
                let mut o = String::from(" { ");
                for (f, n) in f.iter().zip(field_names(f)) {
                    o += &format!("{}{n}: {}, ", deco(f), self.ty(&f.ty));
                }
                for i in extra {
                    o += &format!("unused__{i}: {}, ", self.unused(*i));
                }
                o + "}"
            }
            Shape::Tuple(f) => {
                let mut o = String::from("(");
                for f in f {
                    o += &format!("{}{}, ", deco(f), self.ty(&f.ty));
                }
                for i in extra {
                    o += &format!("{}, ", self.unused(*i));
                }
                o + ")"
            }
            Shape::Unit if !extra.is_empty() => format!("({})", extra.iter().map(|i| format!("{}, ", self.unused(*i))).collect::<String>()),
            Shape::Unit => String::new(),
        }
    }
    fn definition(&self, derive: bool) -> String {
        let attr = if derive { "#[derive(::dumpster::Collectable)]" } else { "" };
        let (g, w) = self.generics(false);
        let extra = self.extra();
        let name = &self.name;
        let simple = self.d.params.is_empty();
        let mut o = match &self.d.body {
            Body::Struct(Shape::Named(f)) if self.d.by_macro && simple => {
                let list: Vec<String> = f.iter().zip(field_names(f)).map(|(f, n)| format!("{n}: {}", self.ty(&f.ty))).collect();
                format!(
                    "macro_rules! define {{ ($n:ident; $($f:ident: $t:ty),*) => {{ {attr} pub struct $n {{ $($f: $t),* }} }} }}\ndefine! {{ {name}; {} }}\n",
                    list.join(", ")
                )
            }
            Body::Struct(s) => {
                let deco = match self.d.deco % 5 {
                    1 => "#[repr(C)]\n",
                    2 => "#[non_exhaustive]\n",
                    3 => "/// a type\n",
                    _ => "",
                };
                let fields = self.fields(s, &extra, true);
                match (s, extra.is_empty()) {
                    (Shape::Named(_), _) => format!("{deco}{attr}\npub struct {name}{g}{w}{fields}\n"),
                    _ => format!("{deco}{attr}\npub struct {name}{g}{fields}{w};\n"),
                }
            }
            Body::Enum(v) => {
                let unit = !v.is_empty() && simple && v.iter().all(|x| x.1 == Shape::Unit);
                let deco = match self.d.deco % 5 {
                    1 if unit => "#[repr(i16)]\n",
                    2 => "#[non_exhaustive]\n",
                    3 => "/// a type\n",
                    _ => "",
                };
                let mut o = format!("{deco}{attr}\npub enum {name}{g}{w} {{\n");
                for (i, (n, (_, s))) in self.variants().iter().zip(v).enumerate() {
                    let disc = if unit && self.d.deco % 2 == 1 { format!(" = {}", i * 7 + 1) } else { String::new() };
                    o += &format!("    {n}{}{disc},\n", self.fields(s, &[], false));
                }
                if !extra.is_empty() {
                    o += &format!("    Unused__({}),\n", extra.iter().map(|i| format!("{}, ", self.unused(*i))).collect::<String>());
                }
                o + "}\n"
            }
        };
        if !derive {
            let (g, w) = self.generics(true);
            o += &format!(
                "unsafe impl{g} ::dumpster::Collectable for {}{w} {{ fn accept<Vis__: ::dumpster::Visitor>(&self, _: &mut Vis__) -> ::std::result::Result<(), ()> {{ ::std::result::Result::Ok(()) }} }}\n",
                self.self_ty()
            );
        }
        o
    }
    /// A module with the definition and visits of some values.
    fn module(&self, i: usize, derive: bool) -> String {
        let mut o = format!("pub mod c{i} {{\n{}", self.definition(derive));
        let inst = format!("{}{}", self.name, self.args(|p, _| self.inst(p)));
        o += "pub fn run() -> ::std::result::Result<u32, ::std::string::String> {\nlet mut n = 0;\n";
        let mut r = Rng(mix(&[self.d.vals, 5]));
        let variants = match &self.d.body {
            Body::Enum(v) => v.len(),
            _ => 0,
        };
        for k in 0..variants.max(1) + 2 {
            if let Some(v) = self.whole(&mut r, 2, (k < variants).then_some(k)) {
                o += &format!("{{ let cx = &crate::Cx::new(); let v: {inst} = {v}; n += cx.check(&v)?; }}\n");
            }
        }
        o += &format!("{{ let v: ::std::option::Option<{inst}> = ::std::option::Option::None; n += crate::Cx::new().check(&v)?; }}\n");
        o + "::std::result::Result::Ok(n)\n}\n}\n"
    }
}
static EMPTY: Def = Def { name: 0, deco: 0, params: vec![], body: Body::Struct(Shape::Unit), by_macro: false, vals: 0 };

fn field_names(f: &[Field]) -> Vec<String> {
    let mut used = vec![];
    f.iter().map(|f| pick(FIELD_NAMES, f.name, &mut used)).collect()
}
fn shape_fields(s: &Shape) -> &[Field] {
    match s {
        Shape::Named(f) | Shape::Tuple(f) => f,
        Shape::Unit => &[],
    }
}
fn all_fields(b: &Body) -> Vec<&Field> {
    match b {
        Body::Struct(s) => shape_fields(s).iter().collect(),
        Body::Enum(v) => v.iter().flat_map(|x| shape_fields(&x.1)).collect(),
    }
}

const PRELUDE: &str = r##"
use dumpster::{sync, unsync, Visitor};
use std::cell::{Cell, RefCell};
use std::sync::Mutex;
pub struct Leaf(u8);
unsafe impl dumpster::Collectable for Leaf {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) }
}
pub trait Family { type Out; }
pub struct FamU;
pub struct FamV;
unsafe impl dumpster::Collectable for FamU { fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) } }
unsafe impl dumpster::Collectable for FamV { fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) } }
impl Family for FamU { type Out = unsync::Gc<Leaf>; }
impl Family for FamV { type Out = Vec<sync::Gc<Leaf>>; }

pub type Alias = unsync::Gc<Leaf>;
pub type Generic<T> = sync::Gc<T>;
#[macro_export]
macro_rules! pointer { () => { ::dumpster::sync::Gc<$crate::Leaf> } }
pub struct Own(pub unsync::Gc<Leaf>);
pub struct Pair(pub unsync::Gc<Leaf>, pub sync::Gc<Leaf>);
unsafe impl dumpster::Collectable for Own { fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> { self.0.accept(v) } }
unsafe impl dumpster::Collectable for Pair { fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> { self.0.accept(v)?; self.1.accept(v) } }

/// What a value is made of.
#[derive(Default)]
pub struct Cx { owned: RefCell<Vec<usize>>, blocked: Cell<bool> }
impl Cx {
    pub fn new() -> Cx { Cx::default() }
    pub fn u(&self) -> unsync::Gc<Leaf> { self.gc(|_| Leaf(1)) }
    pub fn s(&self) -> sync::Gc<Leaf> { self.sgc(|_| Leaf(2)) }
    pub fn gc<T: dumpster::Collectable + 'static>(&self, f: impl FnOnce(&Cx) -> T) -> unsync::Gc<T> {
        let g = unsync::Gc::new(f(&Cx::new()));
        self.owned.borrow_mut().push(unsync::Gc::as_ptr(&g) as usize);
        std::mem::forget(g.clone());
        g
    }
    pub fn sgc<T: dumpster::Collectable + Send + Sync + 'static>(&self, f: impl FnOnce(&Cx) -> T) -> sync::Gc<T> {
        let g = sync::Gc::new(f(&Cx::new()));
        self.owned.borrow_mut().push(sync::Gc::as_ptr(&g) as usize);
        std::mem::forget(g.clone());
        g
    }
    pub fn cell<T>(&self, t: T, state: u8) -> RefCell<T> {
        let c = RefCell::new(t);
        match state {
            1 => std::mem::forget(c.borrow()),
            2 => { self.blocked.set(true); std::mem::forget(c.borrow_mut()) }
            _ => {}
        }
        c
    }
    pub fn mutex<T>(&self, t: T, state: u8) -> Mutex<T> {
        let c = Mutex::new(t);
        if state == 2 { self.blocked.set(true); std::mem::forget(c.lock()); }
        c
    }
    pub fn check<T: dumpster::Collectable>(&self, t: &T) -> Result<u32, String> {
        let mut want = self.owned.borrow().clone();
        want.sort();
        for _ in 0..2 {
            let mut r = Record(vec![]);
            let res = t.accept(&mut r);
            r.0.sort();
            match (res, self.blocked.get()) {
                (Ok(()), true) => return Err("a visit succeeded although a part cannot be visited".into()),
                (Err(()), false) => return Err("a visit failed although every part can be visited".into()),
                (Ok(()), false) if r.0 != want => return Err(format!("a visit showed {} pointers instead of {}", r.0.len(), want.len())),
                (Err(()), true) if r.0.windows(2).any(|w| w[0] == w[1]) => return Err("a failed visit showed a pointer twice".into()),
                (Err(()), true) if r.0.iter().any(|p| !want.contains(p)) => return Err("a visit showed a pointer that is not the value's".into()),
                _ => {}
            }
        }
        Ok(!want.is_empty() as u32)
    }
}
struct Record(Vec<usize>);
impl Visitor for Record {
    fn visit_sync<T: dumpster::Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) { self.0.push(sync::Gc::as_ptr(gc).cast::<u8>() as usize); }
    fn visit_unsync<T: dumpster::Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) { self.0.push(unsync::Gc::as_ptr(gc).cast::<u8>() as usize); }
}
fn report(i: usize, f: fn() -> Result<u32, String>) {
    match std::panic::catch_unwind(f) {
        Ok(Ok(n)) => println!("{i} ok {n}"),
        Ok(Err(m)) => println!("{i} fail {m}"),
        Err(_) => println!("{i} fail panicked"),
    }
}
"##;

pub fn program(defs: &[Def], derive: bool) -> String {
    let mut o = String::from("#![allow(warnings)]\n");
    o += PRELUDE;
    let mut main = String::from("fn main() {\n");
    for (i, d) in defs.iter().enumerate() {
        o += &R::new(d).module(i, derive);
        main += &format!("    report({i}, c{i}::run);\n");
    }
    o + &main + "}\n"
}

fn harness<T>(e: String) -> Res<T> {
    fail("harness", e)
}

fn go(case: &DeriveCase, nontrivial: &mut Vec<u64>, invalid: &mut u64) -> Res {
    let w = Work::new();
    let mut defs: Vec<Def> = case.defs.clone();
    let all = compile(&w, "all", &program(&defs, true), true).or_else(harness)?;
    if !all.ok {
        // which ones, and is it the definitions themselves?
        let mut good = vec![];
        for d in &defs {
            let one = compile(&w, "one", &program(std::slice::from_ref(d), true), false).or_else(harness)?;
            if one.ok {
                good.push(d.clone());
                continue;
            }
            let control = compile(&w, "control", &program(std::slice::from_ref(d), false), false).or_else(harness)?;
            if control.ok {
                let msg = &one.errors[0].1;
                return fail("compile", format!("the derive does not compile: {msg}: {}", R::new(d).definition(true).replace('\n', " ")));
            }
            *invalid += 1;
        }
        defs = good;
        let all = compile(&w, "all", &program(&defs, true), true).or_else(harness)?;
        if !all.ok {
            return harness(format!("definitions compile alone but not together: {}", all.errors[0].1));
        }
    }
    let o = Command::new(w.path().join("all")).current_dir(w.path()).stdin(Stdio::null()).output().or_else(|e| harness(e.to_string()))?;
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut done = 0;
    for l in text.lines() {
        let mut it = l.splitn(3, ' ');
        let (Some(i), Some(what), Some(rest)) = (it.next().and_then(|i| i.parse::<usize>().ok()), it.next(), it.next()) else {
            return harness(format!("strange output: {l}"));
        };
        done += 1;
        if what == "fail" {
            return fail("visit", format!("{rest}: {}", R::new(&defs[i]).definition(true).replace('\n', " ")));
        }
        if rest != "0" {
            nontrivial.push(hash_str(&serde_json::to_string(&defs[i]).unwrap()));
        }
    }
    if done != defs.len() || !o.status.success() {
        return fail("crash", format!("the program ended with {} after {done} of {} types", o.status, defs.len()));
    }
    Ok(())
}

pub fn run(case: &DeriveCase) -> Out {
    let mut nontrivial = vec![];
    let mut invalid = 0;
    let r = go(case, &mut nontrivial, &mut invalid);
    Out {
        fail: r.err(),
        nontrivial: !nontrivial.is_empty(),
        labels: (0..invalid).map(|_| "not a valid definition".to_string()).collect(),
        sample: case.defs.iter().find(|d| nontrivial.contains(&hash_str(&serde_json::to_string(d).unwrap()))).map(|d| R::new(d).definition(true)),
        parts: Some((case.defs.len() as u64, nontrivial)),
        ..Out::default()
    }
}

fn ty(params: bool) -> BoxedStrategy<Ty> {
    let mut leaf = vec![(4, Just(Ty::U).boxed()), (3, Just(Ty::S).boxed()), (1, any::<u8>().prop_map(Ty::Alias).boxed()), (2, any::<u8>().prop_map(Ty::Plain).boxed())];
    if params {
        leaf.push((4, (0u8..4).prop_map(Ty::Param).boxed()));
        leaf.push((1, (0u8..4).prop_map(Ty::Phantom).boxed()));
        leaf.push((1, any::<bool>().prop_map(Ty::SelfBox).boxed()));
        leaf.push((1, Just(Ty::SelfVec).boxed()));
        leaf.push((1, (0u8..4).prop_map(Ty::Cow).boxed()));
        leaf.push((1, Just(Ty::SelfGc).boxed()));
    }
    crate::seqop::weighted(leaf)
        .prop_recursive(2, 8, 3, move |t| {
            let b = || t.clone().prop_map(Box::new);
            let mut v = vec![
                (1, b().prop_map(Ty::Opt).boxed()),
                (1, b().prop_map(Ty::Vec).boxed()),
                (1, b().prop_map(Ty::Bx).boxed()),
                (1, (b(), 0u8..4).prop_map(|(t, n)| Ty::Arr(t, n)).boxed()),
                (1, prop::collection::vec(t.clone(), 1..4).prop_map(Ty::Tup).boxed()),
                (2, b().prop_map(Ty::Cell).boxed()),
                (1, b().prop_map(Ty::Mtx).boxed()),
                (1, (b(), b()).prop_map(|(x, y)| Ty::Res(x, y)).boxed()),
                (1, b().prop_map(Ty::Map).boxed()),
            ];
            if params {
                v.push((1, b().prop_map(Ty::ConstArr).boxed()));
            }
            crate::seqop::weighted(v)
        })
        .boxed()
}

pub fn case(n: usize) -> BoxedStrategy<DeriveCase> {
    let kind = prop_oneof![
        3 => Just(PKind::Free),
        1 => Just(PKind::Clone),
        1 => Just(PKind::Static),
        2 => Just(PKind::Pointee),
        1 => Just(PKind::SyncPointee),
        1 => Just(PKind::Unsized),
        1 => Just(PKind::Family),
        2 => Just(PKind::Const),
        1 => Just(PKind::Lifetime),
    ];
    let param = (any::<u8>(), kind, any::<bool>(), any::<bool>(), ty(false)).prop_map(|(name, kind, in_where, default, inst)| Param { name, kind, in_where, default, inst });
    let field = (any::<u8>(), any::<u8>(), ty(true)).prop_map(|(name, deco, ty)| Field { name, deco, ty }).boxed();
    let fields = prop_oneof![6 => prop::collection::vec(field.clone(), 0..5), 1 => prop::collection::vec(field, 5..14)];
    let shape = prop_oneof![
        3 => fields.clone().prop_map(Shape::Named),
        3 => fields.prop_map(Shape::Tuple),
        1 => Just(Shape::Unit),
    ]
    .boxed();
    // many fields, many variants
    let leaf = prop_oneof![2 => Just(Ty::U), 2 => Just(Ty::S), 1 => any::<u8>().prop_map(Ty::Alias), 1 => any::<u8>().prop_map(Ty::Plain)];
    let small = (any::<u8>(), any::<u8>(), leaf).prop_map(|(name, deco, ty)| Field { name, deco, ty }).boxed();
    let long = prop::collection::vec(small.clone(), 14..80);
    let little = prop_oneof![
        1 => prop::collection::vec(small.clone(), 0..3).prop_map(Shape::Named),
        1 => prop::collection::vec(small, 0..3).prop_map(Shape::Tuple),
        1 => Just(Shape::Unit),
    ];
    let body = prop_oneof![
        24 => shape.clone().prop_map(Body::Struct),
        24 => prop::collection::vec((any::<u8>(), shape), 0..6).prop_map(Body::Enum),
        1 => (long, any::<bool>()).prop_map(|(f, n)| Body::Struct(if n { Shape::Named(f) } else { Shape::Tuple(f) })),
        1 => prop::collection::vec((any::<u8>(), little), 10..70).prop_map(Body::Enum),
    ];
    let params = prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(param, 1..4)];
    let def = (any::<u8>(), any::<u8>(), params, body, any::<bool>(), any::<u64>())
        .prop_map(|(name, deco, params, body, by_macro, vals)| Def { name, deco, params, body, by_macro, vals });
    prop::collection::vec(def, n).prop_map(|defs| DeriveCase { defs }).boxed()
}

fn smaller_shape(s: &Shape) -> Vec<Shape> {
    let mut v = vec![];
    for f in shrink_vec(shape_fields(s)) {
        v.push(if matches!(s, Shape::Named(_)) { Shape::Named(f) } else { Shape::Tuple(f) });
    }
    for i in 0..shape_fields(s).len() {
        for t in [Ty::U, Ty::Plain(0)] {
            let mut f = shape_fields(s).to_vec();
            if f[i].ty != t && !matches!(f[i].ty, Ty::Plain(_) | Ty::U) {
                f[i].ty = t;
                v.push(if matches!(s, Shape::Named(_)) { Shape::Named(f) } else { Shape::Tuple(f) });
            }
        }
    }
    v
}
pub fn shrink(c: &DeriveCase) -> Vec<DeriveCase> {
    if c.defs.len() > 1 {
        let h = c.defs.len() / 2;
        return vec![DeriveCase { defs: c.defs[..h].to_vec() }, DeriveCase { defs: c.defs[h..].to_vec() }];
    }
    let mut out = vec![];
    for d in &c.defs {
        let mut add = |d: Def| out.push(DeriveCase { defs: vec![d] });
        for params in shrink_vec(&d.params) {
            add(Def { params, ..d.clone() });
        }
        match &d.body {
            Body::Struct(s) => {
                for s in smaller_shape(s) {
                    add(Def { body: Body::Struct(s), ..d.clone() });
                }
            }
            Body::Enum(v) => {
                for v in shrink_vec(v) {
                    add(Def { body: Body::Enum(v), ..d.clone() });
                }
                for i in 0..v.len() {
                    for s in smaller_shape(&v[i].1) {
                        let mut v = v.clone();
                        v[i].1 = s;
                        add(Def { body: Body::Enum(v), ..d.clone() });
                    }
                }
            }
        }
        for (name, deco, by_macro) in [(0, 0, false), (d.name, 0, false), (0, d.deco, d.by_macro)] {
            if (name, deco, by_macro) != (d.name, d.deco, d.by_macro) {
                add(Def { name, deco, by_macro, ..d.clone() });
            }
        }
    }
    out
}
