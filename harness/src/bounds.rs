//! Generated programs which must be accepted or rejected by the compiler.

use crate::runner::{fail, hash_str, shrink_vec, Out, Res};
use crate::rustc::{compile, Work};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Byte,
    /// collectable, neither Send nor Sync
    Local,
    /// collectable and Send
    CellByte,
    /// collectable and Sync
    Guard,
    RcStr,
    /// not collectable
    Opaque,
    /// not 'static
    Short,
    /// a type parameter
    Param,
    U(Box<Ty>),
    S(Box<Ty>),
    USlice(Box<Ty>),
    SSlice(Box<Ty>),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Bx(Box<Ty>),
    BxSlice(Box<Ty>),
    Arr(Box<Ty>),
    Tup(Box<Ty>, Box<Ty>),
    Map(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    RefCell(Box<Ty>),
    Mutex(Box<Ty>),
    RwLock(Box<Ty>),
    OnceCell(Box<Ty>),
    Arc(Box<Ty>),
    Rc(Box<Ty>),
    Raw(Box<Ty>),
    Ref(Box<Ty>),
    Phantom(Box<Ty>),
    Fn(Box<Ty>),
    Struct(Box<Ty>),
    Enum(Box<Ty>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Expr {
    ty: Ty,
    /// bounds of the parameter
    bounds: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BoundsCase {
    pub exprs: Vec<Expr>,
}

/// What is known of a type. Nothing is claimed if it is unknown whether it is well-formed.
#[derive(Clone, Copy)]
struct Q {
    wf: Option<bool>,
    c: Option<bool>,
    send: bool,
    sync: bool,
    stat: bool,
}
fn all(v: &[Option<bool>]) -> Option<bool> {
    if v.contains(&Some(false)) {
        Some(false)
    } else if v.contains(&None) {
        None
    } else {
        Some(true)
    }
}

impl Ty {
    fn subs(&self) -> Vec<&Ty> {
        match self {
            Ty::Byte | Ty::Local | Ty::CellByte | Ty::Guard | Ty::RcStr | Ty::Opaque | Ty::Short | Ty::Param => vec![],
            Ty::Tup(a, b) | Ty::Res(a, b) => vec![a, b],
            Ty::U(t) | Ty::S(t) | Ty::USlice(t) | Ty::SSlice(t) | Ty::Opt(t) | Ty::Vec(t) | Ty::Bx(t) | Ty::BxSlice(t) | Ty::Arr(t) => vec![t],
            Ty::Map(t) | Ty::RefCell(t) | Ty::Mutex(t) | Ty::RwLock(t) | Ty::OnceCell(t) | Ty::Arc(t) | Ty::Rc(t) | Ty::Raw(t) => vec![t],
            Ty::Ref(t) | Ty::Phantom(t) | Ty::Fn(t) | Ty::Struct(t) | Ty::Enum(t) => vec![t],
        }
    }
    fn is_gc(&self) -> bool {
        matches!(self, Ty::U(_) | Ty::S(_) | Ty::USlice(_) | Ty::SSlice(_))
    }
    fn contains(&self, f: &dyn Fn(&Ty) -> bool) -> bool {
        f(self) || self.subs().iter().any(|t| t.contains(f))
    }
    /// A pointer inside something, or something built inside a pointer.
    fn nested(&self) -> bool {
        self.subs().iter().any(|t| t.contains(&Ty::is_gc)) || self.contains(&|t| t.is_gc() && t.subs().iter().any(|t| !t.subs().is_empty()))
    }
    fn q(&self, b: u8) -> Q {
        let leaf = |c: bool, send: bool, sync: bool| Q { wf: Some(true), c: Some(c), send, sync, stat: true };
        let one = |t: &Ty| t.q(b);
        match self {
            Ty::Byte => leaf(true, true, true),
            Ty::Local | Ty::RcStr => leaf(true, false, false),
            Ty::CellByte => leaf(true, true, false),
            Ty::Guard => leaf(true, false, true),
            Ty::Opaque => leaf(false, true, true),
            Ty::Short => Q { stat: false, ..leaf(true, true, true) },
            Ty::Param => Q { stat: b & 8 != 0, ..leaf(b & 1 != 0, b & 2 != 0, b & 4 != 0) },
            Ty::U(t) | Ty::USlice(t) => {
                let q = one(t);
                Q { wf: all(&[q.wf, q.c, Some(q.stat)]), ..leaf(true, false, false) }
            }
            Ty::S(t) | Ty::SSlice(t) => {
                let q = one(t);
                Q { wf: all(&[q.wf, q.c, Some(q.stat && q.send && q.sync)]), ..leaf(true, true, true) }
            }
            Ty::Opt(t) | Ty::Vec(t) | Ty::Bx(t) | Ty::BxSlice(t) | Ty::Arr(t) | Ty::Map(t) | Ty::Struct(t) | Ty::Enum(t) => one(t),
            Ty::Tup(x, y) | Ty::Res(x, y) => {
                let (x, y) = (one(x), one(y));
                Q { wf: all(&[x.wf, y.wf]), c: all(&[x.c, y.c]), send: x.send && y.send, sync: x.sync && y.sync, stat: x.stat && y.stat }
            }
            Ty::RefCell(t) | Ty::OnceCell(t) => Q { sync: false, ..one(t) },
            Ty::Mutex(t) => Q { sync: one(t).send, ..one(t) },
            Ty::RwLock(t) => Q { sync: one(t).send && one(t).sync, ..one(t) },
            // these might well become collectable
            Ty::Arc(t) => Q { c: None, send: one(t).send && one(t).sync, sync: one(t).send && one(t).sync, ..one(t) },
            Ty::Rc(t) | Ty::Raw(t) => Q { c: None, send: false, sync: false, ..one(t) },
            Ty::Ref(t) => {
                let q = one(t);
                Q { wf: all(&[q.wf, Some(q.stat)]), c: Some(true), send: q.sync, sync: q.sync, stat: true }
            }
            Ty::Phantom(t) => Q { c: Some(true), ..one(t) },
            Ty::Fn(t) => {
                let q = one(t);
                Q { wf: if q.wf == Some(true) { q.wf } else { None }, c: Some(true), send: true, sync: true, stat: q.stat }
            }
        }
    }
    fn text(&self) -> String {
        match self {
            Ty::Byte => "u8".into(),
            Ty::Local => "Local".into(),
            Ty::CellByte => "Cell<u8>".into(),
            Ty::Guard => "MutexGuard<'static, u8>".into(),
            Ty::RcStr => "Rc<str>".into(),
            Ty::Opaque => "Opaque".into(),
            Ty::Short => "Short<'a>".into(),
            Ty::Param => "P".into(),
            Ty::U(t) => format!("unsync::Gc<{}>", t.text()),
            Ty::S(t) => format!("sync::Gc<{}>", t.text()),
            Ty::USlice(t) => format!("unsync::Gc<[{}]>", t.text()),
            Ty::SSlice(t) => format!("sync::Gc<[{}]>", t.text()),
            Ty::Opt(t) => format!("Option<{}>", t.text()),
            Ty::Vec(t) => format!("Vec<{}>", t.text()),
            Ty::Bx(t) => format!("Box<{}>", t.text()),
            Ty::BxSlice(t) => format!("Box<[{}]>", t.text()),
            Ty::Arr(t) => format!("[{}; 2]", t.text()),
            Ty::Tup(a, b) => format!("({}, {})", a.text(), b.text()),
            Ty::Map(t) => format!("BTreeMap<u8, {}>", t.text()),
            Ty::Res(a, b) => format!("Result<{}, {}>", a.text(), b.text()),
            Ty::RefCell(t) => format!("RefCell<{}>", t.text()),
            Ty::Mutex(t) => format!("Mutex<{}>", t.text()),
            Ty::RwLock(t) => format!("RwLock<{}>", t.text()),
            Ty::OnceCell(t) => format!("OnceCell<{}>", t.text()),
            Ty::Arc(t) => format!("Arc<{}>", t.text()),
            Ty::Rc(t) => format!("Rc<{}>", t.text()),
            Ty::Raw(t) => format!("*const {}", t.text()),
            Ty::Ref(t) => format!("&'static {}", t.text()),
            Ty::Phantom(t) => format!("PhantomData<{}>", t.text()),
            Ty::Fn(t) => format!("fn() -> {}", t.text()),
            Ty::Struct(t) => format!("Struct<{}>", t.text()),
            Ty::Enum(t) => format!("Enum<{}>", t.text()),
        }
    }
}

const PRELUDE: &str = r#"#![allow(warnings)]
use dumpster::{sync, unsync, Collectable, Visitor};
use std::{cell::*, collections::BTreeMap, marker::PhantomData, rc::Rc, sync::{Arc, Mutex, MutexGuard, OnceLock, RwLock}};
#[derive(Collectable)] pub struct Local(PhantomData<*const u8>);
pub struct Opaque(u8);
pub struct Short<'a>(&'a u8);
unsafe impl<'a> Collectable for Short<'a> { fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> { Ok(()) } }
#[derive(Collectable)] pub struct Struct<T> { x: u8, t: T }
#[derive(Collectable)] pub enum Enum<T> { A(u8, T), B { t: T }, C }
// parameters of functions would imply bounds
fn make<T>() -> T { todo!() }
fn wf<T: ?Sized>() {}
fn need_send<T: Send + ?Sized>() {}
fn need_sync<T: Sync + ?Sized>() {}
fn need_collectable<T: Collectable + ?Sized>() {}
"#;

struct Claim {
    line: String,
    accept: bool,
    expr: usize,
}
fn claims(exprs: &[Expr]) -> Vec<Claim> {
    let mut v = vec![];
    for (i, e) in exprs.iter().enumerate() {
        let q = e.ty.q(e.bounds);
        let Some(wf) = q.wf else {
            continue;
        };
        let b: Vec<&str> = [(1, "Collectable"), (2, "Send"), (4, "Sync"), (8, "'static")].iter().filter(|x| e.bounds & x.0 != 0).map(|x| x.1).collect();
        let p = format!("P: {}", b.join(" + "));
        let t = e.ty.text();
        let mut add = |accept: Option<bool>, line: String| {
            if let Some(a) = accept {
                v.push(Claim { line, accept: wf && a, expr: i });
            }
        };
        let y = Some(true);
        let n = i;
        add(y, format!("fn wf{n}<'a, {p}>() {{ wf::<{t}>() }}"));
        add(Some(q.send), format!("fn send{n}<'a, {p}>() {{ need_send::<{t}>() }}"));
        add(Some(q.sync), format!("fn sync{n}<'a, {p}>() {{ need_sync::<{t}>() }}"));
        add(q.c, format!("fn coll{n}<'a, {p}>() {{ need_collectable::<{t}>() }}"));
        add(Some(q.send && q.stat), format!("fn spawn{n}<'a, {p}>() {{ let x = make::<{t}>(); std::thread::spawn(move || {{ let y = &x; }}); }}"));
        add(Some(q.sync), format!("fn scope{n}<'a, {p}>() {{ let x = make::<{t}>(); std::thread::scope(|s| {{ s.spawn(|| {{ let y = &x; }}); }}) }}"));
        add(all(&[q.c, Some(q.stat)]), format!("fn un{n}<'a, {p}>() {{ let y = unsync::Gc::new(make::<{t}>()); }}"));
        add(all(&[q.c, Some(q.stat && q.send && q.sync)]), format!("fn sn{n}<'a, {p}>() {{ let y = sync::Gc::new(make::<{t}>()); }}"));
        add(all(&[q.c, Some(q.stat && q.send && q.sync)]), format!("fn ss{n}<'a, {p}>() {{ let x = make::<sync::Gc<{t}>>(); std::thread::spawn(move || {{ let y = &*x; }}); }}"));
        if all(&[q.c, Some(q.stat)]) == y {
            add(Some(false), format!("fn us{n}<'a, {p}>() {{ let x = make::<unsync::Gc<{t}>>(); std::thread::spawn(move || {{ let y = &*x; }}); }}"));
        }
        if !e.ty.contains(&|t| matches!(t, Ty::Param)) {
            add(q.c, format!("#[derive(Collectable)] struct D{n}<'a> {{ x: {t}, p: PhantomData<&'a u8> }}"));
            if !e.ty.contains(&|t| matches!(t, Ty::Short)) {
                add(Some(q.send && q.sync), format!("static G{n}: OnceLock<{t}> = OnceLock::new();"));
            }
        }
    }
    v
}

fn source(v: &[&Claim]) -> String {
    let mut s = PRELUDE.to_string();
    for c in v {
        s += &c.line;
        s.push('\n');
    }
    s
}
fn harness<T>(e: String) -> Res<T> {
    fail("harness", e)
}

fn go(case: &BoundsCase, programs: &mut u64) -> Res {
    let w = Work::new();
    let v = claims(&case.exprs);
    *programs = v.len() as u64;
    let first = PRELUDE.lines().count() + 1;
    let errors = |v: &[&Claim]| -> Res<BTreeSet<usize>> {
        let o = compile(&w, "all", &source(v), false).or_else(harness)?;
        if let Some(e) = o.errors.iter().find(|e| e.0 < first && e.0 != 0) {
            return fail("compile", format!("the common part does not compile: {}", e.1));
        }
        Ok(o.errors.iter().filter(|e| e.0 >= first).map(|e| e.0 - first).collect())
    };
    // All at once; those without an error again, as some errors hide others; then what is left alone.
    let refs: Vec<&Claim> = v.iter().collect();
    let bad = errors(&refs)?;
    let quiet: Vec<&Claim> = (0..v.len()).filter(|i| !bad.contains(i)).map(|i| &v[i]).collect();
    let bad2 = errors(&quiet)?;
    let mut suspects: Vec<&Claim> = (0..v.len()).filter(|i| bad.contains(i) && v[*i].accept).map(|i| &v[i]).collect();
    suspects.extend((0..quiet.len()).filter(|i| bad2.contains(i) == quiet[*i].accept).map(|i| quiet[i]));
    for c in suspects {
        let o = compile(&w, "one", &source(&[c]), false).or_else(harness)?;
        if o.ok && !c.accept {
            return fail("accepted", format!("a program was accepted that must not be: {}", c.line));
        }
        if !o.ok && c.accept {
            return fail("rejected", format!("a program was rejected that is right: {} ({})", c.line, o.errors[0].1));
        }
    }
    Ok(())
}

pub fn run(case: &BoundsCase) -> Out {
    let mut programs = 0;
    let r = go(case, &mut programs);
    let nt: Vec<u64> = claims(&case.exprs).iter().filter(|c| case.exprs[c.expr].ty.nested()).map(|c| hash_str(&(c.line.chars().take_while(|c| !c.is_numeric()).collect::<String>() + &serde_json::to_string(&case.exprs[c.expr]).unwrap()))).collect();
    let rejected = claims(&case.exprs).iter().filter(|c| !c.accept).count();
    Out {
        fail: r.err(),
        nontrivial: !nt.is_empty(),
        labels: vec![if rejected > 0 { "some must be rejected".into() } else { "all must be accepted".into() }],
        sample: claims(&case.exprs).iter().filter(|c| case.exprs[c.expr].ty.nested()).nth(3).map(|c| format!("{}: {}", if c.accept { "accept" } else { "reject" }, c.line)),
        parts: Some((programs, nt)),
        ..Out::default()
    }
}

pub fn case(n: usize) -> BoxedStrategy<BoundsCase> {
    let leaf = prop_oneof![
        6 => Just(Ty::Byte),
        2 => Just(Ty::Local),
        2 => Just(Ty::CellByte),
        2 => Just(Ty::Guard),
        1 => Just(Ty::RcStr),
        1 => Just(Ty::Opaque),
        1 => Just(Ty::Short),
        4 => Just(Ty::Param),
    ];
    let step = |t: BoxedStrategy<Ty>| {
        let b = || t.clone().prop_map(Box::new);
        crate::seqop::weighted(vec![
            (6, b().prop_map(Ty::U).boxed()),
            (9, b().prop_map(Ty::S).boxed()),
            (1, b().prop_map(Ty::USlice).boxed()),
            (2, b().prop_map(Ty::SSlice).boxed()),
            (1, b().prop_map(Ty::Opt).boxed()),
            (1, b().prop_map(Ty::Vec).boxed()),
            (1, b().prop_map(Ty::Bx).boxed()),
            (1, b().prop_map(Ty::BxSlice).boxed()),
            (1, b().prop_map(Ty::Arr).boxed()),
            (2, (b(), b()).prop_map(|(x, y)| Ty::Tup(x, y)).boxed()),
            (1, b().prop_map(Ty::Map).boxed()),
            (1, (b(), b()).prop_map(|(x, y)| Ty::Res(x, y)).boxed()),
            (2, b().prop_map(Ty::RefCell).boxed()),
            (4, b().prop_map(Ty::Mutex).boxed()),
            (2, b().prop_map(Ty::RwLock).boxed()),
            (1, b().prop_map(Ty::OnceCell).boxed()),
            (1, b().prop_map(Ty::Arc).boxed()),
            (1, b().prop_map(Ty::Rc).boxed()),
            (1, b().prop_map(Ty::Raw).boxed()),
            (2, b().prop_map(Ty::Ref).boxed()),
            (1, b().prop_map(Ty::Phantom).boxed()),
            (1, b().prop_map(Ty::Fn).boxed()),
            (2, b().prop_map(Ty::Struct).boxed()),
            (2, b().prop_map(Ty::Enum).boxed()),
        ])
    };
    let ty = prop_oneof![1 => leaf.clone().boxed(), 9 => step(leaf.prop_recursive(4, 8, 2, step).boxed())];
    let bounds = prop_oneof![1 => Just(15u8), 1 => 0u8..16];
    let expr = (ty, bounds).prop_map(|(ty, bounds)| Expr { ty, bounds });
    prop::collection::vec(expr, n).prop_map(|exprs| BoundsCase { exprs }).boxed()
}

pub fn shrink(c: &BoundsCase) -> Vec<BoundsCase> {
    let mut v: Vec<BoundsCase> = shrink_vec(&c.exprs).into_iter().filter(|e| !e.is_empty()).map(|exprs| BoundsCase { exprs }).collect();
    if let [e] = &c.exprs[..] {
        for t in e.ty.subs() {
            v.push(BoundsCase { exprs: vec![Expr { ty: t.clone(), bounds: e.bounds }] });
        }
        if e.bounds != 15 {
            v.push(BoundsCase { exprs: vec![Expr { ty: e.ty.clone(), bounds: 15 }] });
        }
    }
    v
}
