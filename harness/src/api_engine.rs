// Included once per collector, in a module that defines gcm (its module), Lk (a cell type), with(),
// and fn new_default<T: Val>() -> Gc<T>.

use crate::apiop::{AOp, ApiCase, Large, Odd, Shared, Val, Wide};
use crate::arena;
use crate::runner::{fail, Out, Res};
use dumpster::Collectable;
use gcm::Gc;
use std::borrow::Borrow;

struct Owner<T: Val> {
    own: Gc<T>,
    more: Lk<Vec<Gc<Owner<T>>>>,
}
unsafe impl<T: Val> Collectable for Owner<T> {
    fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
        self.own.accept(visitor)?;
        self.more.accept(visitor)
    }
}

struct Alloc {
    /// None is the default value
    value: Option<u64>,
    addr: usize,
}
enum Keep<T: Val> {
    Bare(Gc<T>),
    Boxed(Box<Gc<T>>),
    Owned(Gc<Owner<T>>),
}
impl<T: Val> Keep<T> {
    fn get(&self) -> &Gc<T> {
        match self {
            Keep::Bare(g) => g,
            Keep::Boxed(g) => g,
            Keep::Owned(o) => &o.own,
        }
    }
}
struct Run<T: Val> {
    hs: Vec<(Keep<T>, usize)>,
    allocs: Vec<Alloc>,
    compared: u32,
}
fn value<T: Val>(v: Option<u64>) -> T {
    match v {
        Some(x) => T::make(x),
        None => T::default(),
    }
}

impl<T: Val> Run<T> {
    fn add(&mut self, g: Gc<T>, value: Option<u64>) {
        self.allocs.push(Alloc { value, addr: Gc::as_ptr(&g) as usize });
        self.hs.push((Keep::Bare(g), self.allocs.len() - 1));
    }
    fn pick(&self, h: u8) -> Option<usize> {
        (!self.hs.is_empty()).then(|| h as usize % self.hs.len())
    }
    fn step(&mut self, op: AOp) -> Res {
        match op {
            AOp::New(x) => self.add(Gc::new(T::make(x)), Some(x)),
            AOp::Default => match new_default() {
                Some(g) => self.add(g, None),
                None => self.add(Gc::new(T::default()), None),
            },
            AOp::Clone(h) => {
                if let Some(i) = self.pick(h) {
                    let g = self.hs[i].0.get().clone();
                    self.hs.push((Keep::Bare(g), self.hs[i].1));
                }
            }
            AOp::TryClone(h) => {
                if let Some(i) = self.pick(h) {
                    let Some(g) = Gc::try_clone(self.hs[i].0.get()) else {
                        return fail("api", "try_clone of a live pointer gave None");
                    };
                    self.hs.push((Keep::Bare(g), self.hs[i].1));
                }
            }
            AOp::Drop(h) => {
                if let Some(i) = self.pick(h) {
                    drop(self.hs.remove(i));
                }
            }
            AOp::Move(h) => {
                if let Some(i) = self.pick(h) {
                    let (k, a) = self.hs.swap_remove(i);
                    let k = match k {
                        Keep::Bare(g) => Keep::Boxed(Box::new(g)),
                        Keep::Boxed(b) => Keep::Bare(*b),
                        k => k,
                    };
                    self.hs.insert(0, (k, a));
                }
            }
            AOp::Own(h, cycle) => {
                if let Some(i) = self.pick(h) {
                    let o = Gc::new(Owner { own: self.hs[i].0.get().clone(), more: Lk::new(vec![]) });
                    if cycle {
                        let c = o.clone();
                        with(&o.more, |v| v.push(c));
                    }
                    self.hs.push((Keep::Owned(o), self.hs[i].1));
                }
            }
            AOp::Garbage(h) => {
                if let Some(i) = self.pick(h) {
                    let o = Gc::new(Owner { own: self.hs[i].0.get().clone(), more: Lk::new(vec![]) });
                    let c = o.clone();
                    with(&o.more, |v| v.push(c));
                }
            }
            AOp::Compare(a, b) => {
                if let (Some(i), Some(j)) = (self.pick(a), self.pick(b)) {
                    self.compared += (i != j) as u32;
                    let (g, k) = (self.hs[i].0.get(), self.hs[j].0.get());
                    let one = self.hs[i].1 == self.hs[j].1;
                    if Gc::ptr_eq(g, k) != one {
                        return fail("api", format!("ptr_eq gives {} for pointers to {} allocation", !one, if one { "one" } else { "another" }));
                    }
                    if !one && std::mem::size_of::<T>() > 0 && Gc::as_ptr(g) == Gc::as_ptr(k) {
                        return fail("api", "two values share an address");
                    }
                    let want = value::<T>(self.allocs[self.hs[i].1].value) == value::<T>(self.allocs[self.hs[j].1].value);
                    if (g == k) != want {
                        return fail("api", format!("== gives {} where that of the values gives {want}", !want));
                    }
                    if (g != k) == want {
                        return fail("api", "!= is not the opposite of ==");
                    }
                }
            }
            AOp::Write(h, x) => {
                if let Some(i) = self.pick(h) {
                    if self.hs[i].0.get().write(x) {
                        self.allocs[self.hs[i].1].value = Some(x);
                    }
                }
            }
            AOp::Format(h, how) => {
                if let Some(i) = self.pick(h) {
                    let g = self.hs[i].0.get();
                    let p = self.allocs[self.hs[i].1].addr as *const u8;
                    let (a, b) = match how % 4 {
                        0 => (format!("{:p}", *g), format!("{p:p}")),
                        1 => (format!("{:#p}", *g), format!("{p:#p}")),
                        2 => (format!("{:>40p}", *g), format!("{p:>40p}")),
                        _ => (format!("{:<024p}", *g), format!("{p:<024p}")),
                    };
                    if a != b {
                        return fail("api", format!("formatted as {a} instead of {b}"));
                    }
                }
            }
            AOp::Collect => gcm::collect(),
        }
        self.verify()
    }
    fn verify(&self) -> Res {
        if let Some(f) = arena::take_fault() {
            return fail("memory", f);
        }
        for (k, a) in &self.hs {
            let (g, a) = (k.get(), &self.allocs[*a]);
            let r: &T = g;
            let b: &T = g.borrow();
            let Some(t) = Gc::try_deref(g) else {
                return fail("api", "try_deref of a live pointer gave None");
            };
            let all = [Gc::as_ptr(g), r as *const T, g.as_ref() as *const T, b as *const T, t as *const T];
            if all.iter().any(|&p| p as usize != a.addr) {
                return fail("api", format!("as_ptr, deref, as_ref, borrow and try_deref give {all:?} for a value at {:x}", a.addr));
            }
            if a.addr % std::mem::align_of::<T>() != 0 {
                return fail("api", "misaligned value");
            }
            if arena::state(a.addr) == arena::St::Freed || !r.same(&value(a.value)) {
                return fail("api", "the value is not what was last stored");
            }
        }
        Ok(())
    }
}

fn go<T: Val>(case: &ApiCase) -> (Res, bool) {
    gcm::set_collect_condition(gcm::default_collect_condition);
    let mut run = Run::<T> { hs: vec![], allocs: vec![], compared: 0 };
    let mut r = Ok(());
    for &op in &case.ops {
        r = run.step(op);
        if r.is_err() {
            break;
        }
    }
    let nontrivial = run.compared > 0;
    if r.is_ok() {
        run.hs.clear();
        gcm::collect();
        // the memory before the value belongs to it, even if the value has no size
        if run.allocs.iter().any(|a| arena::state(a.addr - 1) != arena::St::Freed) {
            r = fail("storage", "memory stays behind when no pointers are left");
        }
        arena::scan();
        if let Some(f) = arena::take_fault() {
            r = fail("memory", f);
        }
    }
    if r.is_err() {
        std::mem::forget(run);
    }
    (r, nontrivial)
}

pub fn run(case: &ApiCase) -> Out {
    let (r, nontrivial) = match case.kind {
        0 => go::<u8>(case),
        1 => go::<i64>(case),
        2 => go::<()>(case),
        3 => go::<String>(case),
        4 => go::<Vec<u16>>(case),
        5 => go::<(u8, Option<Box<u32>>)>(case),
        6 => go::<[u64; 4]>(case),
        7 => go::<f64>(case),
        8 => go::<Odd>(case),
        9 => go::<Wide>(case),
        10 => go::<Large>(case),
        _ => go::<Shared>(case),
    };
    Out { fail: r.err(), nontrivial, labels: vec![format!("type {}", case.kind)], ..Out::default() }
}
