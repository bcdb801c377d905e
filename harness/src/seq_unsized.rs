// Values behind trait objects and slices (included by seq_engine.rs).

pub trait NodeObj: Bound + 'static {
    fn hdr(&self) -> &Hdr;
    fn slots(&self) -> Vec<Box<dyn Slot + '_>>;
    fn fixed(&self) -> &[Any];
    fn intact(&self) -> bool;
    /// Show every pointer the value owns.
    fn owned(&self, f: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()>;
}

unsafe impl Collectable for dyn NodeObj {
    fn accept<V: dumpster::Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.owned(&mut |a| a.accept(v))
    }
}

fn all_of<T: Coll, K: Lock<T>>(k: &K, f: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()> {
    k.r(|t| t.items().into_iter().try_for_each(f)).unwrap_or(Err(()))
}

impl NodeObj for A {
    fn hdr(&self) -> &Hdr {
        &self.hdr
    }
    fn slots(&self) -> Vec<Box<dyn Slot + '_>> {
        vec![slot(&self.s0), slot(&self.s1)]
    }
    fn fixed(&self) -> &[Any] {
        &[]
    }
    fn intact(&self) -> bool {
        true
    }
    fn owned(&self, f: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()> {
        all_of(&self.s0, f)?;
        all_of(&self.s1, f)
    }
}
impl NodeObj for B {
    fn hdr(&self) -> &Hdr {
        &self.hdr
    }
    fn slots(&self) -> Vec<Box<dyn Slot + '_>> {
        vec![slot(&self.s0), slot(&self.s1)]
    }
    fn fixed(&self) -> &[Any] {
        &[]
    }
    fn intact(&self) -> bool {
        self.pad.iter().enumerate().all(|(i, &b)| b == (i as u8) ^ (self.hdr.id as u8)) && (self as *const B as usize) % 64 == 0
    }
    fn owned(&self, f: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()> {
        all_of(&self.s0, f)?;
        all_of(&self.s1, f)
    }
}
impl NodeObj for C {
    fn hdr(&self) -> &Hdr {
        &self.hdr
    }
    fn slots(&self) -> Vec<Box<dyn Slot + '_>> {
        vec![slot(&self.s0)]
    }
    fn fixed(&self) -> &[Any] {
        &self.fixed
    }
    fn intact(&self) -> bool {
        true
    }
    fn owned(&self, f: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()> {
        self.fixed.iter().try_for_each(&mut *f)?;
        all_of(&self.s0, f)
    }
}
impl NodeObj for L {
    fn hdr(&self) -> &Hdr {
        &self.hdr
    }
    fn slots(&self) -> Vec<Box<dyn Slot + '_>> {
        vec![]
    }
    fn fixed(&self) -> &[Any] {
        &[]
    }
    fn intact(&self) -> bool {
        self.text == text(self.hdr.id)
    }
    fn owned(&self, _: &mut dyn FnMut(&Any) -> Result<(), ()>) -> Result<(), ()> {
        Ok(())
    }
}

/// Element of a slice; the first carries the identity of the value.
#[derive(Collectable)]
pub struct Cellular {
    hdr: Option<Hdr>,
    n: u16,
    s: Lk1<Vec<Any>>,
}
fn cells<const N: usize>(hdr: Hdr) -> [Cellular; N] {
    let mut hdr = Some(hdr);
    std::array::from_fn(|i| Cellular { hdr: hdr.take(), n: (i * 1000 + N) as u16, s: Lk1::new(Vec::new()) })
}
fn cells_intact(c: &[Cellular]) -> bool {
    c.iter().enumerate().all(|(i, x)| x.n as usize == i * 1000 + c.len() && x.hdr.is_some() == (i == 0))
}

fn make_unsized(kind: u8, hdr: Hdr, fixed: Vec<Any>) -> Any {
    match kind - KINDS {
        k @ 0..=3 => make_sized(k, hdr, fixed).erase(),
        4 => {
            let g: Gc<[Cellular; 1]> = Gc::new(cells(hdr));
            Any::S(g)
        }
        _ => {
            let g: Gc<[Cellular; 3]> = Gc::new(cells(hdr));
            Any::S(g)
        }
    }
}

impl Any {
    /// The same pointer, to a trait object.
    fn erase(self) -> Any {
        match self {
            Any::A(g) => Any::D(g),
            Any::B(g) => Any::D(g),
            Any::C { gc } => Any::D(gc),
            Any::L(g) => Any::D(g),
            a => a,
        }
    }
}
