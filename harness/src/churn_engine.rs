// Included once per collector, in a module that defines gcm (its module), Lk (a cell type), and:
//   fn bound(existing: u64) -> u64: drops after which earlier garbage is gone.

use crate::churnop::{Churn, ChurnCase, Shape};
use crate::reg::{self, Hdr};
use crate::runner::{fail, Out, Res};
use dumpster::Collectable;
use gcm::Gc;

#[derive(Collectable)]
struct N {
    hdr: Hdr,
    s: Lk<Vec<Gc<N>>>,
}

struct Run {
    live: Vec<Gc<N>>,
    created: u64,
    dropped: u64,
    garbage: Vec<u32>,
    reclaimed: u64,
}
fn put(a: &Gc<N>, b: Gc<N>) {
    with(&a.s, |v| v.push(b));
}

impl Run {
    fn new(&mut self) -> Gc<N> {
        self.created += 1;
        let hdr = Hdr::new();
        let id = hdr.id;
        let g = Gc::new(N { hdr, s: Lk::new(Vec::new()) });
        reg::set_addr(id, Gc::as_ptr(&g) as usize);
        g
    }
    fn dup(&mut self, g: &Gc<N>) -> Gc<N> {
        self.created += 1;
        g.clone()
    }
    fn existing(&self) -> u64 {
        self.created - self.dropped
    }
    fn ring(&mut self, n: usize) -> Vec<Gc<N>> {
        let v: Vec<Gc<N>> = (0..n).map(|_| self.new()).collect();
        for i in 0..n {
            let c = self.dup(&v[(i + 1) % n]);
            put(&v[i], c);
        }
        v
    }
    /// Make values and lose the last way to them.
    fn garbage(&mut self, shape: Shape, n: usize) {
        let n = n.max(1);
        let v = match shape {
            Shape::Ring => self.ring(n),
            Shape::Loops => {
                let v: Vec<Gc<N>> = (0..n).map(|_| self.new()).collect();
                for g in &v {
                    let c = self.dup(g);
                    put(g, c);
                }
                v
            }
            Shape::Linked => {
                let mut v = self.ring(n);
                let w = self.ring(n);
                let c = self.dup(&w[0]);
                put(&v[n - 1], c);
                v.extend(w);
                v
            }
            // garbage that knows of what is alive
            Shape::Into => {
                let v = self.ring(n);
                for i in 0..n.min(self.live.len()) {
                    let g = self.live[i].clone();
                    self.created += 1;
                    put(&v[i], g);
                }
                v
            }
            // was alive for some time
            Shape::Severed => {
                let v = self.ring(n);
                if let Some(l) = self.live.first().cloned() {
                    self.created += 2;
                    put(&l, v[0].clone());
                    with(&l.s, |x| x.pop());
                    self.dropped += 1;
                    drop(l);
                    self.dropped += 1;
                }
                v
            }
            Shape::Clique => {
                let n = n.min(12);
                let v: Vec<Gc<N>> = (0..n).map(|_| self.new()).collect();
                for a in &v {
                    for b in &v {
                        let c = self.dup(b);
                        put(a, c);
                    }
                }
                v
            }
        };
        self.garbage.extend(v.iter().map(|g| g.hdr.id));
        self.dropped += v.len() as u64;
        drop(v);
    }
    /// Ordinary activity that leaves no cycles behind.
    fn churn(&mut self, how: Churn, i: u64) {
        let pick = |v: &Vec<Gc<N>>| (!v.is_empty()).then(|| i as usize % v.len());
        match how {
            Churn::Clone => match pick(&self.live) {
                Some(k) => {
                    let g = self.live[k].clone();
                    self.created += 1;
                    drop(g);
                    self.dropped += 1;
                }
                None => self.churn(Churn::Plain, i),
            },
            Churn::Plain => {
                self.created += 1;
                drop(Gc::new(7u64));
                self.dropped += 1;
            }
            Churn::Owner => match pick(&self.live) {
                Some(k) => {
                    let g = self.live[k].clone();
                    drop(Gc::new(Some(g)));
                    self.created += 2;
                    self.dropped += 2;
                }
                None => self.churn(Churn::Plain, i),
            },
            Churn::Store => match pick(&self.live) {
                Some(k) => {
                    let g = self.live[(k + 1) % self.live.len()].clone();
                    put(&self.live[k], g);
                    let o = with(&self.live[k].s, |v| v.pop());
                    self.created += 1;
                    drop(o);
                    self.dropped += 1;
                }
                None => self.churn(Churn::Plain, i),
            },
        }
    }
    /// Pointers owned by destroyed garbage do not exist any more; an upper bound is enough.
    fn settle(&mut self, existing_live: u64) {
        self.created = existing_live;
        self.dropped = 0;
    }
}

fn go(case: &ChurnCase, run: &mut Run) -> Res {
    let mut ops = 0u64;
    let make_live = |run: &mut Run, ops: &mut u64| {
        let n = case.live as usize;
        run.live = if case.ring_live { run.ring(n.max(1)) } else { (0..n).map(|_| run.new()).collect() };
        if case.hub && n > 1 {
            for i in 1..n {
                let g = run.live[i].clone();
                run.created += 1;
                put(&run.live[0], g);
            }
        }
        *ops += run.created;
    };
    make_live(run, &mut ops);
    let base = run.existing();
    for r in &case.rounds {
        let first = run.garbage.len();
        let c0 = (run.created, run.dropped);
        for &(s, n) in &r.garbage {
            run.garbage(s, n as usize);
        }
        ops += run.created - c0.0 + run.dropped - c0.1;
        let e = run.existing();
        let until = run.dropped + bound(e);
        let c0 = (run.created, run.dropped);
        let mut i = 0;
        while run.dropped < until {
            run.churn(r.churn, i);
            i += 1;
        }
        ops += run.created - c0.0 + run.dropped - c0.1;
        for &id in &run.garbage[first..] {
            if reg::drops(id) == 0 {
                return fail("late", format!("value {id} is unreachable and survived {} drops with {e} pointers in existence", bound(e)));
            }
            run.reclaimed += 1;
        }
        // total work
        let visits = reg::visits() as u64;
        if visits > 8 * ops + 500 {
            return fail("work", format!("{visits} visits for {ops} operations"));
        }
        run.settle(base);
    }
    for g in &run.live {
        if reg::drops(g.hdr.id) != 0 {
            return fail("unsafe", "a live value was destroyed");
        }
    }
    Ok(())
}

pub fn run(case: &ChurnCase) -> Out {
    gcm::set_collect_condition(gcm::default_collect_condition);
    let mut run = Run { live: vec![], created: 0, dropped: 0, garbage: vec![], reclaimed: 0 };
    let r = go(case, &mut run);
    std::mem::forget(run.live);
    Out { fail: r.err(), nontrivial: run.reclaimed > 0, labels: vec![], ..Out::default() }
}
