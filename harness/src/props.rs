//! Which suites decide which property.

use crate::runner::{Case, Ctx, Out, Suite, CASE_TIMEOUT_MS};
use std::sync::atomic::Ordering::SeqCst;
use crate::seqop::{self, SeqCase, Weights};
use crate::conc::{self, ConcCase, ConcW};
use crate::scope::{self, ScopeCase};
use crate::dtorop::{self, DtorCase, DtorW};
use crate::exit::{self, ExitCase};
use crate::mixed::{self, MixCase};
use crate::churnop::{self, ChurnCase};
use crate::apiop::{self, ApiCase};
use crate::libtypes::{self, LibCase};
use crate::bounds::{self, BoundsCase};
use crate::derive_gen::{self, DeriveCase};
use crate::{sapi, schurn, sdtor, sseq, uapi, uchurn, udtor, useq};

const SAFE: &[&str] = &["unsafe", "content", "memory", "crash", "panic"];
const LEAK: &[&str] = &["leak", "count", "crash", "panic"];
const STORE: &[&str] = &["storage", "memory", "crash"];

fn seq(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: proptest::strategy::BoxedStrategy<SeqCase>,
    run: fn(&SeqCase) -> Out,
    classes: &'static [&'static str],
) -> Suite<SeqCase> {
    Suite { name, quick, thorough, strategy, run, shrink: seqop::shrink, variants: None, classes, hash_seed: |c| c.hash, pin: true }
}

const W: Weights = Weights { hold: 4, cond: 2, restart: 0, probe: 0, kinds: 4, many: 0 };
/// Histories with few operations on many values.
const WIDE: Weights = Weights { many: 3, ..W };

/// Run the suites of a property; gives the rule by which cases are made and counted.
pub fn run(ctx: &mut Ctx) -> Option<&'static str> {
    match ctx.prop.clone().as_str() {
        "C01" => {
            ctx.suite(seq("unsync", 60_000, 1_000_000, seqop::case(W, 90, 1, true), useq::run, SAFE));
            ctx.suite(seq("wide", 2_500, 40_000, seqop::case(WIDE, 40, 1, true), useq::run, SAFE));
            Some(SEQ_RULE)
        }
        "C02" => {
            ctx.suite(seq("unsync", 60_000, 1_000_000, seqop::case(W, 90, 1, true), useq::run, LEAK));
            ctx.suite(seq("wide", 2_500, 40_000, seqop::case(WIDE, 40, 1, true), useq::run, LEAK));
            Some(SEQ_RULE)
        }
        "C03" => {
            ctx.suite(seq("unsync", 30_000, 500_000, seqop::case(W, 90, 1, true), useq::run, STORE));
            ctx.suite(seq("sync", 30_000, 500_000, seqop::case(W, 90, 1, true), sseq::run, STORE));
            ctx.suite(seq("unsync-wide", 1_000, 20_000, seqop::case(WIDE, 40, 1, true), useq::run, STORE));
            ctx.suite(seq("sync-wide", 1_000, 20_000, seqop::case(WIDE, 40, 1, true), sseq::run, STORE));
            ctx.suite(api("unsync-types", uapi::run, STORE));
            ctx.suite(api("sync-types", sapi::run, STORE));
            const C: &[&str] = &["memory", "storage", "kept", "crash"];
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("concurrent-tight", 2_000, 50_000, conc::tight(), C) });
            ctx.suite(concurrent("concurrent", 1_000, 20_000, conc::case(two), C));
            Some(STORE_RULE)
        }
        "C04" => {
            let w = Weights { restart: 3, ..W };
            ctx.suite(seq("one-thread", 30_000, 500_000, seqop::case(W, 90, 1, true), sseq::run, SAFE));
            ctx.suite(seq("threads", 30_000, 500_000, seqop::case(w, 90, 3, true), sseq::run_multi, SAFE));
            ctx.suite(seq("wide", 1_500, 30_000, seqop::case(WIDE, 40, 1, true), sseq::run, SAFE));
            ctx.suite(seq("wide-threads", 1_000, 20_000, seqop::case(Weights { restart: 3, ..WIDE }, 40, 3, true), sseq::run_multi, SAFE));
            Some(SEQ_RULE)
        }
        "C05" => {
            let w = Weights { restart: 3, ..W };
            ctx.suite(seq("one-thread", 30_000, 500_000, seqop::case(W, 90, 1, true), sseq::run, LEAK));
            ctx.suite(seq("threads", 30_000, 500_000, seqop::case(w, 90, 3, true), sseq::run_multi, LEAK));
            ctx.suite(seq("wide", 1_500, 30_000, seqop::case(WIDE, 40, 1, true), sseq::run, LEAK));
            ctx.suite(seq("wide-threads", 1_000, 20_000, seqop::case(Weights { restart: 3, ..WIDE }, 40, 3, true), sseq::run_multi, LEAK));
            Some(SEQ_RULE)
        }
        "C06" => {
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            let three = ConcW { hold: 2, maxops: 5, threads: 3, conds: true };
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("tight", 20_000, 400_000, conc::tight(), RACE) });
            ctx.suite(Suite { variants: Some(conc::tight3_variants), ..concurrent("tight-three", 10000, 200000, conc::tight3(), RACE) });
            ctx.suite(concurrent("races", 6_000, 120_000, conc::races(2), RACE));
            ctx.suite(concurrent("two-threads", 5_000, 120_000, conc::case(two), RACE));
            ctx.suite(concurrent("three-threads", 2_000, 45_000, conc::case(three), RACE));
            Some(CONC_RULE)
        }
        "C07" => {
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            let three = ConcW { hold: 2, maxops: 5, threads: 3, conds: true };
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("tight", 8_000, 200_000, conc::tight(), LOST) });
            ctx.suite(Suite { variants: Some(conc::tight3_variants), ..concurrent("tight-three", 4000, 100000, conc::tight3(), LOST) });
            ctx.suite(concurrent("races", 4_000, 90_000, conc::races(2), LOST));
            ctx.suite(concurrent("two-threads", 4_000, 90_000, conc::case(two), LOST));
            ctx.suite(concurrent("three-threads", 1_500, 30_000, conc::case(three), LOST));
            Some(CONC_RULE)
        }
        "C08" => {
            let two = ConcW { hold: 6, maxops: 8, threads: 2, conds: true };
            let three = ConcW { hold: 6, maxops: 5, threads: 3, conds: true };
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("tight", 8_000, 200_000, conc::tight(), STUCK) });
            ctx.suite(Suite { variants: Some(conc::tight3_variants), ..concurrent("tight-three", 4000, 100000, conc::tight3(), STUCK) });
            ctx.suite(concurrent("races", 4_000, 90_000, conc::races(2), STUCK));
            ctx.suite(concurrent("two-threads", 4_000, 90_000, conc::case(two), STUCK));
            ctx.suite(concurrent("three-threads", 1_500, 30_000, conc::case(three), STUCK));
            Some(CONC_RULE)
        }
        "C10" => {
            CASE_TIMEOUT_MS.store(300_000, SeqCst);
            ctx.suite(Suite::<DeriveCase> {
                name: "types",
                quick: 200,
                thorough: 2_500,
                strategy: derive_gen::case(20),
                run: derive_gen::run,
                shrink: derive_gen::shrink,
                variants: None,
                classes: &["compile", "visit", "crash"],
                hash_seed: |_| 1,
                pin: false,
            });
            Some(DERIVE_RULE)
        }
        "C18" => {
            CASE_TIMEOUT_MS.store(300_000, SeqCst);
            ctx.suite(Suite::<BoundsCase> {
                name: "programs",
                quick: 300,
                thorough: 6_000,
                strategy: bounds::case(40),
                run: bounds::run,
                shrink: bounds::shrink,
                variants: None,
                classes: &["compile", "accepted", "rejected"],
                hash_seed: |_| 1,
                pin: false,
            });
            Some(BOUNDS_RULE)
        }
        "C11" => {
            const C: &[&str] = &["visit", "memory", "crash", "panic"];
            ctx.suite(Suite::<LibCase> {
                name: "nested",
                quick: 80_000,
                thorough: 1_000_000,
                strategy: libtypes::case(),
                run: libtypes::run,
                shrink: libtypes::shrink,
                variants: None,
                classes: C,
                hash_seed: |c| c.hash,
                pin: true,
            });
            ctx.suite(Suite::<LibCase> {
                name: "large",
                quick: 1_500,
                thorough: 40_000,
                strategy: libtypes::large(),
                run: libtypes::run,
                shrink: libtypes::shrink,
                variants: None,
                classes: C,
                hash_seed: |c| c.hash,
                pin: true,
            });
            Some(LIB_RULE)
        }
        "C12" => {
            const C: &[&str] = &["counter", "crash", "panic"];
            let w = Weights { restart: 3, probe: 12, ..W };
            ctx.suite(seq("unsync", 25_000, 400_000, seqop::case(W, 90, 1, true), useq::run_probed, C));
            ctx.suite(seq("sync", 25_000, 400_000, seqop::case(W, 90, 1, true), sseq::run_probed, C));
            ctx.suite(seq("sync-threads", 25_000, 400_000, seqop::case(w, 90, 3, true), sseq::run_multi_probed, C));
            ctx.suite(seq("unsync-wide", 1_000, 20_000, seqop::case(WIDE, 40, 1, true), useq::run_probed, C));
            ctx.suite(seq("sync-wide", 1_000, 20_000, seqop::case(WIDE, 40, 1, true), sseq::run_probed, C));
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            ctx.suite(concurrent("concurrent", 300, 10_000, conc::case(two), C));
            ctx.suite(scoped("scopes", 10_000, 150_000, scope::run_counters, C));
            Some(COUNTER_RULE)
        }
        "C13" => {
            const C: &[&str] = &["cond", "crash", "panic"];
            let w = Weights { cond: 8, ..W };
            ctx.suite(seq("unsync", 40_000, 500_000, seqop::case(w, 90, 1, true), useq::run, C));
            ctx.suite(seq("sync", 30_000, 400_000, seqop::case(w, 90, 1, true), sseq::run, C));
            ctx.suite(scoped("scopes", 20_000, 200_000, scope::run, C));
            Some(COND_RULE)
        }
        "C09" => {
            let w = DtorW { panic: 0, poison: 0, forget: 0 };
            ctx.suite(dtor("unsync", 40_000, 600_000, w, udtor::run));
            ctx.suite(dtor("sync", 40_000, 600_000, w, sdtor::run));
            acting(ctx, false);
            Some(DTOR_RULE)
        }
        "C14" => {
            const C: &[&str] = &["late", "work", "unsafe", "crash", "panic"];
            let s = |name, quick, thorough, rounds, run| Suite::<ChurnCase> {
                name,
                quick,
                thorough,
                strategy: churnop::case(rounds),
                run,
                shrink: churnop::shrink,
                variants: None,
                classes: C,
                hash_seed: |c| c.hash,
                pin: true,
            };
            ctx.suite(s("unsync", 10_000, 150_000, 5, uchurn::run));
            ctx.suite(s("sync", 1_500, 20_000, 2, schurn::run));
            Some(CHURN_RULE)
        }
        "C15" => {
            const C: &[&str] = &["unsafe", "memory", "storage", "leak", "deadlock", "panic", "crash"];
            ctx.suite(Suite::<ExitCase> {
                name: "threads",
                quick: 40_000,
                thorough: 600_000,
                strategy: exit::case(),
                run: exit::run,
                shrink: exit::shrink,
                variants: None,
                classes: C,
                hash_seed: |c| c.hash,
                pin: true,
            });
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            let tight = conc::keeping(conc::tight());
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("concurrent-tight", 2_000, 50_000, tight, ACTING) });
            ctx.suite(concurrent("concurrent-races", 1_500, 30_000, conc::keeping(conc::races(2)), ACTING));
            ctx.suite(concurrent("concurrent", 1_500, 30_000, conc::keeping(conc::case(two)), ACTING));
            ctx.suite(concurrent("concurrent-destructors", 1_500, 30_000, conc::keeping(conc::acting(conc::case(two), false)), ACTING));
            Some(EXIT_RULE)
        }
        "C16" => {
            let w = DtorW { panic: 4, poison: 4, forget: 2 };
            ctx.suite(dtor("unsync", 40_000, 600_000, w, udtor::run));
            ctx.suite(dtor("sync", 40_000, 600_000, w, sdtor::run));
            ctx.suite(dtor("unsync-exit", 20_000, 300_000, w, udtor::run_exit));
            ctx.suite(dtor("sync-exit", 10_000, 200_000, w, sdtor::run_exit));
            acting(ctx, true);
            Some(DTOR_RULE)
        }
        "C17" => {
            const C: &[&str] = &["api", "memory", "crash", "panic"];
            ctx.suite(api("unsync", uapi::run, C));
            ctx.suite(api("sync", sapi::run, C));
            Some(API_RULE)
        }
        "C19" if cfg!(feature = "unsized") => {
            const C: &[&str] = &["unsafe", "content", "leak", "count", "storage", "memory", "crash", "panic"];
            let w = Weights { kinds: 10, ..W };
            ctx.suite(seq("unsync", 30_000, 500_000, seqop::case(w, 90, 1, true), useq::run, C));
            ctx.suite(seq("sync", 30_000, 500_000, seqop::case(w, 90, 1, true), sseq::run, C));
            ctx.suite(seq("sync-threads", 15_000, 300_000, seqop::case(Weights { restart: 3, ..w }, 90, 3, true), sseq::run_multi, C));
            let w = DtorW { panic: 0, poison: 0, forget: 0 };
            ctx.suite(dtor("unsync-destructors", 15_000, 200_000, w, udtor::run));
            ctx.suite(dtor("sync-destructors", 15_000, 200_000, w, sdtor::run));
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("concurrent-tight", 2_000, 50_000, conc::tight(), ACTING) });
            ctx.suite(concurrent("concurrent", 1_500, 30_000, conc::case(two), ACTING));
            ctx.suite(concurrent("concurrent-destructors", 1_500, 30_000, conc::acting(conc::case(two), false), ACTING));
            Some(UNSIZED_RULE)
        }
        "C20" => {
            const C: &[&str] = &["unsafe", "content", "leak", "storage", "memory", "deadlock", "crash", "panic"];
            ctx.suite(Suite::<MixCase> {
                name: "mixed",
                quick: 60_000,
                thorough: 900_000,
                strategy: mixed::case(),
                run: mixed::run,
                shrink: mixed::shrink,
                variants: None,
                classes: C,
                hash_seed: |c| c.hash,
                pin: true,
            });
            let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
            let tight = conc::mixing(conc::tight());
            ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("concurrent-tight", 2_000, 50_000, tight, ACTING) });
            ctx.suite(concurrent("concurrent-races", 1_500, 30_000, conc::mixing(conc::races(2)), ACTING));
            ctx.suite(concurrent("concurrent", 1_500, 30_000, conc::mixing(conc::case(two)), ACTING));
            let destructors = conc::mixing(conc::acting(conc::case(two), false));
            ctx.suite(concurrent("concurrent-destructors", 1_500, 30_000, destructors, ACTING));
            Some(MIX_RULE)
        }
        _ => None,
    }
}

fn api(name: &'static str, run: fn(&ApiCase) -> Out, classes: &'static [&'static str]) -> Suite<ApiCase> {
    Suite {
        name,
        quick: 40_000,
        thorough: 500_000,
        strategy: apiop::case(),
        run,
        shrink: apiop::shrink,
        variants: None,
        classes,
        hash_seed: |c| c.hash,
                pin: true,
    }
}
fn dtor(name: &'static str, quick: u64, thorough: u64, w: DtorW, run: fn(&DtorCase) -> Out) -> Suite<DtorCase> {
    const C: &[&str] = &["dead", "unsafe", "content", "memory", "storage", "leak", "deadlock", "panic", "crash"];
    Suite { name, quick, thorough, strategy: dtorop::case(w, 40), run, shrink: dtorop::shrink, variants: None, classes: C, hash_seed: |c| c.hash, pin: true }
}

const EXIT_RULE: &str = "Each case is a generated history of up to 40 operations on two threads at a time that exit and are replaced, keeping pointers of both collectors (plain values, rings, links between them, with scripted destructors) in four thread-local variables first used in generated order, on the stack, and in a shared place. After every exit the unsync values of the thread must be gone; after collect() on another thread, so must sync garbage handled only by threads that exited. The suites named concurrent run programs as for C06 (C09 for concurrent-destructors) whose threads also put pointers into a thread-local variable, used first before or after those of the library. Non-trivial: pointers were in thread-local variables at a thread's exit, and that exit destroyed something; concurrent: at least one preemption happened. Distinct by case (concurrent: by program and schedule).";
const DTOR_RULE: &str = "Each case is a generated history of up to 40 operations over values whose destructors run generated scripts (try_deref, try_clone, moving pointers out or into live values, using dead pointers, creating values and garbage rings, dropping and linking the program's pointers, collecting; for C16 also panicking destructors, poisoned locks and leaked guards). Every pointer a destructor looks at is judged by a model, and the whole graph is compared after every operation. In the suites named exit the history is that of a thread, which exits with its garbage. The suites named concurrent run programs as for C06 whose destructors look at their pointers, rescue or move out what they own, make garbage, use shared slots, collect and (C16) panic. Non-trivial: a destructor acted and looked at one of its pointers, or (C16) something panicked, was poisoned or leaked; concurrent: a destructor acted and a preemption happened. Distinct by case (concurrent: by program and schedule).";

fn scoped(name: &'static str, quick: u64, thorough: u64, run: fn(&ScopeCase) -> Out, classes: &'static [&'static str]) -> Suite<ScopeCase> {
    Suite { name, quick, thorough, strategy: scope::case(false), run, shrink: scope::shrink, variants: None, classes, hash_seed: |c| c.hash, pin: true }
}

const COUNTER_RULE: &str = "Sequential histories as for C01/C04 in which the counters are read after every operation (unsync, sync) or at random points (sync-threads), and histories over two threads holding, ringing, dropping, collecting and exiting where both collectors' counters are read on the acting thread after every operation (scopes). Non-trivial: an explicit collect() destroyed something (scopes: at least three readings). Distinct by case.";
const COND_RULE: &str = "Sequential histories as for C01/C04 with frequent changes of the condition, and histories over two threads that install conditions, change their answers, make garbage, drop pointers, collect and exit (scopes). Non-trivial: an explicit collect() destroyed something (scopes: a condition was consulted and a collection was asked for). Distinct by case.";

fn concurrent(name: &'static str, quick: u64, thorough: u64, strategy: proptest::strategy::BoxedStrategy<ConcCase>, classes: &'static [&'static str]) -> Suite<ConcCase> {
    Suite {
        name,
        quick,
        thorough,
        strategy,
        run: conc::run,
        shrink: conc::shrink,
        variants: Some(conc::variants),
        classes,
        hash_seed: |c| c.hash,
        pin: true,
    }
}

/// Concurrent programs whose destructors act.
const ACTING: &[&str] = &["dead", "unsafe", "content", "memory", "storage", "leak", "kept", "own", "counter", "deadlock", "livelock", "panic", "crash"];
fn acting(ctx: &mut Ctx, panic: bool) {
    const C: &[&str] = ACTING;
    let two = ConcW { hold: 2, maxops: 8, threads: 2, conds: true };
    let tight = conc::acting(conc::tight(), panic);
    ctx.suite(Suite { variants: Some(conc::tight_variants), ..concurrent("concurrent-tight", 3_000, 60_000, tight, C) });
    ctx.suite(concurrent("concurrent-races", 1_500, 30_000, conc::acting(conc::races(2), panic), C));
    ctx.suite(concurrent("concurrent", 1_500, 30_000, conc::acting(conc::case(two), panic), C));
}

const RACE: &[&str] = &["unsafe", "content", "memory", "storage", "crash", "panic"];
const LOST: &[&str] = &["leak", "own", "kept", "crash"];
const STUCK: &[&str] = &["deadlock", "panic", "crash"];

const CONC_RULE: &str = "Each case is a generated program (an initial graph, two or three threads of up to 8 operations, a collect condition) together with a schedule: first without preemption, then with single preemptions spread over all scheduling points (every atomic operation and lock of the collector, every visit and destructor of a value, every operation), with pairs of preemptions at the points that lie in the program itself, and with random sequences of preemptions. Three suites (tight, tight-three, races) have programs of one to three values in which one thread collects while others use references they took before. A program is run under up to 100 schedules in one process. Non-trivial: at least one preemption happened. Distinct by program and schedule.";

const SEQ_RULE: &str = "Each case is a generated history of up to 90 operations (create, clone, drop, store, move, take, clear, build rings/cliques/chains, hold and release borrows, change the collect condition, collect), plus hash keys and drop order, run in its own process and compared after every operation to a reachability model. Non-trivial: at least one explicit collect() destroyed at least one value (cyclic garbage). Distinct by the full case.";

const CHURN_RULE: &str = "Each case has up to 1500 live values, then rounds that each make garbage of several shapes and go on creating and dropping pointers without making more (cloning live pointers, creating plain values, creating owners of live pointers, storing into live values), under the default condition and without collect(). After 4*(E+16) further drops (sync: 300,000+4*E), E being the pointers in existence, the garbage must be gone; visits of values must stay below 8 times the operations. Non-trivial: garbage was made and reclaimed. Distinct by case.";
const API_RULE: &str = "Each case is a generated history of up to 30 operations (new, default, clone, try_clone, drop, move, store in owners and cycles, make garbage, compare, write through, format, collect) on pointers to values of one of 12 types (zero-sized, over-aligned, large, with unusual equality, and others). After every operation all ways to a value must give one unchanged address and the last contents. Non-trivial: two different pointers were compared. Distinct by case.";
const LIB_RULE: &str = "Each case is a value generated by nesting library types (boxes, options, results, vectors, deques, lists, maps, sets, heaps, arrays, slices, cells, locks, once cells, tuples of 1 to 10, Cow, static references and plain data) around pointers of both collectors, with cells in generated states (read, mutably borrowed, locked, poisoned); the large suite puts up to thousands of pointers into one container. What a visit shows is compared to the pointers put in, and the value is then made garbage and collected. Non-trivial: the value owns at least one pointer. Distinct by case.";
const STORE_RULE: &str = "Sequential histories as for C01/C04 and histories over the pointer interface as for C17, and concurrent histories as for C06, in an allocator that never reuses memory and notes wrong layouts, double releases and writes to released memory. Non-trivial: an explicit collect() destroyed at least one value (for the types: two different pointers were compared; for concurrent histories: at least one preemption was taken). Distinct by case.";
const DERIVE_RULE: &str = "Each input is a generated type definition (struct or enum; named, tuple and unit shapes with up to 13 fields and 5 variants; type and const parameters with bounds, where clauses and defaults; recursion; unusual names; some written by macros) with the derive. It must compile whenever the same definition with a hand-written impl does, and visits of generated values of every variant must show exactly the pointers put in, or fail exactly if a cell in them is mutably borrowed or locked. Compiled 20 at a time. Non-trivial: a value owned at least one pointer. Distinct by definition.";
const BOUNDS_RULE: &str = "Each input is a generated type expression (pointers of both kinds, cells, locks, containers, references, derived types, a type parameter with generated bounds, over leaves that are or are not collectable, Send, Sync, 'static) in one of twelve program contexts (formed, sent, shared, traced, spawned, scoped, allocated by either collector, derived, static). The compiler must accept it exactly if the expected traits, computed from its structure, allow it. Forty expressions are compiled together, and disagreements confirmed alone. Non-trivial: the expression has a pointer inside another type, or another type inside a pointer. Distinct by expression and context.";
const MIX_RULE: &str = "Each case is a generated history of up to 60 operations on unsync values (owning unsync and sync pointers) and sync values, with scripted destructors that use either collector, conditions of both, held borrows, and pointers dropped on other threads; compared after every operation to a model of the mixed graph. The suites named concurrent run programs as for C06 (C09 for concurrent-destructors) whose threads also move pointers into unsync values in cycles, use them there, and collect those. Non-trivial: values of both kinds were found unreachable and reclaimed by explicit collections; concurrent: at least one preemption happened. Distinct by the full case (concurrent: by program and schedule).";
const UNSIZED_RULE: &str = "Built with coerce-unsized on nightly. Sequential histories as for C01/C04 in which values are created sized, as trait objects (with a hand-written Collectable) and as slices, and clones of a pointer refer to the same value by its own type or as a trait object; histories as for C09, and concurrent programs as for C06 and C09, in which all pointers are to slices. Non-trivial: an explicit collect() destroyed at least one value; for destructors as for C09; concurrent: at least one preemption happened. Distinct by the full case (concurrent: by program and schedule).";

pub fn assumptions(_prop: &str) -> Vec<&'static str> {
    vec!["the model of the object graph and the recording allocator in /verif/harness are correct"]
}
#[allow(dead_code)]
fn _t<C: Case>() {}
