mod apiop;
mod arena;
mod churnop;
mod conc;
mod bounds;
mod derive_gen;
mod dtorop;
mod exit;
mod libtypes;
mod mixed;
mod props;
mod reg;
mod runner;
mod rustc;
mod sched;
mod scope;
mod sdtor;
mod seqop;
mod sseq;
mod schurn;
mod uchurn;
mod sapi;
mod uapi;
mod udtor;
mod useq;

use runner::{Ctx, Failure};
use serde_json::json;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vh check <property> <evidence.json> <replay dir> | vh replay <file>");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() >= 5 => check(&args[2], &args[3], &args[4]),
        Some("replay") if args.len() >= 3 => replay(&args[2]),
        _ => usage(),
    }
}

fn check(prop: &str, evidence: &str, replays: &str) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut ctx = Ctx {
        prop: prop.into(),
        seed,
        thorough,
        scale,
        begin: Instant::now(),
        tallies: vec![],
        distinct: 0,
        replay: None,
    };
    let Some(rule) = props::run(&mut ctx) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let sum = |f: fn(&runner::Tally) -> u64| ctx.tallies.iter().map(|t| f(&t.1)).sum::<u64>();
    let failure: Option<Failure> = ctx.failed().cloned();
    let errors: Vec<String> = ctx.tallies.iter().flat_map(|t| t.1.errors.clone()).collect();
    let suites: serde_json::Map<String, serde_json::Value> = ctx
        .tallies
        .iter()
        .map(|(n, t)| {
            (
                n.clone(),
                json!({"evaluations": t.evaluations, "nontrivial": t.nontrivial,
                       "inconclusive": t.inconclusive, "labels": t.labels}),
            )
        })
        .collect();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(|t| t.evaluations),
            "distinct_nontrivial": ctx.distinct,
            "rule": rule,
            "samples": ctx.tallies.iter().flat_map(|t| t.1.samples.clone()).collect::<Vec<_>>(),
            "suites": suites,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": ctx.begin.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u32,
    });
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    if let Some(f) = failure {
        std::fs::create_dir_all(replays).expect("replay directory");
        let path = format!("{replays}/{prop}-{}.json", f.suite);
        let body = json!({"property": prop, "suite": f.suite, "class": f.class, "message": f.msg,
                          "index": f.index, "seed": seed, "case": f.case});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
        println!("{}: {} ({})", f.suite, f.msg, f.class);
        println!("VIOLATION property={prop} replay={path}");
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {e}");
        }
        std::process::exit(3);
    }
}

fn replay(file: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let mut ctx = Ctx {
        prop: v["property"].as_str().unwrap().into(),
        seed: 1,
        thorough: false,
        scale: 1.0,
        begin: Instant::now(),
        tallies: vec![],
        distinct: 0,
        replay: Some((v["suite"].as_str().unwrap().into(), v["case"].clone())),
    };
    props::run(&mut ctx);
    println!("held (or the suite was not found)");
}
