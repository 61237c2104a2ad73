mod alloc;
mod batch;
mod cli;
mod comments;
mod conc;
mod crash;
mod engine;
mod exec;
mod extra;
mod gram;
mod lexical;
mod local;
mod long;
mod mine;
mod nest;
mod oracle;
mod pristine;
mod props;
mod sched;
mod space;

use engine::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const VERIF: &str = "/verif";

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.into())
}

struct Known {
    sig: String,
    what: String,
    case: Option<Case>,
}

fn known(id: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{VERIF}/known_findings.jsonl")).unwrap_or_default();
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str::<Value>(l).expect("known_findings.jsonl"))
        .filter(|v| v["property"] == id && v["status"] == "known")
        .map(|v| Known {
            sig: v["signature"].as_str().unwrap().into(),
            what: v["what"].as_str().unwrap().into(),
            case: if v["case"].is_object() { Some(Case::from_json(&v["case"])) } else { None },
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "replay" {
        return replay(&args[2]);
    }
    if id == "sizes" {
        let g = gram::Grammar::load();
        let t = Instant::now();
        let show = |n: &str, s: space::Space| println!("{n}: {} programs, {} rejected, {:?}", s.progs.len(), s.rejected, t.elapsed());
        show("small", props::small(&g));
        show("lists", extra::lists(&g, 2, false));
        show("pairs", extra::pairs(&g));
        show("body pairs", extra::body_pairs(&g));
        println!("towers {} {:?}", nest::towers(&g, &[2, 3, 6]).len(), t.elapsed());
        println!("texts {} runs {}", extra::comment_texts(false).len(), extra::comment_runs(false).len());
        println!("thorough: lists {} texts {} runs {}", extra::lists(&g, 2, true).progs.len(), extra::comment_texts(true).len(), extra::comment_runs(true).len());
        return;
    }
    if id == "tree" {
        let s = std::fs::read_to_string(&args[2]).unwrap();
        fn show(n: tree_sitter::Node, s: &str, d: usize) {
            println!("{}{}{} {:?}", "  ".repeat(d), if n.is_named() { "" } else { "-" }, n.kind(), if n.child_count() == 0 { &s[n.byte_range()] } else { "" });
            for i in 0..n.child_count() {
                show(n.child(i).unwrap(), s, d + 1);
            }
        }
        return show(oracle::parse(&s).root_node(), &s, 0);
    }
    let tier = args.get(2).cloned().unwrap_or_else(|| env("VERIF_TIER", "quick"));
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let Some(mut plan) = props::by_id(&id, thorough) else {
        eprintln!("no such property: {id}");
        std::process::exit(2);
    };
    let known = known(&id);
    for k in &known {
        if let Some(c) = &k.case {
            plan.cases.push(c.clone());
        }
    }
    // spread the expensive cases (large files) over the workers
    let n = plan.cases.len();
    let step = (2..).map(|d| n / 7 + d).find(|s| gcd(*s, n) == 1).unwrap();
    let mut order: Vec<Option<Case>> = plan.cases.drain(..).map(Some).collect();
    plan.cases = (0..n).map(|i| order[i * step % n].take().unwrap()).collect();
    // for trying out: a part of the cases only
    if let Ok(k) = env("MC_STRIDE", "").parse::<usize>() {
        let mut i = 0;
        plan.cases.retain(|_| { i += 1; i % k == 0 });
    }
    let cap = Duration::from_secs(if thorough { 780 } else { 600 });
    let scratch = std::env::temp_dir().join(format!("afmt-mc-work-{}", std::process::id()));
    std::env::set_var("AFMT_MC_SCRATCH", &scratch);
    let rep = run(&plan.cases, &plan.eval, cap, Duration::from_secs(plan.hang));
    std::fs::remove_dir_all(&scratch).ok();
    let wall = t0.elapsed().as_secs_f64();

    let mut bad = vec![];
    for (sig, (n, case, detail)) in &rep.broken {
        if let Some(k) = known.iter().find(|k| k.sig == *sig) {
            println!("KNOWN-FINDING: property={id} {} ({n} cases) [{sig}]", k.what);
        } else {
            bad.push((sig.clone(), *n, case.clone(), detail.clone()));
        }
    }
    let step = (plan.cases.len() / 5).max(1);
    let samples: Vec<Value> = plan.cases.iter().step_by(step).take(6).map(|c| short(c).json()).collect();
    let states = plan.cases.len();
    // distinct inputs
    let inputs = plan.cases.iter().map(|c| hash(&format!("{}\u{1}{}\u{1}{}\u{1}{}\u{1}{}", c.src, c.aux, c.width, c.indent, c.note))).collect::<std::collections::HashSet<_>>().len();
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": env("VERIF_SEED", "1").parse::<i64>().unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": inputs + rep.distinct_outcomes,
            "states_are": "distinct inputs explored, and distinct outcomes reached from them",
            "transitions": rep.execs,
            "traces_validated_against_impl": rep.held + rep.broken.values().map(|b| b.0).sum::<usize>(),
            "transitions_are": "runs of the code under test (for C13 its system calls, for C24 its file operations) and of the oracle's parser on their results",
            "derivations_generated": plan.derivations,
            "derivations_rejected_by_the_parser": plan.rejected,
            "premise_not_met": rep.vacuous,
            "distinct_outcomes": rep.distinct_outcomes,
            "rule": plan.rule,
            "exhaustive": !rep.capped && env("MC_STRIDE", "").is_empty(),
            "samples": samples,
        },
        "assumptions": plan.assumptions,
        "wall_s": wall,
        "violations": bad.iter().map(|b| b.1).sum::<usize>(),
    });
    std::fs::create_dir_all(format!("{VERIF}/evidence")).ok();
    std::fs::write(format!("{VERIF}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{id} {tier}: {} cases, {} explored, {} steps, {} held, {} outside of the premise, {} distinct outcomes, {:.1}s{}",
        states,
        rep.explored,
        rep.execs,
        rep.held,
        rep.vacuous.values().sum::<usize>(),
        rep.distinct_outcomes,
        wall,
        if rep.capped { " (time cap reached: not exhaustive)" } else { "" }
    );
    if bad.is_empty() {
        std::process::exit(0);
    }
    let dir = format!("{VERIF}/mc/replays");
    std::fs::create_dir_all(&dir).ok();
    for (i, (sig, n, case, detail)) in bad.iter().enumerate() {
        let p = format!("{dir}/{id}-{}.json", i);
        let mut j = case.json();
        j["property"] = json!(id);
        j["signature"] = json!(sig);
        j["observed"] = json!(detail);
        std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).ok();
        if i < env("MC_LIST", "25").parse().unwrap_or(25) {
            println!("  {n} x {sig}");
        }
        if i == 0 {
            println!("VIOLATION property={id} replay={p}");
        }
    }
    std::process::exit(1);
}

/// Re-run one recorded case without the explorer.
fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let plan = props::by_id(id, false).expect("property");
    let c = Case::from_json(&v);
    println!("--- source (width {}, indent {})\n{}", c.width, c.indent, c.src);
    match (plan.eval)(&c).verdict {
        Verdict::Held => println!("--- held"),
        Verdict::Vacuous(w) => println!("--- outside of the premise: {w}"),
        Verdict::Broken { sig, detail } => {
            println!("--- BROKEN {sig}\n{detail}");
            std::process::exit(1);
        }
    }
}

/// A case as the evidence shows it: long texts are cut.
fn short(c: &Case) -> Case {
    let cut = |s: &str| if s.len() <= 2000 { s.to_string() } else { format!("{}... ({} bytes)", s.chars().take(1500).collect::<String>(), s.len()) };
    Case { src: cut(&c.src), aux: cut(&c.aux), note: cut(&c.note), ..c.clone() }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
