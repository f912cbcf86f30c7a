mod engine;
mod hooks;
mod p_edit;
mod p_io;
mod p_loop;
mod p_midi;
mod p_real;
mod p_rom;
mod p_song;
mod p_use;
mod smf;
mod spc;

use engine::*;
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

struct Prop {
    id: &'static str,
    level: &'static str,
    fams: fn(bool) -> Vec<Family>,
    assumptions: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    let mc = "model_checking";
    let p = |id, fams, assumptions| Prop { id, level: mc, fams, assumptions };
    vec![
        p("C01", p_loop::c01 as fn(bool) -> Vec<Family>, &[]),
        p("C02", p_loop::c02, &[]),
        p("C03", p_loop::c03, &[]),
        p("C04", p_song::c04, &[]),
        p("C05", p_song::c05, &[]),
        p("C06", p_song::c06, &[]),
        p("C07", p_song::c07, &[]),
        p("C08", p_song::c08, &[]),
        p("C09", p_midi::c09, &[]),
        p("C10", p_midi::c10, &[]),
        p("C11", p_song::c11, &[]),
        p("C12", p_song::c12, &[]),
        p("C13", p_song::c13, &[]),
        p("C14", p_song::c14, &[]),
        p("C15", p_song::c15, &[]),
        p("C16", p_midi::c16, &[]),
        p("C17", p_midi::c17, &[]),
        p("C18", p_rom::c18, &[]),
        p("C19", p_rom::c19, &[]),
        p("C20", p_rom::c20, &[]),
        p("C21", p_io::c21, &[]),
        Prop { id: "C22", level: "fault_enumeration", fams: p_io::c22, assumptions: &[] },
        p("C23", p_rom::c23, &[]),
        p("C24", p_use::c24, &[]),
        p("C25", p_rom::c25, &[]),
        p("C26", p_rom::c26, &[]),
        p("C27", p_use::c27, &[]),
        p("C28", p_rom::c28, &[]),
        p("C29", p_rom::c29, &[]),
        p("C30", p_use::c30, &[]),
        p("C31", p_use::c31, &[]),
    ]
}

struct Known {
    property: String,
    key: String,
    what: String,
}

/// lines "known: property=<id> key=<key> <what fails>"; lines "fixed: ..." suppress nothing
fn known_findings(root: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut w = r.splitn(3, ' ');
                let property = w.next().unwrap_or("").to_string();
                let key = w.next().unwrap_or("").trim_start_matches("key=").to_string();
                let what = w.next().unwrap_or("").to_string();
                if !key.is_empty() {
                    v.push(Known { property, key, what });
                }
            }
        }
    }
    v
}

fn scratch() -> PathBuf {
    for base in &["/dev/shm", "/tmp"] {
        let d = Path::new(base).join(format!("mc-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos()));
        if std::fs::create_dir_all(&d).is_ok() {
            return d;
        }
    }
    panic!("no scratch directory");
}

fn to_u16(v: &Value) -> Vec<u16> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let all = props();
    let find = |id: &str| all.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    });
    match cmd {
        "list" => {
            for p in &all {
                println!("{}", p.id);
            }
        }
        "worker" => {
            let thorough = args[3] == "thorough";
            let fams = (find(&args[2]).fams)(thorough);
            worker_main(&fams, Path::new(&args[4]), thorough);
        }
        "replay" => {
            let r: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = r["property"].as_str().unwrap();
            let thorough = r["tier"] == "thorough";
            let p = find(id);
            let fams = (p.fams)(thorough);
            let fi = fams.iter().position(|f| f.name == r["family"].as_str().unwrap()).expect("family");
            let dir = scratch();
            let out = run_isolated(id, thorough, fi, &to_u16(&r["choices"]), &dir, HANG_S);
            let _ = std::fs::remove_dir_all(&dir);
            let bad = match &out {
                Err(m) => Some(m.clone()),
                Ok(v) => v["fails"].as_array().unwrap().get(0).map(|f| f["msg"].as_str().unwrap().to_string()),
            };
            match bad {
                Some(m) => {
                    println!("reproduced: {}", m);
                    println!("VIOLATION property={} replay={}", id, args[2]);
                    std::process::exit(1);
                }
                None => println!("not reproduced: {:?}", out),
            }
        }
        "run" => {
            let code = run(find(&args[2]), &args);
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: mc run <property> <quick|thorough> [family] | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn run(p: &Prop, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = args.get(3).cloned().unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let known = known_findings(&root);
    let fams = (p.fams)(thorough);
    if let Some(only) = args.get(4) {
        // development aid: one family; indices must stay those of the full list
        let fi = fams.iter().position(|f| f.name == only).expect("family");
        eprintln!("only family {}", fi);
    }
    let dir = scratch();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let cap = Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 }));
    let is_known = |key: &str| known.iter().any(|k| k.property == p.id && k.key == key);
    let only = args.get(4).map(|o| fams.iter().position(|f| f.name == o).unwrap());
    let ex = explore(p.id, &fams, thorough, &dir, threads, cap, only, &is_known);
    let _ = std::fs::remove_dir_all(&dir);
    // outcome
    let mut violations = 0;
    let mut lines = vec![];
    for f in &ex.fails {
        if is_known(&f.key) {
            let k = known.iter().find(|k| k.property == p.id && k.key == f.key).unwrap();
            lines.push(format!("KNOWN-FINDING: property={} key={} {}", p.id, k.key, k.what));
        } else {
            violations += 1;
            let rd = root.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let path = rd.join(format!("{}-{}.json", p.id, violations));
            let r = json!({"property": p.id, "tier": tier, "family": fams[f.fam].name, "choices": f.choices, "key": f.key, "what": f.msg, "case": f.case});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            println!("{} / {}: {}", p.id, fams[f.fam].name, f.msg);
            println!("  case: {}", f.case);
            lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
        }
    }
    lines.dedup();
    // evidence
    let mut famv = vec![];
    let (mut states, mut trans, mut execs, mut outcomes, mut skips) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut exhaustive = true;
    for (f, s) in fams.iter().zip(&ex.stats) {
        states += s.states.len() as u64;
        trans += s.trans;
        execs += s.execs;
        skips += s.skips;
        outcomes += s.outcomes.len() as u64;
        exhaustive &= s.exhaustive;
        famv.push(json!({"family": f.name, "bound": f.bound, "executions": s.execs, "outside_property": s.skips, "transitions": s.trans,
            "states": s.states.len(), "distinct_outcomes": s.outcomes.len(), "max_choices": s.maxdepth, "exhaustive": s.exhaustive, "wall_s": s.wall}));
        for x in s.samples.iter().take(2) {
            samples.push(json!({"family": f.name, "case": x["case"], "choices": x["choices"]}));
        }
    }
    exhaustive &= ex.stats.len() == fams.len();
    let mut cov = json!({"states": states, "transitions": trans, "traces_validated_against_impl": execs, "distinct_outcomes": outcomes,
        "choice_sequences_outside_property": skips, "samples": samples, "families": famv, "exhaustive": exhaustive,
        "meaning": "states: distinct reference-model states; transitions: edges of the explored tree of choices; traces: complete executions of the code under test, each compared with the reference"});
    if p.level == "fault_enumeration" {
        cov["evaluations"] = json!(execs);
        cov["distinct_nontrivial"] = json!(states);
        cov["rule"] = json!("a case is an input with a fault plan; it is non-trivial when the planned faults were delivered; distinct by (input, plan, calls seen)");
    }
    let ev = json!({"property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations});
    if only.is_none() {
        let ed = root.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    for (f, s) in fams.iter().zip(&ex.stats) {
        if s.wall > 0.0 {
            println!("{} {}: {} executions, {} transitions, {} states, {} outcomes, {} skipped, {:.1} s{}", p.id, f.name, s.execs, s.trans, s.states.len(), s.outcomes.len(), s.skips, s.wall, if s.exhaustive { "" } else { " (not exhausted)" });
        }
    }
    for l in lines {
        println!("{}", l);
    }
    let _ = std::io::stdout().flush();
    if violations > 0 {
        return 1;
    }
    if let Some(e) = ex.error {
        eprintln!("check error: {}", e);
        return 2;
    }
    if ex.stats.iter().map(|s| s.execs).sum::<u64>() == 0 {
        eprintln!("check error: nothing explored");
        return 2;
    }
    0
}
