#![allow(dead_code)]
mod engine;
mod gen;
mod geom;
mod jgen;
mod props;
mod svgtree;

use engine::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

/// separates what the library printed from the outcome
const MARK: &str = "=== outcome";

/// the configuration of the library this program was built with
fn build() -> &'static str {
    if cfg!(feature = "dp") {
        "double-precision"
    } else if cfg!(debug_assertions) {
        "debug-assertions"
    } else {
        "release"
    }
}

/// file name part that tells a property's secondary builds apart (C22 only has the debug build)
fn suffix(id: &str) -> String {
    match (id, build()) {
        (_, "release") | ("C22", "debug-assertions") => String::new(),
        (_, b) => format!(".{b}"),
    }
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // (sub-check signature, description) of recorded, unrepaired defects
    let txt = std::fs::read_to_string(format!("{VERIF}/known-findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&txt).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| {
                    (
                        f["signature"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn write_replay(id: &str, sub: &str, seed: u64, extra: &Value) -> String {
    let dir = format!("{VERIF}/replays");
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{id}-{sub}-{seed}{}.json", suffix(id));
    let mut v = json!({
        "property": id, "sub": sub, "seed": seed,
        "build": build(),
        "replay_with": format!("bash {VERIF}/check.sh replay {path}"),
    });
    for (k, x) in extra.as_object().unwrap() {
        v[k] = x.clone();
    }
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("cannot write replay");
    path
}

/// Runs the property in a child process. When a signal ends the child (stack overflow, abort), the
/// cases that were in flight are run again one by one; one that ends its process again is the
/// failing case. Being killed (SIGKILL, e.g. out of memory) is an error, not a violation.
fn supervise(id: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().unwrap();
    let journal = std::env::temp_dir().join(format!("harness-journal-{}", std::process::id()));
    std::fs::write(&journal, vec![0u8; 64 + 8 * 256]).expect("journal");
    let mut child = std::process::Command::new(&me)
        .arg(id)
        .env("HARNESS_CHILD", &journal)
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("child");
    // the library's own diagnostics may fill the output: only what follows the mark is kept
    let (mut last, mut marked) = (vec![], false);
    let mut out = std::io::BufReader::new(child.stdout.take().unwrap());
    let mut line = vec![];
    while out.read_until(b'\n', &mut line).unwrap_or(0) > 0 {
        let line = std::mem::take(&mut line);
        if line.starts_with(MARK.as_bytes()) {
            marked = true;
            last.clear();
        } else if marked || last.len() < 20 {
            last.push(line);
        }
    }
    let status = child.wait().expect("child");
    for l in last {
        std::io::stdout().write_all(&l).ok();
    }
    let bytes = std::fs::read(&journal).unwrap_or_default();
    std::fs::remove_file(&journal).ok();
    let crash = |s: &std::process::ExitStatus| matches!(s.signal(), Some(x) if x != 9 && x != 15 && x != 2);
    if !crash(&status) {
        return status.code().unwrap_or(3);
    }
    let sub = String::from_utf8_lossy(&bytes[..64]).trim().to_string();
    let mut cases: Vec<u64> = bytes[64..]
        .chunks(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|i| *i > 0)
        .map(|i| i - 1)
        .collect();
    cases.sort();
    for i in cases {
        let mut child = std::process::Command::new(&me)
            .args([id, "one", &sub, &i.to_string()])
            .env("VERIF_SEED", seed.to_string())
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("child");
        let t0 = Instant::now();
        let st = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t0.elapsed() < Duration::from_secs(20) => {
                    std::thread::sleep(Duration::from_millis(20));
                }
                _ => {
                    child.kill().ok();
                    child.wait().ok();
                    break None;
                }
            }
        };
        if let Some(st) = st.filter(|s| crash(s)) {
            let msg = format!("the process is ended by signal {}", st.signal().unwrap());
            let path = write_replay(id, &sub, seed, &json!({"index": i, "message": msg}));
            println!("{sub}: case {i}: {msg}");
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
    }
    eprintln!("ERROR: the harness was ended by {status}, and no case in flight does so again");
    3
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    if args.len() >= 3 && args[1] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let id = v["property"].as_str().unwrap();
        let subname = v["sub"].as_str().unwrap();
        let p = all.iter().find(|p| p.id == id).expect("property");
        let s = p.subs.iter().find(|s| s.name == subname).expect("sub");
        // a case that ends the process has no recorded tape; it is replayed from its seed and index
        let mut src = match v["tape"].as_array() {
            Some(t) => Src::from_tape(t.iter().map(|x| x.as_u64().unwrap()).collect()),
            None => Src::random(case_seed(v["seed"].as_u64().unwrap(), id, subname, v["index"].as_u64().unwrap())),
        };
        let mut ctx = Ctx {
            want_sample: true,
            ..Default::default()
        };
        match run_case(s.f, &mut src, &mut ctx) {
            Err(m) => {
                println!("{m}");
                if let Some(x) = ctx.sample {
                    println!("case: {x}");
                }
                println!("VIOLATION property={id} replay={}", args[2]);
                std::process::exit(1);
            }
            Ok(()) => {
                println!("replay passes: {:?}", ctx.labels);
                return;
            }
        }
    }
    if args.len() >= 2 && args[1] == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    let id = args.get(1).expect("usage: harness <ID>").clone();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    if args.len() >= 4 && args[2] == "one" {
        // one case in a process of its own: <ID> one <sub> <index>
        let p = all.iter().find(|p| p.id == id).expect("unknown property");
        let s = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
        let index = args[4].parse().unwrap();
        let mut src = Src::random(case_seed(seed, p.id, s.name, index));
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn({
                let f = s.f;
                move || {
                    run_case(f, &mut src, &mut Ctx::default()).ok();
                }
            })
            .unwrap()
            .join()
            .ok();
        return;
    }
    if std::env::var_os("HARNESS_CHILD").is_none() {
        std::process::exit(supervise(&id, seed));
    }
    let journal = std::env::var("HARNESS_CHILD").unwrap();
    *JOURNAL.lock().unwrap() = std::fs::OpenOptions::new().write(true).open(journal).ok();
    let p = all.into_iter().find(|p| p.id == id).expect("unknown property");
    let only = std::env::var("HARNESS_SUB").ok();

    let soft = if tier == "quick" { 420 } else { 5400 };
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(soft);
    let wid = id.clone();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(soft + 240));
        if let Some((sub, tape, msg)) = FOUND.lock().unwrap().take() {
            let path = write_replay(&wid, sub, seed, &json!({"tape": tape, "message": msg}));
            println!("\n{MARK}\n{sub}: {msg}");
            println!("VIOLATION property={wid} replay={path}");
            std::process::exit(1);
        }
        eprintln!("ERROR: watchdog expired; a case does not terminate (inconclusive)");
        std::process::exit(3);
    });
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    let scale: f64 = std::env::var("HARNESS_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);

    let mut evals = 0;
    let mut distinct = 0;
    let mut subs_json = vec![];
    let mut samples = vec![];
    let mut failure = None;
    for sub in &p.subs {
        if only.as_deref().map_or(false, |o| o != sub.name) {
            continue;
        }
        let n = if tier == "quick" { sub.quick } else { sub.thorough };
        let n = ((n as f64) * scale) as usize;
        let r = run_sub(p.id, sub, seed, n, threads, deadline);
        evals += r.evaluations;
        distinct += r.distinct_nontrivial;
        eprintln!(
            "[{} {}] {}: {} cases, {} non-trivial, {:.1}s{} {:?}",
            p.id,
            build(),
            r.name,
            r.evaluations,
            r.distinct_nontrivial,
            r.wall,
            if r.truncated { " (truncated)" } else { "" },
            r.labels
        );
        subs_json.push(json!({
            "name": r.name, "evaluations": r.evaluations, "planned": n,
            "distinct_nontrivial": r.distinct_nontrivial, "labels": r.labels,
            "truncated_by_time": r.truncated, "wall_s": r.wall,
        }));
        for s in &r.samples {
            samples.push(json!({"sub": r.name, "case": s}));
        }
        if let Some(f) = r.failure {
            failure = Some((sub.f, f));
            break;
        }
    }
    let violations = failure.is_some() as u64;
    let suffix = suffix(p.id);
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": p.rule, "samples": samples, "subchecks": subs_json,
            "build": build(),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    if std::env::var_os("HARNESS_NO_EVIDENCE").is_none() {
        std::fs::create_dir_all(format!("{VERIF}/evidence")).ok();
        std::fs::write(
            format!("{VERIF}/evidence/{}{suffix}.json", p.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("cannot write evidence");
    }
    println!("\n{MARK}");
    for (sig, what) in known_findings(p.id) {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, what, sig);
    }
    if let Some((f, fail)) = failure {
        // an attempt of the shrinker may not terminate: it runs aside and is abandoned then
        let best = std::sync::Arc::new(std::sync::Mutex::new((fail.tape.clone(), fail.msg.clone())));
        let (tx, rx) = std::sync::mpsc::channel();
        {
            let (best, tape, msg) = (best.clone(), fail.tape.clone(), fail.msg.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let r = shrink(f, tape, msg, Duration::from_secs(40), |t, m| {
                        *best.lock().unwrap() = (t.to_vec(), m.to_string());
                    });
                    let mut ctx = Ctx {
                        want_sample: true,
                        ..Default::default()
                    };
                    let _ = run_case(f, &mut Src::from_tape(r.0), &mut ctx);
                    tx.send((r.2, ctx.sample)).ok();
                })
                .unwrap();
        }
        let (tries, sample) = rx.recv_timeout(Duration::from_secs(70)).unwrap_or((0, None));
        let (tape, msg) = best.lock().unwrap().clone();
        let path = write_replay(
            p.id,
            fail.sub,
            seed,
            &json!({
                "index": fail.index, "tape": tape, "message": msg, "original_message": fail.msg,
                "original_tape_len": fail.tape.len(), "shrink_attempts": tries, "case": sample,
            }),
        );
        println!("\n{MARK}\n{}: {}", fail.sub, msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        std::process::exit(1);
    }
    println!("OK property={} evaluations={} nontrivial={}", p.id, evals, distinct);
}
