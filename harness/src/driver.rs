//! Loads vectors, replays them in parallel through a runner, and writes the report.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::util::*;

pub type Runner = fn(&mut Ctx);

/// Accepts raw JSON lines and TLC output, where the vectors are printed as TLA+ strings.
fn load(path: &str, out: &mut Vec<Value>) {
    let f = std::fs::File::open(path).unwrap_or_else(|e| {
        eprintln!("cannot open {path}: {e}");
        std::process::exit(2)
    });
    for line in BufReader::new(f).lines() {
        let line = line.expect("read");
        let text = if line.starts_with("\"VEC") {
            match serde_json::from_str::<String>(&line) {
                Ok(s) => s["VEC".len()..].to_string(),
                Err(e) => {
                    eprintln!("bad vector line {line}: {e}");
                    std::process::exit(2)
                }
            }
        } else if line.starts_with('{') {
            line
        } else {
            continue;
        };
        match serde_json::from_str(&text) {
            Ok(v) => out.push(v),
            Err(e) => {
                eprintln!("bad vector {text}: {e}");
                std::process::exit(2)
            }
        }
    }
}

/// `pack`: into how many files the recorded behaviours go, 0 for a file each.
pub fn drive(runner: fn(&str) -> Option<Runner>, pack: usize) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args[0].clone();
    let (mut files, mut out, mut seed, mut reps, mut only, mut threads, mut dir, mut ntraces) =
        (vec![], String::new(), 1u64, 1usize, None, 8usize, String::from("/tmp"), 0usize);
    let mut i = 1;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--vec" => files.push(v),
            "--out" => out = v,
            "--seed" => seed = v.parse().unwrap(),
            "--reps" => reps = v.parse().unwrap(),
            "--only" => only = Some(v.parse::<usize>().unwrap()),
            "--dir" => dir = v,
            "--traces" => ntraces = v.parse().unwrap(),
            "--threads" => threads = v.parse().unwrap(),
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    let Some(run) = runner(&prop) else {
        eprintln!("no runner for {prop}");
        std::process::exit(2)
    };
    let mut vectors = vec![];
    for f in &files {
        load(f, &mut vectors);
    }
    // Distinct vectors only, in first-seen order.
    let mut seen = std::collections::HashSet::new();
    let total = vectors.len();
    vectors.retain(|v| seen.insert(v.to_string()));
    drop(seen);
    let vectors = Arc::new(vectors);

    std::panic::set_hook(Box::new(|_| {}));
    let next = Arc::new(AtomicUsize::new(0));
    let fails: Arc<Mutex<Vec<Value>>> = Default::default();
    let tally: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
    let beats: Arc<Vec<(AtomicUsize, AtomicU64)>> = Arc::new(
        (0..threads)
            .map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0)))
            .collect(),
    );
    let replayed = Arc::new(AtomicU64::new(0));
    let start = Instant::now();
    let traces: Arc<Mutex<Vec<(usize, Vec<Value>)>>> = Default::default();
    // evenly spread, and more of them than are needed, as not all of them are of use
    let stride = if ntraces == 0 { usize::MAX } else { (vectors.len() / (8 * ntraces)).max(1) };
    let mut handles = vec![];
    for th in 0..threads {
        let (vectors, next, fails, tally, beats, replayed, traces) = (
            vectors.clone(),
            next.clone(),
            fails.clone(),
            tally.clone(),
            beats.clone(),
            replayed.clone(),
            traces.clone(),
        );
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut local: BTreeMap<String, u64> = BTreeMap::new();
                loop {
                    let ix = next.fetch_add(1, Ordering::SeqCst);
                    if ix >= vectors.len() {
                        break;
                    }
                    if only.map_or(false, |o| o != ix) {
                        continue;
                    }
                    beats[th].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                    beats[th].0.store(ix, Ordering::SeqCst);
                    let mut cx = Ctx::new(&vectors[ix], seed, ix, reps);
                    cx.record = ntraces > 0 && (pack > 0 || ix % stride == stride / 2);
                    let r = catch_unwind(AssertUnwindSafe(|| run(&mut cx)));
                    if let Err(e) = r {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        // A malformed vector is an error of ours.
                        if m.starts_with("HARNESS") {
                            eprintln!("{m} in {}", vectors[ix]);
                            std::process::exit(2);
                        }
                        cx.fails.push(("panic".into(), format!("panicked: {m}")));
                    }
                    beats[th].0.store(usize::MAX, Ordering::SeqCst);
                    if cx.tally.keys().any(|k| k.starts_with("checks:")) || !cx.fails.is_empty() {
                        replayed.fetch_add(1, Ordering::SeqCst);
                    }
                    if !cx.recorded.is_empty() {
                        traces.lock().unwrap().push((ix, std::mem::take(&mut cx.recorded)));
                    }
                    for (k, n) in cx.tally {
                        *local.entry(k).or_default() += n;
                    }
                    if !cx.fails.is_empty() {
                        let mut f = fails.lock().unwrap();
                        for (key, what) in cx.fails {
                            if f.len() < 400 {
                                f.push(json!({"key": key, "what": what, "index": ix, "vector": &vectors[ix]}));
                            }
                        }
                    }
                }
                let mut t = tally.lock().unwrap();
                for (k, n) in local {
                    *t.entry(k).or_default() += n;
                }
            })
            .unwrap();
        handles.push(h);
    }
    // Watchdog: a case that does not finish is a disagreement as well.
    let mut hung = false;
    while !handles.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(5));
        let now = start.elapsed().as_millis() as u64;
        for (ix, t) in beats.iter() {
            let ix = ix.load(Ordering::SeqCst);
            if ix != usize::MAX && now > t.load(Ordering::SeqCst) + 60_000 {
                fails.lock().unwrap().push(json!({
                    "key": "hang", "what": "did not finish within 60 s", "index": ix, "vector": &vectors[ix]}));
                hung = true;
            }
        }
        if hung {
            break;
        }
    }
    let mut fails = fails.lock().unwrap().clone();
    fails.sort_by_key(|f| f["index"].as_u64());
    let mut traces = std::mem::take(&mut *traces.lock().unwrap());
    // those that come to an end first, and those in which the code chose among outcomes
    let ends = |t: &[Value]| t.iter().any(|e| e["moved"] == "no" || e["loose"] == true);
    traces.sort_by_key(|t| (!ends(&t.1), t.0));
    traces.truncate(ntraces);
    // each recording starts afresh, so that several of them make a behaviour as well
    let files = if pack == 0 { traces.len() } else { pack.min(traces.len()) };
    let traces: Vec<Value> = (0..files)
        .map(|k| {
            let file = format!("{dir}/trace-{k}.ndjson");
            let (mut text, mut starts, mut events) = (String::new(), vec![], 0usize);
            for (ix, recorded) in traces.iter().skip(k).step_by(files) {
                starts.push(json!([events, &vectors[*ix]]));
                events += recorded.len();
                for e in recorded {
                    text.push_str(&e.to_string());
                    text.push('\n');
                }
            }
            std::fs::write(&file, text).expect("HARNESS: cannot write a trace");
            json!({"file": file, "events": events, "starts": starts})
        })
        .collect();
    let n = vectors.len();
    let samples: Vec<&Value> = [0, n / 3, n / 2, n.saturating_sub(1)]
        .iter()
        .filter_map(|&i| vectors.get(i))
        .collect();
    let report = json!({
        "property": prop, "vectors": total, "distinct": n,
        "replayed": replayed.load(Ordering::SeqCst), "seed": seed, "reps": reps,
        "tally": &*tally.lock().unwrap(), "fails": fails, "samples": samples, "traces": traces,
    });
    let text = serde_json::to_string_pretty(&report).unwrap();
    if out.is_empty() {
        println!("{text}");
    } else {
        std::fs::write(&out, text).unwrap();
    }
    std::process::exit(0);
}
