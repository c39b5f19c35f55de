//! C13: the macro in processes of their own, which may hang or crash.
use crate::inproc;
use crate::report::{Ctx, Stop, Violation};
use crate::run::{self, root, Tools};
use crate::syntax::{c13_input, c13_judge};
use crate::tape::tapes;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const LEN: usize = 300;
const CHUNK: usize = 5000;

fn chunk(seed: u64, n: usize) -> Vec<Vec<u32>> {
    tapes(seed.wrapping_add(n as u64 * 104_729), "C13", CHUNK, LEN)
}

fn hash(text: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    h.finish()
}

/// With the stack the compiler gives to macros.
fn on_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .expect("a thread")
            .join()
            .expect("the worker panicked")
    })
}

/// `check worker chunk <seed> <chunk> <from> <dir>` or `check worker one <file>`.
pub fn worker(a: &[String]) -> i32 {
    inproc::quiet();
    if a[0] == "one" {
        let text = fs::read_to_string(&a[1]).expect("input");
        return match on_stack(|| c13_judge(&text)) {
            Some(e) => {
                println!("{e}");
                1
            }
            None => 0,
        };
    }
    let (seed, n, from) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let dir = Path::new(&a[4]);
    let all = chunk(seed, n);
    let at = fs::File::create(dir.join("at")).expect("progress");
    // ends this process when one input takes too long
    let beat = Arc::new(AtomicUsize::new(0));
    let watched = beat.clone();
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = watched.load(Ordering::Relaxed);
            if now != last {
                (last, since) = (now, Instant::now());
            } else if since.elapsed() > Duration::from_secs(15) {
                std::process::abort();
            }
        }
    });
    let (mut hashes, mut feats, mut failed) = (vec![], BTreeMap::<&str, usize>::new(), vec![]);
    on_stack(|| {
        for (i, tape) in all.iter().enumerate().skip(from) {
            at.write_at(&(i as u64).to_le_bytes(), 0).expect("progress");
            beat.fetch_add(1, Ordering::Relaxed);
            let (text, kind) = c13_input(tape);
            *feats.entry(kind).or_default() += 1;
            let (err, outcome) = c13_judge_kind(&text);
            *feats.entry(outcome).or_default() += 1;
            if text.split_whitespace().count() > 2 {
                hashes.push(hash(&text));
            }
            if err {
                failed.push((i, text.len()));
            }
            inproc::forget();
        }
    });
    let out = json!({ "hashes": hashes, "feats": feats, "failed": failed });
    fs::write(dir.join("out"), out.to_string()).expect("output");
    0
}

fn c13_judge_kind(text: &str) -> (bool, &'static str) {
    if c13_judge(text).is_some() {
        return (true, "failed");
    }
    match inproc::read(text).map(inproc::run) {
        Some(r) if r.errors.is_empty() => (false, "accepted"),
        _ => (false, "reported"),
    }
}

enum Ended {
    Fine,
    Bad(String),
    Died(String),
}

fn limited(secs: u64) -> Command {
    let mut c = Command::new("timeout");
    c.args(["-s", "KILL", &secs.to_string(), "prlimit", "--as=4000000000", "--core=0"])
        .arg(std::env::current_exe().expect("own path"))
        .stderr(Stdio::null());
    c
}

/// One input in a process of its own.
fn alone(text: &str, file: &Path, secs: u64) -> Result<Ended, String> {
    fs::write(file, text).map_err(|e| e.to_string())?;
    let o = limited(secs)
        .args(["worker", "one"])
        .arg(file)
        .output()
        .map_err(|e| e.to_string())?;
    Ok(match o.status.code() {
        Some(0) => Ended::Fine,
        Some(1) => Ended::Bad(String::from_utf8_lossy(&o.stdout).into_owned()),
        _ => Ended::Died(format!(
            "the macro does not end within {secs} s, runs out of memory or crashes: {}",
            o.status
        )),
    })
}

struct Done {
    hashes: Vec<u64>,
    feats: BTreeMap<String, usize>,
    /// tape, length of text
    failed: Vec<(Vec<u32>, usize)>,
    died: Option<Vec<u32>>,
    cases: usize,
}

fn run_chunk(seed: u64, n: usize, work: &Path, found: &AtomicBool) -> Result<Done, String> {
    let mut d = Done { hashes: vec![], feats: BTreeMap::new(), failed: vec![], died: None, cases: 0 };
    let dir = work.join(n.to_string());
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut from = 0;
    let mut tries = 0;
    while from < CHUNK && !found.load(Ordering::Relaxed) {
        let o = limited(240)
            .args(["worker", "chunk", &seed.to_string(), &n.to_string(), &from.to_string()])
            .arg(&dir)
            .output()
            .map_err(|e| e.to_string())?;
        let at = fs::read(dir.join("at"))
            .ok()
            .and_then(|b| b.try_into().ok())
            .map_or(from, |b| u64::from_le_bytes(b) as usize);
        if o.status.success() {
            let v: Value = fs::read(dir.join("out"))
                .map_err(|e| e.to_string())
                .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))?;
            d.hashes.extend(v["hashes"].as_array().into_iter().flatten().filter_map(Value::as_u64));
            for (k, c) in v["feats"].as_object().into_iter().flatten() {
                *d.feats.entry(k.clone()).or_default() += c.as_u64().unwrap_or(0) as usize;
            }
            let bad = v["failed"].as_array().cloned().unwrap_or_default();
            if !bad.is_empty() {
                let all = chunk(seed, n);
                for f in bad {
                    let i = f[0].as_u64().unwrap_or(0) as usize;
                    d.failed.push((all[i].clone(), f[1].as_u64().unwrap_or(0) as usize));
                }
            }
            d.cases += CHUNK - from;
            break;
        }
        // is it this input, or the machine?
        let tape = chunk(seed, n).swap_remove(at);
        let (text, _) = c13_input(&tape);
        match alone(&text, &dir.join("one"), 30)? {
            Ended::Died(_) => {
                d.died = Some(tape);
                found.store(true, Ordering::Relaxed);
                return Ok(d);
            }
            _ => {
                // go on after it
                d.cases += at + 1 - from;
                from = at + 1;
                tries += 1;
                if tries > 3 {
                    return Err(format!("workers keep dying: {}", o.status));
                }
            }
        }
    }
    Ok(d)
}

struct Work(PathBuf);
impl Drop for Work {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn work() -> Result<Work, String> {
    let w = root().join("work").join(format!("{}c", std::process::id()));
    fs::create_dir_all(&w).map_err(|e| e.to_string())?;
    Ok(Work(w))
}

fn violation(tape: &[u32], why: String) -> Stop {
    let text = c13_input(tape).0;
    println!("--- {why}\n--- input:\n{text}");
    Stop::Violation(Violation {
        why,
        replay: json!({ "engine": "crash", "tape": tape, "input": text }),
    })
}

/// Smaller tapes that still fail, judged by `fails`.
fn shrink(mut best: Vec<u32>, limit: Duration, mut fails: impl FnMut(&str) -> Option<String>) -> (Vec<u32>, Option<String>) {
    let start = Instant::now();
    let mut len = c13_input(&best).0.len();
    let mut why = None;
    'again: loop {
        for c in crate::e2e::candidates(&best) {
            if start.elapsed() > limit {
                break 'again;
            }
            let text = c13_input(&c).0;
            if (text.len(), c.len()) >= (len, best.len()) {
                continue;
            }
            if let Some(e) = fails(&text) {
                best = c;
                len = text.len();
                why = Some(e);
                continue 'again;
            }
        }
        break;
    }
    (best, why)
}

pub fn check(cx: &mut Ctx) -> Result<(), Stop> {
    inproc::quiet();
    cx.rule = "an input of at least three tokens that was not generated before".into();
    cx.assumptions.push(
        "proc-macro2's fallback tokens stand in for the compiler's, except in the sample that the compiler itself runs"
            .into(),
    );
    let dir = work()?;
    let (chunks, limit) = if cx.thorough { (1200, 3000) } else { (64, 120) };
    let mut feats = BTreeMap::<String, usize>::new();
    let mut n = 0;
    let found = AtomicBool::new(false);
    while n < chunks && cx.start.elapsed().as_secs() < limit {
        let list: Vec<usize> = (n..(n + 32).min(chunks)).collect();
        n += list.len();
        let mut failed: Vec<(Vec<u32>, usize)> = vec![];
        let mut died = None;
        for d in run::parallel(&list, |c| run_chunk(cx.seed, *c, &dir.0, &found)) {
            let d = d?;
            cx.evaluations += d.cases;
            cx.distinct.extend(d.hashes);
            for (k, c) in d.feats {
                *feats.entry(k).or_default() += c;
            }
            failed.extend(d.failed);
            died = died.or(d.died);
        }
        if let Some((tape, _)) = failed.into_iter().min_by_key(|f| f.1) {
            let again = c13_judge(&c13_input(&tape).0);
            let (tape, why) = shrink(tape, Duration::from_secs(20), |t| {
                let e = c13_judge(t);
                inproc::forget();
                e
            });
            return Err(violation(&tape, why.or(again).unwrap_or_default()));
        }
        if let Some(tape) = died {
            let file = dir.0.join("one");
            let died = |t: &str, s: u64| match alone(t, &file, s) {
                Ok(Ended::Died(e)) => Some(e),
                _ => None,
            };
            let (small, _) = shrink(tape.clone(), Duration::from_secs(60), |t| died(t, 4));
            // slow is not endless
            for t in [small, tape] {
                if let Some(e) = died(&c13_input(&t).0, 30) {
                    return Err(violation(&t, e));
                }
            }
        }
    }
    for c in 0..6 {
        let tape = &chunk(cx.seed, c * 9)[c * 17 + 3];
        cx.sample(&c13_input(tape).0);
    }
    cx.extra.insert("features".into(), json!(feats));
    compiler(cx)
}

/// The same kind of inputs with the compiler's own tokens.
fn compiler(cx: &mut Ctx) -> Result<(), Stop> {
    let n = if cx.thorough { 12_000 } else { 800 };
    let tools = Tools::build(true)?;
    let mut kept = vec![];
    for tape in tapes(cx.seed, "C13 compiler", n, LEN) {
        let (text, _) = c13_input(&tape);
        // cannot be written down, or defines what it likes
        if text.contains("verif_none_delimiter") || text.contains('$') || !lexes(&text) {
            continue;
        }
        kept.push((tape, text));
    }
    let modules: Vec<String> = kept.iter().map(|(_, t)| module(t)).collect();
    for (i, r) in tools.diagnose(&modules, 40)?.into_iter().enumerate() {
        cx.seen(&modules[i], true);
        if let Some(why) = judge(&r) {
            // alone, to be sure
            let r = tools.diagnose(&modules[i..=i], 1)?;
            if let Some(why) = judge(&r[0]).map(|w| format!("{why}\n{w}")) {
                let tape = kept[i].0.clone();
                let (tape, _) = shrink(tape, Duration::from_secs(40), |t| {
                    if !lexes(t) {
                        return None;
                    }
                    judge(tools.diagnose(&[module(t)], 1).ok()?.first()?)
                });
                let Stop::Violation(mut v) = violation(&tape, why) else { unreachable!() };
                v.replay["engine"] = json!("crash in rustc");
                return Err(Stop::Violation(v));
            }
        }
    }
    cx.extra.insert("through_the_compiler".into(), json!(modules.len()));
    Ok(())
}

fn lexes(text: &str) -> bool {
    // what proc-macro2 prints can only be read as the same tokens
    text.parse::<proc_macro2::TokenStream>().is_ok_and(|t| t.to_string() == text)
}

fn module(text: &str) -> String {
    format!("pub fn run() {{\nlet _ = ::leptos_mview::mview! {{\n{text}\n}};\n}}")
}

fn judge(r: &run::Report) -> Option<String> {
    if let Some(c) = &r.crashed {
        return Some(c.clone());
    }
    r.errors
        .iter()
        .find(|e| e.msg.contains("proc macro panicked"))
        .map(|e| format!("the macro panicked in the compiler: {}", e.rendered))
}

pub fn replay(cx: &mut Ctx, r: &Value) -> Result<(), Stop> {
    inproc::quiet();
    let tape: Vec<u32> = r["tape"]
        .as_array()
        .ok_or("no tape".to_string())?
        .iter()
        .map(|x| x.as_u64().unwrap_or(0) as u32)
        .collect();
    let text = c13_input(&tape).0;
    cx.seen(&text, true);
    if r["engine"] == "crash in rustc" {
        let tools = Tools::build(true)?;
        let r = tools.diagnose(&[module(&text)], 1)?;
        return match judge(&r[0]) {
            Some(e) => Err(violation(&tape, e)),
            None => Ok(()),
        };
    }
    let dir = work()?;
    match alone(&text, &dir.0.join("one"), 30)? {
        Ended::Fine => Ok(()),
        Ended::Bad(e) | Ended::Died(e) => Err(violation(&tape, e)),
    }
}
