//! Properties of the macro itself (C13 to C17), decided in this process on
//! programs that need not mean anything.
use crate::inproc::{self, run, Ran, Tree};
use crate::real::{self, Part};
use crate::report::{Ctx, Stop, Violation};
use crate::synth::{self, Opts, Program};
use crate::tape::{tapes, Tape};
use proc_macro2::TokenStream;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What came of one case.
#[derive(Default, Clone)]
pub struct Verdict {
    pub text: String,
    pub nontrivial: bool,
    pub feats: BTreeMap<String, usize>,
    pub err: Option<String>,
}

fn parse(text: &str) -> TokenStream {
    text.parse().unwrap_or_else(|e| panic!("generated text is not tokens: {e}: {text}"))
}

fn verdict(p: &Program, text: String) -> Verdict {
    Verdict {
        text,
        nontrivial: true,
        feats: p.feats.iter().map(|(k, n)| ((*k).to_string(), *n)).collect(),
        err: None,
    }
}

fn messages(r: &Ran) -> String {
    match &r.panicked {
        Some(p) => format!("panicked: {p}"),
        None => r
            .errors
            .iter()
            .map(|e| format!("{} (line {} to {})\n", e.msg, e.first.0, e.last.0))
            .collect(),
    }
}

fn rejected(r: &Ran) -> bool {
    // a panic is an error to the user
    r.panicked.is_some() || !r.errors.is_empty()
}

fn lost(input: &TokenStream, r: &Ran, all: bool) -> Option<String> {
    let out = r.out.clone().unwrap_or_default();
    let there = inproc::markers(&out);
    let want = if all { inproc::markers(input) } else { inproc::lasting(input) };
    let missing: Vec<_> = want.difference(&there).cloned().collect();
    (!missing.is_empty()).then(|| format!("nothing is reported, but the expansion lacks {missing:?}:\n{out}"))
}

// ------------------------------------------------------------------- C14

fn c14(tape: &[u32]) -> Verdict {
    let mut t = Tape::new(tape.to_vec());
    match t.below(12) {
        // anything
        10 => {
            let text = inproc::stream(&inproc::soup(&mut t, 3)).to_string();
            Verdict {
                nontrivial: text.len() > 10,
                feats: [("token soup".to_string(), 1)].into(),
                err: kept(&text),
                text,
            }
        }
        // mistakes are reported
        5..=7 => {
            let fatal = t.chance(40);
            let o = Opts { bads: usize::from(!fatal), fatal, depth: 3, typed: false, ..Opts::default() };
            let p = synth::program(t, o);
            let text = p.text();
            let mut v = verdict(&p, text.clone());
            v.nontrivial = !p.bads.is_empty();
            if p.bads.is_empty() {
                return v;
            }
            let r = run(parse(&text));
            if !rejected(&r) {
                v.err = Some(format!("no error is reported for: {}", p.bads[0].kind));
            }
            v
        }
        // what is not reported is kept
        3 | 4 | 8 | 9 | 11 => {
            let changes = t.range(1, 2);
            let mut m = Tape::new((0..40).map(|_| t.raw()).collect());
            let p = synth::program(t, Opts { depth: 3, ..Opts::default() });
            let mut trees = inproc::tree(&parse(&p.text()));
            for _ in 0..changes {
                inproc::mutate(&mut trees, &mut m);
            }
            // as text, so that it can be replayed
            let text = inproc::stream(&trees).to_string();
            let mut v = verdict(&p, text.clone());
            *v.feats.entry("mutated".into()).or_default() += 1;
            v.err = kept(&text);
            v
        }
        _ => {
            let p = synth::program(t, Opts { depth: 3, ..Opts::default() });
            let mut v = verdict(&p, p.text());
            v.nontrivial = p.toks.len() > 3;
            v.err = accepted(&v.text);
            v
        }
    }
}

fn kept(text: &str) -> Option<String> {
    let input = text.parse::<TokenStream>().ok()?;
    let r = run(input.clone());
    if rejected(&r) {
        return None;
    }
    if let Some(why) = crate::grammar::outside(&input) {
        return Some(format!("no error is reported for {why}"));
    }
    lost(&input, &r, false)
}

fn accepted(text: &str) -> Option<String> {
    let input = parse(text);
    let r = run(input.clone());
    if rejected(&r) {
        return Some(format!("valid input is rejected: {}", messages(&r)));
    }
    if r.warnings > 0 {
        return Some("valid input causes a warning".into());
    }
    lost(&input, &r, true)
}

// ------------------------------------------------------------ C15 and C17

/// First line of the first token; the lines before it are outside.
pub const FIRST: usize = 3;

fn c15(tape: &[u32]) -> Verdict {
    let mut t = Tape::new(tape.to_vec());
    let fatal = t.chance(40);
    let o = Opts { bads: usize::from(!fatal), fatal, depth: 3, typed: false, ..Opts::default() };
    let p = synth::program(t, o);
    let (text, _) = p.lines(FIRST);
    let mut v = verdict(&p, text);
    v.nontrivial = !p.bads.is_empty();
    v.err = first_error(&p);
    v
}

fn first_error(p: &Program) -> Option<String> {
    let b = p.bads.first()?;
    let (text, at) = p.lines(FIRST);
    let r = run(parse(&text));
    if let Some(m) = &r.panicked {
        return Some(format!("the macro panicked, which is reported at the whole macro call: {m}"));
    }
    let Some(e) = r.errors.first() else {
        return Some(format!("no error is reported for: {}", b.kind));
    };
    // what is missing is missing before the next token
    let end = b.end.min(p.toks.len() - 1);
    let (lo, hi) = (at[b.start].0, at[end].1);
    if e.first.0 >= lo && e.last.0 <= hi && e.first.0 <= e.last.0 {
        return None;
    }
    Some(format!(
        "{}: lines {lo} to {hi}: `{}`\nthe first error is at lines {} to {}: {}",
        b.kind,
        p.toks[b.start..b.end].join(" "),
        e.first.0,
        e.last.0,
        e.msg
    ))
}

fn c17(tape: &[u32]) -> Verdict {
    let mut t = Tape::new(tape.to_vec());
    let bads = t.range(2, 5);
    let p = synth::program(t, Opts { bads, fatal: false, depth: 3, typed: false, ..Opts::default() });
    let (text, _) = p.lines(FIRST);
    let mut v = verdict(&p, text);
    v.nontrivial = p.bads.len() >= 2;
    v.err = all_errors(&p);
    v
}

fn all_errors(p: &Program) -> Option<String> {
    let (text, at) = p.lines(FIRST);
    let r = run(parse(&text));
    if let Some(m) = &r.panicked {
        return Some(format!("the macro panicked: {m}"));
    }
    let spans: Vec<(usize, usize)> = p.bads.iter().map(|b| (at[b.start].0, at[b.end - 1].1)).collect();
    let mut hit = vec![false; spans.len()];
    for e in &r.errors {
        let mut inside = false;
        for (i, (lo, hi)) in spans.iter().enumerate() {
            if e.first.0 >= *lo && e.last.0 <= *hi && e.first.0 <= e.last.0 {
                hit[i] = true;
                inside = true;
            }
        }
        if !inside {
            return Some(format!(
                "an error that is at none of the mistakes: line {} to {}: {}\nmistakes: {}",
                e.first.0,
                e.last.0,
                e.msg,
                listed(p, &spans)
            ));
        }
    }
    let i = hit.iter().position(|h| !h)?;
    Some(format!(
        "not reported: {} in lines {} to {}\nmistakes: {}reported:\n{}",
        p.bads[i].kind,
        spans[i].0,
        spans[i].1,
        listed(p, &spans),
        messages(&r)
    ))
}

fn listed(p: &Program, spans: &[(usize, usize)]) -> String {
    p.bads
        .iter()
        .zip(spans)
        .map(|(b, s)| format!("{} (lines {} to {}): `{}`\n", b.kind, s.0, s.1, p.toks[b.start..b.end].join(" ")))
        .collect()
}

// ------------------------------------------------------------------- C16

/// What the macro makes of it, without places.
fn outcome(text: &str) -> String {
    match text.parse::<TokenStream>() {
        Err(e) => format!("not tokens: {e}"),
        Ok(ts) => {
            let r = run(ts);
            match r.panicked {
                Some(p) => format!("panicked: {p}"),
                None => format!(
                    "{}\n{}",
                    r.out.unwrap_or_default(),
                    r.errors.iter().map(|e| format!("{}\n", e.msg)).collect::<String>()
                ),
            }
        }
    }
}

fn c16_program(tape: &[u32]) -> (Program, String, Tape) {
    let mut t = Tape::new(tape.to_vec());
    let mut m = Tape::new((0..60).map(|_| t.raw()).collect());
    let bads = match t.below(4) {
        3 => t.range(1, 3),
        _ => 0,
    };
    let change = t.chance(20);
    let p = synth::program(t, Opts { bads, fatal: false, depth: 3, typed: false, ..Opts::default() });
    let text = if change {
        let mut trees = inproc::tree(&parse(&p.text()));
        inproc::mutate(&mut trees, &mut m);
        inproc::stream(&trees).to_string()
    } else {
        p.text()
    };
    // the layouts need many choices
    let mut x = m.raw();
    let more = (0..4000)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            x
        })
        .collect();
    (p, text, Tape::new(more))
}

fn c16(tape: &[u32]) -> Verdict {
    let (p, text, mut more) = c16_program(tape);
    let mut v = verdict(&p, text.clone());
    let Ok(input) = text.parse::<TokenStream>() else {
        v.nontrivial = false;
        return v;
    };
    v.nontrivial = p.toks.len() > 3;
    let first = outcome(&text);
    for _ in 0..2 {
        let again = outcome(&text);
        if again != first {
            v.err = Some(format!("two runs differ:\n{first}\n{again}"));
            return v;
        }
    }
    for k in 0..4 {
        let other = inproc::lay_out(&input, &mut more, k == 3);
        let (mut a, mut b) = (inproc::plain_dashes(&first), inproc::plain_dashes(&outcome(&other)));
        if k == 3 {
            (a, b) = (inproc::plain_names(&a), inproc::plain_names(&b));
        }
        if a != b {
            v.err = Some(format!(
                "the same program in another {} is\n{other}\nwhich becomes\n{b}\ninstead of\n{a}",
                if k == 3 { "layout and spelling" } else { "layout" }
            ));
            return v;
        }
    }
    v
}

/// Expands programs in a process of its own, in an order of its own.
pub fn c16_worker(a: &[String]) -> i32 {
    inproc::quiet();
    let (seed, n, step): (u64, usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let all = tapes(seed, "C16 processes", n, LEN);
    let mut out = vec![0u64; n];
    let done = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for i in 0..n {
                let i = (i * step) % n;
                out[i] = hash(&outcome(&c16_program(&all[i]).1));
                inproc::forget();
            }
            out
        })
        .expect("a thread")
        .join()
        .expect("the worker panicked");
    println!("{}", json!(done));
    0
}

fn hash(text: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    h.finish()
}

fn c16_processes(cx: &mut Ctx, n: usize) -> Result<(), Stop> {
    // with no factor in common with `n`
    let steps = [1, n - 1, 7919, 1];
    let outs = crate::run::parallel(&[0usize, 1, 2, 3], |k| -> Result<Vec<u64>, String> {
        let mut c = std::process::Command::new("timeout");
        c.args(["-s", "KILL", "300"])
            .arg(std::env::current_exe().map_err(|e| e.to_string())?)
            .args(["worker", "expand", &cx.seed.to_string(), &n.to_string(), &steps[*k].to_string()]);
        // what a process can see of the world
        match k {
            1 => {
                c.current_dir("/").env("HOME", "/nonexistent").env("CARGO_PKG_NAME", "other");
            }
            2 => {
                c.env_clear().env("VERIF", crate::run::root());
            }
            3 => {
                c.env("TZ", "Asia/Tokyo").env("LANG", "de_DE.UTF-8").env("CARGO_MANIFEST_DIR", "/usr").env("RUST_BACKTRACE", "1");
            }
            _ => {}
        }
        let o = c.output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("a process that only expands ended with {}", o.status));
        }
        serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
    });
    let outs = outs.into_iter().collect::<Result<Vec<_>, _>>()?;
    cx.evaluations += n * outs.len();
    cx.extra.insert("programs_in_four_processes".into(), json!(n));
    for other in &outs[1..] {
        if let Some(i) = (0..n).find(|i| other[*i] != outs[0][*i]) {
            let tape = &tapes(cx.seed, "C16 processes", n, LEN)[i];
            let v = Verdict {
                text: c16_program(tape).1,
                err: Some("the expansion differs between processes".into()),
                ..Verdict::default()
            };
            let mut v = violation(tape, &v);
            v.replay["processes"] = json!(n);
            return Err(Stop::Violation(v));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C13

/// The input for this tape.
pub fn c13_input(tape: &[u32]) -> (String, &'static str) {
    let mut t = Tape::new(tape.to_vec());
    match t.below(100) {
        0..=2 => return (deep(&mut t), "deeply nested program"),
        3..=5 => return (wide(&mut t), "long program"),
        _ => {}
    }
    match t.below(8) {
        0..=2 => {
            let trees: Vec<Tree> = inproc::soup(&mut t, 4);
            (inproc::write(&inproc::stream(&trees)), "token soup")
        }
        3 => {
            // what a user has typed so far
            let at = t.raw();
            let o = Opts { bads: t.below(2), fatal: false, depth: 3, typed: false, ..Opts::default() };
            let p = synth::program(t, o);
            let n = ((u64::from(at) * (p.toks.len() as u64 + 1)) >> 32) as usize;
            (close(&p.toks[..n]), "unfinished program")
        }
        k => {
            let changes = t.range(1, 6);
            let mut m = Tape::new((0..60).map(|_| t.raw()).collect());
            let o = Opts { bads: t.below(3), fatal: k == 7, depth: 3, typed: false, ..Opts::default() };
            let p = synth::program(t, o);
            let mut trees = inproc::tree(&parse(&p.text()));
            for _ in 0..changes {
                inproc::mutate(&mut trees, &mut m);
            }
            (inproc::write(&inproc::stream(&trees)), "mutated program")
        }
    }
}

/// Many things in one another: work may not double with every level.
fn deep(t: &mut Tape) -> String {
    const OPEN: &[(&str, &str)] = &[
        ("p {", "}"),
        ("p (", ")"),
        ("div.a #b c=d e={f} {..g} {", "}"),
        ("on-e a:b=[c] {", "}"),
        ("Comp {", "}"),
        ("Comp a=1 |x| {", "}"),
        ("Comp clone:a |(x, y)| (", ")"),
        ("a::Comp<T> {", "}"),
        ("::a::Comp |_| {", "}"),
        ("Comp { slot:Slot {", "} }"),
        ("Comp { \"a\" slot:Slot a |b| {", "} \"c\" }"),
        ("svg { g {", "} }"),
        ("{", "}"),
        ("[", "]"),
        ("f[", "]"),
        ("p a={", "};"),
        ("p a=[", "];"),
        ("p {..", "};"),
        ("Comp |(", ")| {}"),
        ("Comp<A<", ">> {}"),
        ("\"a\" p {", "} \"b\""),
        ("p; Comp {", "} p;"),
    ];
    let n = t.range(10, 120);
    // mostly what nests as it should
    let some: Vec<usize> = (0..t.range(1, 3))
        .map(|_| if t.chance(80) { t.below(12) } else { t.below(OPEN.len()) })
        .collect();
    let (mut before, mut after) = (String::new(), vec![]);
    for _ in 0..n {
        let (o, c) = OPEN[*t.pick(&some)];
        before.push_str(o);
        before.push(' ');
        after.push(c);
    }
    let mid = *t.pick(&["\"x\"", "", "p", "p a=", "{x}", "1", "p;", "p |a| ;", "p {} ;", "slot:A;", "x y z"]);
    after.reverse();
    format!("{before}{mid} {}", after.join(" "))
}

/// Many things in a row.
fn wide(t: &mut Tape) -> String {
    const PARTS: &[(&str, &str, &str)] = &[
        ("", "\"a\"", ""),
        ("", "{a}", ""),
        ("", "p;", ""),
        ("", "Comp;", ""),
        ("", ";", ""),
        ("", "1", ""),
        ("p {", "b {}", "}"),
        ("Comp {", "{a}", "}"),
        ("Comp {", "slot:A;", "}"),
        ("p", ".a", ";"),
        ("p", "#a", ";"),
        ("p", "a=1", ";"),
        ("p", "a", ";"),
        ("p", "{a}", ";"),
        ("p", "{..a}", ";"),
        ("Comp", "{..a}", ";"),
        ("Comp", "class:a", ";"),
        ("Comp", "clone:a", "{}"),
        ("p", "on:a={b}", ";"),
        ("p a", "-b", ";"),
        ("p a", "- 1", ";"),
        ("p.a", "-", ";"),
        ("Comp |", "a,", "| {}"),
        ("Comp<", "A,", ">;"),
        ("a", "::a", ";"),
        ("p a", ":b", ";"),
        ("p a", "=", ";"),
        ("p", "c=", ";"),
        ("", "p", ""),
        ("", "f", "[]"),
        ("", "-", ""),
        ("p", "|", ";"),
        ("", "slot:", "A;"),
    ];
    let (a, m, b) = *t.pick(PARTS);
    let n = t.range(20, 400);
    format!("{a} {}{b}", format!("{m} ").repeat(n))
}

/// With the delimiters closed that are still open.
fn close(toks: &[String]) -> String {
    let mut open = vec![];
    let mut text = toks.join(" ");
    for t in toks {
        match t.as_str() {
            "{" => open.push("}"),
            "(" => open.push(")"),
            "[" => open.push("]"),
            "}" | ")" | "]" => {
                open.pop();
            }
            _ => {}
        }
    }
    while let Some(c) = open.pop() {
        text.push(' ');
        text.push_str(c);
    }
    text
}

/// What is wrong with how the macro takes this.
pub fn c13_judge(text: &str) -> Option<String> {
    let input = inproc::read(text)?;
    let r = run(input.clone());
    if let Some(p) = r.panicked {
        return Some(format!("the macro panicked: {p}"));
    }
    if !r.errors.is_empty() {
        return None;
    }
    let Some(out) = r.out else {
        return Some("neither an expansion nor an error".into());
    };
    if inproc::is_expression(&input, &out) == Some(false) {
        return Some(format!("nothing is reported, but the expansion is not an expression:\n{out}"));
    }
    None
}

// ---------------------------------------------------------------- searching

type Check = fn(&[u32]) -> Verdict;

fn one(f: Check, tape: &[u32]) -> Verdict {
    let v = f(tape);
    inproc::forget();
    v
}

const HUNG: Duration = Duration::from_secs(60);

/// Runs all tapes; the failing ones by length of text.
fn sweep(f: Check, tapes: &[Vec<u32>], limit: Instant) -> Result<Vec<Option<Verdict>>, String> {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![None; tapes.len()]);
    let live = Mutex::new(Instant::now());
    let done = AtomicBool::new(false);
    let threads = 8;
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..threads {
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tapes.len() || Instant::now() > limit {
                        break;
                    }
                    let v = one(f, &tapes[i]);
                    out.lock().unwrap()[i] = Some(v);
                    *live.lock().unwrap() = Instant::now();
                })
                .map_err(|e| e.to_string());
            hs.push(h);
        }
        s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if live.lock().unwrap().elapsed() > HUNG {
                    // threads cannot be stopped
                    eprintln!("the macro does not come to an end on some input (see C13)");
                    std::process::exit(2);
                }
            }
        });
        let mut failed = None;
        for h in hs {
            match h {
                Ok(h) => {
                    if h.join().is_err() {
                        failed = Some("the check itself panicked".to_string());
                    }
                }
                Err(e) => failed = Some(e),
            }
        }
        done.store(true, Ordering::SeqCst);
        failed.map_or(Ok(()), Err)
    })?;
    Ok(out.into_inner().unwrap())
}

fn shrink(f: Check, tape: Vec<u32>) -> (Vec<u32>, Verdict) {
    let start = Instant::now();
    let mut best = tape;
    let mut v = one(f, &best);
    'again: loop {
        for c in crate::e2e::candidates(&best) {
            if start.elapsed() > Duration::from_secs(20) {
                break 'again;
            }
            let w = one(f, &c);
            if w.err.is_some() && (w.text.len(), c.len()) < (v.text.len(), best.len()) {
                best = c;
                v = w;
                continue 'again;
            }
        }
        break;
    }
    (best, v)
}

pub fn of(id: &str) -> Check {
    match id {
        "C14" => c14,
        "C15" => c15,
        "C16" => c16,
        "C17" => c17,
        _ => unreachable!(),
    }
}

pub fn violation(tape: &[u32], v: &Verdict) -> Violation {
    let why = v.err.clone().unwrap_or_default();
    println!("--- {why}\n--- input:\n{}", v.text.trim_start());
    Violation {
        why,
        replay: json!({ "engine": "syntax", "tape": tape, "input": v.text }),
    }
}

const LEN: usize = 400;

pub fn search(cx: &mut Ctx, n: usize, limit: Duration, feats: &mut BTreeMap<String, usize>) -> Result<(), Stop> {
    let f = of(&cx.id);
    let limit = cx.start + limit;
    let mut at = 0;
    while at < n && Instant::now() < limit {
        let batch = (n - at).min(20_000);
        let tapes = tapes(cx.seed.wrapping_add(at as u64 * 7919), &cx.id, batch, LEN);
        at += batch;
        let vs = sweep(f, &tapes, limit)?;
        let mut failed: Option<(usize, usize)> = None;
        for (i, v) in vs.into_iter().enumerate() {
            let Some(v) = v else { continue };
            cx.seen(&v.text, v.nontrivial);
            for (k, n) in &v.feats {
                *feats.entry(k.clone()).or_default() += n;
            }
            if v.err.is_some() && failed.is_none_or(|(_, l)| v.text.len() < l) {
                failed = Some((i, v.text.len()));
            }
        }
        if let Some((i, _)) = failed {
            let (tape, v) = shrink(f, tapes[i].clone());
            return Err(Stop::Violation(violation(&tape, &v)));
        }
    }
    Ok(())
}

pub fn replay(cx: &mut Ctx, r: &Value) -> Result<(), Stop> {
    if r["engine"] == "real" {
        return real::replay(cx, r);
    }
    inproc::quiet();
    if let Some(n) = r["processes"].as_u64() {
        cx.seed = r["seed"].as_u64().unwrap_or(cx.seed);
        return c16_processes(cx, n as usize);
    }
    let tape: Vec<u32> = r["tape"]
        .as_array()
        .ok_or("no tape".to_string())?
        .iter()
        .map(|x| x.as_u64().unwrap_or(0) as u32)
        .collect();
    let v = one(of(&cx.id), &tape);
    cx.seen(&v.text, true);
    match v.err {
        Some(_) => Err(Stop::Violation(violation(&tape, &v))),
        None => Ok(()),
    }
}

pub fn check(cx: &mut Ctx) -> Result<(), Stop> {
    inproc::quiet();
    let mut feats = BTreeMap::new();
    cx.rule = match cx.id.as_str() {
        "C14" => "a program not generated before that holds a mistake, was changed at random, or has more than three tokens",
        "C15" => "a program not generated before that holds a mistake",
        "C16" => "a program of more than three tokens that was not generated before",
        _ => "a program not generated before that holds at least two mistakes (for the compiler: at least one)",
    }
    .into();
    cx.assumptions.push(
        "proc-macro2's fallback tokens stand in for the compiler's, except in the sample that the compiler itself runs"
            .into(),
    );
    let mut n = if cx.thorough { 3_000_000 } else { 300_000 };
    if cx.id == "C16" {
        // seven expansions each
        n /= 3;
    }
    let limit = Duration::from_secs(if cx.thorough { 3600 } else { 60 });
    let r = search(cx, n, limit, &mut feats);
    cx.extra.insert("features".into(), json!(feats));
    r?;
    let k = if cx.thorough { 15 } else { 1 };
    let reported = |stable| Part::Reported { stable };
    match cx.id.as_str() {
        "C14" => real::check(cx, reported(true), 800 * k)?,
        "C15" => {
            real::check(cx, Part::Types, 300 * k)?;
            real::check(cx, reported(true), 800 * k)?;
            real::check(cx, reported(false), 800 * k)?;
        }
        "C17" => {
            real::check(cx, reported(true), 800 * k)?;
            real::check(cx, reported(false), 800 * k)?;
        }
        "C16" => c16_processes(cx, PROCESSES * k)?,
        _ => {}
    }
    Ok(())
}

const PROCESSES: usize = 5003;

// ------------------------------------------------ with the real compiler

/// The module of a typed program, every token on its own line, and the lines
/// of each token within it (from 1).
pub fn module(p: &Program) -> (String, Vec<(usize, usize)>) {
    let head = format!(
        "{}pub fn run() {{\nlet cloneable = String::new();\nlet x = 1;\nlet _ = ::leptos_mview::mview! {{",
        synth::PRELUDE
    );
    let n = head.matches('\n').count();
    // the module starts on the line after `pub mod`
    let (text, mut at) = p.lines(FIRST);
    for l in &mut at {
        l.0 += n;
        l.1 += n;
    }
    (format!("{head}{text}}};\n}}"), at)
}
