//! C14 to C17 with the real compiler, whose tokens, spans and diagnostics
//! are not those of proc-macro2's fallback.
use crate::inproc::{self, run};
use crate::report::{Ctx, Stop, Violation};
use crate::run::{Diag, Report, Tools};
use crate::syntax::{module, FIRST};
use crate::synth::{self, Opts, Program};
use crate::tape::{tapes, Tape};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

const LEN: usize = 400;

/// How the programs of one part are made, and how they are judged.
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    /// What the macro reports in this process is what the compiler shows.
    Reported { stable: bool },
    /// Mistakes only the compiler can find.
    Types,
}

impl Part {
    fn name(self) -> &'static str {
        match self {
            Part::Reported { stable: true } => "reported on stable",
            Part::Reported { stable: false } => "reported on nightly",
            Part::Types => "type errors",
        }
    }
    fn of(name: &str) -> Option<Part> {
        [Part::Reported { stable: true }, Part::Reported { stable: false }, Part::Types]
            .into_iter()
            .find(|p| p.name() == name)
    }
    fn nightly(self) -> bool {
        self != Part::Reported { stable: true }
    }
    /// Mistakes of types hide each other, so these get a crate each.
    fn per(self) -> usize {
        match self {
            Part::Reported { .. } => 20,
            Part::Types => 1,
        }
    }
}

fn program(part: Part, id: &str, tape: &[u32]) -> Program {
    let mut t = Tape::new(tape.to_vec());
    let o = match part {
        Part::Types => Opts { type_bad: true, typed: true, depth: 2, ..Opts::default() },
        Part::Reported { .. } => {
            let fatal = id != "C17" && t.chance(40);
            let bads = match id {
                "C17" => t.range(2, 5),
                _ => usize::from(!fatal),
            };
            Opts { bads, fatal, depth: 3, ..Opts::default() }
        }
    };
    synth::program(t, o)
}

struct Case {
    p: Program,
    source: String,
    /// lines of the tokens in the module
    at: Vec<(usize, usize)>,
    /// line of the module that is the macro's first
    base: usize,
}

fn case(part: Part, id: &str, tape: &[u32]) -> Case {
    let p = program(part, id, tape);
    if part == Part::Types {
        let (source, at) = module(&p);
        return Case { p, source, at, base: 0 };
    }
    let (text, mut at) = p.lines(FIRST);
    let base = 1;
    for l in &mut at {
        l.0 += base;
        l.1 += base;
    }
    // without the `nightly` feature, several errors need a place for several
    // statements
    let (before, after) = match part {
        Part::Reported { stable: true } => ("", ""),
        _ => ("let _ = ", ";"),
    };
    let source = format!("pub fn run() {{\n{before}::leptos_mview::mview! {{{text}}}{after}\n}}");
    Case { p, source, at, base }
}

fn shown(ds: &[Diag]) -> String {
    ds.iter().map(|d| d.rendered.as_str()).collect()
}

fn judge(part: Part, c: &Case, r: &Report) -> Option<String> {
    if let Some(m) = &r.crashed {
        return Some(m.clone());
    }
    match part {
        Part::Types => types(c, r),
        Part::Reported { .. } => reported(c, r),
    }
}

fn reported(c: &Case, r: &Report) -> Option<String> {
    let (text, _) = c.p.lines(FIRST);
    let here = run(text.parse().ok()?);
    if let Some(m) = &here.panicked {
        return Some(format!("the macro panicked: {m}"));
    }
    if !c.p.bads.is_empty() && r.errors.is_empty() {
        return Some(format!("the compiler reports nothing for {}", c.p.bads[0].kind));
    }
    for e in &here.errors {
        let at_call = e.first == (1, 0);
        let there = r.errors.iter().any(|d| {
            d.msg.trim_start().starts_with(e.msg.trim())
                && d.at.first().is_some_and(|a| {
                    at_call || (a.0 == e.first.0 + c.base && a.2 == e.last.0 + c.base)
                })
        });
        if !there {
            return Some(format!(
                "the compiler does not show `{}` at lines {} to {}, but:\n{}",
                e.msg,
                e.first.0 + c.base,
                e.last.0 + c.base,
                shown(&r.errors)
            ));
        }
    }
    None
}

fn types(c: &Case, r: &Report) -> Option<String> {
    let b = c.p.bads.first()?;
    let (lo, hi) = (c.at[b.start].0, c.at[b.end - 1].1);
    let inside = |d: &Diag| d.at.first().is_some_and(|a| lo <= a.0 && a.2 <= hi);
    let follows = b.kind.contains("not a view") || b.kind == "attribute value of another type";
    let why = if r.errors.is_empty() {
        "nothing is reported"
    } else if !r.errors.iter().any(inside) {
        "no error points there"
    } else if !follows && !r.errors.iter().all(inside) {
        "an error points elsewhere"
    } else {
        return None;
    };
    Some(format!(
        "{} in lines {lo} to {hi}: `{}`\n{why}:\n{}",
        b.kind,
        c.p.toks[b.start..b.end].join(" "),
        shown(&r.errors)
    ))
}

fn violation(part: Part, tape: &[u32], c: &Case, why: String) -> Stop {
    println!("--- {why}\n--- in:\n{}", c.source);
    Stop::Violation(Violation {
        why,
        replay: json!({ "engine": "real", "part": part.name(), "tape": tape, "input": c.source }),
    })
}

fn shrink(tools: &Tools, part: Part, id: &str, tape: Vec<u32>, why: String) -> (Vec<u32>, String) {
    let start = Instant::now();
    let (mut best, mut why) = (tape, why);
    let mut len = case(part, id, &best).source.len();
    'again: loop {
        // eight at a time
        let all = crate::e2e::candidates(&best);
        for some in all.chunks(8) {
            if start.elapsed() > Duration::from_secs(60) {
                break 'again;
            }
            let cs: Vec<Case> = some.iter().map(|t| case(part, id, t)).collect();
            let sources: Vec<String> = cs.iter().map(|c| c.source.clone()).collect();
            let Ok(rs) = tools.diagnose(&sources, 1) else { break 'again };
            for ((t, c), r) in some.iter().zip(&cs).zip(&rs) {
                if (c.source.len(), t.len()) >= (len, best.len()) {
                    continue;
                }
                if let Some(e) = judge(part, c, r) {
                    best = t.clone();
                    len = c.source.len();
                    why = e;
                    continue 'again;
                }
            }
        }
        break;
    }
    (best, why)
}

pub fn check(cx: &mut Ctx, part: Part, n: usize) -> Result<(), Stop> {
    inproc::quiet();
    let tools = Tools::build(part.nightly())?;
    let id = cx.id.clone();
    let all = tapes(cx.seed, &format!("{id} {}", part.name()), n, LEN);
    for some in all.chunks(2000) {
        let cs: Vec<Case> = some.iter().map(|t| case(part, &id, t)).collect();
        let sources: Vec<String> = cs.iter().map(|c| c.source.clone()).collect();
        let rs = tools.diagnose(&sources, part.per())?;
        for ((t, c), r) in some.iter().zip(&cs).zip(&rs) {
            cx.seen(&c.source, !c.p.bads.is_empty());
            if judge(part, c, r).is_none() {
                continue;
            }
            // alone, to be sure
            let r = tools.diagnose(std::slice::from_ref(&c.source), 1)?;
            if let Some(why) = judge(part, c, &r[0]) {
                let (t, why) = shrink(&tools, part, &id, t.clone(), why);
                return Err(violation(part, &t, &case(part, &id, &t), why));
            }
        }
    }
    cx.extra.insert(part.name().replace(' ', "_"), json!(n));
    Ok(())
}

pub fn replay(cx: &mut Ctx, r: &Value) -> Result<(), Stop> {
    inproc::quiet();
    let part = Part::of(r["part"].as_str().unwrap_or("")).ok_or("no such part".to_string())?;
    let tape: Vec<u32> = r["tape"]
        .as_array()
        .ok_or("no tape".to_string())?
        .iter()
        .map(|x| x.as_u64().unwrap_or(0) as u32)
        .collect();
    let tools = Tools::build(part.nightly())?;
    let c = case(part, &cx.id, &tape);
    cx.seen(&c.source, true);
    let r = tools.diagnose(std::slice::from_ref(&c.source), 1)?;
    match judge(part, &c, &r[0]) {
        Some(why) => Err(violation(part, &tape, &c, why)),
        None => Ok(()),
    }
}
