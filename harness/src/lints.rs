//! C20: what the compiler warns about in a view.
use crate::report::{Ctx, Stop, Violation};
use crate::run::{self, Diag, Report, Tools};
use crate::synth::{self, Opts};
use crate::tape::{tapes, Tape};
use crate::{e2e, gen, inproc, prof, syntax};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum Part {
    /// Programs without mistakes.
    Valid,
    /// Programs with one mistake that the compiler finds.
    Mistake,
}

const PARTS: [(Part, &str, usize); 2] = [(Part::Valid, "valid", 500), (Part::Mistake, "mistake", 400)];

struct Case {
    source: String,
    /// what is shown and counted
    view: String,
    /// lines of the view
    lines: (usize, usize),
    nontrivial: bool,
}

fn case(part: Part, tape: &[u32]) -> Case {
    match part {
        Part::Valid => {
            let c = gen::case(&prof::of("C20"), tape.to_vec());
            let (view, _) = run::print(&c, None, None);
            let source = run::module(&c, &view);
            let lines = run::view_lines(&source, &view);
            Case { nontrivial: view.len() > 40, source, view, lines }
        }
        Part::Mistake => {
            let o = Opts { type_bad: true, typed: true, depth: 2, ..Opts::default() };
            let p = synth::program(Tape::new(tape.to_vec()), o);
            let (source, at) = syntax::module(&p);
            let first = at.first().map_or(0, |a| a.0.saturating_sub(1));
            let last = at.last().map_or(0, |a| a.1 + 1);
            Case { nontrivial: !p.bads.is_empty(), view: p.text(), source, lines: (first, last) }
        }
    }
}

/// Whether this is about what the user wrote, and would be the same without
/// the macro.
fn deserved(source: &str, d: &Diag) -> bool {
    let Some(a) = d.at.first() else { return true };
    let user = d.text.0.as_str();
    let mut after = d.text.1.clone();
    after.extend(source.lines().skip(a.2).take(5).map(|l| format!(" {l}")));
    match d.code.as_str() {
        // arguments of children, and `clone:`
        "unused_variables" => d.msg.contains(&format!("`{}`", user.trim_start_matches("mut ").trim_start_matches("r#"))),
        "unused_mut" => user.starts_with("mut "),
        "unused_parens" => user.starts_with('('),
        // `{value;}`
        "path_statements" | "unused_must_use" => {
            user.ends_with(';') || after.trim_start_matches([' ', ')']).starts_with([';', '/'])
        }
        "unused_qualifications" => user.contains("::") && !user.contains("mview!"),
        "non_shorthand_field_patterns" => user.contains(':') && !user.contains("mview!"),
        // how a missing prop is explained
        "deprecated" => d.msg.contains("Missing required field"),
        _ => false,
    }
}

fn judge(c: &Case, r: &Report) -> Option<String> {
    let w = r.warnings.iter().find(|d| {
        d.at.first().is_some_and(|a| c.lines.0 <= a.0 && a.2 <= c.lines.1) && !deserved(&c.source, d)
    })?;
    Some(format!("the view has a warning that is not about what the user wrote:\n{}", w.rendered))
}

fn violation(part: &str, tape: &[u32], c: &Case, why: String) -> Stop {
    println!("--- {why}\n--- view:\n{}", c.view);
    Stop::Violation(Violation {
        why,
        replay: json!({ "engine": "lints", "part": part, "tape": tape, "input": c.source }),
    })
}

fn shrink(tools: &Tools, part: Part, tape: Vec<u32>, why: String) -> (Vec<u32>, String) {
    let start = Instant::now();
    let (mut best, mut why) = (tape, why);
    let mut len = case(part, &best).source.len();
    'again: loop {
        let all = e2e::candidates(&best);
        for some in all.chunks(64) {
            if start.elapsed() > Duration::from_secs(60) {
                break 'again;
            }
            let cs: Vec<(&Vec<u32>, Case)> = some
                .iter()
                .map(|t| (t, case(part, t)))
                .filter(|(t, c)| (c.source.len(), t.len()) < (len, best.len()))
                .collect();
            let sources: Vec<String> = cs.iter().map(|(_, c)| c.source.clone()).collect();
            let per = if part == Part::Valid { 8 } else { 1 };
            let Ok(rs) = tools.lint(&sources, per) else { break 'again };
            let hit = cs
                .iter()
                .zip(&rs)
                .filter_map(|((t, c), r)| judge(c, r).map(|w| (c.source.len(), *t, w)))
                .min_by_key(|(n, t, _)| (*n, t.len()));
            if let Some((n, t, w)) = hit {
                (best, len, why) = (t.clone(), n, w);
                continue 'again;
            }
        }
        break;
    }
    (best, why)
}

pub fn check(cx: &mut Ctx) -> Result<(), Stop> {
    inproc::quiet();
    cx.rule = "a random program of more than 40 characters, or one with a mistake that the compiler finds, compiled with all lints".into();
    cx.assumptions.push(
        "warnings about unused parameters, parentheses, statements and path prefixes in the user's own text are the user's".into(),
    );
    let tools = Tools::build(true)?;
    let k = if cx.thorough { 10 } else { 1 };
    for (part, name, n) in [(Part::Valid, "valid", 5000 * k), (Part::Mistake, "mistake", 300 * k)] {
        let mut compiled = 0;
        for some in tapes(cx.seed, &format!("C20 {name}"), n, PARTS.iter().find(|p| p.0 == part).map_or(400, |p| p.2)).chunks(1600) {
            let cs: Vec<Case> = some.iter().map(|t| case(part, t)).collect();
            let sources: Vec<String> = cs.iter().map(|c| c.source.clone()).collect();
            let rs = tools.lint(&sources, if part == Part::Valid { 25 } else { 1 })?;
            compiled += rs.iter().filter(|r| r.ok).count();
            let mut failed: Option<(usize, String)> = None;
            for (i, (c, r)) in cs.iter().zip(&rs).enumerate() {
                cx.seen(&c.view, c.nontrivial && r.ok == (part == Part::Valid));
                if let Some(why) = judge(c, r) {
                    if failed.as_ref().is_none_or(|(k, _)| c.source.len() < cs[*k].source.len()) {
                        failed = Some((i, why));
                    }
                }
            }
            if let Some((i, why)) = failed {
                let (t, why) = shrink(&tools, part, some[i].clone(), why);
                return Err(violation(name, &t, &case(part, &t), why));
            }
        }
        cx.extra.insert(format!("{name} compiled"), json!(compiled));
    }
    Ok(())
}

pub fn replay(cx: &mut Ctx, r: &Value) -> Result<(), Stop> {
    inproc::quiet();
    let name = r["part"].as_str().unwrap_or("");
    let part = PARTS.iter().find(|p| p.1 == name).ok_or("no such part".to_string())?.0;
    let tape: Vec<u32> = r["tape"]
        .as_array()
        .ok_or("no tape".to_string())?
        .iter()
        .map(|x| x.as_u64().unwrap_or(0) as u32)
        .collect();
    let c = case(part, &tape);
    cx.seen(&c.view, true);
    let tools = Tools::build(true)?;
    let r = tools.lint(std::slice::from_ref(&c.source), 1)?;
    match judge(&c, &r[0]) {
        Some(why) => Err(violation(name, &tape, &c, why)),
        None => Ok(()),
    }
}
