//! Properties decided by compiling, running and comparing with the model.
use crate::gen::{self, Case, Prof};
use crate::report::{Ctx, Stop, Violation};
use crate::run::{judge, module, print, Outcome, Tools};
use crate::tape::{tapes, Tape};
use crate::{prof, report, systematic};
use serde_json::json;
use std::time::{Duration, Instant};

pub struct Plan {
    pub quick: usize,
    pub thorough: usize,
    pub len: usize,
    pub rule: &'static str,
    pub nontrivial: fn(&Case, usize) -> bool,
}

fn any(c: &Case, names: &[&str]) -> bool {
    names.iter().any(|n| c.feats.contains_key(*n))
}

pub fn plan(id: &str) -> Plan {
    let mut p = Plan {
        quick: 3000,
        thorough: 24000,
        len: 500,
        rule: "",
        nontrivial: |_, _| true,
    };
    match id {
        "C01" => {
            p.quick = 3200;
            p.rule = "a random tree (plus one fixed case per known tag) with at least two elements";
            p.nontrivial = |c, _| {
                any(c, &["every tag"])
                    || c.feats
                        .iter()
                        .filter(|(k, _)| k.ends_with(" element"))
                        .map(|(_, n)| n)
                        .sum::<usize>()
                        >= 2
            };
        }
        "C02" => {
            p.rule = "a random view with several roots, more than 16 children of one parent, or a nested view";
            p.nontrivial = |c, _| {
                c.roots.len() != 1
                    || any(c, &["many children", "nested mview", "view in a variable", "Show", "For"])
            };
        }
        "C03" => {
            p.rule = "a random view with at least one class or id selector";
            p.nontrivial = |c, _| any(c, &["class selector", "id selector"]);
        }
        "C04" => {
            p.rule = "a random view with at least one class: or style: directive";
            p.nontrivial = |c, _| any(c, &["class:", "style:"]);
        }
        "C05" => {
            p.rule = "a random view (plus every typed, global and aria attribute of every tag) with at least one attribute";
            p.nontrivial = |c, _| {
                any(
                    c,
                    &[
                        "attribute",
                        "bare attribute",
                        "shorthand",
                        "every typed attribute",
                        "every global attribute",
                        "keyword attributes",
                    ],
                )
            };
        }
        "C06" => {
            p.rule = "a random view in which at least one value records when it is evaluated";
            p.nontrivial = |c, _| any(c, &["logged"]);
        }
        "C07" => {
            p.rule = "a random view with a component call that passes a prop or is written with a path or generics";
            p.nontrivial = |c, _| any(c, &["prop", "path", "generics"]);
        }
        "C08" => {
            p.rule = "a random view with a component that is passed children";
            p.nontrivial = |c, _| any(c, &["children passed"]);
        }
        "C09" => {
            p.quick = 2200;
            p.thorough = 12000;
            p.len = 700;
            p.rule = "a random view with a component that is passed a slot";
            p.nontrivial = |c, _| any(c, &["slot"]);
        }
        "C10" => {
            p.rule = "a random view with a directive or spread on a component (plus every attribute and event on a component)";
            p.nontrivial = |c, _| any(c, &["component directive"]);
        }
        "C11" => {
            p.rule = "a random view with a listener, property, directive or ref (plus every event)";
            p.nontrivial = |c, _| any(c, &["on:", "prop:", "use:", "ref"]);
        }
        "C12" => {
            p.rule = "a random view with at least one spread";
            p.nontrivial = |c, _| any(c, &["spread"]);
        }
        "C21" => {
            p.rule = "a random view written by a macro that is given all of it, or at least one fragment";
            p.nontrivial = |_, frags| frags > 0;
        }
        "C18" => {
            p.rule = "a random view with names shadowed around it";
            p.nontrivial = |c, _| any(c, &["shadowed"]);
        }
        "C19" => {
            p.quick = 1400;
            p.thorough = 12000;
            p.rule = "a random view with at least one shorthand, written both ways";
            p.nontrivial = |_, sugar| sugar > 0;
        }
        _ => unreachable!("not an end-to-end property"),
    }
    p
}

/// A case and the ways it is written.
struct Job {
    case: Case,
    tape: Option<Vec<u32>>,
    sources: Vec<String>,
    views: Vec<String>,
    sugar: usize,
    names: Names,
    free: Names,
}

type Names = std::rc::Rc<Vec<String>>;

fn long_tape(tape: &[u32]) -> Vec<u32> {
    tape.iter().map(|x| x.rotate_left(16).wrapping_mul(0x9E37_79B1)).collect()
}

fn job(id: &str, prof: &Prof, tape: Vec<u32>) -> Job {
    let case = gen::case(prof, tape.clone());
    let mut j = fixed(case);
    if id == "C21" {
        let (source, view, n, what) = crate::fragments::module(&j.case, Tape::new(long_tape(&tape)));
        (j.sources, j.views, j.sugar) = (vec![source], vec![view], n);
        *j.case.feats.entry(what.into()).or_default() += 1;
    }
    if id == "C19" {
        let (view, _) = print(&j.case, Some(Tape::new(long_tape(&tape))), None);
        j.sources.push(module(&j.case, &view));
        j.views.push(view);
    }
    j.tape = Some(tape);
    j.names = prof.names.clone();
    j.free = prof.free.clone();
    j
}

fn fixed(case: Case) -> Job {
    let (view, sugar) = print(&case, None, None);
    Job {
        sources: vec![module(&case, &view)],
        views: vec![view],
        case,
        tape: None,
        sugar,
        names: Names::default(),
        free: Names::default(),
    }
}

/// The first thing wrong with each job.
fn run(tools: &Tools, jobs: &[Job], per: usize) -> Result<Vec<Option<String>>, String> {
    let sources: Vec<String> = jobs.iter().flat_map(|j| j.sources.clone()).collect();
    let outs = tools.execute(&sources, per)?;
    let mut outs = outs.into_iter();
    Ok(jobs
        .iter()
        .map(|j| {
            let outs: Vec<Outcome> = outs.by_ref().take(j.sources.len()).collect();
            outs.iter().enumerate().find_map(|(k, o)| {
                judge(&j.case, o).map(|m| {
                    if k == 1 {
                        format!("written in long form: {m}")
                    } else {
                        m
                    }
                })
            })
        })
        .collect())
}

pub fn candidates(t: &[u32]) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let n = t.len();
    let mut size = n / 2;
    while size >= 1 && out.len() < 400 {
        let mut at = 0;
        while at + size <= n && out.len() < 400 {
            let mut c = t.to_vec();
            c.drain(at..at + size);
            out.push(c);
            if t[at..at + size].iter().any(|x| *x != 0) {
                let mut c = t.to_vec();
                c[at..at + size].fill(0);
                out.push(c);
            }
            at += size;
        }
        size /= 2;
    }
    for i in 0..n {
        if t[i] > 0 {
            let mut c = t.to_vec();
            c[i] /= 2;
            out.push(c);
        }
    }
    out
}

fn trim(prof: &Prof, mut t: Vec<u32>) -> Vec<u32> {
    // the layout comes after what is generated
    let c = gen::case(prof, t.clone());
    let used = c.layout.used();
    let all = t.len();
    t.truncate((used + 60).min(all));
    while t.last() == Some(&0) {
        t.pop();
    }
    t
}

fn shrink(tools: &Tools, id: &str, prof: &Prof, first: Job, why: String) -> (Job, String) {
    let start = Instant::now();
    let mut best = first;
    let mut why = why;
    if why.starts_with(crate::run::CRASH) {
        return (best, why);
    }
    let Some(t) = best.tape.clone() else {
        return (best, why);
    };
    let mut tape = trim(prof, t);
    let mut from = 0;
    while start.elapsed() < Duration::from_secs(75) {
        let all = candidates(&tape);
        if from >= all.len() {
            break;
        }
        let size = best.sources[0].len();
        let batch: Vec<Job> = all[from..]
            .iter()
            .take(96)
            .map(|c| job(id, prof, c.clone()))
            .collect();
        let taken = batch.len();
        let mut live = vec![];
        for (k, j) in batch.into_iter().enumerate() {
            if j.sources[0].len() <= size && j.sources != best.sources {
                live.push((k, j));
            }
        }
        let jobs: Vec<Job> = live.into_iter().map(|(_, j)| j).collect();
        let Ok(res) = run(tools, &jobs, 12) else {
            break;
        };
        let hit = jobs
            .into_iter()
            .zip(res)
            .filter_map(|(j, r)| r.map(|r| (j, r)))
            .min_by_key(|(j, _)| (j.sources[0].len(), j.tape.as_ref().map_or(0, Vec::len)));
        match hit {
            Some((j, r)) => {
                tape = trim(prof, j.tape.clone().unwrap());
                best = j;
                why = r;
                from = 0;
            }
            None => from += taken,
        }
    }
    (best, why)
}

fn violation(id: &str, j: &Job, why: String) -> Violation {
    println!("--- {why}\n--- view:\n{}", j.views.join("\n--- or:\n"));
    Violation {
        why,
        replay: json!({
            "engine": "e2e",
            "profile": id,
            "tape": j.tape,
            "names": *j.names,
            "free": *j.free,
            "views": j.views,
            "modules": j.sources,
        }),
    }
}

pub fn check(cx: &mut Ctx) -> Result<(), Stop> {
    let id = cx.id.clone();
    let plan = plan(&id);
    let mut prof = prof::of(&id);
    cx.rule = format!(
        "each case is a random program decoded from a proptest tape, compiled by rustc with the macro and Leptos, rendered and compared with the model; non-trivial: {}",
        plan.rule
    );
    cx.assumptions = vec![
        "rustc, Leptos and the instrumented copy of tachys (vendor/tachys) render what they are given".into(),
        "the generator stays inside the documented language (limits in DESIGN.md)".into(),
    ];
    let tools = Tools::build(true)?;
    cx.extra.insert(
        "build_s".into(),
        json!((cx.start.elapsed().as_secs_f64() * 10.0).round() / 10.0),
    );
    let limit = Duration::from_secs(if cx.thorough { 3 * 3600 } else { 420 });
    let n = if cx.thorough { plan.thorough } else { plan.quick };
    if id == "C18" {
        crate::inproc::quiet();
        harvest(&mut prof, &tapes(cx.seed, "C18 names", 600, plan.len));
        cx.extra.insert("names of the macro".into(), json!(*prof.names));
        cx.extra.insert("names around the view".into(), json!(*prof.free));
    }
    let mut feats = std::collections::BTreeMap::<String, usize>::new();
    let mut batches: Vec<Vec<Job>> = vec![];
    let sys: Vec<Job> = systematic::cases(&id).into_iter().map(fixed).collect();
    if !sys.is_empty() {
        batches.push(sys);
    }
    let mut tapes = tapes(cx.seed, &id, n, plan.len).into_iter();
    loop {
        let batch = match batches.pop() {
            Some(b) => b,
            None => tapes
                .by_ref()
                .take(800)
                .map(|t| job(&id, &prof, t))
                .collect(),
        };
        if batch.is_empty() || cx.start.elapsed() > limit {
            break;
        }
        let per = (batch.len() * batch[0].sources.len()).div_ceil(16).clamp(1, 50);
        let res = run(&tools, &batch, per)?;
        let mut failed: Option<(Job, String)> = None;
        for (j, r) in batch.into_iter().zip(res) {
            cx.seen(&j.views.join("\n-- long form --\n"), (plan.nontrivial)(&j.case, j.sugar));
            for (k, v) in &j.case.feats {
                *feats.entry(k.clone()).or_default() += v;
            }
            if let Some(why) = r {
                let better = failed
                    .as_ref()
                    .is_none_or(|(f, _)| j.sources[0].len() < f.sources[0].len());
                if better {
                    failed = Some((j, why));
                }
            }
        }
        if let Some((j, why)) = failed {
            let (j, why) = shrink(&tools, &id, &prof, j, why);
            cx.extra.insert("features".into(), json!(feats));
            return Err(Stop::Violation(violation(&id, &j, why)));
        }
    }
    cx.extra.insert("features".into(), json!(feats));
    known(cx, &tools)
}

/// Names that the macro brings along in these programs, other than those that
/// the generator knows already.
fn harvest(prof: &mut Prof, tapes: &[Vec<u32>]) {
    let mut names = std::collections::BTreeSet::new();
    let mut free = std::collections::BTreeSet::new();
    for t in tapes {
        let case = gen::case(prof, t.clone());
        let (view, _) = print(&case, None, None);
        let Ok(ts) = view.replace("@CASE@", "case").parse::<proc_macro2::TokenStream>() else {
            continue;
        };
        let (n, f) = crate::inproc::brought(&ts);
        names.extend(n);
        free.extend(f);
    }
    free.retain(|f| !names.contains(f) && !gen::shadowed(f));
    prof.names = std::rc::Rc::new(names.into_iter().take(40).collect());
    prof.free = std::rc::Rc::new(free.into_iter().take(40).collect());
}

/// Cases with a recorded defect.
fn known(cx: &mut Ctx, tools: &Tools) -> Result<(), Stop> {
    let (cases, what) = systematic::known(&cx.id);
    let jobs: Vec<Job> = cases.into_iter().map(fixed).collect();
    let sources: Vec<String> = jobs.iter().flat_map(|j| j.sources.clone()).collect();
    let outs = tools.execute(&sources, 1)?;
    let signatures = report::known(&cx.id);
    let mut hits = 0;
    for (j, o) in jobs.iter().zip(&outs) {
        cx.seen(&j.views[0], true);
        let Some(why) = judge(&j.case, o) else { continue };
        let listed = match o {
            Outcome::Rejected(d) => {
                !d.is_empty()
                    && d.iter()
                        .all(|d| signatures.iter().any(|s| d.msg.contains(s.as_str())))
            }
            _ => false,
        };
        if !listed {
            return Err(Stop::Violation(violation(&cx.id, j, why)));
        }
        hits += 1;
    }
    if hits > 0 {
        println!(
            "KNOWN-FINDING: property={} {what} ({hits} cases)",
            cx.id
        );
    }
    Ok(())
}

/// Runs a recorded case again.
pub fn replay(cx: &mut Ctx, r: &serde_json::Value) -> Result<(), Stop> {
    let id = r["profile"].as_str().unwrap_or(&cx.id).to_string();
    let tools = Tools::build(true)?;
    let j = match r["tape"].as_array() {
        Some(t) => {
            let tape: Vec<u32> = t.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
            let list = |k: &str| {
                let l = r[k].as_array().cloned().unwrap_or_default();
                Names::new(l.iter().filter_map(|x| x.as_str().map(String::from)).collect())
            };
            let mut prof = prof::of(&id);
            prof.names = list("names");
            prof.free = list("free");
            job(&id, &prof, tape)
        }
        None => {
            let want = r["modules"][0].as_str().unwrap_or("");
            systematic::cases(&id)
                .into_iter()
                .chain(systematic::known(&id).0)
                .map(fixed)
                .find(|j| j.sources[0] == want)
                .ok_or("no such case".to_string())?
        }
    };
    let jobs = [j];
    let res = run(&tools, &jobs, 2)?;
    cx.seen(&jobs[0].views[0], true);
    match &res[0] {
        Some(why) => Err(Stop::Violation(violation(&id, &jobs[0], why.clone()))),
        None => Ok(()),
    }
}
