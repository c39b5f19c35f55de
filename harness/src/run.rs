//! Compiles and runs generated programs with the real compiler.
use crate::ast::{dom_nodes, Env, Printer};
use crate::expr::Ev;
use crate::gen::Case;
use crate::html;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub type Res<T> = Result<T, String>;

pub fn root() -> PathBuf {
    std::env::var_os("VERIF").map_or_else(
        || Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
        PathBuf::from,
    )
}

pub struct Tools {
    externs: Vec<(String, String)>,
    deps: String,
    work: PathBuf,
    counter: AtomicUsize,
    pub limit_s: u32,
}

impl Drop for Tools {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.work);
    }
}

impl Tools {
    /// Builds the support crate, and with it the macro from /repo.
    pub fn build(nightly: bool) -> Res<Tools> {
        let dir = root().join(if nightly { "e2e" } else { "e2e-stable" });
        let target = root().join("target").join(if nightly { "e2e" } else { "e2e-stable" });
        let run = |args: &[&str]| -> Res<std::process::Output> {
            Command::new("cargo")
                .args(args)
                .current_dir(&dir)
                .env("CARGO_TARGET_DIR", &target)
                .output()
                .map_err(|e| format!("cargo: {e}"))
        };
        // always from the working tree, whatever its time stamps say
        let _ = run(&[
            "clean", "--offline", "--locked", "-p", "leptos-mview-core", "-p", "leptos-mview-macro",
            "-p", "leptos-mview",
        ]);
        let out = run(&["build", "--offline", "--locked", "--message-format=json"])?;
        if !out.status.success() {
            return Err(format!(
                "building the macro failed: {}",
                String::from_utf8_lossy(&out.stderr)
            ));
        }
        let mut externs = BTreeMap::new();
        let wanted: &[&str] = if nightly { &["leptos", "leptos_mview", "sup"] } else { &["leptos_mview", "sup"] };
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else {
                continue;
            };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if !wanted.contains(&name.as_str()) {
                continue;
            }
            for f in v["filenames"].as_array().into_iter().flatten() {
                if let Some(f) = f.as_str().filter(|f| f.ends_with(".rlib")) {
                    externs.insert(name.clone(), f.to_string());
                }
            }
        }
        if externs.len() != wanted.len() {
            return Err(format!("missing build artefacts: {externs:?}"));
        }
        let work = root().join("work").join(format!("{}{}", std::process::id(), if nightly { "" } else { "s" }));
        fs::create_dir_all(&work).map_err(|e| e.to_string())?;
        Ok(Tools {
            externs: externs.into_iter().collect(),
            deps: target.join("debug/deps").display().to_string(),
            work,
            counter: AtomicUsize::new(0),
            limit_s: 120,
        })
    }

    fn rustc(&self, file: &Path, out: &Path, check_only: bool, alone: bool, lints: bool) -> Command {
        let mut c = Command::new("timeout");
        let limit = if alone { self.limit_s / 2 } else { self.limit_s };
        c.args(["-s", "KILL", &limit.to_string(), "prlimit", "--as=6000000000", "--core=0"])
            .args(["rustc", "--edition", "2021"])
            .arg(file)
            .args(["--error-format=json", "-C", "debuginfo=0"])
            .arg(if lints { "--cap-lints=warn" } else { "--cap-lints=allow" })
            .args(["-C", "codegen-units=2", "-L"])
            .arg(format!("dependency={}", self.deps));
        for (n, p) in &self.externs {
            c.arg("--extern").arg(format!("{n}={p}"));
        }
        if check_only {
            c.args(["--emit=metadata", "-o"]).arg(out.with_extension("rmeta"));
        } else {
            c.arg("-o").arg(out);
        }
        c.env("CARGO_PKG_NAME", "case")
            .env("CARGO_MANIFEST_DIR", "/");
        c
    }
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub msg: String,
    pub code: String,
    pub warning: bool,
    /// lines (within the case, from 0) and columns (from 1) of primary spans
    pub at: Vec<(usize, usize, usize, usize)>,
    /// the source there, and what follows it on its line
    pub text: (String, String),
    pub rendered: String,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// What the compiler said.
    Rejected(Vec<Diag>),
    Panicked(String),
    /// Not run because another one hung.
    Skipped,
    Ran(String, Vec<(u32, u8)>),
}

pub const CRASH: &str = "the compiler hung or crashed";

pub fn parallel<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out = Mutex::new((0..items.len()).map(|_| None).collect::<Vec<_>>());
    std::thread::scope(|s| {
        for _ in 0..8.min(items.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() {
                    break;
                }
                let r = f(&items[i]);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner()
        .unwrap()
        .into_iter()
        .map(|o| o.expect("every item was done"))
        .collect()
}

impl Tools {
    /// Compiles and runs all modules (each the inside of a module with a
    /// `run` function), `per` in one crate.
    pub fn execute(&self, modules: &[String], per: usize) -> Res<Vec<Outcome>> {
        let chunks = modules
            .iter()
            .enumerate()
            .collect::<Vec<_>>()
            .chunks(per.max(1))
            .map(<[_]>::to_vec)
            .collect::<Vec<_>>();
        let results = parallel(&chunks, |c| self.crate_of(c));
        let mut out: Vec<Option<Outcome>> = vec![None; modules.len()];
        for r in results {
            for (i, o) in r? {
                out[i] = Some(o);
            }
        }
        Ok(out.into_iter().map(|o| o.expect("all ran")).collect())
    }

    fn crate_of(&self, cases: &[(usize, &String)]) -> Res<Vec<(usize, Outcome)>> {
        let n = self.counter.fetch_add(1, Ordering::SeqCst);
        let file = self.work.join(format!("s{n}.rs"));
        let exe = self.work.join(format!("s{n}.exe"));
        let mut left = cases.to_vec();
        let mut done = vec![];
        while !left.is_empty() {
            let mut text = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
            let mut line = 3;
            let mut ranges = vec![];
            let mut list = String::new();
            for (i, m) in &left {
                let body = format!(
                    "pub mod c{i} {{\n{}\n}}\n",
                    m.replace("@CASE@", &format!("c{i}"))
                );
                let lines = body.matches('\n').count();
                ranges.push((*i, line + 1, line + lines));
                line += lines;
                text.push_str(&body);
                list.push_str(&format!("({i}, c{i}::run as fn() -> ::sup::Out),"));
            }
            text.push_str(&format!("fn main() {{ ::sup::main(&[{list}]) }}\n"));
            fs::write(&file, &text).map_err(|e| e.to_string())?;
            let o = self
                .rustc(&file, &exe, false, left.len() == 1, false)
                .output()
                .map_err(|e| format!("rustc: {e}"))?;
            if o.status.success() {
                let o = Command::new("timeout")
                    .args(["-s", "KILL", "120"])
                    .arg(&exe)
                    .output()
                    .map_err(|e| e.to_string())?;
                let _ = fs::remove_file(&exe);
                let stdout = String::from_utf8_lossy(&o.stdout).to_string();
                let mut got = BTreeMap::new();
                for l in stdout.lines() {
                    let v: serde_json::Value =
                        serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
                    let i = v[0].as_u64().unwrap_or(0) as usize;
                    let s = v[2].as_str().unwrap_or("").to_string();
                    let log = v[3]
                        .as_array()
                        .into_iter()
                        .flatten()
                        .map(|p| (p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap() as u8))
                        .collect();
                    got.insert(
                        i,
                        if v[1] == true {
                            Outcome::Ran(s, log)
                        } else {
                            Outcome::Panicked(s)
                        },
                    );
                }
                // a crash takes the rest with it: blame the first missing
                let mut rest = vec![];
                for (i, m) in left {
                    match got.remove(&i) {
                        Some(r) => done.push((i, r)),
                        None => rest.push((i, m)),
                    }
                }
                if !rest.is_empty() {
                    let (i, _) = rest.remove(0);
                    done.push((i, Outcome::Panicked(format!("crashed: {}", o.status))));
                }
                left = rest;
                continue;
            }
            let diags = diagnostics(&String::from_utf8_lossy(&o.stderr), &file);
            let mut blamed: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
            let mut unmapped = vec![];
            for mut d in diags {
                let hit = d.at.first().and_then(|(l, ..)| {
                    ranges.iter().find(|(_, a, b)| a <= l && l <= b).copied()
                });
                match hit {
                    Some((i, first, _)) => {
                        for a in &mut d.at {
                            a.0 = a.0.saturating_sub(first);
                            a.2 = a.2.saturating_sub(first);
                        }
                        blamed.entry(i).or_default().push(d);
                    }
                    None => unmapped.push(d),
                }
            }
            if blamed.is_empty() {
                let code = o.status.code();
                if left.len() > 1 {
                    // find out who it is
                    let mut stop = false;
                    for one in &left {
                        if stop {
                            done.push((one.0, Outcome::Skipped));
                            continue;
                        }
                        let r = self.crate_of(std::slice::from_ref(one))?;
                        stop = r.iter().any(|(_, o)| matches!(o, Outcome::Panicked(m) if m.starts_with(CRASH)));
                        done.extend(r);
                    }
                    return Ok(done);
                }
                if code != Some(1) {
                    // the support code compiles, so it is this case
                    let err = String::from_utf8_lossy(&o.stderr)
                        .chars()
                        .take(3000)
                        .collect::<String>();
                    done.push((left[0].0, Outcome::Panicked(format!("{CRASH}: {} {err}", o.status))));
                    return Ok(done);
                }
                if unmapped.is_empty() {
                    return Err(format!(
                        "rustc ended with {} on {}: {}",
                        o.status,
                        file.display(),
                        String::from_utf8_lossy(&o.stderr)
                            .chars()
                            .take(3000)
                            .collect::<String>()
                    ));
                }
                blamed.insert(left[0].0, unmapped);
            }
            left.retain(|(i, _)| !blamed.contains_key(i));
            done.extend(blamed.into_iter().map(|(i, d)| (i, Outcome::Rejected(d))));
        }
        let _ = fs::remove_file(&file);
        Ok(done)
    }
}

/// The lints that views should not trigger.
const LINTS: &str = "#![warn(unused, nonstandard_style, future_incompatible, rust_2018_idioms, rust_2021_compatibility, let_underscore, unsafe_code, missing_docs, missing_debug_implementations, single_use_lifetimes, trivial_casts, trivial_numeric_casts, unused_qualifications, unused_lifetimes, unused_import_braces, redundant_lifetimes, variant_size_differences, meta_variable_misuse, unnameable_types, unreachable_pub, ambiguous_negative_literals, absolute_paths_not_starting_with_crate, explicit_outlives_requirements, unused_macro_rules, redundant_imports, elided_lifetimes_in_paths)] #![allow(keyword_idents, unused_imports)]";

impl Tools {
    /// All that the compiler says about these modules, `per` in one crate.
    /// Lines count from 1 at the first line of the module.
    pub fn diagnose(&self, modules: &[String], per: usize) -> Res<Vec<Report>> {
        self.all_of(modules, per, "#![allow(warnings)]")
    }

    /// The same with warnings.
    pub fn lint(&self, modules: &[String], per: usize) -> Res<Vec<Report>> {
        let mut out = self.all_of(modules, per, LINTS)?;
        // errors hide the warnings of those next to them
        for _ in 0..4 {
            let again: Vec<usize> = (0..out.len()).filter(|i| !out[*i].ok && out[*i].errors.is_empty()).collect();
            if again.is_empty() {
                break;
            }
            let some: Vec<String> = again.iter().map(|i| modules[*i].clone()).collect();
            for (i, r) in again.into_iter().zip(self.all_of(&some, per, LINTS)?) {
                out[i] = r;
            }
        }
        Ok(out)
    }

    fn all_of(&self, modules: &[String], per: usize, lints: &str) -> Res<Vec<Report>> {
        let chunks: Vec<&[String]> = modules.chunks(per.max(1)).collect();
        let results = parallel(&chunks, |c| self.diagnose_crate(c, lints));
        let mut out = vec![];
        for r in results {
            out.extend(r?);
        }
        Ok(out)
    }

    fn diagnose_crate(&self, modules: &[String], lints: &str) -> Res<Vec<Report>> {
        let n = self.counter.fetch_add(1, Ordering::SeqCst);
        let file = self.work.join(format!("d{n}.rs"));
        let mut text = format!("{lints}\n#![recursion_limit = \"512\"]\n");
        let mut line = 3;
        let mut ranges = vec![];
        for (i, m) in modules.iter().enumerate() {
            let body = format!(
                "pub mod c{i} {{\n{}\n}}\n",
                m.replace("@CASE@", &format!("c{i}"))
            );
            let lines = body.matches('\n').count();
            ranges.push((line + 1, line + lines));
            line += lines;
            text.push_str(&body);
        }
        text.push_str("fn main() {}\n");
        fs::write(&file, &text).map_err(|e| e.to_string())?;
        let o = self
            .rustc(&file, &self.work.join(format!("d{n}")), true, modules.len() == 1, lints == LINTS)
            .output()
            .map_err(|e| format!("rustc: {e}"))?;
        let _ = fs::remove_file(self.work.join(format!("d{n}.rmeta")));
        if !matches!(o.status.code(), Some(0 | 1)) {
            if modules.len() > 1 {
                let mut out = vec![];
                let mut bad = false;
                for m in modules {
                    if bad {
                        out.push(Report::default());
                        continue;
                    }
                    let r = self.diagnose_crate(std::slice::from_ref(m), lints)?;
                    bad = r[0].crashed.is_some();
                    out.extend(r);
                }
                return Ok(out);
            }
            let err: String = String::from_utf8_lossy(&o.stderr).chars().take(3000).collect();
            return Ok(vec![Report {
                crashed: Some(format!("{CRASH}: {} {err}", o.status)),
                ..Report::default()
            }]);
        }
        let mut out = vec![Report::default(); modules.len()];
        for mut d in diagnostics(&String::from_utf8_lossy(&o.stderr), &file) {
            let hit = d
                .at
                .first()
                .and_then(|(l, ..)| ranges.iter().position(|(a, b)| a <= l && l <= b));
            match hit {
                Some(i) => {
                    for a in &mut d.at {
                        a.0 = (a.0 + 1).saturating_sub(ranges[i].0);
                        a.2 = (a.2 + 1).saturating_sub(ranges[i].0);
                    }
                    if d.warning { &mut out[i].warnings } else { &mut out[i].errors }.push(d);
                }
                None if modules.len() == 1 && !d.warning => out[0].errors.push(d),
                None => {}
            }
        }
        for r in &mut out {
            r.ok = o.status.success();
        }
        let _ = fs::remove_file(&file);
        Ok(out)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    /// whether the crate with this module compiled
    pub ok: bool,
    pub errors: Vec<Diag>,
    pub warnings: Vec<Diag>,
    pub crashed: Option<String>,
}

fn text_of(span: &serde_json::Value) -> (String, String) {
    let (mut here, mut after) = (String::new(), String::new());
    for l in span["text"].as_array().into_iter().flatten() {
        let n = |k: &str| l[k].as_u64().unwrap_or(1).max(1) as usize - 1;
        let (a, b) = (n("highlight_start"), n("highlight_end"));
        let chars: Vec<char> = l["text"].as_str().unwrap_or("").chars().collect();
        here.extend(chars.iter().take(b).skip(a));
        here.push('\n');
        after = chars.iter().skip(b).collect();
    }
    (here.trim().to_string(), after)
}

fn diagnostics(stderr: &str, file: &Path) -> Vec<Diag> {
    let mut out = vec![];
    for l in stderr.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else {
            continue;
        };
        let warning = v["level"] == "warning";
        if v["level"] != "error" && !warning {
            continue;
        }
        let msg = v["message"].as_str().unwrap_or("").to_string();
        if msg.starts_with("aborting due to") || warning && v["code"].is_null() {
            continue;
        }
        let mut at = vec![];
        let mut text = (String::new(), String::new());
        let spans = v["spans"].as_array().cloned().unwrap_or_default();
        for primary in [true, false] {
            for s in &spans {
                if s["is_primary"] != primary {
                    continue;
                }
                let mut s = s.clone();
                while s.is_object() {
                    if s["file_name"].as_str().is_some_and(|f| Path::new(f) == file) {
                        let n = |k: &str| s[k].as_u64().unwrap_or(0) as usize;
                        if at.is_empty() {
                            text = text_of(&s);
                        }
                        at.push((n("line_start"), n("column_start"), n("line_end"), n("column_end")));
                        break;
                    }
                    s = s["expansion"]["span"].clone();
                }
            }
            if !at.is_empty() {
                break;
            }
        }
        out.push(Diag {
            msg,
            code: v["code"]["code"].as_str().unwrap_or("").to_string(),
            warning,
            at,
            text,
            rendered: v["rendered"].as_str().unwrap_or("").to_string(),
        });
    }
    out
}

// ------------------------------------------------------------------ cases

/// What a view may stand in.
pub const PLACES: &[(&str, &str)] = &[
    ("::leptos_mview::mview! {", "}"),
    ("{ ::leptos_mview::mview! {", "} }"),
    ("{ {} ::leptos_mview::mview! {", "} }"),
    ("match () { () => ::leptos_mview::mview! {", "} }"),
    ("::leptos_mview::mview! (", ")"),
    ("::leptos_mview::mview! [", "]"),
    ("::core::convert::identity(::leptos_mview::mview! {", "})"),
    ("{ use ::leptos_mview::mview as verif_view; verif_view! {", "} }"),
    ("loop { break ::leptos_mview::mview! {", "} }"),
    ("(::leptos_mview::mview! {", "}, 0).0"),
    ("if let ::core::option::Option::Some(verif_some) = ::core::option::Option::Some(::leptos_mview::mview! {", "}) { verif_some } else { ::core::panic!() }"),
];

const VIEW: &str = "let verif_built = ";

/// The first and last line of the view in its module, from 1.
pub fn view_lines(module: &str, view: &str) -> (usize, usize) {
    let first = module.lines().position(|l| l.starts_with(VIEW)).map_or(0, |i| i + 1);
    (first, first + view.matches('\n').count() + 2)
}

/// The module of a case, without the view.
pub fn module(case: &Case, view: &str) -> String {
    let (before, after) = PLACES[case.place];
    around(case, "", &format!("{before}\n{view}\n{after}"))
}

/// The module of a case whose view is made by `built`, after `first`.
pub fn around(case: &Case, first: &str, built: &str) -> String {
    let mut uses = vec![];
    let mut items = vec![];
    for i in &case.items {
        match i.strip_prefix("//use ") {
            Some(u) => uses.push(u.to_string()),
            None => items.push(i.replace("super_items::", "crate::@CASE@::items::")),
        }
    }
    let mut out = String::from("use ::leptos::prelude::*;\n");
    out.push_str("pub mod items {\nuse ::leptos::prelude::*;\n");
    out.push_str(&items.join("\n"));
    out.push_str("\n}\nuse self::items::*;\n");
    for u in uses {
        out.push_str(&format!("use self::items::{u};\n"));
    }
    for s in &case.shadows {
        out.push_str(s);
        out.push('\n');
    }
    out.push_str("pub fn run() -> ::sup::Out { ::sup::run(move || {\n");
    for l in &case.lets {
        out.push_str(l);
        out.push('\n');
    }
    out.push_str(first);
    out.push_str(VIEW);
    out.push_str(built);
    out.push_str(";\n");
    for a in &case.after {
        out.push_str(a);
        out.push('\n');
    }
    out.push_str("verif_built\n}) }");
    out
}

/// Prints the view; with `long`, rewritten to long forms.
/// Also returns how many pieces of sugar there are.
pub fn print(case: &Case, long: Option<Tape>, layout: Option<Vec<u32>>) -> (String, usize) {
    let mut tape = match layout {
        Some(l) => Tape::new(l),
        None => case.layout.clone(),
    };
    let mut p = Printer::new(&mut tape, long);
    p.nodes(&case.roots);
    let sugar = p.sugar;
    (p.finish(), sugar)
}

/// What is wrong with how this case came out.
pub fn judge(case: &Case, out: &Outcome) -> Option<String> {
    match out {
        Outcome::Rejected(d) => Some(format!(
            "a valid program does not compile:\n{}",
            d.iter().map(|d| d.rendered.as_str()).collect::<String>()
        )),
        Outcome::Panicked(m) if m.starts_with(CRASH) => Some(m.clone()),
        Outcome::Panicked(m) => Some(format!("rendering panicked: {m}")),
        Outcome::Skipped => None,
        Outcome::Ran(html, log) => {
            let expected = html::normalize(dom_nodes(&case.roots, &Env::new()));
            let mut actual = match html::parse(html) {
                Ok(a) => html::normalize(a),
                Err(e) => return Some(format!("rendered HTML is malformed: {e}\n{html}")),
            };
            html::align(&expected, &mut actual);
            let (e, a) = (html::show(&expected), html::show(&actual));
            if e != a {
                return Some(format!("rendered view differs\nexpected:\n{e}\nactual:\n{a}\nhtml: {html}"));
            }
            let mut seen: BTreeMap<u32, [u32; 2]> = BTreeMap::new();
            for (id, ep) in log {
                seen.entry(*id).or_default()[*ep as usize] += 1;
            }
            for (id, ev) in &case.logs {
                let [built, rendered] = seen.remove(id).unwrap_or_default();
                let ok = match ev {
                    Ev::At(0, n) => built == *n && rendered == 0,
                    Ev::At(_, n) => built == 0 && rendered == *n,
                    Ev::Lazy => built == 0 && rendered >= 1,
                    Ev::Maybe => built == 0,
                    Ev::Never => built == 0 && rendered == 0,
                };
                if !ok {
                    return Some(format!(
                        "`::sup::e({id}, ..)` should be evaluated {ev:?} but ran {built} times while building and {rendered} times while rendering"
                    ));
                }
            }
            if !seen.is_empty() {
                return Some(format!("unexpected evaluations: {seen:?}"));
            }
            None
        }
    }
}
