use harness::report::{Ctx, Stop};
use harness::*;
use std::process::exit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|s| s == "worker") {
        exit(match a[2].as_str() {
            "expand" => syntax::c16_worker(&a[3..]),
            _ => crash::worker(&a[2..]),
        });
    }
    let env = |k: &str| std::env::var(k).ok();
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let (id, tier, replay) = if a.get(1).is_some_and(|s| s == "replay") {
        let text = std::fs::read_to_string(a.get(2).map_or("", String::as_str)).unwrap_or_else(|e| {
            eprintln!("cannot read the replay: {e}");
            exit(2)
        });
        let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| {
            eprintln!("not a replay: {e}");
            exit(2)
        });
        (v["property"].as_str().unwrap_or("").to_string(), None, Some(v))
    } else {
        let Some(id) = a.get(1) else {
            eprintln!("check <property> [quick|thorough] | check replay <file>");
            exit(2)
        };
        (id.clone(), a.get(2).cloned().or(env("VERIF_TIER")), None)
    };
    let thorough = tier.as_deref() == Some("thorough");
    let mut cx = Ctx::new(&id, thorough, seed);
    let inproc = ["C13", "C14", "C15", "C16", "C17"].contains(&id.as_str());
    let out = match (&replay, inproc) {
        (Some(r), _) if id == "C13" => crash::replay(&mut cx, r),
        (None, _) if id == "C13" => crash::check(&mut cx),
        (Some(r), _) if id == "C20" => lints::replay(&mut cx, r),
        (None, _) if id == "C20" => lints::check(&mut cx),
        (Some(r), false) => e2e::replay(&mut cx, r),
        (None, false) => e2e::check(&mut cx),
        (Some(r), true) => syntax::replay(&mut cx, r),
        (None, true) => syntax::check(&mut cx),
    };
    match out {
        Ok(()) => {
            if replay.is_none() {
                if let Err(e) = cx.write(0) {
                    eprintln!("cannot write evidence: {e}");
                    exit(2);
                }
            }
            println!(
                "{id}: held on {} cases ({} distinct non-trivial) in {:.0} s",
                cx.evaluations,
                cx.distinct.len(),
                cx.start.elapsed().as_secs_f64()
            );
        }
        Err(Stop::Violation(v)) => {
            let path = if replay.is_some() {
                a[2].clone()
            } else {
                let _ = cx.write(1);
                cx.save(&v).unwrap_or_else(|e| format!("(not saved: {e})"))
            };
            println!("VIOLATION property={id} replay={path}");
            exit(1);
        }
        Err(Stop::Tool(e)) => {
            eprintln!("{id}: the check could not run: {e}");
            exit(2);
        }
    }
}
