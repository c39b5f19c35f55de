use harness::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let prof = prof::of(&std::env::var("P").unwrap_or_default());
    let cases: Vec<_> = tape::tapes(seed, "try", n, 500).into_iter().map(|t| gen::case(&prof, t)).collect();
    let mods: Vec<_> = cases.iter().map(|c| run::module(c, &run::print(c, None, None).0)).collect();
    if a.len() > 3 { for m in &mods { println!("{m}\n-----"); } return; }
    let t = run::Tools::build(true).unwrap();
    let start = std::time::Instant::now();
    let out = t.execute(&mods, n.div_ceil(8).min(50)).unwrap();
    println!("ran in {:?}", start.elapsed());
    let mut bad = 0;
    let mut msgs = std::collections::BTreeMap::<String, (usize, usize)>::new();
    for (i, (c, o)) in cases.iter().zip(&out).enumerate() {
        if let Some(m) = run::judge(c, o) {
            bad += 1;
            let key = match o { run::Outcome::Rejected(d) => d[0].msg.clone(), _ => format!("{} {i}", m.lines().next().unwrap()) };
            let e = msgs.entry(key).or_insert((0, i));
            e.0 += 1;
            if mods[i].len() < mods[e.1].len() { e.1 = i }
        }
    }
    println!("{bad} of {n} bad");
    for (m, (k, i)) in msgs {
        println!("==== {k} x {m}");
        println!("{}\n{}", mods[i], run::judge(&cases[i], &out[i]).unwrap());
    }
}
