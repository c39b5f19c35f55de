use harness::*;
use proc_macro2::TokenStream;
use std::collections::BTreeMap;
fn main() {
    inproc::quiet();
    let n: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(2).unwrap().parse().unwrap();
    let (mut aa, mut rr, mut over, mut under, mut invalid) = (0, 0, 0, 0, 0);
    let mut msgs: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for tp in tape::tapes(seed, "gram", n, 400) {
        let mut t = tape::Tape::new(tp);
        let k = t.below(4);
        let changes = t.range(1, 3);
        let mut m = tape::Tape::new((0..60).map(|_| t.raw()).collect());
        let mut u = tape::Tape::new((0..60).map(|_| t.raw()).collect());
        let p = synth::program(t, synth::Opts { depth: 3, typed: false, ..Default::default() });
        let text = match k {
            0 => p.text(),
            1 => inproc::stream(&inproc::soup(&mut u, 3)).to_string(),
            _ => {
                let mut trees = inproc::tree(&p.text().parse().unwrap());
                for _ in 0..changes { inproc::mutate(&mut trees, &mut m); }
                inproc::stream(&trees).to_string()
            }
        };
        let Ok(ts) = text.parse::<TokenStream>() else { continue };
        let g = grammar::outside(&ts);
        if k == 0 && g.is_some() { invalid += 1; println!("VALID BUT OUTSIDE: {} : {text}", g.clone().unwrap()); }
        let r = inproc::run(ts);
        let rej = r.panicked.is_some() || !r.errors.is_empty();
        match (g, rej) {
            (None, false) => aa += 1,
            (Some(_), true) => rr += 1,
            (Some(w), false) => { over += 1; println!("OVER {w}: {text}"); }
            (None, true) => {
                under += 1;
                let e = r.panicked.unwrap_or_else(|| r.errors[0].msg.clone());
                let x = msgs.entry(e).or_insert((0, text.clone()));
                x.0 += 1;
                if text.len() < x.1.len() { x.1 = text; }
            }
        }
        inproc::forget();
    }
    println!("both accept {aa}, both reject {rr}, too strict {over}, too liberal {under}, invalid {invalid}");
    for (k, v) in msgs { println!("{} x {k}: {}", v.0, v.1); }
}
