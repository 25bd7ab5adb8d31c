//! Reads operations from standard input and prints, one line each, what the sequential build of
//! `ark-inner-products` computes for them.
#![allow(dead_code)]
#[macro_use]
#[path = "../../sim/src/plan.rs"]
mod plan;
#[path = "../../sim/src/digests.rs"]
mod digests;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/simrt.rs"]
mod simrt;
#[path = "../../sim/src/table.rs"]
mod table;
#[path = "../../sim/src/toy.rs"]
mod toy;
use plan::{num, word, Plan};

fn main() {
    let mut t = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("operations");
    let p = Plan::from_text(&t).expect("plan");
    std::panic::set_hook(Box::new(|_| {}));
    for o in p.ops_named("table") {
        let (n, seed) = (num(o, 2) as usize, num(o, 3));
        let run = |(k, e): (&str, &str)| {
            std::panic::catch_unwind(|| if e == "toy" { table::entry::<toy::Toy>(k, n, seed) } else { table::entry::<ark_bls12_381::Bls12_381>(k, n, seed) })
                .unwrap_or("panic".into())
        };
        println!("{}", run(word(o, 1).split_once('/').expect("kind/engine")));
    }
}
