//! Which plans a check runs, and which observations violate which property.
use crate::plan::Plan;
use crate::reg;
use crate::rng::{hash_str, mix, SRng};
use crate::simrt::Mode;
use crate::world::{self, Rules};

pub const CHECKS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
];

pub const COMPLETE: &[&str] = &["setup-failed", "prove-failed", "honest-rejected", "not-served", "node-panic", "deadlock", "step-cap", "killed", "refusal-accepted", "refusal-panic"];
pub const SOUND: &[&str] = &["forged-accepted", "forged-panic", "killed", "deadlock", "step-cap"];
pub const ROBUST: &[&str] = &["forged-panic", "killed", "deadlock", "step-cap", "node-panic", "not-served"];

/// The observations that break a property. Others belong to another property's check.
pub fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C03" | "C06" | "C08" | "C10" => COMPLETE,
        "C04" | "C05" | "C07" | "C09" | "C11" => SOUND,
        "C14" => ROBUST,
        "C01" => &["wrong-product", "harness-panic", "deadlock", "step-cap", "killed"],
        "C02" => &["wrong-commitment", "not-merged", "node-panic", "harness-panic", "deadlock", "step-cap", "killed"],
        "C12" => &["challenges-differ", "challenge-unbound", "generator", "harness-panic", "deadlock", "step-cap", "killed"],
        "C13" => &["stream", "harness-panic", "deadlock", "step-cap", "killed"],
        "C15" => &["not-deterministic", "harness-panic", "deadlock", "step-cap", "killed"],
        "C16" => &["bad-setup", "harness-panic", "deadlock", "step-cap", "killed"],
        _ => &[],
    }
}

pub fn families(prop: &str) -> Vec<&'static str> {
    match prop {
        "C03" => [reg::GIPA, reg::TIPA].concat(),
        "C04" => reg::GIPA.to_vec(),
        "C05" => reg::TIPA.to_vec(),
        "C06" | "C07" => reg::SIPP.to_vec(),
        "C08" | "C09" => reg::AGG.to_vec(),
        "C10" | "C11" => reg::POLY.to_vec(),
        _ => reg::all(),
    }
}

/// Number of runs per tier.
pub fn runs(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" => 30_000,
        "C02" => 12_000,
        "C03" => 10_000,
        "C04" => 6_000,
        "C05" => 4_500,
        "C06" => 12_000,
        "C07" => 6_000,
        "C08" => 4_000,
        "C09" => 1_800,
        "C10" => 14_000,
        "C11" => 6_000,
        "C14" => 5_000,
        "C12" => 12_000,
        "C13" => 12_000,
        "C15" => 5_000,
        "C16" => 18_000,
        _ => 2_000,
    };
    if thorough {
        q * 20
    } else {
        q
    }
}

pub fn schedule(r: &mut SRng, p: &mut Plan) {
    p.sched_seed = r.u64() >> 20;
    p.threads = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 16]);
    p.mode = match r.weighted(&[5, 3, 1, 1]) {
        0 => Mode::Random { gap: *r.pick(&[2, 5, 20, 80, 300, 1500]) },
        1 => Mode::Pct { d: r.range(1, 5) as u32, horizon: *r.pick(&[500, 5_000, 50_000]) },
        2 => Mode::Starve { victim: r.below(8) as u32, gap: *r.pick(&[5, 40, 400]) },
        _ => Mode::Sequential,
    };
    p.fine = *r.pick(&[0, 0, 0, 0, 2, 5, 20, 100]);
    p.memory = *r.pick(&[0, 0, 1, 2, 2]);
}

/// How big is one session's work? Keeps real-curve runs and large families small.
fn session(r: &mut SRng, fam: &str, bls: bool, thorough: bool, shape: usize) -> Vec<String> {
    let level = if thorough { r.weighted(&[20, 20, 8, 1]) } else { r.weighted(&[240, 80, 10, 2]) } as u32;
    sized(r, fam, bls, shape, level)
}
fn sized(r: &mut SRng, fam: &str, bls: bool, shape: usize, level: u32) -> Vec<String> {
    let name = format!("{fam}/{}", if bls { "bls12-381" } else { "toy" });
    let f = reg::get(&name).expect("harness: family");
    let mut s = f.pick_size(r, if bls { 0 } else { level });
    if bls {
        let lim = match fam {
            "kzg" => 8,
            "univariate" | "transparent-univariate" => 9,
            _ => r.weighted(&[0, 0, 12, 2, 1]),
        };
        s.a = s.a.min(lim);
        s.b = s.b.min(3);
    }
    op!["session", name, s.a, s.b, r.u64() >> 40, shape]
}

fn net_faults(r: &mut SRng, p: &mut Plan, nodes: usize, msgs: usize, ops_guess: usize) {
    if r.chance(1, 8) {
        return;
    }
    let n = r.weighted(&[2, 3, 3, 2, 1, 1]);
    for _ in 0..n {
        let k = *r.pick(&["drop", "dup", "delay", "flip"]);
        p.ops.push(op!["net", k, r.below(msgs + 4), r.u64() >> 44]);
    }
    if r.chance(1, 3) {
        p.ops.push(op!["window", r.pick(&["partition", "stall"]), r.below(nodes), r.below(400), r.below(3000)]);
    }
    if r.chance(1, 4) {
        p.ops.push(op!["window", r.pick(&["partition", "stall"]), r.below(nodes), r.below(5000), r.below(20_000)]);
    }
    for _ in 0..r.weighted(&[4, 3, 2, 1]) {
        p.ops.push(op!["disk", r.pick(&["torn", "lost", "full", "rot"]), r.below(nodes), r.below(4), r.u64() >> 50]);
    }
    for _ in 0..r.weighted(&[3, 4, 2, 1, 1]) {
        p.ops.push(op!["crash", 1 + r.below(ops_guess)]);
    }
}
fn nodes(r: &mut SRng, p: &mut Plan, max_prov: usize) -> usize {
    let np = r.range(1, max_prov);
    let nv = r.weighted(&[0, 5, 3, 1]);
    let skew = |r: &mut SRng| if r.chance(1, 2) { 0 } else { 1 + r.below(399) };
    for _ in 0..np {
        p.ops.push(op!["prover", r.weighted(&[4, 3, 1, 1, 1, 1]), skew(r)]);
    }
    for _ in 0..nv {
        p.ops.push(op!["verifier", r.weighted(&[4, 3, 1, 1, 1, 1]), skew(r)]);
    }
    np + nv
}

/// Honest provers and verifiers, every deployment fault.
fn deploy(r: &mut SRng, p: &mut Plan, prop: &str, thorough: bool, bls: bool) {
    let fams = families(prop);
    let ns = if bls { 1 } else { r.weighted(&[0, 4, 3, 2, 1]) };
    let mut guess = 0;
    for i in 0..ns {
        let fam = *r.pick(&fams);
        let shape = if r.chance(2, 5) { 0 } else { r.below(crate::fam::SHAPES.len()) };
        let mut s = session(r, fam, bls, thorough, shape);
        // Sometimes several statements under one key.
        if i > 0 && r.chance(1, 3) {
            s = p.ops[i - 1].clone();
            s[4] = (r.u64() >> 40).to_string();
            s[5] = shape.to_string();
            s.truncate(6);
            s.push((i - 1).to_string());
        }
        guess += 40 << crate::plan::num(&s, 2).min(8);
        p.ops.push(s);
    }
    let n = nodes(r, p, ns.min(3));
    if !r.chance(1, 6) {
        net_faults(r, p, n, ns * 3, guess);
    }
    if r.chance(1, 4) {
        p.hostile = *r.pick(&[2, 3, 5, 9]);
    }
}

fn alt(r: &mut SRng) -> (usize, u64) {
    let a = crate::el::Alt::random(r);
    let c = a.code();
    (c.0, c.1 & 0xffff_ffff)
}

/// Forged messages against honest verifiers.
fn forging(r: &mut SRng, p: &mut Plan, prop: &str, thorough: bool, bls: bool) {
    let fams = families(prop);
    let fam = *r.pick(&fams);
    let shape = match r.weighted(&[7, 2, 1]) {
        0 => 0,
        1 => *r.pick(&crate::fam::special_shapes()),
        _ => r.below(crate::fam::SHAPES.len()),
    };
    let mut s = session(r, fam, bls, thorough, shape);
    if fam.starts_with("groth16") {
        // (Keys that make inputs meaningless are for honest sessions.)
        s[3] = (s[3].parse::<usize>().unwrap() % 16).to_string();
    }
    let f = reg::get(&s[1]).unwrap();
    let sipp = fam == "sipp";
    p.ops.push(s);
    let n = if bls { r.range(1, 3) } else { r.range(6, if thorough { 20 } else { 12 }) };
    for _ in 0..n {
        let big = 1u64 << 20;
        if !crate::fam::generic(shape) || r.chance(1, 12) {
            let a = alt(r);
            p.ops.push(op!["forge", 0, "claim", "stmt", r.u64() % big, r.below(3), a.0, a.1, r.u64() % big, r.weighted(&[3, 1, 1, 1]) * r.below(40)]);
            continue;
        }
        match r.weighted(&[8, 3, 3, 2, 6, 2, 2, 3, 1, 4, 1, 3]) {
            8 => p.ops.push(op!["forge", 0, "swap", r.pick(&["proof", "proof", "stmt"]), r.u64() % big, r.u64() % big]),
            9 => {
                let (a, b) = *r.pick(&[("proof", "proof"), ("stmt", "stmt"), ("stmt", "proof")]);
                p.ops.push(op!["forge", 0, "trade", a, r.u64() % big, r.u64() % big, b, 1 + r.below(1 << 20), r.below(200)]);
            }
            10 => p.ops.push(op!["forge", 0, "cross", "stmt", r.u64() % big, r.u64() % big, r.below(2)]),
            11 => {
                let lo = if r.chance(2, 3) { 0 } else { 1 + r.u64() % big };
                let st = if r.chance(1, 3) { 0 } else { 1 + r.u64() % big };
                p.ops.push(op!["forge", 0, "wipe", "proof", lo, r.weighted(&[2, 3, 3, 2, 1, 1, 1]), st]);
            }
            0 => {
                let part = *r.pick(&["proof", "proof", "proof", "stmt", "stmt", "vkey"]);
                let a = alt(r);
                p.ops.push(op!["forge", 0, "alter", part, r.u64() % big, a.0, a.1]);
            }
            1 => {
                let part = *r.pick(&["proof", "proof", "stmt"]);
                let (a, b) = (alt(r), alt(r));
                p.ops.push(op!["forge", 0, "two", part, r.u64() % big, r.u64() % big, a.0, a.1, b.0, b.1]);
            }
            2 => {
                let part = if sipp || r.chance(3, 4) { "proof" } else { "stmt" };
                p.ops.push(op!["forge", 0, "reshape", part, r.below(64), r.below(crate::el::RESHAPES), r.below(1000)]);
            }
            3 => {
                let part = *r.pick(&["proof", "proof", "stmt", "vkey"]);
                let len = if r.chance(1, 3) { 0 } else { 1 + r.below(8) };
                p.ops.push(op!["forge", 0, "splice", part, if len == 0 { 0 } else { r.u64() % big }, len]);
            }
            4 => {
                let at = f.attacks();
                if !at.is_empty() {
                    p.ops.push(op!["forge", 0, "attack", r.pick(at), r.u64() >> 44]);
                }
            }
            5 => {
                let a = alt(r);
                p.ops.push(op!["forge", 0, "deviate", "witness", r.u64() % big, a.0, a.1]);
            }
            6 => {
                let a = alt(r);
                p.ops.push(op!["forge", 0, "deviate", "key", r.u64() % big, a.0, a.1]);
            }
            _ => {
                if !bls {
                    p.ops.push(op!["forge", 0, "deviate", "glitch", r.u64() % big]);
                }
            }
        }
    }
    p.ops.push(op!["prover", 0, 0]);
    p.ops.push(op!["verifier", r.weighted(&[4, 2, 1, 1]), 0]);
    if r.chance(1, 2) {
        for _ in 0..r.below(4) {
            p.ops.push(op!["net", r.pick(&["drop", "dup", "delay", "flip"]), r.below(n * 3 + 2), r.u64() >> 44]);
        }
        for _ in 0..r.below(3) {
            p.ops.push(op!["crash", 1 + r.below(3000)]);
        }
    }
    // (SIPP uses whatever the digest answers; a fixed answer would be a collision.)
    if !sipp && r.chance(1, 6) {
        p.hostile = *r.pick(&[3, 5, 9]);
    }
}

/// Structurally wrong messages in a stream that also carries honest ones.
fn hostile(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    let fams = reg::all();
    let ns = if bls { 1 } else { r.range(1, 2) };
    for _ in 0..ns {
        let fam = *r.pick(&fams);
        let shape = if r.chance(1, 2) { 0 } else { r.below(crate::fam::SHAPES.len()) };
        let s = session(r, fam, bls, thorough, shape);
        p.ops.push(s);
    }
    let n = if bls { r.range(1, 4) } else { r.range(6, 16) };
    for _ in 0..n {
        let k = r.below(ns);
        let agg = p.ops[k][1].starts_with("groth16");
        let big = 1u64 << 20;
        let part = if agg && r.chance(1, 3) { "stmt" } else { "proof" };
        match r.weighted(&[8, 4, 2, 2]) {
            0 => p.ops.push(op!["forge", k, "reshape", part, r.below(64), r.below(crate::el::RESHAPES), r.below(1000)]),
            1 => {
                let a = alt(r);
                p.ops.push(op!["forge", k, "alter", "proof", r.u64() % big, a.0, a.1]);
            }
            2 => p.ops.push(op!["forge", k, "splice", "proof", r.u64() % big, 1 + r.below(6)]),
            _ => p.ops.push(op!["forge", k, "bytes", r.below(8), r.u64() % big, r.u64() % big]),
        }
    }
    p.ops.push(op!["prover", 0, 0]);
    p.ops.push(op!["verifier", r.weighted(&[4, 2, 1, 1]), 0]);
    for _ in 0..r.below(4) {
        p.ops.push(op!["net", r.pick(&["drop", "dup", "delay", "flip"]), r.below(n * 3 + 2), r.u64() >> 44]);
    }
    if r.chance(1, 6) {
        p.hostile = *r.pick(&[2, 3, 5]);
    }
}

/// Requests a prover must refuse.
fn refusals(r: &mut SRng, p: &mut Plan, prop: &str, thorough: bool, bls: bool) {
    let fam = *r.pick(&families(prop));
    let s = session(r, fam, bls, thorough, 0);
    p.ops.push(s);
    for _ in 0..r.range(2, if bls { 3 } else { 8 }) {
        p.ops.push(op!["refuse", 0, r.below(64), r.u64() >> 44]);
    }
}

fn length(r: &mut SRng, bls: bool, thorough: bool) -> usize {
    if bls {
        return r.below(6);
    }
    match r.weighted(&[30, 50, 30, 20, if thorough { 10 } else { 2 }, if thorough { 2 } else { 0 }]) {
        0 => r.below(4),
        1 => r.below(20),
        2 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        3 => r.below(130),
        4 => if r.chance(1, 3) { *r.pick(&[255, 256, 257, 511, 512, 513, 1024]) } else { r.below(1000) },
        _ => r.below(5000),
    }
}
fn pool(r: &mut SRng) -> usize {
    r.weighted(&[5, 3, 1, 1, 1, 1])
}
/// Several products at once.
fn products(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    p.scenario = "product".into();
    let n = if bls { r.range(1, 2) } else { r.range(1, 5) };
    for _ in 0..n {
        let k = format!("{}/{}", r.pick(crate::compute::PRODUCTS), if bls { "bls12-381" } else { "toy" });
        let len = length(r, bls, thorough);
        let other = if r.chance(1, 5) {
            match r.below(4) {
                0 => len + 1,
                1 => len.saturating_sub(1),
                2 => 0,
                _ => length(r, bls, thorough),
            }
        } else {
            len
        };
        let shape = if r.chance(1, 2) { 0 } else { r.below(crate::fam::SHAPES.len()) };
        p.ops.push(op!["product", k, len, other, shape, r.u64() >> 40, pool(r)]);
    }
    for _ in 0..r.weighted(&[5, 2, 1]) {
        p.ops.push(op!["crash", 1 + r.below(400)]);
    }
}
fn commitments(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    let eng = if bls { "bls12-381" } else { "toy" };
    let shape = if r.chance(1, 2) { 0 } else { r.below(crate::fam::SHAPES.len()) };
    if r.chance(1, 2) {
        p.scenario = "commit".into();
        for _ in 0..if bls { 1 } else { r.range(1, 4) } {
            let k = format!("{}/{eng}", r.pick(crate::compute::COMMITMENTS));
            let len = length(r, bls, thorough);
            p.ops.push(op!["commit", k, len, shape, r.u64() >> 40, pool(r)]);
        }
        for _ in 0..r.weighted(&[5, 2, 1]) {
            p.ops.push(op!["crash", 1 + r.below(2000)]);
        }
    } else {
        p.scenario = "merge".into();
        let k = format!("{}/{eng}", r.pick(crate::compute::COMMITMENTS));
        let parts = r.range(1, if bls { 3 } else { 9 });
        p.ops.push(op!["merge", k, length(r, bls, thorough).min(40), parts, shape, r.u64() >> 40, r.below(3)]);
        let nw = r.range(1, 4);
        for _ in 0..nw {
            p.ops.push(op!["worker", pool(r), if r.chance(1, 2) { 0 } else { 1 + r.below(399) }]);
        }
        net_faults(r, p, nw + 1, parts * 3, 200);
    }
}

/// Transcripts: what prover and verifier hash.
fn transcripts(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    p.scenario = "challenge".into();
    if !bls && r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            p.ops.push(op!["fs", r.u64() >> 40, r.below(12), r.below(12)]);
        }
        return;
    }
    let fams: Vec<_> = reg::all().into_iter().filter(|f| *f != "kzg").collect();
    let ns = if bls { 1 } else { r.range(1, 3) };
    let mut sipp = false;
    for _ in 0..ns {
        let fam = *r.pick(&fams);
        sipp |= fam == "sipp";
        let shape = if r.chance(2, 3) { 0 } else { r.below(crate::fam::SHAPES.len()) };
        let mut s = session(r, fam, bls, thorough, shape);
        if s[2] == "0" && r.chance(3, 4) {
            s[2] = "1".into();
        }
        p.ops.push(s);
    }
    for _ in 0..if bls { r.range(1, 2) } else { r.range(3, 12) } {
        let a = alt(r);
        let big = 1u64 << 20;
        p.ops.push(op!["touch", r.below(ns), r.pick(&["proof", "proof", "proof", "stmt", "swap"]), r.u64() % big, a.0, a.1]);
    }
    if r.chance(1, 3) {
        p.ops.push(op!["again"]);
        for _ in 0..r.weighted(&[3, 3, 2, 1]) {
            p.ops.push(op!["crash", 1 + r.below(4000)]);
        }
    }
    if !sipp && r.chance(1, 4) {
        p.hostile = *r.pick(&[2, 3, 5, 9]);
    }
}

/// Values that cross streams.
fn streams(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    p.scenario = "stream".into();
    let fams = reg::all();
    let eng = if bls { "bls12-381" } else { "toy" };
    let ns = if bls { 1 } else { r.below(3) };
    for _ in 0..ns {
        let fam = *r.pick(&fams);
        let shape = if r.chance(3, 4) { 0 } else { r.below(crate::fam::SHAPES.len()) };
        let s = session(r, fam, bls, thorough, shape);
        p.ops.push(s);
    }
    let nv = if ns == 0 { r.range(1, 4) } else { r.below(3) };
    for _ in 0..nv {
        let k = format!("{}/{eng}", r.pick(crate::props::VALUES));
        p.ops.push(op!["value", k, length(r, bls, thorough).min(40), r.u64() >> 40, if r.chance(2, 3) { 0 } else { r.below(crate::fam::SHAPES.len()) }]);
    }
    for _ in 0..if bls { r.range(1, 3) } else { r.range(4, 12) } {
        p.ops.push(op!["io", r.below(ns + nv), r.pick(crate::props::IOS), r.below(2), r.below(2), r.u64() >> 40]);
    }
    for _ in 0..r.weighted(&[4, 2, 1, 1]) {
        p.ops.push(op!["crash", 1 + r.below(3000)]);
    }
}

/// The same work under other circumstances.
fn sameness(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    let fams = reg::all();
    let ns = if bls { 1 } else { r.range(1, 3) };
    let hashing = r.chance(1, 5);
    if r.chance(1, 4) {
        p.scenario = "sequential".into();
        for _ in 0..r.below(ns + 1) {
            let fam = *r.pick(&fams);
            let shape = if r.chance(1, 2) { 0 } else { r.below(crate::fam::SHAPES.len()) };
            let mut s = session(r, fam, bls, thorough, shape);
            s.push("-".into());
            s.push(pool(r).to_string());
            p.ops.push(s);
        }
        for _ in 0..if bls { 1 } else { r.range(1, 4) } {
            let k = format!("{}/{}", r.pick(crate::table::KINDS), if bls { "bls12-381" } else { "toy" });
            p.ops.push(op!["table", k, length(r, bls, thorough), r.u64() >> 40, 0, 0, "-", pool(r)]);
        }
    } else {
        p.scenario = "same".into();
        // Every other run crowds the actors into one session and switches between them often.
        let crowd = !bls && r.chance(1, 2);
        let ns = if crowd { 1 } else { ns };
        if crowd {
            p.fine = *r.pick(&[1, 2, 5, 20]);
            p.mode = Mode::Random { gap: *r.pick(&[2, 5, 20]) };
        }
        for _ in 0..ns {
            let fam = *r.pick(&fams);
            let shape = if r.chance(1, 2) { 0 } else { r.below(crate::fam::SHAPES.len()) };
            let s = if ns == 1 && !crowd {
                let level = r.weighted(&[6, 6, 4]) as u32;
                sized(r, fam, bls, shape, level)
            } else {
                session(r, fam, bls, thorough, shape)
            };
            p.ops.push(s);
        }
        // The crowd may share the workers of one pool, which then take up each other's work
        // while they wait for their own.
        let common = if crowd && r.chance(1, 2) { 20 + *r.pick(&[1, 2, 2, 3, 4]) } else { 0 };
        for _ in 0..if bls { r.range(1, 2) } else { r.range(if crowd { 4 } else { 2 }, 8) } {
            let at = if common > 0 { common } else { pool(r) };
            p.ops.push(op!["actor", r.below(ns), r.pick(&["setup", "state", "prove", "prove", "prove", "verify", "verify", "fail"]), at, r.chance(1, 5) as u8]);
        }
        for _ in 0..r.weighted(&[4, 2, 1]) {
            let k = format!("{}/{}", r.pick(crate::table::KINDS), if bls { "bls12-381" } else { "toy" });
            p.ops.push(op!["series", k, length(r, bls, thorough).min(if bls { 20 } else { 300 }), r.u64() >> 40, r.range(2, if bls { 3 } else { 6 }), pool(r)]);
        }
        for _ in 0..r.weighted(&[3, 3, 2, 1]) {
            p.ops.push(op!["crash", 1 + r.below(4000)]);
        }
    }
    if hashing {
        p.hostile = *r.pick(&[2, 3, 5, 9]);
    }
}

fn setups(r: &mut SRng, p: &mut Plan, thorough: bool, bls: bool) {
    p.scenario = "setup".into();
    for _ in 0..if bls { 1 } else { r.range(1, 4) } {
        let k = *r.pick(crate::props::SETUPS);
        let (mut n, mut m) = match k {
            "tipa" | "tipa-multiexp" | "tipa-ssm" | "groth16" | "gipa" | "gipa-ssm" => (1 << if r.chance(1, if thorough { 12 } else { 60 }) { r.below(if thorough { 11 } else { 10 }) } else { r.below(6) }, 0),
            "bivariate" | "transparent-bivariate" => ((1 << r.below(5)) - 1, r.below(9)),
            _ => (length(r, bls, thorough).min(if thorough { 1000 } else { 300 }), 0),
        };
        if bls {
            n = n.min(3);
            m = m.min(3);
        }
        p.ops.push(op!["setup", format!("{k}/{}", if bls { "bls12-381" } else { "toy" }), n, m, r.u64() >> 40, pool(r), 1 + r.below(70)]);
    }
    for _ in 0..r.weighted(&[4, 2, 1]) {
        p.ops.push(op!["crash", 1 + r.below(600)]);
    }
}

/// Plan number `i` of a check.
pub fn plan(prop: &str, thorough: bool, base: u64, i: u64) -> Plan {
    let r = &mut SRng::new(mix(&[base, hash_str(prop), i, thorough as u64]));
    let mut p = Plan::new(prop, "");
    p.seed = r.u64() >> 24;
    schedule(r, &mut p);
    let bls = r.chance(1, 16);
    match prop {
        "C03" | "C06" | "C08" | "C10" => {
            if prop != "C06" && r.chance(1, 5) {
                p.scenario = "refuse".into();
                refusals(r, &mut p, prop, thorough, bls);
            } else {
                p.scenario = "deploy".into();
                deploy(r, &mut p, prop, thorough, bls);
            }
        }
        "C04" | "C05" | "C07" | "C09" | "C11" => {
            p.scenario = "forge".into();
            forging(r, &mut p, prop, thorough, bls);
        }
        "C14" => {
            p.scenario = "hostile".into();
            hostile(r, &mut p, thorough, bls);
        }
        "C01" => products(r, &mut p, thorough, bls),
        "C02" => commitments(r, &mut p, thorough, bls),
        "C12" => transcripts(r, &mut p, thorough, bls),
        "C13" => streams(r, &mut p, thorough, bls),
        "C15" => sameness(r, &mut p, thorough, bls),
        "C16" => setups(r, &mut p, thorough, bls),
        _ => panic!("harness: no such check {prop}"),
    }
    if bls && p.threads > 4 {
        p.threads = 4;
    }
    p
}

pub fn run(p: &Plan) {
    match p.scenario.as_str() {
        "deploy" => world::run(p, Rules { complete: true, sound: false, robust: false }),
        "forge" => world::run(p, Rules { complete: false, sound: true, robust: false }),
        "hostile" => world::run(p, Rules { complete: true, sound: false, robust: true }),
        "refuse" => world::refusals(p),
        "product" => crate::compute::products(p),
        "commit" => crate::compute::commitments(p),
        "merge" => world::merge(p),
        "challenge" => crate::props::challenges(p),
        "stream" => crate::props::streams(p),
        "same" => crate::props::same(p),
        "sequential" => crate::props::sequential(p),
        "setup" => crate::props::setups(p),
        s => panic!("harness: no such scenario {s}"),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C03" | "C06" | "C08" | "C10" => "A run is one simulated deployment generated from (seed, property, run number): families, sizes, witness shapes, thread pools, scheduling policy and faults are drawn from that seed. It counts as non-trivial if at least one verifier verdict or refused request was observed, and as distinct by the pair of its schedule hash and history hash.",
        "C14" => "A run is one simulated deployment in which an adversary sends structurally wrong messages (lists cut, extended, reordered; elements replaced; raw bytes damaged) to verifiers that also serve honest senders. Non-trivial if at least one verdict was observed; distinct by schedule and history hash.",
        "C01" => "A run computes one to five inner products at once on simulated threads, with lengths, shapes, pools, schedule and abort points drawn from (seed, property, run number). Non-trivial if at least one product was compared with the term-by-term oracle; distinct by schedule and history hash.",
        "C02" => "A run either checks commitments of one to four schemes at once (exactness, binding to message, key and commitment, lengths, both homomorphisms) or merges partial commitments of simulated workers over a faulty network. Non-trivial if at least one comparison was made; distinct by schedule and history hash.",
        "C12" => "A run either records everything prover and verifier of one to three sessions hash, alone, after alterations of statement or proof elements, and again at the same time with aborted neighbours; or compares streams of the SIPP challenge generator across absorptions, draws and interleavings. Non-trivial if at least one comparison was made; distinct by schedule and history hash.",
        "C13" => "A run writes and reads proofs and commitment values over simulated streams (short, interrupted, failing, damaged) on concurrent simulated threads. Non-trivial if at least one outcome was judged; distinct by schedule and history hash.",
        "C15" => "A run computes keys, statements, proofs and verdicts once alone on one worker thread, then again by concurrent actors in other pools under another schedule with aborted and refused neighbours, or against the build without the parallel feature. Non-trivial if at least one comparison was made; distinct by schedule and history hash.",
        "C16" => "A run makes one to four keys at once from simulated random streams and checks their structure with pairings, their dependence on the stream, and their independence of its pieces. Non-trivial if at least one key was checked; distinct by schedule and history hash.",
        _ => "A run is one simulated deployment with forged messages (elements altered, lists reshaped, parts spliced from other sessions, challenge-aware attacks, deviating provers, faulty hardware) generated from (seed, property, run number). Non-trivial if at least one verdict was observed; distinct by the pair of its schedule hash and history hash.",
    }
}
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "the simulated thread scheduler switches threads at futex, yield, digest, random-source and group-operation boundaries, not between single machine instructions (the repository has no unsafe code and no atomics of its own)",
        "most runs use a stand-in pairing group with the same traits; the same code runs on BLS12-381 in about one run in sixteen, at small sizes",
    ];
    if matches!(prop, "C04" | "C05" | "C07" | "C09" | "C11") {
        v.push("attacks are drawn from a fixed repertoire and single or paired alterations; soundness against every adversary is C21, not claimed");
    }
    v
}
