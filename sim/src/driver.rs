//! Seeded search over plans, minimisation of a failing one, replay files and evidence.
use crate::ctx::{self, spawn, wait_any, Child, Outcome};
use crate::gen;
use crate::plan::Plan;
use crate::rng::mix;
use crate::simrt::Mode;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, Instant};

pub fn verif_dir() -> String {
    std::env::var("RIPP_VERIF").unwrap_or_else(|_| "/verif".into())
}
fn jobs() -> usize {
    std::env::var("RIPP_SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 64)
}

/// Listed findings of a property: name -> description.
fn findings(prop: &str) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix(&format!("finding: property={prop} ")) {
            if let Some((name, what)) = rest.split_once(' ') {
                m.insert(name.to_string(), what.to_string());
            }
        }
    }
    m
}

/// The violation of `prop` an outcome shows, if any.
fn failing(prop: &str, o: &Outcome, listed: &BTreeMap<String, String>) -> Option<(String, String)> {
    let cl = gen::classes(prop);
    if let Some(v) = o.violations.iter().find(|v| cl.contains(&v.0.as_str())) {
        return Some(v.clone());
    }
    o.known.iter().find(|k| !listed.contains_key(&k.0)).map(|k| (format!("unlisted-{}", k.0), k.1.clone()))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    void: u64,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    stats: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    threads: BTreeMap<u64, u64>,
    policies: BTreeMap<String, u64>,
    schedules: HashSet<u64>,
    histories: HashSet<u64>,
    states: HashSet<u64>,
    known: BTreeMap<String, (u64, String)>,
    foreign: BTreeMap<String, u64>,
    voids: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    faulty_runs: u64,
}
fn policy(m: &Mode) -> &'static str {
    match m {
        Mode::Random { .. } => "random",
        Mode::Pct { .. } => "priority-change-points",
        Mode::Sequential => "sequential",
        Mode::Starve { .. } => "starve-one-thread",
        Mode::Replay => "replay",
    }
}
impl Totals {
    fn add(&mut self, p: &Plan, o: &Outcome, prop: &str) {
        self.runs += 1;
        let inc = |m: &mut BTreeMap<String, u64>, k: &str, n: u64| *m.entry(k.to_string()).or_insert(0) += n;
        if let Some(v) = &o.void {
            self.void += 1;
            inc(&mut self.voids, &v.chars().take(60).collect::<String>(), 1);
        }
        for (k, v) in &o.probes {
            inc(&mut self.probes, k, *v);
        }
        for (k, v) in &o.faults {
            inc(&mut self.faults, k, *v);
        }
        if !o.faults.is_empty() {
            self.faulty_runs += 1;
        }
        for (k, v) in &o.stats {
            if k != "schedule" && k != "history" {
                inc(&mut self.stats, k, *v);
            }
        }
        inc(&mut self.scenarios, &p.scenario, 1);
        for s in p.ops_named("session") {
            inc(&mut self.families, &s[1], 1);
        }
        *self.threads.entry(p.threads).or_insert(0) += 1;
        inc(&mut self.policies, policy(&p.mode), 1);
        let (s, h) = (o.stats.get("schedule").copied().unwrap_or(0), o.stats.get("history").copied().unwrap_or(0));
        self.schedules.insert(s);
        self.histories.insert(h);
        self.states.insert(mix(&[s, h]));
        if o.void.is_none() && o.probes.iter().any(|(k, v)| *v > 0 && (k.starts_with("verdict-") || k.starts_with("refused") || k.starts_with("checked-"))) {
            self.nontrivial.insert(mix(&[s, h]));
        }
        for k in &o.known {
            let e = self.known.entry(k.0.clone()).or_insert((0, k.1.clone()));
            e.0 += 1;
        }
        let cl = gen::classes(prop);
        for v in &o.violations {
            if !cl.contains(&v.0.as_str()) {
                inc(&mut self.foreign, &v.0, 1);
            }
        }
    }
}

/// Runs plans produced by `next` in parallel; `seen` may stop the search by returning false.
fn sweep(mut next: impl FnMut() -> Option<(u64, Plan)>, mut seen: impl FnMut(u64, &Plan, Outcome) -> bool, until: Instant) {
    let width = jobs();
    let mut live: Vec<(u64, Plan, Child)> = vec![];
    let mut open = true;
    loop {
        while open && live.len() < width {
            if Instant::now() > until {
                open = false;
                break;
            }
            match next() {
                Some((i, p)) => {
                    let c = spawn(&p, gen::run);
                    live.push((i, p, c));
                }
                None => open = false,
            }
        }
        if live.is_empty() {
            return;
        }
        wait_any(&live.iter().map(|x| &x.2).collect::<Vec<_>>());
        let mut k = 0;
        while k < live.len() {
            if let Some(o) = live[k].2.poll() {
                let (i, p, _) = live.remove(k);
                if !seen(i, &p, o) {
                    open = false;
                }
            } else {
                k += 1;
            }
        }
    }
}

/// Lowest-numbered candidate that fails in the wanted way.
fn first_failing(cands: Vec<Plan>, prop: &str, class: &str, listed: &BTreeMap<String, String>, until: Instant) -> Option<(Plan, Outcome)> {
    let mut best: Option<(u64, Plan, Outcome)> = None;
    let found = std::cell::Cell::new(u64::MAX);
    let mut it = cands.into_iter().enumerate();
    sweep(
        || {
            let (i, p) = it.next()?;
            if i as u64 > found.get() {
                return None;
            }
            Some((i as u64, p))
        },
        |i, p, o| {
            if failing(prop, &o, listed).map_or(false, |v| v.0 == class) && i < found.get() {
                found.set(i);
                best = Some((i, p.clone(), o));
            }
            true
        },
        until,
    );
    best.map(|b| (b.1, b.2))
}

fn drop_chunks<T: Clone>(v: &[T], size: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut w = v[..i].to_vec();
        w.extend_from_slice(&v[(i + size).min(v.len())..]);
        out.push(w);
        i += size;
    }
    out
}

fn minimise(plan: Plan, o: Outcome, prop: &str, class: &str, listed: &BTreeMap<String, String>, until: Instant) -> (Plan, Outcome) {
    let (mut cur, mut out) = (plan, o);
    let try_all = |cands: Vec<Plan>, cur: &mut Plan, out: &mut Outcome| -> bool {
        match first_failing(cands, prop, class, listed, until) {
            Some((p, o)) => {
                *cur = p;
                *out = o;
                true
            }
            None => false,
        }
    };
    loop {
        let before = cur.clone();
        // Environment.
        let mut c = vec![];
        if cur.mode != Mode::Sequential {
            c.push(Plan { mode: Mode::Sequential, devs: vec![], threads: 1, hostile: 0, fine: 0, memory: 0, ..cur.clone() });
            c.push(Plan { mode: Mode::Sequential, devs: vec![], ..cur.clone() });
        }
        if cur.fine != 0 {
            c.push(Plan { fine: 0, ..cur.clone() });
        }
        if cur.memory != 0 {
            c.push(Plan { memory: 0, ..cur.clone() });
        }
        if cur.hostile != 0 {
            c.push(Plan { hostile: 0, ..cur.clone() });
        }
        for t in [1, 2, 3, 4] {
            if cur.threads > t {
                c.push(Plan { threads: t, ..cur.clone() });
            }
        }
        try_all(c, &mut cur, &mut out);
        // Operations.
        let mut size = (cur.ops.len() / 2).max(1);
        loop {
            let c = drop_chunks(&cur.ops, size).into_iter().filter(|o| !o.is_empty()).map(|ops| Plan { ops, ..cur.clone() }).collect();
            if !try_all(c, &mut cur, &mut out) {
                if size == 1 {
                    break;
                }
                size = size / 2;
            }
            if Instant::now() > until {
                break;
            }
        }
        // Arguments.
        for k in 0..cur.ops.len() {
            for j in 1..cur.ops[k].len() {
                let w = cur.ops[k][j].clone();
                let mut alts: Vec<String> = vec![];
                if let Ok(x) = w.parse::<u64>() {
                    for y in [0, 1, 2, x / 16, x / 2, x.saturating_sub(1)] {
                        if y < x && !alts.contains(&y.to_string()) {
                            alts.push(y.to_string());
                        }
                    }
                } else if w.ends_with("/bls12-381") {
                    alts.push(w.replace("bls12-381", "toy"));
                }
                let c: Vec<Plan> = alts
                    .into_iter()
                    .map(|a| {
                        let mut p = cur.clone();
                        p.ops[k][j] = a;
                        p
                    })
                    .collect();
                if !c.is_empty() && Instant::now() < until {
                    try_all(c, &mut cur, &mut out);
                }
            }
        }
        if cur == before || Instant::now() > until {
            break;
        }
    }
    // The schedule: from the recorded decisions, as few deviations from the default as possible.
    if cur.mode != Mode::Sequential && !out.devs.is_empty() && out.devs.len() < 100_000 {
        let c = Plan { mode: Mode::Replay, devs: out.devs.clone(), ..cur.clone() };
        if try_all(vec![c], &mut cur, &mut out) {
            let mut size = (cur.devs.len() / 2).max(1);
            while !cur.devs.is_empty() && Instant::now() < until {
                let c = drop_chunks(&cur.devs, size).into_iter().map(|devs| Plan { devs, ..cur.clone() }).collect();
                if !try_all(c, &mut cur, &mut out) {
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
                size = size.min(cur.devs.len().max(1));
            }
        }
    }
    (cur, out)
}

/// Runs the plan in a newly started process; None if it could not be run.
fn fresh(path: &str) -> Option<i32> {
    let exe = std::env::current_exe().ok()?;
    std::process::Command::new(exe).arg("replay").arg(path).stdout(std::process::Stdio::null()).status().ok()?.code()
}

fn replay_text(p: &Plan, o: &Outcome, v: &(String, String)) -> String {
    let mut s = p.to_text();
    s += &format!("# violation: {}: {}\n", v.0, v.1);
    s += &format!("# schedule hash {:x}, history hash {:x}\n", o.stats.get("schedule").unwrap_or(&0), o.stats.get("history").unwrap_or(&0));
    for t in &o.trace {
        s += &format!("# {t}\n");
    }
    s
}

pub fn check(prop: &str, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n = std::env::var("RIPP_SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| gen::runs(prop, thorough));
    let limit = Duration::from_secs(if thorough { 2400 } else { 330 });
    let listed = findings(prop);
    let mut tot = Totals::default();
    let mut first: Option<(u64, Plan, Outcome, (String, String))> = None;
    let mut samples: Vec<String> = vec![];
    let stop_at = std::cell::Cell::new(u64::MAX);
    let mut i = 0;
    sweep(
        || {
            if i >= n || i > stop_at.get() {
                return None;
            }
            i += 1;
            Some((i - 1, gen::plan(prop, thorough, seed, i - 1)))
        },
        |i, p, o| {
            if let Some(v) = failing(prop, &o, &listed) {
                if i < stop_at.get() {
                    stop_at.set(i);
                    first = Some((i, p.clone(), o.clone(), v));
                }
            }
            if i < 3 || (i < 200 && i % 67 == 0) {
                let mut s = p.to_text();
                s += &format!("# run {i}: steps {}, trace of {} events, last: {}\n", o.stats.get("steps").unwrap_or(&0), o.trace.len(), o.trace.last().cloned().unwrap_or_default());
                samples.push(s);
            }
            tot.add(p, &o, prop);
            true
        },
        t0 + limit,
    );
    if std::env::var("RIPP_SIM_VERBOSE").is_ok() {
        eprintln!("{:#?}\n{:#?}\nforeign {:?}\nvoids {:?}\nstats {:?}", tot.probes, tot.faults, tot.foreign, tot.voids, tot.stats);
    }
    let search_s = t0.elapsed().as_secs_f64();
    for (name, (cnt, what)) in &tot.known {
        if let Some(d) = listed.get(name) {
            println!("KNOWN-FINDING: property={prop} {name}: {d} (seen in {cnt} runs, e.g. {what})");
        }
    }
    let mut code = 0;
    if let Some((i, p, o, v)) = first {
        let budget = Duration::from_secs(if thorough { 300 } else { 100 });
        println!("run {i} violates {prop}: {}: {}", v.0, v.1);
        let (mut mp, mut mo) = minimise(p.clone(), o.clone(), prop, &v.0, &listed, Instant::now() + budget);
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{prop}-seed{seed}.replay");
        let mut mv = failing(prop, &mo, &listed).unwrap_or(v.clone());
        std::fs::write(&path, replay_text(&mp, &mo, &mv)).expect("replay file");
        if fresh(&path) != Some(1) {
            // Fall back on the unminimised plan.
            mp = p;
            mo = o;
            mv = v;
            std::fs::write(&path, replay_text(&mp, &mo, &mv)).expect("replay file");
            if fresh(&path) != Some(1) {
                println!("note: the replay did not show the violation again in a new process");
            }
        }
        println!("minimised to {} operations, {} schedule deviations: {}", mp.ops.len(), mp.devs.len(), mv.1);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    } else {
        for name in listed.keys() {
            if !tot.known.contains_key(name) {
                println!("note: listed finding {name} did not appear in this run");
            }
        }
        println!("{prop}: no violation in {} runs ({} void), {:.1} s", tot.runs, tot.void, search_s);
    }
    if tot.runs > 20 && tot.void * 2 > tot.runs && code == 0 {
        println!("note: more than half of the runs could not be set up; see the other properties' checks");
    }
    evidence(prop, thorough, seed, n, &tot, &samples, search_s, t0.elapsed().as_secs_f64(), code);
    code
}

pub fn replay(path: &str) -> i32 {
    let Some(p) = std::fs::read_to_string(path).ok().and_then(|t| Plan::from_text(&t)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let listed = findings(&p.prop);
    let o = ctx::run_one(&p, gen::run);
    for t in &o.trace {
        println!("{t}");
    }
    for v in &o.violations {
        println!("{}: {}", v.0, v.1);
    }
    if let Some(v) = &o.void {
        println!("void: {v}");
    }
    println!("schedule hash {:x}, history hash {:x}, steps {}", o.stats.get("schedule").unwrap_or(&0), o.stats.get("history").unwrap_or(&0), o.stats.get("steps").unwrap_or(&0));
    match failing(&p.prop, &o, &listed) {
        Some(_) => {
            println!("VIOLATION property={} replay={path}", p.prop);
            1
        }
        None => 0,
    }
}

/// Every plan twice: the two executions must be the same, event for event.
pub fn determinism(prop: &str, seed: u64, n: u64) -> i32 {
    let mut sums = vec![];
    for round in 0..3 {
        let mut m: BTreeMap<u64, u64> = BTreeMap::new();
        let mut devs: BTreeMap<u64, Plan> = BTreeMap::new();
        let mut i = 0;
        sweep(
            || {
                if i >= n {
                    return None;
                }
                i += 1;
                let mut p = gen::plan(prop, false, seed, i - 1);
                if round == 2 {
                    // Third round: replay from the recorded decisions.
                    let o = ctx::run_one(&p, gen::run);
                    p.devs = o.devs;
                    p.mode = Mode::Replay;
                }
                Some((i - 1, p))
            },
            |i, p, o| {
                m.insert(i, mix(&[o.stats.get("schedule").copied().unwrap_or(0), o.stats.get("history").copied().unwrap_or(0), o.stats.get("steps").copied().unwrap_or(0)]));
                devs.insert(i, p.clone());
                true
            },
            Instant::now() + Duration::from_secs(3000),
        );
        sums.push(m);
    }
    let bad: Vec<u64> = sums[0].keys().filter(|k| sums[0][k] != sums[1][k] || sums[0][k] != sums[2][k]).cloned().collect();
    let again: Vec<u64> = sums[0].keys().filter(|k| sums[0][k] != sums[1][k]).cloned().collect();
    println!("{prop}: {} plans, {} differ when run again, {} differ on replay: {:?}", sums[0].len(), again.len(), bad.len(), &bad[..bad.len().min(10)]);
    (!bad.is_empty()) as i32
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
fn obj<K: ToString>(m: &BTreeMap<K, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(&k.to_string()), v)).collect::<Vec<_>>().join(", "))
}

fn evidence(prop: &str, thorough: bool, seed: u64, planned: u64, t: &Totals, samples: &[String], search_s: f64, wall: f64, code: i32) {
    let st = |k: &str| t.stats.get(k).copied().unwrap_or(0);
    let mut c = vec![];
    c.push(format!("\"evaluations\": {}", t.runs));
    c.push(format!("\"distinct_nontrivial\": {}", t.nontrivial.len()));
    c.push(format!("\"rule\": {}", js(gen::rule(prop))));
    c.push(format!("\"samples\": [{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    c.push(format!("\"planned_runs\": {planned}"));
    c.push(format!("\"void_runs\": {}", t.void));
    c.push(format!("\"runs_per_hour\": {}", (t.runs as f64 * 3600.0 / search_s.max(0.001)) as u64));
    c.push(format!("\"simulated_seconds\": {:.3}", st("sim_us") as f64 / 1e6));
    c.push(format!("\"scheduling_steps\": {}", st("steps")));
    c.push(format!("\"context_switches\": {}", st("switches")));
    c.push(format!("\"preemptions\": {}", st("preemptions")));
    c.push(format!("\"simulated_threads\": {}", st("threads")));
    c.push(format!("\"seam_operations\": {}", st("ops")));
    c.push(format!("\"challenge_hashes\": {}", st("digests")));
    c.push(format!("\"runs_with_faults\": {}", t.faulty_runs));
    c.push(format!("\"faults_injected\": {}", obj(&t.faults)));
    c.push(format!("\"distinct_interleavings\": {}", t.schedules.len()));
    c.push(format!("\"distinct_histories\": {}", t.histories.len()));
    c.push(format!("\"distinct_schedule_history_pairs\": {}", t.states.len()));
    c.push(format!("\"measure\": {}", js("interleaving: hash of every (step, thread) hand-over of the run; history: hash of every recorded event with its simulated time and thread")));
    c.push(format!("\"schedule_policies\": {}", obj(&t.policies)));
    c.push(format!("\"pool_threads\": {}", obj(&t.threads)));
    c.push(format!("\"scenarios\": {}", obj(&t.scenarios)));
    c.push(format!("\"sessions_by_family\": {}", obj(&t.families)));
    c.push(format!("\"observations\": {}", obj(&t.probes)));
    c.push(format!("\"other_properties_observations\": {}", obj(&t.foreign)));
    c.push(format!(
        "\"known_findings_seen\": {}",
        obj(&t.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>())
    ));
    c.push(format!("\"real_components\": {}", js("all code of ark-inner-products, ark-dh-commitments, ark-ip-proofs, ark-sipp (built from /repo's working tree with --cfg ripp_sim); ark-ec, ark-ff, ark-poly, ark-serialize, ark-groth16, rayon, crossbeam, std's synchronisation; BLS12-381 in the runs whose sessions name it")));
    c.push(format!("\"stub_components\": {}", js("thread scheduler, clock, timers, operating-system randomness and futexes (seams at the C library boundary); network, disks, process crashes (simulated); the pairing group of runs named toy (discrete logarithms over the BLS12-381 scalar field, same traits); digests are real Blake2 except for injected unusable answers")));
    let ass = gen::assumptions(prop);
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(prop),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        c.join(",\n  "),
        ass.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall,
        code
    );
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{prop}.json"), s).expect("evidence file");
    let _ = BTreeSet::<u64>::new();
}

/// Compares a run with its replay (for debugging the simulator).
pub fn compare(prop: &str, seed: u64, i: u64) -> i32 {
    let p = gen::plan(prop, false, seed, i);
    let a = ctx::run_one(&p, gen::run);
    let q = Plan { mode: Mode::Replay, devs: a.devs.clone(), ..p.clone() };
    let b = ctx::run_one(&q, gen::run);
    println!("{} {} decisions, {:?}\n{} {:?}", p.threads, a.devs.len(), a.stats, b.devs.len(), b.stats);
    println!("{:?}", a.devs.iter().zip(&b.devs).position(|(x, y)| x != y).map(|k| (k, a.devs[k.saturating_sub(2)..(k + 3).min(a.devs.len())].to_vec(), b.devs[k.saturating_sub(2)..(k + 3).min(b.devs.len())].to_vec())));
    for (x, y) in a.trace.iter().zip(&b.trace) {
        if x != y {
            println!("{x}\n{y}");
            break;
        }
    }
    0
}
