//! A plan is everything one simulated run depends on besides the code: workload, faults, schedule.
//! It is also the replay file.
use crate::simrt::Mode;

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub scenario: String,
    /// Workload values (keys, witnesses, points).
    pub seed: u64,
    /// Threads of the process-wide pool.
    pub threads: u64,
    /// One in `hostile` digests is unusable (0: none).
    pub hostile: u64,
    /// One in `fine` allocations of library code is a scheduling point (0: none).
    pub fine: u64,
    /// What becomes of released memory: 0 the system's way, 1 it stays away, 2 it comes back at once.
    pub memory: u64,
    pub mode: Mode,
    pub sched_seed: u64,
    pub devs: Vec<(u64, u32)>,
    pub ops: Vec<Vec<String>>,
}

pub fn op(words: &[&dyn std::fmt::Display]) -> Vec<String> {
    words.iter().map(|w| w.to_string()).collect()
}
#[macro_export]
macro_rules! op {
    ($($w:expr),* $(,)?) => { $crate::plan::op(&[$(&$w),*]) };
}

pub fn num(o: &[String], i: usize) -> u64 {
    o.get(i).and_then(|x| x.parse().ok()).unwrap_or(0)
}
pub fn word(o: &[String], i: usize) -> &str {
    o.get(i).map(|x| x.as_str()).unwrap_or("")
}

impl Plan {
    pub fn new(prop: &str, scenario: &str) -> Plan {
        Plan {
            prop: prop.into(),
            scenario: scenario.into(),
            seed: 0,
            threads: 1,
            hostile: 0,
            fine: 0,
            memory: 0,
            mode: Mode::Sequential,
            sched_seed: 0,
            devs: vec![],
            ops: vec![],
        }
    }
    pub fn ops_named<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Vec<String>> + 'a {
        self.ops.iter().filter(move |o| o[0] == name)
    }
    pub fn find(&self, name: &str) -> Option<&Vec<String>> {
        self.ops.iter().find(|o| o[0] == name)
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += &format!("property {}\nscenario {}\nseed {}\nthreads {}\nhostile {}\nfine {}\nmemory {}\n", self.prop, self.scenario, self.seed, self.threads, self.hostile, self.fine, self.memory);
        let m = match &self.mode {
            Mode::Random { gap } => format!("random {gap}"),
            Mode::Pct { d, horizon } => format!("pct {d} {horizon}"),
            Mode::Sequential => "sequential".into(),
            Mode::Starve { victim, gap } => format!("starve {victim} {gap}"),
            Mode::Replay => "replay".into(),
        };
        s += &format!("schedule {m}\nschedule-seed {}\n", self.sched_seed);
        for d in &self.devs {
            s += &format!("switch {} {}\n", d.0, d.1);
        }
        for o in &self.ops {
            s += &format!("op {}\n", o.join(" "));
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Plan> {
        let mut p = Plan::new("", "");
        for l in t.lines() {
            let w: Vec<String> = l.split_whitespace().map(|x| x.to_string()).collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            match w[0].as_str() {
                "property" => p.prop = w.get(1)?.clone(),
                "scenario" => p.scenario = w.get(1)?.clone(),
                "seed" => p.seed = num(&w, 1),
                "threads" => p.threads = num(&w, 1),
                "fine" => p.fine = num(&w, 1),
                "memory" => p.memory = num(&w, 1),
                "hostile" => p.hostile = num(&w, 1),
                "schedule-seed" => p.sched_seed = num(&w, 1),
                "switch" => p.devs.push((num(&w, 1), num(&w, 2) as u32)),
                "schedule" => {
                    p.mode = match word(&w, 1) {
                        "random" => Mode::Random { gap: num(&w, 2) as u32 },
                        "pct" => Mode::Pct { d: num(&w, 2) as u32, horizon: num(&w, 3) as u32 },
                        "starve" => Mode::Starve { victim: num(&w, 2) as u32, gap: num(&w, 3) as u32 },
                        "replay" => Mode::Replay,
                        _ => Mode::Sequential,
                    }
                }
                "op" => p.ops.push(w[1..].to_vec()),
                _ => return None,
            }
        }
        if p.prop.is_empty() || p.ops.iter().any(|o| o.is_empty()) {
            return None;
        }
        Some(p)
    }
}
