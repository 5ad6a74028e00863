//! Runs many simulated executions, finds violations, minimises and replays
//! them, and writes what was covered.

use crate::bank::Fnv;
use crate::json::J;
use crate::rng::Rng;
use crate::step::Step;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Parameters of one execution.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cfg(pub BTreeMap<String, u64>);

impl Cfg {
    pub fn set(&mut self, k: &str, v: u64) {
        self.0.insert(k.to_string(), v);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Every listed property this breaks.
    pub properties: Vec<&'static str>,
    /// Class, what minimisation holds on to.
    pub kind: String,
    pub detail: String,
}

/// Counters of one execution, merged over all of them.
#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub steps: u64,
    pub txs: u64,
    pub txs_ok: u64,
    pub slots: u64,
    /// Hash over everything observable that happened, in order.
    pub log: Fnv,
    pub trace: Option<Vec<String>>,
    /// Oracle evaluations.
    pub checks: u64,
}

impl Stats {
    pub fn hit(&mut self, what: &'static str) {
        *self.counters.entry(what).or_default() += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_default() += n;
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        if self.states.len() < 4_000_000 {
            self.states.extend(o.states);
        }
        self.steps += o.steps;
        self.txs += o.txs;
        self.txs_ok += o.txs_ok;
        self.slots += o.slots;
        self.checks += o.checks;
    }
}

pub trait World: Sized {
    const NAME: &'static str;
    fn config(rng: &mut Rng, focus: &str) -> Cfg;
    fn new(cfg: &Cfg) -> Self;
    /// Draws what happens next.
    fn gen(&mut self, rng: &mut Rng) -> Step;
    /// Makes it happen. Has to cope with any step in any state.
    fn exec(&mut self, step: &Step, stats: &mut Stats) -> Vec<Violation>;
    /// Faults stop, everyone leaves.
    fn finish(&mut self, stats: &mut Stats) -> Vec<Violation>;
    fn slots(&self) -> u64;
}

pub struct Plan {
    pub property: &'static str,
    /// Runs in the quick and thorough tier.
    pub runs: (u64, u64),
    /// Steps per run, at most.
    pub steps: u64,
    /// Counters which have to be above zero for the batch to mean anything.
    pub probes: &'static [&'static str],
    pub rule: &'static str,
}

pub struct App {
    pub plans: Vec<Plan>,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Known findings: property, title, replay text.
    pub known: Vec<Known>,
}

pub struct Known {
    pub property: String,
    pub title: String,
    pub kind: String,
    pub replay: PathBuf,
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

fn is_of(v: &Violation, property: &str) -> bool {
    property == "any" || v.properties.iter().any(|p| *p == property)
}

pub struct RunResult {
    pub scenario: Scenario,
    pub violation: Option<Violation>,
    pub stats: Stats,
}

/// One execution from its seed.
pub fn run_seed<W: World>(seed: u64, property: &str, max_steps: u64, trace: bool) -> RunResult {
    let mut rng = Rng::new(seed);
    let mut cfg = W::config(&mut rng, property);
    cfg.0.entry("steps".into()).or_insert_with(|| rng.range(max_steps / 4, max_steps));
    let mut world = W::new(&cfg);
    let mut stats = Stats { trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
    let mut steps = vec![];
    let mut violation = None;
    for _ in 0..cfg.get("steps") {
        // nothing sensible is left to be drawn: the end of the run decides
        let step = match catch_unwind(AssertUnwindSafe(|| world.gen(&mut rng))) {
            Ok(step) => step,
            Err(_) => {
                stats.hit("probe.cut_short");
                break;
            }
        };
        steps.push(step.clone());
        let vs = do_step(&mut world, &step, &mut stats, property);
        if let Some(v) = vs.into_iter().find(|v| is_of(v, property)) {
            violation = Some(v);
            break;
        }
    }
    if violation.is_none() {
        let vs = catch_unwind(AssertUnwindSafe(|| world.finish(&mut stats)))
            .unwrap_or_else(|e| beyond_model(e, property));
        violation = vs.into_iter().find(|v| is_of(v, property));
    }
    stats.slots = world.slots();
    RunResult { scenario: Scenario { cfg, steps }, violation, stats }
}

/// Accounts which no history of the reference model leads to are a violation,
/// too, even if judging them goes wrong.
fn beyond_model(panic: Box<dyn std::any::Any + Send>, property: &str) -> Vec<Violation> {
    let what = (panic.downcast_ref::<String>().cloned())
        .or_else(|| panic.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    vec![Violation {
        properties: vec![Box::leak(property.to_string().into_boxed_str())],
        kind: "beyond-the-model".into(),
        detail: format!("accounts the model has no meaning for: {what}"),
    }]
}

fn do_step<W: World>(
    world: &mut W, step: &Step, stats: &mut Stats, property: &str,
) -> Vec<Violation> {
    stats.steps += 1;
    stats.trace(|| format!("> {step}"));
    let vs = catch_unwind(AssertUnwindSafe(|| world.exec(step, stats)))
        .unwrap_or_else(|e| beyond_model(e, property));
    stats.log.bytes(step.to_string().as_bytes());
    vs
}

/// One execution from its recorded steps; no randomness involved.
pub fn run_steps<W: World>(sc: &Scenario, property: &str, trace: bool) -> RunResult {
    let mut world = W::new(&sc.cfg);
    let mut stats = Stats { trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
    let mut violation = None;
    let mut used = 0;
    for step in &sc.steps {
        used += 1;
        let vs = do_step(&mut world, step, &mut stats, property);
        if let Some(v) = vs.into_iter().find(|v| is_of(v, property)) {
            violation = Some(v);
            break;
        }
    }
    if violation.is_none() {
        let vs = catch_unwind(AssertUnwindSafe(|| world.finish(&mut stats)))
            .unwrap_or_else(|e| beyond_model(e, property));
        violation = vs.into_iter().find(|v| is_of(v, property));
    }
    stats.slots = world.slots();
    RunResult {
        scenario: Scenario { cfg: sc.cfg.clone(), steps: sc.steps[..used].to_vec() },
        violation,
        stats,
    }
}

/// Drops steps, then faults, then shrinks arguments, while the same kind of
/// violation of the same property persists.
pub fn minimise<W: World>(sc: Scenario, property: &str, kind: &str) -> Scenario {
    let mut best = sc;
    let mut budget = 4000u32;
    let started = Instant::now();
    let fails = |s: &Scenario, budget: &mut u32| -> Option<Scenario> {
        if *budget == 0 || started.elapsed().as_secs() > 60 {
            return None;
        }
        *budget -= 1;
        let r = run_steps::<W>(s, property, false);
        match r.violation {
            Some(v) if v.kind == kind => Some(r.scenario),
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        // chunks of steps
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                let mut s = best.clone();
                let hi = (i + chunk).min(s.steps.len());
                s.steps.drain(i..hi);
                match fails(&s, &mut budget) {
                    Some(s) => best = s,
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // faults
        for i in 0..best.steps.len() {
            let mut f = 0;
            while i < best.steps.len() && f < best.steps[i].faults.len() {
                let mut s = best.clone();
                s.steps[i].faults.remove(f);
                match fails(&s, &mut budget) {
                    Some(s) => best = s,
                    None => f += 1,
                }
            }
        }
        // arguments
        for i in 0..best.steps.len() {
            let n = best.steps.get(i).map_or(0, |s| s.args.len());
            for a in 0..n {
                if i >= best.steps.len() {
                    break;
                }
                let v = best.steps[i].args[a];
                let mut round = 1u64;
                while round <= v / 10 {
                    round *= 10;
                }
                let mut cands = vec![0, 1, round, v / 2, v - v % round.max(1), v.saturating_sub(1)];
                cands.dedup();
                for c in cands {
                    if i >= best.steps.len() || c >= best.steps[i].args[a] {
                        continue;
                    }
                    let mut s = best.clone();
                    s.steps[i].args[a] = c;
                    if let Some(s) = fails(&s, &mut budget) {
                        best = s;
                        break;
                    }
                }
            }
        }
        if best.steps == before.steps || budget == 0 {
            return best;
        }
    }
}

pub fn render_replay(
    world: &str,
    property: &str,
    seed: u64,
    run: u64,
    v: &Violation,
    sc: &Scenario,
    full: usize,
) -> String {
    let mut s = String::new();
    writeln!(s, "# {} [{}] {}", property, v.kind, v.detail.replace('\n', " ")).unwrap();
    writeln!(s, "# minimised from {full} to {} steps", sc.steps.len()).unwrap();
    writeln!(s, "world {world}").unwrap();
    writeln!(s, "property {property}").unwrap();
    writeln!(s, "kind {}", v.kind).unwrap();
    writeln!(s, "seed {seed}").unwrap();
    writeln!(s, "run {run}").unwrap();
    for (k, v) in &sc.cfg.0 {
        writeln!(s, "cfg {k} {v}").unwrap();
    }
    for st in &sc.steps {
        writeln!(s, "step {st}").unwrap();
    }
    s
}

pub struct Replay {
    pub property: String,
    pub kind: String,
    pub scenario: Scenario,
}

pub fn parse_replay(text: &str) -> Option<Replay> {
    let mut out = Replay {
        property: String::new(),
        kind: String::new(),
        scenario: Scenario { cfg: Cfg::default(), steps: vec![] },
    };
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (head, rest) = line.split_once(' ')?;
        match head {
            "property" => out.property = rest.to_string(),
            "kind" => out.kind = rest.to_string(),
            "cfg" => {
                let (k, v) = rest.split_once(' ')?;
                out.scenario.cfg.set(k, v.parse().ok()?);
            }
            "step" => out.scenario.steps.push(Step::parse(rest)?),
            _ => (),
        }
    }
    Some(out)
}

struct Batch {
    stats: Stats,
    /// Lowest run with a violation.
    first: Option<(u64, Scenario, Violation)>,
    runs: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    logs: BTreeMap<u64, u64>,
}

fn batch<W: World>(
    seed: u64,
    property: &str,
    runs: u64,
    steps: u64,
    workers: usize,
    wall_cap_s: u64,
    keep_logs: bool,
) -> Batch {
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let capped = AtomicBool::new(false);
    let out = Mutex::new(Batch {
        stats: Stats::default(),
        first: None,
        runs: 0,
        nontrivial: HashSet::new(),
        samples: vec![],
        logs: BTreeMap::new(),
    });
    let started = Instant::now();
    std::thread::scope(|scope| {
        for _ in 0..workers {
            scope.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= runs || n > stop_at.load(Ordering::SeqCst) {
                    return;
                }
                if started.elapsed().as_secs() >= wall_cap_s {
                    capped.store(true, Ordering::SeqCst);
                    return;
                }
                let r = run_seed::<W>(Rng::derive(seed, n), property, steps, false);
                let mut o = out.lock().unwrap();
                o.runs += 1;
                if keep_logs {
                    o.logs.insert(n, r.stats.log.0);
                }
                // a run counts as distinct and non-trivial by what it did
                if r.stats.txs_ok >= 5 && r.stats.checks > 0 {
                    o.nontrivial.insert(r.stats.log.0);
                }
                if n < 2 {
                    let mut s = format!("run {n}: cfg {:?}; ", r.scenario.cfg.0);
                    for st in r.scenario.steps.iter().take(25) {
                        write!(s, "{st}; ").unwrap();
                    }
                    s.push_str("...");
                    o.samples.push(s);
                }
                if let Some(v) = r.violation {
                    stop_at.fetch_min(n, Ordering::SeqCst);
                    if o.first.as_ref().map_or(true, |(m, _, _)| n < *m) {
                        o.first = Some((n, r.scenario, v));
                    }
                }
                o.stats.merge(r.stats);
            });
        }
    });
    let mut b = out.into_inner().unwrap();
    b.samples.sort();
    if capped.load(Ordering::SeqCst) {
        b.stats.hit("batch.wall_cap_reached");
    }
    b
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// The command line of a simulator. Returns the exit status.
pub fn main<W: World>(app: App) -> i32 {
    crate::bank::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") => check::<W>(&app, &args[1..]),
        Some("replay") => replay::<W>(&args[1..]),
        Some("digest") => digest::<W>(&app, &args[1..]),
        Some("trace") => trace::<W>(&app, &args[1..]),
        Some("hunt") => hunt::<W>(&app, &args[1..]),
        _ => {
            eprintln!("check --property ID | replay FILE | digest | trace | hunt");
            2
        }
    }
}

fn workers(args: &[String]) -> usize {
    arg(args, "--workers")
        .and_then(|w| w.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

fn seed_of(args: &[String]) -> u64 {
    arg(args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn check<W: World>(app: &App, args: &[String]) -> i32 {
    let started = Instant::now();
    let property = match arg(args, "--property") {
        Some(p) => p,
        None => return 2,
    };
    let plan = match app.plans.iter().find(|p| p.property == property) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {property}");
            return 2;
        }
    };
    let tier = arg(args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = seed_of(args);
    println!("seed {seed} tier {tier} property {property}");
    let runs = arg(args, "--runs").and_then(|r| r.parse().ok()).unwrap_or(if thorough {
        plan.runs.1
    } else {
        plan.runs.0
    });
    let evidence = PathBuf::from(arg(args, "--evidence").unwrap_or_else(|| "evidence".into()));
    let replays = PathBuf::from(arg(args, "--replays").unwrap_or_else(|| "replays".into()));
    let _ = std::fs::create_dir_all(&replays);
    let _ = std::fs::create_dir_all(&evidence);
    let cap = if thorough { 3 * 3600 } else { 150 };

    // what is known to fail, first: it has to fail exactly the way it is
    // listed
    let mut known_lines = 0;
    for k in app.known.iter().filter(|k| k.property == property) {
        let text = match std::fs::read_to_string(&k.replay) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{}: {e}", k.replay.display());
                return 2;
            }
        };
        let r = match parse_replay(&text) {
            Some(r) => r,
            None => return 2,
        };
        let res = run_steps::<W>(&r.scenario, &property, false);
        if res.stats.counters.keys().any(|c| **c == *k.kind) {
            println!("KNOWN-FINDING: property={property} {}", k.title);
            known_lines += 1;
        }
    }

    let b = batch::<W>(seed, &property, runs, plan.steps, workers(args), cap, false);
    let mut status = 0;
    let mut violations = 0;
    let mut minimised = None;
    if let Some((n, sc, v)) = &b.first {
        violations = 1;
        let small = minimise::<W>(sc.clone(), &property, &v.kind);
        let again = run_steps::<W>(&small, &property, false);
        let (small, v2) = match again.violation {
            Some(v2) => (again.scenario, v2),
            None => {
                eprintln!("not reproduced from its own steps");
                (sc.clone(), v.clone())
            }
        };
        let path = replays.join(format!("{property}-{seed}-{n}.replay"));
        let text = render_replay(W::NAME, &property, seed, *n, &v2, &small, sc.steps.len());
        if let Err(e) = std::fs::write(&path, &text) {
            eprintln!("{}: {e}", path.display());
            return 2;
        }
        let fresh = std::env::current_exe().ok().and_then(|exe| {
            std::process::Command::new(exe).arg("replay").arg(&path).output().ok()
        });
        let confirmed = fresh.map_or(false, |o| o.status.code() == Some(1));
        println!("run {n} (seed {}) [{}] {}", Rng::derive(seed, *n), v2.kind, v2.detail);
        println!("replayed in a fresh process: {confirmed}");
        println!("VIOLATION property={property} replay={}", path.display());
        minimised = Some(text);
        status = 1;
    }

    let wall = started.elapsed().as_secs_f64();
    let mut stale = vec![];
    if b.first.is_none() && runs >= plan.runs.0 {
        for p in plan.probes {
            if b.stats.counters.get(p).copied().unwrap_or(0) == 0 {
                stale.push(p.to_string());
            }
        }
    }
    write_evidence::<W>(
        app, plan, &evidence, &property, &tier, seed, &b, wall, violations, known_lines, &stale,
        minimised,
    );
    println!(
        "{} runs, {} steps, {} transactions ({} ok), {} distinct states, {:.1} s",
        b.runs,
        b.stats.steps,
        b.stats.txs,
        b.stats.txs_ok,
        b.stats.states.len(),
        wall
    );
    if !stale.is_empty() {
        // reported, never an alarm
        println!("probes never hit: {}", stale.join(" "));
    }
    status
}

#[allow(clippy::too_many_arguments)]
fn write_evidence<W: World>(
    app: &App,
    plan: &Plan,
    dir: &Path,
    property: &str,
    tier: &str,
    seed: u64,
    b: &Batch,
    wall: f64,
    violations: u64,
    known: u64,
    stale: &[String],
    minimised: Option<String>,
) {
    let group = |prefix: &str| {
        J::O(b
            .stats
            .counters
            .iter()
            .filter(|(k, _)| k.starts_with(prefix))
            .map(|(k, v)| (k[prefix.len()..].to_string(), J::N(*v)))
            .collect())
    };
    let per_hour = |n: u64| J::N((n as f64 * 3600.0 / wall.max(0.001)) as u64);
    let mut coverage = vec![
        ("evaluations", J::N(b.runs)),
        ("distinct_nontrivial", J::N(b.nontrivial.len() as u64)),
        (
            "rule",
            J::s(format!(
                "{} A run is one seed: its configuration, every client action, delay, loss, \
                 reordering, abort, clock jump and fork is drawn from it. Non-trivial: at least \
                 five transactions took effect and were judged. Distinct: the hash over its \
                 steps, transaction outcomes and resulting accounts differs from all others.",
                plan.rule
            )),
        ),
        ("samples", J::strs(&b.samples)),
        ("oracle_evaluations", J::N(b.stats.checks)),
        ("runs_per_hour", per_hour(b.runs)),
        ("first_seed", J::N(Rng::derive(seed, 0))),
        ("steps", J::N(b.stats.steps)),
        ("transactions", J::N(b.stats.txs)),
        ("transactions_ok", J::N(b.stats.txs_ok)),
        ("transactions_per_hour", per_hour(b.stats.txs)),
        ("simulated_slots", J::N(b.stats.slots)),
        ("simulated_days", J::F(b.stats.slots as f64 * 0.4 / 86_400.0)),
        ("distinct_states", J::N(b.stats.states.len() as u64)),
        (
            "distinct_states_measure",
            J::s("hash of the bucketed program state (accounts in use, phase of schedules, lag \
                  of each participant, order of magnitude of balances) together with the last \
                  action and its outcome"),
        ),
        ("faults_fired", group("fault.")),
        ("actions", group("op.")),
        ("probes", group("probe.")),
        ("probes_never_hit", J::strs(stale)),
        ("known_findings_reproduced", J::N(known)),
        ("real_components", J::strs(app.real)),
        ("stub_components", J::strs(app.stubs)),
    ];
    if let Some(m) = minimised {
        coverage.push(("minimised_violation", J::s(m)));
    }
    if b.stats.counters.contains_key("batch.wall_cap_reached") {
        coverage.push(("note", J::s("stopped early: wall clock cap of the batch")));
    }
    let j = J::o(vec![
        ("property", J::s(property)),
        ("tier", J::s(tier)),
        ("seed", J::N(seed)),
        ("level", J::s("exploration")),
        ("coverage", J::o(coverage)),
        ("assumptions", J::strs(app.assumptions)),
        ("wall_s", J::F(wall)),
        ("violations", J::N(violations)),
    ]);
    let mut text = String::new();
    j.render(0, &mut text);
    text.push('\n');
    let _ = std::fs::write(dir.join(format!("{property}.json")), text);
}

fn replay<W: World>(args: &[String]) -> i32 {
    let path = match args.first() {
        Some(p) => p,
        None => return 2,
    };
    let r = match std::fs::read_to_string(path).ok().and_then(|t| parse_replay(&t)) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let verbose = args.iter().any(|a| a == "--trace");
    let res = run_steps::<W>(&r.scenario, &r.property, verbose);
    for l in res.stats.trace.iter().flatten() {
        println!("{l}");
    }
    println!("digest {:016x}", res.stats.log.0);
    match res.violation {
        Some(v) => {
            println!("[{}] {}", v.kind, v.detail);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            if verbose {
                for (k, n) in &res.stats.counters {
                    println!("{k} {n}");
                }
            }
            println!("no violation");
            0
        }
    }
}

/// Prints one line per run, to compare executions of the same seeds.
fn digest<W: World>(app: &App, args: &[String]) -> i32 {
    let property = arg(args, "--property").unwrap_or_else(|| app.plans[0].property.into());
    let plan = match app.plans.iter().find(|p| p.property == property) {
        Some(p) => p,
        None => return 2,
    };
    let runs = arg(args, "--runs").and_then(|r| r.parse().ok()).unwrap_or(100);
    let b =
        batch::<W>(seed_of(args), &property, runs, plan.steps, workers(args), u64::MAX, true);
    for (n, h) in &b.logs {
        println!("{n} {h:016x}");
    }
    0
}

/// A short search for violations of every property, without minimising them.
fn hunt<W: World>(app: &App, args: &[String]) -> i32 {
    let runs = arg(args, "--runs").and_then(|r| r.parse().ok()).unwrap_or(1000);
    let mut found = 0;
    for plan in &app.plans {
        let b = batch::<W>(
            seed_of(args), plan.property, runs, plan.steps, workers(args), u64::MAX, false,
        );
        if let Some((n, _, v)) = b.first {
            println!("{} run {n} [{}] {}", plan.property, v.kind, v.detail);
            found = 1;
        }
    }
    found
}

/// Prints one run.
fn trace<W: World>(app: &App, args: &[String]) -> i32 {
    let property = arg(args, "--property").unwrap_or_else(|| "any".into());
    let steps =
        app.plans.iter().find(|p| p.property == property).map_or(100, |p| p.steps);
    let n = arg(args, "--run").and_then(|r| r.parse().ok()).unwrap_or(0);
    let r = run_seed::<W>(Rng::derive(seed_of(args), n), &property, steps, true);
    println!("cfg {:?}", r.scenario.cfg.0);
    for l in r.stats.trace.iter().flatten() {
        println!("{l}");
    }
    for (k, v) in &r.stats.counters {
        println!("{k} {v}");
    }
    if let Some(v) = r.violation {
        println!("{v:?}");
        return 1;
    }
    0
}

/// Reads the committed list. Lines which start with `finding:` are live:
/// `finding: property=<id> counter=<counter> replay=<path> <title>`.
pub fn known_findings(path: &str) -> Vec<Known> {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut out = vec![];
    for line in text.lines() {
        let rest = match line.trim().strip_prefix("finding: ") {
            Some(r) => r,
            None => continue,
        };
        let mut parts = rest.splitn(4, ' ');
        let mut field = |name: &str| {
            parts.next().and_then(|p| p.strip_prefix(name)).map(|s| s.to_string())
        };
        if let (Some(property), Some(kind), Some(replay)) =
            (field("property="), field("counter="), field("replay="))
        {
            let title = parts.next().unwrap_or("").to_string();
            out.push(Known { property, title, kind, replay: PathBuf::from(replay) });
        }
    }
    out
}
