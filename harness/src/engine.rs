//! Exhaustive breadth-first exploration with state deduplication, replay, known findings and evidence.
use crate::world::quiet;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A violation: `key` names what fails (used by the known-findings file), `msg` explains this instance.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
impl From<String> for Viol {
    fn from(msg: String) -> Self {
        Viol { key: "other".into(), msg }
    }
}
pub fn viol<T>(key: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! vensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Viol { key: ($key).into(), msg: format!($($a)*) }); } };
}

/// Outcome counters of one exploration (how often each kind of outcome was seen).
#[derive(Default, Clone)]
pub struct Cov(pub BTreeMap<String, u64>, pub Vec<Viol>);
impl Cov {
    pub fn hit(&mut self, k: &str) {
        if let Some(x) = self.0.get_mut(k) {
            *x += 1
        } else {
            self.0.insert(k.to_string(), 1);
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.0.entry(k.to_string()).or_default() += n;
    }
    /// reports a violation without giving up the state: used for recorded findings, whose states stay explored
    pub fn soft(&mut self, key: &str, msg: impl Into<String>) {
        self.1.push(Viol { key: key.into(), msg: msg.into() });
    }
    fn merge(&mut self, o: &Cov) {
        for (k, v) in &o.0 {
            *self.0.entry(k.clone()).or_default() += v;
        }
    }
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type Op: Clone + Send + Sync + Serialize + DeserializeOwned + Debug;
    fn name(&self) -> String;
    fn init(&self) -> Self::S;
    fn ops(&self, s: &Self::S, depth: usize) -> Vec<Self::Op>;
    /// Some(next state), or None when nothing changed (refused as expected)
    fn step(&self, s: &Self::S, op: &Self::Op, cov: &mut Cov) -> Result<Option<Self::S>, Viol>;
    /// two states with the same fingerprint have the same future
    fn fp(&self, s: &Self::S) -> u128;
    /// two states with the same full fingerprint cannot be told apart by `check`
    fn full(&self, s: &Self::S) -> u128 {
        self.fp(s)
    }
    /// checked once in every distinct (in full) reachable state
    fn check(&self, _s: &Self::S, _cov: &mut Cov) -> Result<(), Viol> {
        Ok(())
    }
}

#[derive(Default)]
pub struct Outcome {
    pub scenario: String,
    pub states: u64,
    pub transitions: u64,
    pub depth_completed: usize,
    pub depth_bound: usize,
    pub exhausted: bool,
    pub capped: bool,
    pub cov: Cov,
    pub samples: Vec<Value>,
    pub validated: u64,
    pub violations: Vec<(Viol, Value)>,
}

pub trait Runner {
    fn name(&self) -> String;
    fn run(&self, known: &BTreeSet<String>, deadline: Instant) -> Outcome;
    fn replay(&self, ops: &Value) -> Result<Vec<String>, Viol>;
    /// explores this many operations more than planned
    fn deepen(&mut self, _: usize) {}
}
/// How many operations deeper a scenario goes than its property plans: what a quick run can afford.
fn deeper(prop: &str, scenario: &str) -> usize {
    if let Some(x) = std::env::var("MC_EXTRA").ok().and_then(|x| x.parse().ok()) {
        return x;
    }
    let f = |l: &str| {
        let mut p = l.split_whitespace();
        (p.next()? == prop && p.next()? == scenario).then(|| p.next()?.parse().ok())?
    };
    include_str!("../depths.txt").lines().find_map(f).unwrap_or(0)
}
/// A model together with its depth bound
pub struct Bounded<M: Model>(pub M, pub usize);
pub fn bounded<M: Model + 'static>(m: M, depth: usize) -> Box<dyn Runner> {
    Box::new(Bounded(m, depth))
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)
    })
}

type Found<M> = (u32, usize, <M as Model>::Op, Option<<M as Model>::S>, Option<Viol>, u128);
#[allow(clippy::too_many_arguments)]
fn bad<M: Model>(v: Viol, found: &mut Vec<Found<M>>, cov: &mut Cov, known: &BTreeSet<String>, stop: &AtomicBool, nid: u32, oi: usize, op: M::Op) {
    if !known.contains(&v.key) {
        stop.store(true, Ordering::Relaxed);
    } else {
        let k = format!("known:{}", v.key);
        cov.hit(&k);
        if cov.0[&k] > 1 {
            return;
        }
    }
    found.push((nid, oi, op, None, Some(v), 0));
}

impl<M: Model> Runner for Bounded<M> {
    fn name(&self) -> String {
        self.0.name()
    }
    fn deepen(&mut self, n: usize) {
        self.1 += n;
    }
    fn replay(&self, ops: &Value) -> Result<Vec<String>, Viol> {
        let m = &self.0;
        let ops: Vec<M::Op> = serde_json::from_value(ops.clone()).map_err(|e| e.to_string())?;
        let mut s = m.init();
        let mut cov = Cov::default();
        let mut log = vec![];
        m.check(&s, &mut cov)?;
        for op in ops {
            let r = m.step(&s, &op, &mut cov)?;
            for v in std::mem::take(&mut cov.1) {
                log.push(format!("{op:?}: [{}] {}", v.key, v.msg));
            }
            match r {
                Some(n) => {
                    s = n;
                    log.push(format!("{op:?} -> {:032x}", m.fp(&s)));
                    m.check(&s, &mut cov)?;
                }
                None => log.push(format!("{op:?} -> unchanged")),
            }
        }
        Ok(log)
    }
    fn run(&self, known: &BTreeSet<String>, deadline: Instant) -> Outcome {
        let m = &self.0;
        let mut out = Outcome { scenario: m.name(), depth_bound: self.1, ..Default::default() };
        let nshard = 64usize;
        let visited: Vec<Mutex<HashSet<u128>>> = (0..nshard).map(|_| Mutex::new(HashSet::new())).collect();
        let s0 = m.init();
        let f0 = m.fp(&s0);
        visited[(f0 as usize) % nshard].lock().unwrap().insert(f0);
        let checked: Vec<Mutex<HashSet<u128>>> = (0..nshard).map(|_| Mutex::new(HashSet::new())).collect();
        out.states = 1;
        let r0 = m.check(&s0, &mut out.cov);
        for v in std::mem::take(&mut out.cov.1) {
            out.violations.push((v, json!([])));
        }
        if let Err(v) = r0 {
            out.violations.push((v, json!([])));
            return out;
        }
        // trace tree
        let mut nodes: Vec<(u32, Option<M::Op>)> = vec![(0, None)];
        let mut frontier: Vec<(u32, M::S)> = vec![(0, s0)];
        let trace = |nodes: &Vec<(u32, Option<M::Op>)>, mut n: u32, last: Option<&M::Op>| -> Value {
            let mut t = vec![];
            if let Some(o) = last {
                t.push(serde_json::to_value(o).unwrap());
            }
            while let Some(o) = &nodes[n as usize].1 {
                t.push(serde_json::to_value(o).unwrap());
                n = nodes[n as usize].0;
            }
            t.reverse();
            Value::Array(t)
        };
        let capped = AtomicBool::new(false);
        let mut revalidate: Vec<(Value, u128)> = vec![];
        for depth in 0..self.1 {
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let results: Mutex<Vec<(Vec<Found<M>>, Cov, u64)>> = Mutex::new(vec![]);
            let nt = threads().min(frontier.len().max(1));
            let last_level = depth + 1 == self.1;
            std::thread::scope(|sc| {
                for _ in 0..nt {
                    sc.spawn(|| {
                        let mut found: Vec<Found<M>> = vec![];
                        let mut cov = Cov::default();
                        let mut trans = 0u64;
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let (nid, s) = &frontier[i];
                            for (oi, op) in m.ops(s, depth).into_iter().enumerate() {
                                trans += 1;
                                // a panic in the checker itself must not pass as silence
                                let r = match quiet(|| m.step(s, &op, &mut cov)) {
                                    Ok(r) => r,
                                    Err(e) => Err(Viol { key: "panic".into(), msg: format!("check panicked: {e}") }),
                                };
                                for v in std::mem::take(&mut cov.1) {
                                    bad::<M>(v, &mut found, &mut cov, known, &stop, *nid, oi, op.clone());
                                }
                                match r {
                                    Err(v) => bad::<M>(v, &mut found, &mut cov, known, &stop, *nid, oi, op),
                                    Ok(None) => {}
                                    Ok(Some(n)) => {
                                        let f = m.fp(&n);
                                        let fresh = visited[(f as usize) % nshard].lock().unwrap().insert(f);
                                        let g = m.full(&n);
                                        if fresh || (g != f && !checked[(g as usize) % nshard].lock().unwrap().contains(&g)) {
                                            if g != f {
                                                checked[(g as usize) % nshard].lock().unwrap().insert(g);
                                            }
                                            let c = match quiet(|| m.check(&n, &mut cov)) {
                                                Ok(r) => r,
                                                Err(e) => Err(Viol { key: "panic".into(), msg: format!("check panicked: {e}") }),
                                            };
                                            for v in std::mem::take(&mut cov.1) {
                                                bad::<M>(v, &mut found, &mut cov, known, &stop, *nid, oi, op.clone());
                                            }
                                            match c {
                                                Err(v) => bad::<M>(v, &mut found, &mut cov, known, &stop, *nid, oi, op),
                                                Ok(()) if !fresh => {}
                                                Ok(()) => found.push((*nid, oi, op, if last_level { None } else { Some(n) }, None, f)),
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        results.lock().unwrap().push((found, cov, trans));
                    });
                }
            });
            let mut all: Vec<Found<M>> = vec![];
            for (f, c, t) in results.into_inner().unwrap() {
                all.extend(f);
                out.cov.merge(&c);
                out.transitions += t;
            }
            all.sort_by_key(|x| (x.0, x.1));
            let mut nf = vec![];
            let mut fresh_n = 0u64;
            let stride = (all.len() / 24).max(1);
            for (p, _, op, st, v, f) in all {
                if let Some(v) = v {
                    let t = trace(&nodes, p, Some(&op));
                    let seen = out.violations.iter().any(|x| x.0.key == v.key);
                    if !seen {
                        out.violations.push((v, t));
                    }
                    continue;
                }
                fresh_n += 1;
                if fresh_n as usize % stride == 0 {
                    revalidate.push((trace(&nodes, p, Some(&op)), f));
                }
                if last_level {
                    if out.samples.len() < 2 {
                        out.samples.push(trace(&nodes, p, Some(&op)));
                    }
                    continue;
                }
                nodes.push((p, Some(op)));
                if let Some(st) = st {
                    nf.push((nodes.len() as u32 - 1, st));
                }
            }
            out.states += fresh_n;
            if out.violations.iter().any(|v| !known.contains(&v.0.key)) {
                break;
            }
            if capped.load(Ordering::Relaxed) {
                out.capped = true;
                break;
            }
            out.depth_completed = depth + 1;
            if fresh_n == 0 {
                out.exhausted = true;
                break;
            }
            if last_level {
                break;
            }
            frontier = nf;
        }
        // replay an even spread of the explored traces from the initial state on fresh contracts
        for (t, f) in revalidate {
            let ops: Vec<M::Op> = serde_json::from_value(t.clone()).unwrap();
            let mut s = m.init();
            for op in &ops {
                if let Ok(Some(n)) = m.step(&s, op, &mut Cov::default()) {
                    s = n;
                }
            }
            assert_eq!(m.fp(&s), f, "replaying {t} does not reproduce the explored state");
            out.validated += 1;
        }
        if out.samples.is_empty() && nodes.len() > 1 {
            out.samples.push(trace(&nodes, nodes.len() as u32 - 1, None));
        }
        out
    }
}

// ------------------------------------------------------------------ grids
/// A grid: independent cases of a finite enumeration; each is one initial state with one transition.
pub struct Grid<C, F> {
    pub name: String,
    pub cases: Vec<C>,
    pub f: F,
}
pub fn grid<C, F>(name: &str, cases: Vec<C>, f: F) -> Box<dyn Runner>
where
    C: Clone + Send + Sync + Serialize + DeserializeOwned + Debug + 'static,
    F: Fn(&C, &mut Cov) -> Result<(), Viol> + Sync + 'static,
{
    Box::new(Grid { name: name.into(), cases, f })
}
impl<C, F> Runner for Grid<C, F>
where
    C: Clone + Send + Sync + Serialize + DeserializeOwned + Debug,
    F: Fn(&C, &mut Cov) -> Result<(), Viol> + Sync,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn replay(&self, ops: &Value) -> Result<Vec<String>, Viol> {
        let c: C = serde_json::from_value(ops.clone()).map_err(|e| e.to_string())?;
        (self.f)(&c, &mut Cov::default())?;
        Ok(vec![format!("{c:?} ok")])
    }
    fn run(&self, known: &BTreeSet<String>, deadline: Instant) -> Outcome {
        let mut out = Outcome { scenario: self.name.clone(), depth_bound: 1, depth_completed: 1, exhausted: true, ..Default::default() };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let step = if self.cases.len() < 4000 { 1 } else { 16 };
        let res: Mutex<Vec<(Vec<(usize, Viol)>, Cov, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    let (mut bad, mut cov, mut n) = (vec![], Cov::default(), 0u64);
                    let mut keys: HashSet<String> = HashSet::new();
                    'outer: loop {
                        let b = next.fetch_add(step, Ordering::Relaxed);
                        if b >= self.cases.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in b..(b + step).min(self.cases.len()) {
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            n += 1;
                            let r = match quiet(|| (self.f)(&self.cases[i], &mut cov)) {
                                Ok(r) => r,
                                Err(e) => Err(Viol { key: "panic".into(), msg: format!("check panicked: {e}") }),
                            };
                            let mut all: Vec<Viol> = std::mem::take(&mut cov.1);
                            all.extend(r.err());
                            for v in all {
                                if !known.contains(&v.key) {
                                    stop.store(true, Ordering::Relaxed);
                                } else {
                                    cov.hit(&format!("known:{}", v.key));
                                }
                                if keys.insert(v.key.clone()) {
                                    bad.push((i, v));
                                }
                            }
                        }
                    }
                    res.lock().unwrap().push((bad, cov, n));
                });
            }
        });
        let mut bad = vec![];
        for (b, c, n) in res.into_inner().unwrap() {
            bad.extend(b);
            out.cov.merge(&c);
            out.transitions += n;
            out.states += n;
        }
        out.capped = capped.load(Ordering::Relaxed);
        bad.sort_by_key(|x| x.0);
        for (i, v) in bad {
            if !out.violations.iter().any(|x| x.0.key == v.key) {
                out.violations.push((v, serde_json::to_value(&self.cases[i]).unwrap()));
            }
        }
        let stride = (self.cases.len() / 24).max(1);
        let from = Instant::now();
        for c in self.cases.iter().step_by(stride) {
            if out.validated >= 3 && from.elapsed().as_secs_f64() > 1.0 {
                break;
            }
            // through the replay path: the recorded form of the case, executed again
            let v = serde_json::to_value(c).unwrap();
            let r = quiet(|| self.replay(&v));
            if matches!(r, Ok(Ok(_))) {
                out.validated += 1;
            }
            if Instant::now() > deadline {
                break;
            }
        }
        for i in [0, self.cases.len() / 2] {
            if let Some(c) = self.cases.get(i) {
                out.samples.push(serde_json::to_value(c).unwrap());
            }
        }
        out
    }
}

// ------------------------------------------------------------------ property runs
pub struct Prop {
    pub id: &'static str,
    pub scenarios: fn(thorough: bool) -> Vec<Box<dyn Runner>>,
    pub assumptions: &'static [&'static str],
}

fn root() -> std::path::PathBuf {
    std::env::var("MC_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}
pub fn known_findings() -> Vec<Known> {
    // lines: "finding: property=<id> key=<key> <what>"; "fixed: ..." lines suppress nothing
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, r) = l.split_once(" key=")?;
            let (k, w) = r.split_once(' ')?;
            Some(Known { property: p.into(), key: k.into(), what: w.into() })
        })
        .collect()
}

pub fn run_prop(p: &Prop, thorough: bool, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let budget: u64 = std::env::var("MC_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 7000 } else { 420 });
    let deadline = t0 + std::time::Duration::from_secs(budget);
    let kf: Vec<Known> = known_findings().into_iter().filter(|k| k.property == p.id).collect();
    let known: BTreeSet<String> = kf.iter().map(|k| k.key.clone()).collect();
    let mut outs = vec![];
    let mut bad = None;
    let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
    // set-up only does what the documentation allows: a contract refusing it is a finding, not silence
    let scs = quiet(|| (p.scenarios)(thorough)).unwrap_or_else(|e| {
        bad = Some(("set-up".to_string(), Viol { key: "set-up".into(), msg: format!("the scenarios cannot be set up: {e}") }, json!([])));
        vec![]
    });
    for mut sc in scs {
        if let Some(o) = only {
            if !(sc.name() == o || o.strip_suffix('*').is_some_and(|o| sc.name().contains(o))) {
                continue;
            }
        }
        // the thorough bounds are deeper already; a scenario cheap enough to go far beyond its plan catches up
        sc.deepen(deeper(p.id, &sc.name()).saturating_sub(thorough as usize));
        let ts = Instant::now();
        let o = quiet(|| sc.run(&known, deadline)).unwrap_or_else(|e| {
            let v = Viol { key: "run".into(), msg: format!("the scenario cannot be run: {e}") };
            Outcome { scenario: sc.name(), states: 1, violations: vec![(v, json!([]))], ..Default::default() }
        });
        eprintln!(
            "[{}] {}: {} states, {} transitions, depth {}/{}{}{} {:.1}s",
            p.id, o.scenario, o.states, o.transitions, o.depth_completed, o.depth_bound,
            if o.exhausted { " (exhausted)" } else { "" },
            if o.capped { " (TIME CAP)" } else { "" },
            ts.elapsed().as_secs_f64()
        );
        for (v, t) in &o.violations {
            if known.contains(&v.key) {
                seen_known.entry(v.key.clone()).or_insert_with(|| v.msg.clone());
            } else if bad.is_none() {
                bad = Some((o.scenario.clone(), v.clone(), t.clone()));
            }
        }
        if std::env::var("MC_COV").is_ok() {
            for (k, v) in &o.cov.0 {
                eprintln!("      {k}: {v}");
            }
        }
        outs.push(o);
        if bad.is_some() {
            break;
        }
    }
    for k in &kf {
        if seen_known.contains_key(&k.key) {
            println!("KNOWN-FINDING: property={} {} ({})", p.id, k.what, k.key);
        }
    }
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let mut replay = None;
    if let Some((sc, v, t)) = &bad {
        let rdir = root().join("replays");
        std::fs::create_dir_all(&rdir).ok();
        let f = rdir.join(format!("{}.json", p.id));
        std::fs::write(
            &f,
            serde_json::to_string_pretty(&json!({"property": p.id, "thorough": thorough, "scenario": sc, "key": v.key, "message": v.msg, "ops": t})).unwrap(),
        )
        .ok();
        eprintln!("violation in {sc}: [{}] {}\n  after {}", v.key, v.msg, t);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        replay = Some(f);
    }
    let mut cov_all = Cov::default();
    outs.iter().for_each(|o| cov_all.merge(&o.cov));
    let tot = |f: fn(&Outcome) -> u64| outs.iter().map(f).sum::<u64>();
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": tot(|o| o.states),
            "transitions": tot(|o| o.transitions),
            "traces_validated_against_impl": tot(|o| o.validated),
            "validation": "every transition is executed by the contracts' own compiled code and compared with the reference model; in addition an even spread of explored traces is replayed from freshly instantiated contracts and must reach the recorded state",
            "exhaustive": outs.iter().all(|o| !o.capped),
            "scenarios": outs.iter().map(|o| json!({
                "name": o.scenario, "states": o.states, "transitions": o.transitions,
                "depth_completed": o.depth_completed, "depth_bound": o.depth_bound,
                "state_space_exhausted": o.exhausted, "time_capped": o.capped,
            })).collect::<Vec<_>>(),
            "outcomes": cov_all.0,
            "samples": outs.iter().flat_map(|o| o.samples.iter().take(1).map(|s| json!({"scenario": o.scenario, "trace": s}))).take(6).collect::<Vec<_>>(),
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": bad.iter().count(),
        "violation_details": bad.iter().map(|(s, v, _)| json!({"scenario": s, "key": v.key, "message": v.msg, "replay": replay})).collect::<Vec<_>>(),
        "known_findings_seen": seen_known.iter().map(|(k, v)| json!({"key": k, "example": v})).collect::<Vec<_>>(),
        "assumptions": p.assumptions,
    });
    if only.is_none() {
        std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if bad.is_some() {
        1
    } else {
        println!(
            "OK property={} states={} transitions={} scenarios={} {:.1}s",
            p.id, tot(|o| o.states), tot(|o| o.transitions), outs.len(), t0.elapsed().as_secs_f64()
        );
        0
    }
}

/// JSON numbers hold 64 bits only: larger integers travel as strings
pub mod s128 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
pub mod v128 {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &[u128], s: S) -> Result<S::Ok, S::Error> {
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u128>, D::Error> {
        Vec::<String>::deserialize(d)?.iter().map(|x| x.parse().map_err(serde::de::Error::custom)).collect()
    }
}
pub mod o128 {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<u128>, s: S) -> Result<S::Ok, S::Error> {
        v.map(|x| x.to_string()).serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Option<u128>, D::Error> {
        match Option::<String>::deserialize(d)? {
            Some(x) => x.parse().map(Some).map_err(serde::de::Error::custom),
            None => Ok(None),
        }
    }
}
