//! One simulated run: its decisions, its jobs, and what was found.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;

use simcore::choice::mix;
use simcore::choice::Choices;
use simcore::choice::Trace;
use simcore::sched::run_job;
use simcore::sched::Env;
use simcore::sched::Outcome;
use simcore::sched::Violation;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Default)]
pub struct RunResult {
    pub fails: Vec<Fail>,
    pub stats: BTreeMap<String, u64>,
    pub steps: u64,
    pub jobs: u64,
    pub decisions: u64,
    pub hash: u64,
    pub job_hashes: Vec<u64>,
    pub evaluations: u64,
    pub trace: Trace,
    pub desc: String,
    pub log: Vec<String>,
    pub nontrivial: bool,
    /// Known findings met in this run.
    #[serde(default)]
    pub known: BTreeMap<String, u64>,
}

/// (property, kind, text) of the findings that are recorded and not repaired.
pub static KNOWN: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();

pub fn load_known(path: &std::path::Path) {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((prop, rest)) = rest.split_once(" kind=") else { continue };
        let Some((kind, what)) = rest.split_once(' ') else { continue };
        v.push((prop.to_string(), kind.to_string(), what.to_string()));
    }
    let _ = KNOWN.set(v);
}

pub struct Ctx {
    pub focus: String,
    ch: Option<Choices>,
    pub res: RunResult,
    pub dir: PathBuf,
    pub verbose: bool,
    pub calm: bool,
}

pub struct Job<T> {
    pub outcome: Outcome,
    pub violations: Vec<Violation>,
    pub results: Vec<Option<T>>,
    pub steps: u64,
    /// Calls made by each rank.
    pub calls: Vec<u64>,
    pub leftover: usize,
}

impl<T> Job<T> {
    pub fn finished(&self) -> bool {
        self.outcome == Outcome::Finished
    }
    /// Results of all ranks of a finished job.
    pub fn all(self) -> Vec<T> {
        self.results.into_iter().map(|x| x.expect("rank without result")).collect()
    }
}

pub fn describe(o: &Outcome) -> String {
    match o {
        Outcome::Finished => "finished".into(),
        Outcome::Panicked(r, m) => format!("rank {r} panicked: {m}"),
        Outcome::Deadlock(m) => format!("deadlock: {m}"),
        Outcome::Livelock(m) => format!("no progress: {m}"),
        Outcome::Crashed(r) => format!("rank {r} killed by the simulator"),
        Outcome::Aborted(r) => format!("rank {r} aborted"),
        Outcome::StepLimit => "step limit reached".into(),
    }
}

impl Ctx {
    pub fn new(focus: &str, ch: Choices, dir: PathBuf, verbose: bool) -> Self {
        Ctx {
            focus: focus.to_string(),
            ch: Some(ch),
            res: RunResult::default(),
            dir,
            verbose,
            calm: false,
        }
    }
    pub fn finish(mut self) -> RunResult {
        let ch = self.ch.take().unwrap();
        self.res.decisions = ch.num_decisions;
        self.res.trace = ch.taken;
        self.res
    }
    pub fn has_choices(&self) -> bool {
        self.ch.is_some()
    }
    pub fn ch(&mut self) -> &mut Choices {
        self.ch.as_mut().unwrap()
    }
    pub fn int(&mut self, label: &'static str, lo: usize, hi: usize) -> usize {
        self.ch().int(label, lo as u64, hi as u64) as usize
    }
    /// Mostly between lo and hi, sometimes up to big.
    pub fn size(&mut self, label: &'static str, lo: usize, hi: usize, big: usize) -> usize {
        if big > hi && self.chance("large", 0.05) {
            self.int(label, hi, big)
        } else {
            self.int(label, lo, hi)
        }
    }
    pub fn chance(&mut self, label: &'static str, p: f64) -> bool {
        self.ch().chance(label, p)
    }
    pub fn pick<T: Clone>(&mut self, label: &'static str, items: &[T]) -> T {
        self.ch().pick(label, items)
    }
    pub fn rng(&mut self, label: &'static str) -> simcore::choice::Rng {
        let s = self.ch().seed(label);
        simcore::choice::Rng::new(s)
    }
    /// The scheduling part of the environment (no disk faults, no crash).
    pub fn env(&mut self, n: usize) -> Env {
        let calm = self.calm;
        let ch = self.ch();
        let mut e = Env::draw(ch, n);
        if calm {
            e = Env::default();
        }
        e.order_seed = ch.choose("order", 1000, 0.5);
        e.entity_seed = ch.choose("entityorder", 1000, 0.3);
        e.clock_skew = ch.chance("clockskew", 0.2);
        e.p_clock_jump = if ch.chance("clockjumps", 0.1) { 0.001 } else { 0.0 };
        e
    }
    pub fn desc(&mut self, s: impl AsRef<str>) {
        if !self.res.desc.is_empty() {
            self.res.desc.push_str("; ");
        }
        self.res.desc.push_str(s.as_ref());
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.res.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn note(&mut self, v: u64) {
        self.res.hash = mix(self.res.hash, v);
    }
    pub fn fail(&mut self, kind: impl AsRef<str>, msg: impl AsRef<str>) {
        let known = KNOWN.get().map_or(&[][..], |v| &v[..]);
        if known.iter().any(|(p, k, _)| *p == self.focus && k == kind.as_ref()) {
            *self.res.known.entry(kind.as_ref().to_string()).or_insert(0) += 1;
            return;
        }
        if self.res.fails.len() < 20 {
            let mut m = msg.as_ref().to_string();
            if m.len() > 3000 {
                let mut k = 3000;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
            }
            self.res.fails.push(Fail { kind: kind.as_ref().to_string(), msg: m });
        }
    }
    /// A check belonging to the given properties: counted as an evaluation,
    /// recorded only if one of them is being decided.
    pub fn check(&mut self, props: &str, ok: bool, kind: &str, msg: impl FnOnce() -> String) -> bool {
        // Workloads on the communication layer also serve the properties built on it.
        let comm = |p: &str| matches!(p, "P01" | "P02" | "P03");
        let mine = props == "*"
            || props.split(',').any(|p| p == self.focus)
            || (!comm(&self.focus) && props.split(',').all(comm));
        if mine {
            self.res.evaluations += 1;
            if !ok {
                self.fail(kind, msg());
            }
        }
        ok
    }
    pub fn has_failed(&self) -> bool {
        !self.res.fails.is_empty()
    }
    /// Run one job and judge how it ended: it has to finish.
    pub fn job<T: 'static>(&mut self, n: usize, env: Env, body: impl Fn(usize) -> T + 'static) -> Job<T> {
        let j = self.raw_job(n, env, body);
        self.res.evaluations += 1;
        if !j.finished() {
            let (kind, msg) = match &j.outcome {
                Outcome::Panicked(..) => ("panic", describe(&j.outcome)),
                Outcome::Deadlock(_) => ("deadlock", describe(&j.outcome)),
                Outcome::Livelock(_) => ("livelock", describe(&j.outcome)),
                _ => ("outcome", describe(&j.outcome)),
            };
            self.fail(kind, msg);
        }
        self.judge_raw(&j.violations.clone());
        j
    }
    pub fn judge_raw(&mut self, violations: &[Violation]) {
        for v in violations {
            let props = match v.kind {
                "send_buffer_freed" | "send_buffer_modified" | "invalid_request" => {
                    if self.focus == "P03" {
                        "P03"
                    } else {
                        continue;
                    }
                }
                "unreceived_messages" => "P01,P03,P04",
                "type_mismatch" | "truncation" => "P01,P02,P03,P04",
                "collective_mismatch" => "P01,P02,P04",
                _ => "*",
            };
            let k = v.kind;
            let m = v.msg.clone();
            self.check(props, false, k, || m);
        }
    }
    /// Run one job; the caller judges how it ended.
    pub fn raw_job<T: 'static>(&mut self, n: usize, mut env: Env, body: impl Fn(usize) -> T + 'static) -> Job<T> {
        env.verbose = self.verbose;
        let results: Rc<RefCell<Vec<Option<T>>>> = Rc::new(RefCell::new((0..n).map(|_| None).collect()));
        let r2 = results.clone();
        let body = Rc::new(move |rank: usize| {
            let v = body(rank);
            r2.borrow_mut()[rank] = Some(v);
        });
        crate::over::job_start(&self.dir);
        let rep = run_job(n, env, self.ch.take().unwrap(), body);
        crate::over::job_end();
        self.ch = Some(rep.choices);
        for (k, v) in &rep.stats {
            self.stat(k, *v);
        }
        self.stat("context_switches", rep.switches);
        self.stat(&format!("ranks_{n}"), 1);
        self.res.steps += rep.steps;
        self.res.jobs += 1;
        self.res.job_hashes.push(mix(rep.trace_hash, n as u64));
        self.note(rep.trace_hash);
        if self.verbose {
            self.res.log.push(format!("--- job of {n} ranks: {}", describe(&rep.outcome)));
            self.res.log.extend(rep.log);
        }
        let results = std::mem::take(&mut *results.borrow_mut());
        Job {
            outcome: rep.outcome,
            violations: rep.violations,
            results,
            steps: rep.steps,
            calls: rep.calls,
            leftover: rep.leftover_messages,
        }
    }
}
