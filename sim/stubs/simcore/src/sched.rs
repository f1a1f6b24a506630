use std::collections::BTreeMap;
use std::panic;
use std::sync::atomic::AtomicPtr;
use std::sync::atomic::Ordering;

use corosensei::stack::DefaultStack;
use corosensei::Coroutine;
use corosensei::CoroutineResult;
use corosensei::Yielder;

use crate::alloc;
use crate::choice::mix;
use crate::choice::Choices;
use crate::mpi::Net;
use crate::mpi::Wait;

/// How adverse the simulated environment is. All-zero is the calm one.
#[derive(Clone, Debug)]
pub struct Env {
    /// Probability to preempt a rank at an MPI call.
    pub p_switch: f64,
    /// Probability not to pick the next runnable rank round-robin.
    pub p_pick: f64,
    /// Probability that a message is delayed, and by how much at most.
    pub p_delay: f64,
    pub max_delay: u64,
    /// Probability that the completion of a send is noticed late.
    pub p_late: f64,
    /// Standard-mode sends of more bytes than this are rendezvous.
    pub eager_limit: usize,
    /// Probability (per MPI call) that a rank stalls, and for how long at most.
    pub p_stall: f64,
    pub max_stall: u64,
    /// Probability (per message) that the link is cut for a while.
    pub p_partition: f64,
    pub max_partition: u64,
    /// Rooted collectives synchronise.
    pub sync_rooted: bool,
    /// This rank runs `slow_factor` times less often.
    pub slow_rank: Option<usize>,
    pub slow_factor: u64,
    /// Kill this rank (and thereby the job) at its n-th MPI/IO call.
    pub crash: Option<(usize, u64)>,
    /// Systems without an ordering constraint are permuted (0: as added).
    pub order_seed: u64,
    /// Entities are iterated in a permuted order (0: in order of creation).
    pub entity_seed: u64,
    /// Disk faults: probability per call.
    pub p_disk_error: f64,
    /// Number of bytes until the disk is full.
    pub disk_capacity: Option<u64>,
    /// Fail exactly the n-th write-like call of the job.
    pub fail_write_at: Option<u64>,
    pub fail_kind: u64,
    /// Short writes/reads: probability per call.
    pub p_short: f64,
    /// readdir returns entries in a seeded, per-rank order.
    pub permute_readdir: bool,
    /// Clock skew per rank / probability of a clock jump at a call.
    pub clock_skew: bool,
    pub p_clock_jump: f64,
    pub max_steps: u64,
    pub verbose: bool,
    pub stack_size: usize,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            p_switch: 0.0,
            p_pick: 0.0,
            p_delay: 0.0,
            max_delay: 0,
            p_late: 0.0,
            eager_limit: usize::MAX,
            p_stall: 0.0,
            max_stall: 0,
            p_partition: 0.0,
            max_partition: 0,
            sync_rooted: false,
            slow_rank: None,
            slow_factor: 1,
            crash: None,
            order_seed: 0,
            entity_seed: 0,
            p_disk_error: 0.0,
            disk_capacity: None,
            fail_write_at: None,
            fail_kind: 0,
            p_short: 0.0,
            permute_readdir: false,
            clock_skew: false,
            p_clock_jump: 0.0,
            max_steps: 300_000_000,
            verbose: false,
            stack_size: 32 << 20,
        }
    }
}

impl Env {
    /// Draw an environment. Index 0 is calm; the others combine adversities.
    pub fn draw(c: &mut Choices, num_ranks: usize) -> Env {
        let mut e = Env::default();
        let kind = c.int("env", 0, 9);
        if kind == 0 {
            return e;
        }
        e.p_switch = c.pick("env.switch", &[0.0, 0.02, 0.2, 0.6]);
        e.p_pick = c.pick("env.pick", &[0.0, 0.3, 0.9]);
        e.p_delay = c.pick("env.delay", &[0.0, 0.1, 0.5, 1.0]);
        e.max_delay = c.pick("env.maxdelay", &[3, 30, 300, 5000]);
        e.p_late = c.pick("env.late", &[0.0, 0.2, 1.0]);
        e.eager_limit = c.pick("env.eager", &[usize::MAX, 4096, 256, 0]);
        e.sync_rooted = c.chance("env.syncroot", 0.5);
        if kind >= 4 {
            e.p_stall = c.pick("env.stall", &[0.0, 0.002, 0.02]);
            e.max_stall = c.pick("env.maxstall", &[50, 1000, 100_000]);
        }
        if kind >= 6 {
            e.p_partition = c.pick("env.part", &[0.0, 0.01, 0.05]);
            e.max_partition = c.pick("env.maxpart", &[100, 10_000, 1_000_000]);
        }
        if kind >= 8 {
            e.slow_rank = Some(c.int("env.slow", 0, num_ranks as u64 - 1) as usize);
            e.slow_factor = c.pick("env.slowf", &[2, 20, 500]);
        }
        e
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Finished,
    /// Rank panicked: (rank, message)
    Panicked(usize, String),
    Deadlock(String),
    Livelock(String),
    Crashed(usize),
    Aborted(usize),
    StepLimit,
}

#[derive(Debug)]
pub enum Status {
    Ready,
    Blocked(Wait),
    Done,
    Dead,
}

pub struct RankState {
    pub status: Status,
    pub stalled_until: u64,
    pub calls: u64,
    pub fruitless: u64,
    pub epoch: u64,
    pub clock_offset: i64,
    yielder: *const Yielder<(), ()>,
    pub panic_msg: Option<String>,
    pub last_op: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
}

pub struct Sim {
    pub env: Env,
    pub ch: Choices,
    pub step: u64,
    /// Scheduling points and resumptions so far (simulated time also jumps).
    pub work: u64,
    pub ranks: Vec<RankState>,
    pub cur: usize,
    pub in_rank: bool,
    pub net: Net,
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    pub trace_hash: u64,
    pub epoch: u64,
    pub log: Vec<String>,
    pub abort: Option<Outcome>,
    pub write_calls: u64,
    pub bytes_written: u64,
    pub num_switches: u64,
}

static SIM: AtomicPtr<Sim> = AtomicPtr::new(std::ptr::null_mut());

static JOB: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Changes with every job (and between jobs).
pub fn job_id() -> u64 {
    JOB.load(Ordering::Relaxed)
}

pub fn try_sim() -> Option<&'static mut Sim> {
    let p = SIM.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

pub fn sim() -> &'static mut Sim {
    try_sim().expect("no simulation is running")
}

/// Are we on the stack of a simulated rank?
pub fn in_rank() -> bool {
    try_sim().map(|s| s.in_rank).unwrap_or(false)
}

pub fn current_rank() -> usize {
    sim().cur
}

pub fn world_size() -> usize {
    sim().ranks.len()
}

pub struct Report {
    pub outcome: Outcome,
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<&'static str, u64>,
    pub trace_hash: u64,
    pub steps: u64,
    pub choices: Choices,
    pub log: Vec<String>,
    pub leftover_messages: usize,
    pub switches: u64,
    /// Calls made by each rank.
    pub calls: Vec<u64>,
}

const POLL_YIELD: u64 = 3;
const POLL_JUMP: u64 = 40;
const POLL_LIVELOCK: u64 = 60_000;

impl Sim {
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn stat_n(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn violation(&mut self, kind: &'static str, msg: String) {
        if self.env.verbose {
            self.log.push(format!("!! {kind}: {msg}"));
        }
        if self.violations.len() < 50 {
            self.violations.push(Violation { kind, msg });
        }
    }
    pub fn event(&mut self, op: &'static str, a: u64, b: u64) {
        let h = (self.cur as u64) << 56 ^ (op.len() as u64) << 48 ^ op.as_bytes()[op.len() - 1] as u64;
        self.trace_hash = mix(mix(self.trace_hash, h), a.rotate_left(32) ^ b);
        if self.env.verbose && self.log.len() < 200_000 {
            self.log
                .push(format!("[{}] rank {} {} {} {}", self.step, self.cur, op, a, b));
        }
    }
    pub fn progress(&mut self) {
        self.epoch += 1;
    }
    fn note_fruitless(&mut self, r: usize) -> u64 {
        let e = self.epoch;
        let rk = &mut self.ranks[r];
        if rk.epoch != e {
            rk.epoch = e;
            rk.fruitless = 0;
        }
        rk.fruitless += 1;
        rk.fruitless
    }
    fn satisfied(&mut self, r: usize) -> bool {
        // take the wait out to please the borrow checker
        let st = std::mem::replace(&mut self.ranks[r].status, Status::Ready);
        let res = match &st {
            Status::Ready => true,
            Status::Blocked(w) => self.wait_satisfied(r, w),
            _ => false,
        };
        self.ranks[r].status = st;
        res
    }
    fn runnable(&mut self, r: usize) -> bool {
        self.ranks[r].stalled_until <= self.step && self.satisfied(r)
    }
    fn next_event_time(&self) -> Option<u64> {
        let mut t = self.next_net_event();
        for r in &self.ranks {
            if matches!(r.status, Status::Ready | Status::Blocked(_)) && r.stalled_until > self.step {
                t = Some(t.map_or(r.stalled_until, |x: u64| x.min(r.stalled_until)));
            }
        }
        t
    }
    fn describe_blocked(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.ranks.iter().enumerate() {
            let d = match &r.status {
                Status::Ready => "polling".to_string(),
                Status::Blocked(w) => format!("blocked in {} on {:?}", r.last_op, w),
                Status::Done => "finished".into(),
                Status::Dead => "dead".into(),
            };
            s.push_str(&format!("rank {i} {d}; "));
        }
        s
    }
}

fn switch_out() {
    let s = sim();
    s.num_switches += 1;
    let y = s.ranks[s.cur].yielder;
    s.in_rank = false;
    unsafe { (*y).suspend(()) };
    let s = sim();
    s.in_rank = true;
}

/// Block the current rank until the condition holds.
pub fn block_on(w: Wait) {
    let s = sim();
    if std::thread::panicking() {
        return;
    }
    let r = s.cur;
    if s.wait_satisfied(r, &w) && s.ranks[r].stalled_until <= s.step {
        return;
    }
    s.ranks[r].status = Status::Blocked(w);
    switch_out();
    let s = sim();
    s.ranks[r].status = Status::Ready;
}

/// A point where the scheduler may intervene: preemption, stall, crash.
pub fn point(op: &'static str, a: u64, b: u64) {
    if !in_rank() || std::thread::panicking() {
        return;
    }
    let s = sim();
    let r = s.cur;
    s.process_freed();
    s.step += 1;
    s.work += 1;
    s.ranks[r].calls += 1;
    s.ranks[r].last_op = op;
    s.event(op, a, b);
    if let Some((cr, n)) = s.env.crash {
        if cr == r && s.ranks[r].calls >= n {
            s.stat("crash");
            s.abort = Some(Outcome::Crashed(r));
            s.ranks[r].status = Status::Dead;
            switch_out();
            unreachable!("crashed rank resumed");
        }
    }
    let s = sim();
    if s.env.p_clock_jump > 0.0 {
        let p = s.env.p_clock_jump;
        let v = s.ch.choose("clockjump", 4, p);
        if v > 0 {
            s.stat("clock_jump");
            s.ranks[r].clock_offset += [0i64, 5_000_000_000, -3_000_000_000, 86_400_000_000_000][v as usize];
        }
    }
    if s.env.p_stall > 0.0 {
        let (p, m) = (s.env.p_stall, s.env.max_stall);
        let v = s.ch.choose("stall", m + 1, p);
        if v > 0 {
            s.stat("rank_stall");
            s.ranks[r].stalled_until = s.step + v;
            switch_out();
            return;
        }
    }
    if let Some(slow) = s.env.slow_rank {
        if slow == r {
            s.stat("slow_rank_pause");
            s.ranks[r].stalled_until = s.step + s.env.slow_factor;
            switch_out();
            return;
        }
    }
    if s.ranks.len() > 1 {
        let p = s.env.p_switch;
        if p > 0.0 && s.ch.choose("switch", 2, p) == 1 {
            s.stat("preemption");
            switch_out();
        }
    }
}

/// To be called when a poll (test, probe) of the current rank found nothing.
pub fn poll_failed() {
    if !in_rank() || std::thread::panicking() {
        return;
    }
    let s = sim();
    let r = s.cur;
    let n = s.note_fruitless(r);
    if n >= POLL_YIELD {
        switch_out();
    }
}

pub fn die(outcome: Outcome) -> ! {
    let s = sim();
    s.abort = Some(outcome);
    let r = s.cur;
    s.ranks[r].status = Status::Dead;
    switch_out();
    unreachable!()
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if let Some(s) = try_sim() {
            if s.in_rank {
                let r = s.cur;
                if s.ranks[r].panic_msg.is_none() {
                    s.ranks[r].panic_msg = Some(m);
                }
                return;
            }
        }
        eprintln!("{m}");
    }));
}

/// Run one job of `n` ranks to its end.
pub fn run_job(
    n: usize,
    env: Env,
    choices: Choices,
    body: std::rc::Rc<dyn Fn(usize)>,
) -> Report {
    assert!(n >= 1);
    assert!(try_sim().is_none(), "simulation already running");
    let mut ranks = vec![];
    let mut sim_box = Box::new(Sim {
        env,
        ch: choices,
        step: 0,
        work: 0,
        ranks: vec![],
        cur: 0,
        in_rank: false,
        net: Net::new(n),
        violations: vec![],
        stats: BTreeMap::new(),
        trace_hash: 0x1234,
        epoch: 0,
        log: vec![],
        abort: None,
        write_calls: 0,
        bytes_written: 0,
        num_switches: 0,
    });
    for r in 0..n {
        let skew = if sim_box.env.clock_skew {
            sim_box.ch.choose("skew", 2000, 1.0) as i64 * 1_000_000_000 - 1_000_000_000_000
        } else {
            0
        };
        ranks.push(RankState {
            status: Status::Ready,
            stalled_until: 0,
            calls: 0,
            fruitless: 0,
            epoch: 0,
            clock_offset: if sim_box.env.clock_skew && r > 0 { skew } else { 0 },
            yielder: std::ptr::null(),
            panic_msg: None,
            last_op: "start",
        });
    }
    sim_box.ranks = ranks;
    let stack_size = sim_box.env.stack_size;
    let sim_ptr = Box::into_raw(sim_box);
    SIM.store(sim_ptr, Ordering::Relaxed);
    JOB.fetch_add(1, Ordering::Relaxed);
    let mut coros: Vec<Option<Coroutine<(), (), Result<(), ()>>>> = (0..n)
        .map(|r| {
            let body = body.clone();
            Some(Coroutine::with_stack(
                DefaultStack::new(stack_size).unwrap(),
                move |yielder: &Yielder<(), ()>, ()| {
                    let s = sim();
                    s.ranks[r].yielder = yielder;
                    let res =
                        panic::catch_unwind(panic::AssertUnwindSafe(|| body(r))).map_err(|e| {
                            std::mem::forget(e);
                        });
                    drop(body);
                    res
                },
            ))
        })
        .collect();
    let outcome = loop {
        let s = sim();
        if let Some(o) = s.abort.take() {
            break o;
        }
        s.work += 1;
        if s.work > s.env.max_steps {
            break Outcome::StepLimit;
        }
        let cur = s.cur;
        let mut cands = vec![];
        for k in 0..n {
            // round robin, the current rank last
            let r = (cur + 1 + k) % n;
            if s.runnable(r) {
                cands.push(r);
            }
        }
        let epoch = s.epoch;
        let all_spinning = cands.iter().all(|r| {
            let rk = &s.ranks[*r];
            matches!(rk.status, Status::Ready) && rk.epoch == epoch && rk.fruitless > POLL_JUMP
        });
        if cands.is_empty() || all_spinning {
            if let Some(t) = s.next_event_time() {
                if t > s.step {
                    s.stat("time_jump");
                    s.step = t;
                    continue;
                }
            }
            if cands.is_empty() {
                if s.ranks.iter().all(|r| matches!(r.status, Status::Done)) {
                    break Outcome::Finished;
                }
                break Outcome::Deadlock(s.describe_blocked());
            }
            if cands.iter().all(|r| s.ranks[*r].fruitless > POLL_LIVELOCK) {
                break Outcome::Livelock(s.describe_blocked());
            }
        }
        let pick = if cands.len() > 1 {
            let p = s.env.p_pick;
            let v = s.ch.choose("pick", cands.len() as u64, p) as usize;
            cands[v]
        } else {
            cands[0]
        };
        s.cur = pick;
        s.in_rank = true;
        let res = coros[pick].as_mut().unwrap().resume(());
        let s = sim();
        s.in_rank = false;
        match res {
            CoroutineResult::Yield(()) => {}
            CoroutineResult::Return(Ok(())) => {
                s.ranks[pick].status = Status::Done;
                s.process_freed();
                s.progress();
                coros[pick] = None;
            }
            CoroutineResult::Return(Err(())) => {
                s.ranks[pick].status = Status::Dead;
                coros[pick] = None;
                let m = s.ranks[pick]
                    .panic_msg
                    .clone()
                    .unwrap_or_else(|| "unknown panic".into());
                break Outcome::Panicked(pick, m);
            }
        }
    };
    SIM.store(std::ptr::null_mut(), Ordering::Relaxed);
    JOB.fetch_add(1, Ordering::Relaxed);
    // What a killed process owned is gone without its destructors running.
    for c in coros.into_iter().flatten() {
        std::mem::forget(c);
    }
    let mut s = unsafe { Box::from_raw(sim_ptr) };
    s.process_freed();
    let leftover = s.num_leftover_messages();
    if outcome == Outcome::Finished {
        s.end_checks();
    }
    alloc::NUM_FLIGHT.store(0, Ordering::Relaxed);
    alloc::NUM_FREED.store(0, Ordering::Relaxed);
    let s = *s;
    Report {
        outcome,
        violations: s.violations,
        stats: s.stats,
        trace_hash: s.trace_hash,
        steps: s.step,
        choices: s.ch,
        log: s.log,
        leftover_messages: leftover,
        switches: s.num_switches,
        calls: s.ranks.iter().map(|r| r.calls).collect(),
    }
}

/// Nanoseconds since an arbitrary epoch on the current rank's clock.
pub fn clock_ns() -> Option<u64> {
    let s = try_sim()?;
    if !s.in_rank {
        return None;
    }
    let base = 2_000_000_000_000_000i64;
    Some((base + s.step as i64 * 1000 + s.ranks[s.cur].clock_offset) as u64)
}
