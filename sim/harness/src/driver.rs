//! Seeds, forked runs, workers, minimisation, replay files, evidence.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::io::BufRead;
use std::io::Read;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::path::Path;
use std::path::PathBuf;
use std::time::Duration;
use std::time::Instant;

use serde::Deserialize;
use serde::Serialize;
use simcore::choice::mix;
use simcore::choice::Choices;
use simcore::choice::Trace;

use crate::ctx::Ctx;
use crate::ctx::Fail;
use crate::ctx::RunResult;

pub type WorkFn = fn(&mut Ctx);

pub struct Workload {
    pub name: &'static str,
    pub run: WorkFn,
}

pub struct PropSpec {
    pub id: &'static str,
    /// (workload, weight)
    pub work: Vec<(&'static str, u64)>,
    /// Number of runs of the quick tier.
    pub quick_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

#[derive(Clone, Serialize, Deserialize)]
pub enum Source {
    Seed(u64),
    Trace(Trace),
}

pub const RUN_TIMEOUT: Duration = Duration::from_secs(150);

pub fn scratch_base() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(d).join("subsweep-sim");
        if std::fs::create_dir_all(&p).is_ok() {
            let probe = p.join(format!("probe-{}", std::process::id()));
            if std::fs::write(&probe, b"x").is_ok() {
                let _ = std::fs::remove_file(&probe);
                return p;
            }
        }
    }
    panic!("no scratch directory");
}

/// Run one simulation in a forked child.
pub fn run_forked(run: WorkFn, focus: &str, src: &Source, verbose: bool) -> RunResult {
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child(run, focus, src, verbose, fds[1]);
    }
    unsafe { libc::close(fds[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let start = Instant::now();
    let mut buf = vec![];
    let mut timed_out = false;
    loop {
        let left = RUN_TIMEOUT.saturating_sub(start.elapsed());
        let mut p = libc::pollfd {
            fd: fds[0],
            events: libc::POLLIN,
            revents: 0,
        };
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32) };
        if r > 0 {
            let mut chunk = [0u8; 65536];
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(_) => break,
            }
        } else if start.elapsed() >= RUN_TIMEOUT {
            timed_out = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let dir = scratch_base().join(format!("run-{pid:010}"));
    if dir.exists() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if timed_out {
        let mut r = RunResult::default();
        r.fails.push(Fail {
            kind: "hang".into(),
            msg: format!("no end after {} s of wall clock time", RUN_TIMEOUT.as_secs()),
        });
        return r;
    }
    match serde_json::from_slice(&buf) {
        Ok(r) => r,
        Err(_) => {
            let mut r = RunResult::default();
            let sig = status & 0x7f;
            r.fails.push(Fail {
                kind: "process_died".into(),
                msg: format!("the process ended with signal {sig}, status {}", status >> 8),
            });
            r
        }
    }
}

static PIPE: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// Ends a run that needs a part of the harness which does not compile against this tree
/// (see tools/prune.py). Such a run counts for nothing.
#[allow(dead_code)]
pub fn unavailable() -> ! {
    let mut r = RunResult::default();
    r.stats.insert("unavailable".into(), 1);
    let bytes = serde_json::to_vec(&r).unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(PIPE.load(std::sync::atomic::Ordering::Relaxed)) };
    let _ = f.write_all(&bytes);
    drop(f);
    unsafe { libc::_exit(0) }
}

fn child(run: WorkFn, focus: &str, src: &Source, verbose: bool, fd: i32) -> ! {
    PIPE.store(fd, std::sync::atomic::Ordering::Relaxed);
    unsafe {
        // die with the worker
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if !verbose {
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDWR);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
        }
        libc::dup2(libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDONLY), 0);
    }
    let dir = scratch_base().join(format!("run-{:010}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let focus = focus.to_string();
    let src = src.clone();
    let hash_seed = match &src {
        Source::Seed(s) => *s,
        Source::Trace(t) => t.get("hashseed").and_then(|m| m.get(&0)).copied().unwrap_or(0),
    };
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut ch = match src {
                Source::Seed(s) => Choices::random(s),
                Source::Trace(t) => Choices::replay(t),
            };
            let _ = hash_seed;
            let hs = ch.choose("hashseed", 1 << 30, 0.5);
            crate::over::set_hash_seed(hs + 1);
            simcore::alloc::POISON.store(true, std::sync::atomic::Ordering::Relaxed);
            simcore::sched::install_panic_hook();
            let mut ctx = Ctx::new(&focus, ch, dir, verbose);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx)));
            simcore::alloc::POISON.store(false, std::sync::atomic::Ordering::Relaxed);
            if let Err(e) = r {
                // The workload could not make sense of what the code gave back.
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let f = Fail {
                    kind: "unusable_result".into(),
                    msg: m,
                };
                if !ctx.has_choices() {
                    return RunResult {
                        fails: vec![f],
                        ..Default::default()
                    };
                }
                let mut r = ctx.finish();
                r.fails.push(f);
                return r;
            }
            ctx.finish()
        })
        .unwrap();
    let res = t.join().unwrap_or_else(|_| RunResult {
        fails: vec![Fail {
            kind: "harness_error".into(),
            msg: "thread died".into(),
        }],
        ..Default::default()
    });
    let bytes = serde_json::to_vec(&res).unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(&bytes);
    drop(f);
    unsafe { libc::_exit(0) }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub workload: String,
    pub seed: Option<u64>,
    pub kind: String,
    pub message: String,
    pub description: String,
    pub decisions: Trace,
    pub hash: u64,
}

/// Which workload and seed is run number i of a property?
pub fn nth_run(spec: &PropSpec, seed: u64, i: u64) -> (&'static str, u64) {
    let total: u64 = spec.work.iter().map(|w| w.1).sum();
    let mut k = i % total;
    let mut name = spec.work[0].0;
    for (w, n) in &spec.work {
        if k < *n {
            name = w;
            break;
        }
        k -= n;
    }
    let mut h = mix(seed, 0x5eed);
    for b in spec.id.bytes() {
        h = mix(h, b as u64);
    }
    (name, mix(h, i))
}

fn workload(all: &[Workload], name: &str) -> WorkFn {
    match all.iter().find(|w| w.name == name) {
        Some(w) => w.run,
        None => {
            let pruned = std::env::current_exe().is_ok_and(|e| e.ends_with("simcheck-pruned"));
            assert!(pruned, "no workload {name}");
            |_| unavailable()
        }
    }
}

#[derive(Serialize, Deserialize)]
struct WorkerLine {
    i: u64,
    name: String,
    seed: u64,
    wall_ms: u64,
    redo: Option<bool>,
    res: RunResult,
}

/// Runs i = k, k+w, ... and prints one line per run.
pub fn worker(all: &[Workload], spec: &PropSpec, seed: u64, k: u64, w: u64, runs: u64, secs: f64) {
    let start = Instant::now();
    let mut i = k;
    while i < runs {
        if start.elapsed().as_secs_f64() > secs {
            break;
        }
        let (name, s) = nth_run(spec, seed, i);
        let t = Instant::now();
        let res = run_forked(workload(all, name), spec.id, &Source::Seed(s), false);
        let wall_ms = t.elapsed().as_millis() as u64;
        if res.stats.contains_key("unavailable") {
            i += w;
            continue;
        }
        // Determinism: some runs are executed twice, the second time from the recorded decisions.
        let mut redo = None;
        if i % 13 == 5 && res.fails.is_empty() && wall_ms < 5000 {
            let again = run_forked(workload(all, name), spec.id, &Source::Trace(res.trace.clone()), false);
            redo = Some(again.hash == res.hash && again.steps == res.steps && again.fails.is_empty());
        }
        let mut res = res;
        let failed = !res.fails.is_empty();
        if !failed {
            res.trace.clear();
        }
        let line = WorkerLine {
            i,
            name: name.into(),
            seed: s,
            wall_ms,
            redo,
            res,
        };
        println!("{}", serde_json::to_string(&line).unwrap());
        if failed {
            break;
        }
        i += w;
    }
}

fn same_failure(r: &RunResult, kinds: &BTreeSet<String>) -> bool {
    r.fails.iter().any(|f| kinds.contains(&f.kind))
}

/// Delta debugging on the set of non-default decisions.
pub fn minimise(run: WorkFn, focus: &str, trace: Trace, kind: &str, budget: Duration) -> (Trace, RunResult) {
    let start = Instant::now();
    let kinds: BTreeSet<String> = [kind.to_string()].into();
    let mut best = trace;
    let mut best_res = run_forked(run, focus, &Source::Trace(best.clone()), false);
    let flat = |t: &Trace| -> Vec<(String, u64, u64)> {
        t.iter()
            .flat_map(|(l, m)| m.iter().map(move |(i, v)| (l.clone(), *i, *v)))
            .collect()
    };
    let unflat = |v: &[(String, u64, u64)]| -> Trace {
        let mut t = Trace::new();
        for (l, i, x) in v {
            t.entry(l.clone()).or_default().insert(*i, *x);
        }
        t
    };
    // whole labels first
    let labels: Vec<String> = best.keys().cloned().collect();
    for l in labels {
        if start.elapsed() > budget {
            break;
        }
        let mut t = best.clone();
        t.remove(&l);
        let r = run_forked(run, focus, &Source::Trace(t.clone()), false);
        if same_failure(&r, &kinds) {
            best = r.trace.clone();
            best_res = r;
        }
    }
    let mut chunk = flat(&best).len().div_ceil(2);
    while chunk >= 1 && start.elapsed() < budget {
        let mut pos = 0;
        let mut any = false;
        loop {
            let v = flat(&best);
            if pos >= v.len() || start.elapsed() > budget {
                break;
            }
            let end = (pos + chunk).min(v.len());
            let mut w = v[..pos].to_vec();
            w.extend_from_slice(&v[end..]);
            let r = run_forked(run, focus, &Source::Trace(unflat(&w)), false);
            if same_failure(&r, &kinds) && flat(&r.trace).len() < v.len() {
                best = r.trace.clone();
                best_res = r;
                any = true;
            } else {
                pos += chunk;
            }
        }
        if chunk == 1 {
            if !any {
                break;
            }
        } else {
            chunk = chunk.div_ceil(2);
        }
        if chunk == 1 && !any && flat(&best).len() < 2 {
            break;
        }
    }
    // smaller values
    for (l, i, v) in flat(&best) {
        for small in [1, 2, v / 2] {
            if start.elapsed() > budget || small >= v || small == 0 {
                continue;
            }
            let mut t = best.clone();
            t.get_mut(&l).map(|m| m.insert(i, small));
            let r = run_forked(run, focus, &Source::Trace(t.clone()), false);
            if same_failure(&r, &kinds) && r.trace.get(&l).and_then(|m| m.get(&i)) == Some(&small) {
                best = r.trace.clone();
                best_res = r;
                break;
            }
        }
    }
    (best, best_res)
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub secs: f64,
    pub runs: Option<u64>,
    pub workers: u64,
    pub verif: PathBuf,
}

pub fn replay_file(all: &[Workload], path: &Path, verbose: bool) -> i32 {
    let rep: Replay = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let r = run_forked(
        workload(all, &rep.workload),
        &rep.property,
        &if matches!(rep.kind.as_str(), "hang" | "process_died") {
            Source::Seed(rep.seed.unwrap())
        } else {
            Source::Trace(rep.decisions.clone())
        },
        verbose,
    );
    if verbose {
        for l in &r.log {
            println!("{l}");
        }
    }
    println!("{}", r.desc);
    for f in &r.fails {
        println!("{}: {}", f.kind, f.msg);
    }
    if r.fails.iter().any(|f| f.kind == "harness_error") {
        return 2;
    }
    if r.fails.is_empty() {
        println!("no violation");
        0
    } else {
        println!("same execution as recorded: {}", r.hash == rep.hash);
        println!("VIOLATION property={} replay={}", rep.property, path.display());
        1
    }
}

pub fn check(all: &[Workload], spec: &PropSpec, o: &Options) -> i32 {
    let start = Instant::now();
    let runs = o.runs.unwrap_or(if o.tier == "thorough" { u64::MAX } else { spec.quick_runs });
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<WorkerLine>();
    let mut children = vec![];
    for k in 0..o.workers {
        let mut c = std::process::Command::new(&exe)
            .args([
                "worker",
                spec.id,
                &o.seed.to_string(),
                &k.to_string(),
                &o.workers.to_string(),
                &runs.to_string(),
                &o.secs.to_string(),
            ])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
                if let Ok(w) = serde_json::from_str::<WorkerLine>(&l) {
                    if tx.send(w).is_err() {
                        break;
                    }
                }
            }
        });
        children.push(c);
    }
    drop(tx);
    let mut done: u64 = 0;
    let mut nontrivial: u64 = 0;
    let mut evaluations: u64 = 0;
    let mut steps: u64 = 0;
    let mut jobs: u64 = 0;
    let mut decisions: u64 = 0;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_work: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_work_ms: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut redone = 0u64;
    let mut mismatched: Vec<(String, u64)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<WorkerLine> = None;
    let mut harness_errors: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for w in rx {
        done += 1;
        nontrivial += w.res.nontrivial as u64;
        evaluations += w.res.evaluations;
        steps += w.res.steps;
        jobs += w.res.jobs;
        decisions += w.res.decisions;
        *per_work.entry(w.name.clone()).or_insert(0) += 1;
        *per_work_ms.entry(w.name.clone()).or_insert(0) += w.wall_ms;
        for (k, v) in &w.res.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &w.res.known {
            *known.entry(k.clone()).or_insert(0) += v;
        }
        hashes.extend(w.res.job_hashes.iter());
        if let Some(ok) = w.redo {
            redone += 1;
            if !ok {
                mismatched.push((w.name.clone(), w.seed));
            }
        }
        if samples.len() < 12 && (done < 5 || done % 37 == 0) {
            samples.push(format!("{} seed {}: {} [{} steps]", w.name, w.seed, w.res.desc, w.res.steps));
        }
        if !w.res.fails.is_empty() {
            if w.res.fails[0].kind == "harness_error" {
                harness_errors.push(format!("{} seed {}: {}", w.name, w.seed, w.res.fails[0].msg));
            } else if failure.as_ref().map_or(true, |f| w.i < f.i) {
                failure = Some(w);
                for c in &mut children {
                    let _ = c.kill();
                }
            }
        }
    }
    for c in &mut children {
        let _ = c.kill();
        let _ = c.wait();
    }
    let explored_s = start.elapsed().as_secs_f64();
    let mut violations = vec![];
    let mut code = 0;
    if let Some(f) = failure {
        let run = workload(all, &f.name);
        let kind = f.res.fails[0].kind.clone();
        let (trace, res) = if kind == "hang" || kind == "process_died" {
            // nothing was reported back: replay from the seed's decisions is not available
            (f.res.trace.clone(), f.res.clone())
        } else {
            let budget = Duration::from_secs_f64(if o.tier == "thorough" { 180.0 } else { 60.0 });
            minimise(run, spec.id, f.res.trace.clone(), &kind, budget)
        };
        let (trace, res) = if res.fails.is_empty() { (f.res.trace.clone(), f.res.clone()) } else { (trace, res) };
        let dir = o.verif.join("evidence").join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}-{:x}.json", spec.id, f.name, f.seed));
        let rep = Replay {
            property: spec.id.into(),
            workload: f.name.clone(),
            seed: Some(f.seed),
            kind: res.fails[0].kind.clone(),
            message: res.fails[0].msg.clone(),
            description: res.desc.clone(),
            decisions: trace,
            hash: res.hash,
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        println!(
            "{} seed {}: {}\n  {}: {}",
            f.name, f.seed, res.desc, res.fails[0].kind, res.fails[0].msg
        );
        println!("VIOLATION property={} replay={}", spec.id, path.display());
        violations.push(serde_json::json!({
            "workload": f.name, "seed": f.seed, "kind": res.fails[0].kind, "message": res.fails[0].msg,
            "replay": path.display().to_string(),
        }));
        code = 1;
    } else if !harness_errors.is_empty() {
        for h in harness_errors.iter().take(5) {
            println!("HARNESS ERROR {h}");
        }
        code = 2;
    }
    for (k, n) in &known {
        let what = crate::ctx::KNOWN
            .get()
            .and_then(|v| v.iter().find(|(p, kind, _)| p == spec.id && kind == k))
            .map_or(String::new(), |x| x.2.clone());
        println!("KNOWN-FINDING: property={} {k} ({n} times): {what}", spec.id);
    }
    for (n, s) in &mismatched {
        println!("WARNING: not reproducible: {n} seed {s}");
    }
    let fault_kinds: BTreeMap<&String, &u64> = stats
        .iter()
        .filter(|(k, _)| !k.starts_with("ranks_") && !k.starts_with("cov_"))
        .collect();
    let cov: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("cov_")).collect();
    let ranks: BTreeMap<&String, &u64> = stats.iter().filter(|(k, _)| k.starts_with("ranks_")).collect();
    let evidence = serde_json::json!({
        "property": spec.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.min(hashes.len() as u64),
            "rule": spec.rule,
            "samples": samples,
            "simulated_runs": done,
            "simulated_jobs": jobs,
            "runs_per_hour": (done as f64 / explored_s * 3600.0) as u64,
            "simulated_steps": steps,
            "simulated_time_s": steps as f64 * 1e-6,
            "decisions": decisions,
            "distinct_interleavings": hashes.len(),
            "interleaving_measure": "distinct hashes over the sequence of (rank, operation, arguments) of every MPI and I/O call of a job",
            "faults_injected": fault_kinds,
            "reached": cov,
            "jobs_by_ranks": ranks,
            "runs_by_workload": per_work,
            "ms_by_workload": per_work_ms,
            "determinism": {"runs_repeated_from_recorded_decisions": redone, "mismatches": mismatched.len()},
            "real_code": spec.real,
            "stubs": spec.stub,
        },
        "assumptions": [
            "The MPI library keeps the MPI standard: reliable, non-overtaking per sender, tag and communicator; job is aborted when a rank dies.",
            "bevy_ecs/bevy_app, HDF5 and diman are stand-ins with the semantics the code relies on; zero-length sends are buffered.",
            "Bounded: the ranks, cells, particles and steps listed under jobs_by_ranks/samples, and the seeds explored."
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
        "known_findings_met": known,
    });
    let dir = o.verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join(format!("{}.json", spec.id)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .unwrap();
    println!(
        "{}: {} runs, {} evaluations, {} steps, {} distinct interleavings, {:.1} s",
        spec.id,
        done,
        evaluations,
        steps,
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    if done == 0 && code == 0 {
        println!("nothing was run");
        code = 2;
    }
    code
}
