//! Workloads on the communication layer.
use std::collections::BTreeMap;

use mpi::traits::Equivalence;
use simcore::choice::mix;
use simcore::choice::Rng;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::communicator::Communicator;
use subsweep::communication::CommunicatedOption;
use subsweep::communication::DataByRank;
use subsweep::communication::ExchangeCommunicator;
use subsweep::communication::Identified;
use subsweep::communication::MpiWorld;
use subsweep::communication::SizedCommunicator;
use subsweep::communication::MPI_UNIVERSE;

use crate::ctx::Ctx;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "exchange", run: exchange },
        Workload { name: "chunks", run: chunks },
        Workload { name: "databyrank", run: databyrank },
        Workload { name: "collectives", run: collectives },
        Workload { name: "typed", run: typed },
        Workload { name: "options", run: options },
    ]
}

#[derive(Clone, Debug, PartialEq, Equivalence)]
pub struct Item {
    flag: bool,
    from: i32,
    to: i32,
    small: [u8; 3],
    round: u32,
    idx: u64,
    x: f64,
}

#[derive(Clone, Debug, PartialEq, Equivalence)]
pub struct Inner {
    a: u8,
    b: f64,
}

#[derive(Clone, Debug, PartialEq, Equivalence)]
pub struct Nested {
    id: u64,
    inner: Inner,
    f: [f64; 2],
    ok: bool,
}

pub trait Gen: Equivalence + Clone + PartialEq + std::fmt::Debug + 'static {
    fn gen(h: u64) -> Self;
}
fn finite(h: u64) -> f64 {
    let x = f64::from_bits(mix(h, 99));
    if x.is_finite() {
        x
    } else {
        h as f64
    }
}
impl Gen for Item {
    fn gen(h: u64) -> Self {
        Item {
            flag: h & 1 == 1,
            from: mix(h, 1) as i32,
            to: mix(h, 2) as i32,
            small: [h as u8, (h >> 8) as u8, (h >> 16) as u8],
            round: mix(h, 3) as u32,
            idx: mix(h, 4),
            x: finite(h),
        }
    }
}
impl Gen for Nested {
    fn gen(h: u64) -> Self {
        Nested {
            id: mix(h, 5),
            inner: Inner { a: h as u8, b: finite(h ^ 1) },
            f: [finite(h ^ 2), finite(h ^ 3)],
            ok: h & 2 == 2,
        }
    }
}
impl Gen for u64 {
    fn gen(h: u64) -> Self {
        h
    }
}
impl Gen for f64 {
    fn gen(h: u64) -> Self {
        finite(h)
    }
}
impl Gen for i32 {
    fn gen(h: u64) -> Self {
        h as i32
    }
}
impl Gen for u8 {
    fn gen(h: u64) -> Self {
        h as u8
    }
}
impl Gen for bool {
    fn gen(h: u64) -> Self {
        h & 1 == 1
    }
}
impl Gen for Identified<Nested> {
    fn gen(h: u64) -> Self {
        Identified { key: mix(h, 7), data: Nested::gen(h) }
    }
}

#[derive(Clone, Copy)]
struct Plan {
    seed: u64,
    scale: u64,
    rounds: u32,
    n: usize,
}

impl Plan {
    fn count(&self, chan: u64, round: u32, from: i32, to: i32) -> usize {
        let h = mix(mix(self.seed, chan * 1000 + round as u64), (from as u64) << 32 | to as u64);
        match h % 5 {
            0 | 1 => 0,
            2 => 1,
            3 => (mix(h, 1) % 8) as usize,
            _ => (mix(h, 1) % self.scale) as usize,
        }
    }
    fn same_count(&self, chan: u64, round: u32, from: i32) -> usize {
        self.count(chan, round, from, 12345)
    }
    fn items<T: Gen>(&self, chan: u64, round: u32, from: i32, to: i32, same: bool) -> Vec<T> {
        let n = if same { self.same_count(chan, round, from) } else { self.count(chan, round, from, to) };
        let to = if same { 999 } else { to };
        (0..n)
            .map(|i| T::gen(mix(mix(self.seed ^ chan, i as u64), (round as u64) << 40 | (from as u64) << 20 | to as u64)))
            .collect()
    }
    fn same(&self, chan: u64, round: u32) -> bool {
        mix(self.seed ^ 77, chan * 100 + round as u64) % 3 == 0
    }
}

fn round_of<T: Gen>(
    p: &Plan,
    comm: &mut ExchangeCommunicator<T>,
    chan: u64,
    round: u32,
    eager: bool,
    out: &mut Vec<String>,
    total: &mut u64,
) {
    let me = comm.rank();
    let others = comm.other_ranks();
    let same = p.same(chan, round);
    let mode = mix(p.seed ^ 5, (round as u64) << 8 | me as u64 | chan << 30) % 5;
    let received = if same && mode < 3 {
        comm.exchange_same_for_all(&p.items::<T>(chan, round, me, 0, true))
    } else if mode == 0 && eager {
        // one by one
        for r in others.iter().rev() {
            comm.blocking_send_vec(*r, p.items::<T>(chan, round, me, *r, same));
        }
        comm.receive_vec()
    } else if mode == 1 && eager {
        // only to those that get something
        for r in &others {
            let it = p.items::<T>(chan, round, me, *r, same);
            if !it.is_empty() {
                comm.blocking_send_vec(*r, it);
            }
        }
        comm.receive_vec()
    } else if mode == 2 {
        // a sparse table
        let data: DataByRank<Vec<T>> = others
            .iter()
            .map(|r| (*r, p.items::<T>(chan, round, me, *r, same)))
            .filter(|x| !x.1.is_empty())
            .collect();
        comm.exchange_all(data)
    } else {
        let mut data: DataByRank<Vec<T>> = DataByRank::from_communicator(comm);
        for r in &others {
            for it in p.items::<T>(chan, round, me, *r, same) {
                data[*r].push(it);
            }
        }
        comm.exchange_all(data)
    };
    let mut sum = 0;
    for r in &others {
        let want = p.items::<T>(chan, round, *r, me, same);
        sum += want.len();
        *total += want.len() as u64;
        match received.get(r) {
            None => out.push(format!("round {round} channel {chan}: rank {me} got nothing from rank {r}")),
            Some(got) => {
                if *got != want {
                    out.push(format!(
                        "round {round} channel {chan}: rank {me} got from rank {r} {} items, expected {}; got {:?} expected {:?}",
                        got.len(),
                        want.len(),
                        got.iter().take(3).collect::<Vec<_>>(),
                        want.iter().take(3).collect::<Vec<_>>()
                    ));
                }
            }
        }
    }
    if received.get(&me).is_some() {
        out.push(format!("rank {me} has an entry from itself"));
    }
    if received.size() != sum {
        out.push(format!("rank {me}: total {} expected {sum}", received.size()));
    }
    let order: Vec<i32> = received.iter().map(|x| x.0).collect();
    if order != others {
        out.push(format!("rank {me}: iteration over ranks {order:?}, expected {others:?}"));
    }
    let order: Vec<(i32, usize)> = received.into_iter().map(|(r, v)| (r, v.len())).collect();
    let want: Vec<(i32, usize)> = others
        .iter()
        .map(|r| (*r, p.items::<T>(chan, round, *r, me, same).len()))
        .collect();
    if order != want {
        out.push(format!("rank {me}: consuming iteration {order:?}, expected {want:?}"));
    }
}

pub fn exchange(c: &mut Ctx) {
    // Now and then a few very long messages.
    let long = c.chance("long", 0.02);
    let n = if long { c.int("ranks", 2, 4) } else { 1 + c.size("ranks", 1, 6, 19) };
    let env = c.env(n);
    let eager = env.eager_limit == usize::MAX;
    let p = Plan {
        seed: c.rng("data").next(),
        scale: if long { c.pick("scale", &[3000, 10000, 70000]) } else { c.pick("scale", &[2, 30, 400]) },
        rounds: if long { c.int("rounds", 1, 3) } else { c.size("rounds", 1, 6, 30) } as u32,
        n,
    };
    let channels = c.int("channels", 1, 3) as u64;
    let fresh = c.chance("fresh", 0.3);
    c.desc(format!("{n} ranks, {} rounds, {channels} channels, sizes up to {}", p.rounds, p.scale));
    let job = c.job(n, env, move |rank| {
        let mut out = vec![];
        let mut total = 0;
        let mut a: ExchangeCommunicator<Item> = ExchangeCommunicator::new();
        let mut b: ExchangeCommunicator<u64> = ExchangeCommunicator::from(Communicator::<u64>::new());
        let mut d: ExchangeCommunicator<Identified<Nested>> =
            ExchangeCommunicator::from(MpiWorld::<Identified<Nested>>::from(MpiWorld::<Nested>::new()));
        if a.rank() as usize != rank || a.size() != p.n || a.other_ranks().len() + 1 != p.n || a.all_ranks().len() != p.n {
            out.push(format!("rank {rank}: wrong rank or size"));
        }
        for r in 0..p.rounds {
            if fresh {
                a = ExchangeCommunicator::new();
            }
            round_of(&p, &mut a, 0, r, eager, &mut out, &mut total);
            if channels > 1 {
                round_of(&p, &mut b, 1, r, eager, &mut out, &mut total);
            }
            if channels > 2 {
                round_of(&p, &mut d, 2, r, eager, &mut out, &mut total);
            }
        }
        (out, total)
    });
    if job.finished() {
        let mut total = 0;
        for (r, (out, t)) in job.all().into_iter().enumerate() {
            total += t;
            c.note(t);
            c.check("*", out.is_empty(), "exchange", || format!("rank {r}: {}", out.join("; ")));
        }
        c.res.evaluations += total;
        c.res.nontrivial = total > 0;
        c.stat("cov_items_exchanged", total);
    }
}

fn chunks(c: &mut Ctx) {
    let n = c.size("ranks", 1, 6, 19);
    let env = c.env(n);
    let mut rng = c.rng("data");
    let long = c.chance("long", 0.02);
    let max = if long { 60000 } else { c.pick("len", &[0u64, 3, 20, 100, 1500]) };
    let lens: Vec<usize> = (0..n).map(|_| if rng.chance(0.25) { 0 } else { rng.below(max + 1) as usize }).collect();
    let size = if long { c.pick("chunk", &[1000usize, 10000, 33333, 100000]) } else { c.pick("chunk", &[1usize, 2, 3, 7, 10, 50, 1000]) };
    c.desc(format!("{n} ranks with {lens:?} items, chunks of {size}"));
    let l2 = lens.clone();
    let job = c.job(n, env, move |rank| {
        let items: Vec<u64> = (0..l2[rank]).map(|i| (rank as u64) << 32 | i as u64).collect();
        let mut comm: ExchangeCommunicator<u64> = ExchangeCommunicator::new();
        let mut got: Vec<Vec<u64>> = vec![];
        let mut recv: BTreeMap<i32, Vec<u64>> = BTreeMap::new();
        for ch in divide_into_chunks_with_same_num_globally(&items, size) {
            got.push(ch.to_vec());
            for (r, v) in comm.exchange_same_for_all(ch) {
                recv.entry(r).or_default().extend(v);
            }
        }
        (got, recv)
    });
    if job.finished() {
        let all = job.all();
        let num = lens.iter().map(|l| l.div_ceil(size)).max().unwrap();
        for (r, (got, recv)) in all.iter().enumerate() {
            let cat: Vec<u64> = got.iter().flatten().copied().collect();
            let want: Vec<u64> = (0..lens[r]).map(|i| (r as u64) << 32 | i as u64).collect();
            c.check("*", got.len() == num, "chunk_rounds", || {
                format!("rank {r} took part in {} rounds, expected {num}", got.len())
            });
            c.check("*", cat == want, "chunk_items", || format!("rank {r}: chunks hold {cat:?}, items {want:?}"));
            c.check("*", got.iter().all(|g| g.len() <= size), "chunk_size", || format!("rank {r}: chunk too large"));
            if num > 0 {
                for s in 0..n {
                    if s != r {
                        let want: Vec<u64> = (0..lens[s]).map(|i| (s as u64) << 32 | i as u64).collect();
                        c.check("*", recv.get(&(s as i32)) == Some(&want), "chunk_exchange", || {
                            format!("rank {r} received {:?} from {s}, expected {want:?}", recv.get(&(s as i32)))
                        });
                    }
                }
            }
        }
        c.res.nontrivial = num > 1 && n > 1;
    }
}

/// The per-rank table against a map, by random operations on every rank.
fn databyrank(c: &mut Ctx) {
    let n = c.size("ranks", 1, 6, 19);
    let env = c.env(n);
    let seed = c.rng("data").next();
    let steps = c.int("ops", 1, 60);
    c.desc(format!("{n} ranks, {steps} operations"));
    let job = c.job(n, env, move |rank| {
        let mut rng = Rng::new(mix(seed, rank as u64));
        let comm: MpiWorld<u64> = MpiWorld::new();
        let me = rank as i32;
        let mut bad = vec![];
        let mut model: BTreeMap<i32, u64> = BTreeMap::new();
        let mut d: DataByRank<u64> = match rng.below(5) {
            0 => DataByRank::empty(),
            1 => {
                for r in 0..n as i32 {
                    if r != me {
                        model.insert(r, 0);
                    }
                }
                DataByRank::from_communicator(&comm)
            }
            2 => {
                for r in 0..n as i32 {
                    if r != me {
                        model.insert(r, 42);
                    }
                }
                DataByRank::same_for_other_ranks_in_communicator(42, &comm)
            }
            3 => {
                for r in 0..n as i32 {
                    model.insert(r, 43);
                }
                DataByRank::same_for_all_ranks_in_communicator(43, &comm)
            }
            _ => {
                for r in 0..n as i32 {
                    if rng.chance(0.5) {
                        model.insert(r, rng.next());
                    }
                }
                model.iter().map(|(k, v)| (*k, *v)).collect()
            }
        };
        let mut len = model.keys().last().map_or(0, |k| k + 1);
        if d.iter().count() > 0 && matches!(d.iter().last(), Some((r, _)) if r + 1 > len) {
            len = d.iter().last().unwrap().0 + 1;
        }
        for _ in 0..steps {
            let r = rng.below(n as u64) as i32;
            match rng.below(7) {
                0 | 1 => {
                    let v = rng.next();
                    d.insert(r, v);
                    model.insert(r, v);
                    len = len.max(r + 1);
                }
                2 => {
                    if r < len && d.remove(&r) != model.remove(&r) {
                        bad.push("remove".to_string());
                    }
                }
                3 => {
                    if r < len {
                        if let Some(x) = d.get_mut(&r) {
                            *x = x.wrapping_add(1);
                        }
                        if let Some(x) = model.get_mut(&r) {
                            *x = x.wrapping_add(1);
                        }
                    }
                }
                4 => {
                    if model.contains_key(&r) {
                        d[r] = d[r].wrapping_mul(3);
                        let x = model.get_mut(&r).unwrap();
                        *x = x.wrapping_mul(3);
                    }
                }
                5 => {
                    for (k, x) in d.iter_mut() {
                        *x ^= k as u64;
                    }
                    for (k, x) in model.iter_mut() {
                        *x ^= *k as u64;
                    }
                }
                _ => {
                    if rng.chance(0.2) {
                        let drained: Vec<_> = d.drain_all().collect();
                        let want: Vec<_> = std::mem::take(&mut model).into_iter().collect();
                        if drained != want {
                            bad.push(format!("drain {drained:?} expected {want:?}"));
                        }
                        len = 0;
                    }
                }
            }
            let got: Vec<_> = d.iter().map(|(k, v)| (k, *v)).collect();
            let want: Vec<_> = model.iter().map(|(k, v)| (*k, *v)).collect();
            if got != want {
                bad.push(format!("table {got:?} expected {want:?}"));
                break;
            }
            let copy: Vec<_> = d.clone().into_iter().collect();
            if copy != want {
                bad.push(format!("consumed {copy:?} expected {want:?}"));
                break;
            }
        }
        bad
    });
    if job.finished() {
        for (r, bad) in job.all().into_iter().enumerate() {
            c.check("*", bad.is_empty(), "table", || format!("rank {r}: {}", bad.join("; ")));
        }
    }
}

fn val(seed: u64, op: u64, rank: usize) -> u64 {
    mix(mix(seed, op), rank as u64 + 1)
}

/// A random sequence of collectives, mixed with point-to-point messages.
fn collectives(c: &mut Ctx) {
    let n = c.size("ranks", 1, 7, 24);
    let env = c.env(n);
    let seed = c.rng("data").next();
    let ops: Vec<u64> = {
        let k = c.size("ops", 1, 12, 60);
        (0..k).map(|_| c.int("op", 0, 14) as u64).collect()
    };
    let maxlen = c.pick("len", &[3u64, 30, 300]);
    c.desc(format!("{n} ranks, collectives {ops:?}, lengths up to {maxlen}"));
    let o2 = ops.clone();
    let job = c.job(n, env, move |rank| {
        let mut bad: Vec<String> = vec![];
        let mut digest: Vec<u64> = vec![];
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {{
                let (g, w) = ($got, $want);
                if g != w {
                    bad.push(format!("{}: got {:?}, expected {:?}", $what, g, w));
                }
            }};
        }
        for (i, op) in o2.iter().enumerate() {
            let i = i as u64;
            let v = |r: usize| val(seed, i, r);
            let all: Vec<u64> = (0..n).map(v).collect();
            match op {
                0 => {
                    let mut w: MpiWorld<u64> = MpiWorld::new();
                    same!("gather", w.all_gather(&v(rank)), all);
                }
                1 => {
                    let mut w: MpiWorld<Nested> = MpiWorld::new();
                    let want: Vec<Nested> = all.iter().map(|h| Nested::gen(*h)).collect();
                    same!("gather of records", w.all_gather(&Nested::gen(v(rank))), want);
                }
                2 => {
                    let mut w: MpiWorld<u64> = MpiWorld::new();
                    let small = |r: usize| v(r) >> 8;
                    let s: u64 = w.all_gather_sum(&small(rank));
                    same!("sum", s, (0..n).map(small).sum::<u64>());
                }
                3 => {
                    let mut w: MpiWorld<f64> = MpiWorld::new();
                    let x = |r: usize| (v(r) as i64 >> 20) as f64 / 1024.0;
                    let s: f64 = w.all_gather_sum(&x(rank));
                    same!("sum", s, (0..n).map(x).sum::<f64>());
                    digest.push(s.to_bits());
                }
                4 | 5 => {
                    let mut w: MpiWorld<f64> = MpiWorld::new();
                    // both signs, sometimes ties
                    let x = |r: usize| ((v(r) as i64) >> 59) as f64 * 0.5;
                    let xs: Vec<f64> = (0..n).map(x).collect();
                    let lo: Option<f64> = w.all_gather_min(&x(rank));
                    let hi: Option<f64> = w.all_gather_max(&x(rank));
                    same!("minimum", lo, Some(xs.iter().copied().fold(f64::INFINITY, f64::min)));
                    same!("maximum", hi, Some(xs.iter().copied().fold(f64::NEG_INFINITY, f64::max)));
                }
                6 => {
                    let mut w: MpiWorld<i32> = MpiWorld::new();
                    let x = |r: usize| v(r) as i32;
                    let lo: Option<i64> = w.all_gather_min(&x(rank));
                    let hi: Option<i64> = w.all_gather_max(&x(rank));
                    same!("minimum", lo, (0..n).map(|r| x(r) as i64).min());
                    same!("maximum", hi, (0..n).map(|r| x(r) as i64).max());
                }
                7 => {
                    let mut w: MpiWorld<u64> = MpiWorld::new();
                    same!("reduced sum", w.all_reduce_sum(&(v(rank) >> 8)), all.iter().map(|x| x >> 8).sum::<u64>());
                }
                8 | 9 => {
                    let len = |r: usize| if v(r) % 4 == 0 { 0 } else { v(r) % maxlen } as usize;
                    let items = |r: usize| -> Vec<u64> { (0..len(r)).map(|k| mix(v(r), k as u64)).collect() };
                    let mut w: MpiWorld<u64> = MpiWorld::new();
                    let want: Vec<u64> = (0..n).flat_map(items).collect();
                    same!("variable gather", w.all_gather_varcount(&items(rank)), want);
                }
                10 => {
                    let len = |r: usize| if v(r) % 3 == 0 { 0 } else { v(r) % maxlen } as usize;
                    let items = |r: usize| -> Vec<Item> { (0..len(r)).map(|k| Item::gen(mix(v(r), k as u64))).collect() };
                    let mut w: MpiWorld<Item> = MpiWorld::new();
                    let want: Vec<Item> = (0..n).flat_map(items).collect();
                    same!("variable gather of records", w.all_gather_varcount(&items(rank)), want);
                }
                11 => {
                    let mut w: MpiWorld<f64> = MpiWorld::new();
                    // all the same, or one differs
                    let odd = (v(0) % (2 * n as u64 + 1)) as usize;
                    let x = |r: usize| if r == odd { 7u64 } else { 3 };
                    let want = (0..n).all(|r| x(r) == x(0));
                    same!("agreement", w.all_ranks_have_same_value(&x(rank)), want);
                }
                12 => MPI_UNIVERSE.barrier(),
                13 => {
                    let mut w: MpiWorld<CommunicatedOption<f64>> = MpiWorld::new();
                    let x = |r: usize| (v(r) % 2 == 0).then(|| finite(v(r)));
                    let got: Vec<Option<f64>> = w.all_gather(&x(rank).into()).into_iter().map(|x| x.into()).collect();
                    same!("gather of optional values", got, (0..n).map(x).collect::<Vec<_>>());
                }
                _ => {
                    // a ring of point-to-point messages of the same type
                    let mut w: MpiWorld<u64> = MpiWorld::new();
                    let (to, from) = ((rank + 1) % n, (rank + n - 1) % n);
                    let data = vec![v(rank); 1 + (v(rank) % 5) as usize];
                    let want = vec![v(from); 1 + (v(from) % 5) as usize];
                    let got = mpi::request::scope(|s| {
                        let _g = w.immediate_send_vec_wait_guard(s, to as i32, &data);
                        MpiWorld::<u64>::new().receive_vec(from as i32)
                    });
                    same!("ring", got, want);
                }
            }
        }
        (bad, digest)
    });
    if job.finished() {
        let all = job.all();
        for (r, (bad, digest)) in all.iter().enumerate() {
            c.check("*", bad.is_empty(), "collective", || format!("rank {r}: {}", bad.join("; ")));
            c.check("*", *digest == all[0].1, "collective_agreement", || {
                format!("rank {r} got {digest:?}, rank 0 {:?}", all[0].1)
            });
        }
        c.res.evaluations += (n * ops.len()) as u64;
        c.res.nontrivial = n > 1;
    }
}

/// Every rank sends messages of several types to several ranks asynchronously
/// and receives them in another order.
fn typed(c: &mut Ctx) {
    let long = c.chance("long", 0.02);
    let n = if long { c.int("ranks", 2, 3) } else { 1 + c.size("ranks", 1, 5, 15) };
    let env = c.env(n);
    let seed = c.rng("data").next();
    let num = if long { c.int("messages", 1, 2) } else { c.size("messages", 1, 12, 60) };
    let scale = if long { c.pick("scale", &[3000u64, 10000, 70000]) } else { c.pick("scale", &[3u64, 60, 400]) };
    let poll = c.chance("poll", 0.5);
    c.desc(format!("{n} ranks, {num} messages per pair and type, up to {scale} items"));
    let job = c.job(n, env, move |rank| {
        let mut bad = vec![];
        // (type, from, to, k) -> data
        fn data<T: Gen>(seed: u64, ty: u64, from: usize, to: usize, k: usize, scale: u64) -> Vec<T> {
            let h = mix(mix(seed, ty << 32 | k as u64), (from as u64) << 20 | to as u64);
            let len = if h % 4 == 0 { 0 } else { mix(h, 3) % scale };
            (0..len).map(|i| T::gen(mix(h, i + 10))).collect()
        }
        macro_rules! bufs {
            ($t:ty, $id:expr) => {{
                let v: Vec<Vec<Vec<$t>>> = (0..n)
                    .map(|to| (0..num).map(|k| data::<$t>(seed, $id, rank, to, k, scale)).collect())
                    .collect();
                v
            }};
        }
        let (b0, b1, b2, b3, b4, b5) = (
            bufs!(u64, 0),
            bufs!(f64, 1),
            bufs!(Item, 2),
            bufs!(Nested, 3),
            bufs!(i32, 4),
            bufs!(u8, 5),
        );
        let mut order: Vec<(usize, usize, usize)> = vec![];
        for ty in 0..6 {
            for to in 0..n {
                if to != rank {
                    for k in 0..num {
                        order.push((ty, to, k));
                    }
                }
            }
        }
        // any order across types and ranks, in order within a channel
        let mut rng = Rng::new(mix(seed, 1000 + rank as u64));
        rng.shuffle(&mut order);
        let mut next: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for o in order.iter_mut() {
            let k = next.entry((o.0, o.1)).or_insert(0);
            o.2 = *k;
            *k += 1;
        }
        let (mut w0, mut w1, mut w2, mut w3, mut w4, mut w5): (
            MpiWorld<u64>,
            MpiWorld<f64>,
            MpiWorld<Item>,
            MpiWorld<Nested>,
            MpiWorld<i32>,
            MpiWorld<u8>,
        ) = (
            MpiWorld::new(),
            MpiWorld::new(),
            MpiWorld::new(),
            MpiWorld::new(),
            MpiWorld::new(),
            MpiWorld::new_custom_tag(4711),
        );
        mpi::request::scope(|s| {
            let mut g0 = vec![];
            let mut g1 = vec![];
            let mut g2 = vec![];
            let mut g3 = vec![];
            let mut g4 = vec![];
            let mut g5 = vec![];
            for (ty, to, k) in &order {
                let (to, k, r) = (*to, *k, *to as i32);
                match ty {
                    0 => g0.extend(w0.immediate_send_vec_wait_guard(s, r, &b0[to][k])),
                    1 => g1.extend(w1.immediate_send_vec_wait_guard(s, r, &b1[to][k])),
                    2 => g2.extend(w2.immediate_send_vec_wait_guard(s, r, &b2[to][k])),
                    3 => g3.extend(w3.immediate_send_vec_wait_guard(s, r, &b3[to][k])),
                    4 => g4.extend(w4.immediate_send_vec_wait_guard(s, r, &b4[to][k])),
                    _ => g5.extend(w5.immediate_send_vec_wait_guard(s, r, &b5[to][k])),
                }
            }
            let mut want: Vec<(usize, usize)> = vec![];
            for ty in 0..6 {
                for from in 0..n {
                    if from != rank {
                        for _ in 0..num {
                            want.push((ty, from));
                        }
                    }
                }
            }
            let mut rng = Rng::new(mix(seed, 2000 + rank as u64));
            rng.shuffle(&mut want);
            let mut next: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for (ty, from) in want {
                let k = next.entry((ty, from)).or_insert(0);
                let kk = *k;
                *k += 1;
                macro_rules! recv {
                    ($w:expr, $t:ty, $id:expr) => {{
                        let got: Vec<$t> = if poll {
                            loop {
                                if let Some(v) = $w.try_receive_vec(from as i32) {
                                    break v;
                                }
                            }
                        } else {
                            $w.receive_vec(from as i32)
                        };
                        let want: Vec<$t> = data(seed, $id, from, rank, kk, scale);
                        if got != want {
                            bad.push(format!(
                                "message {kk} of type {} from rank {from} to {rank}: got {} items {:?}, expected {} items {:?}",
                                stringify!($t),
                                got.len(),
                                got.iter().take(2).collect::<Vec<_>>(),
                                want.len(),
                                want.iter().take(2).collect::<Vec<_>>()
                            ));
                        }
                    }};
                }
                match ty {
                    0 => recv!(w0, u64, 0),
                    1 => recv!(w1, f64, 1),
                    2 => recv!(w2, Item, 2),
                    3 => recv!(w3, Nested, 3),
                    4 => recv!(w4, i32, 4),
                    _ => recv!(w5, u8, 5),
                }
            }
        });
        bad
    });
    if job.finished() {
        for (r, bad) in job.all().into_iter().enumerate() {
            c.check("*", bad.is_empty(), "message", || format!("rank {r}: {}", bad.join("; ")));
        }
        c.res.evaluations += (6 * num * n * (n - 1)) as u64;
        c.res.nontrivial = true;
    }
}

/// Optional and identified values over exchanges and point to point.
fn options(c: &mut Ctx) {
    let n = 1 + c.size("ranks", 1, 4, 15);
    let env = c.env(n);
    let seed = c.rng("data").next();
    let len = c.pick("len", &[1usize, 5, 50]);
    c.desc(format!("{n} ranks, {len} optional values"));
    let job = c.job(n, env, move |rank| {
        fn opt<T: Gen>(seed: u64, from: usize, to: usize, i: usize) -> Option<T> {
            let h = mix(mix(seed, i as u64), (from as u64) << 20 | to as u64);
            (h % 3 != 0).then(|| T::gen(mix(h, 1)))
        }
        fn go<T: Gen>(seed: u64, n: usize, rank: usize, len: usize, bad: &mut Vec<String>) {
            let mut comm: ExchangeCommunicator<CommunicatedOption<T>> = ExchangeCommunicator::new();
            let data: DataByRank<Vec<CommunicatedOption<T>>> = (0..n)
                .filter(|r| *r != rank)
                .map(|to| {
                    (
                        to as i32,
                        (0..len)
                            .map(|i| {
                                let x: CommunicatedOption<T> = opt::<T>(seed, rank, to, i).into();
                                x.clone()
                            })
                            .collect::<Vec<_>>(),
                    )
                })
                .collect();
            for (from, got) in comm.exchange_all(data) {
                let got: Vec<Option<T>> = got.into_iter().map(|x| x.into()).collect();
                let want: Vec<Option<T>> = (0..len).map(|i| opt::<T>(seed, from as usize, rank, i)).collect();
                if got != want {
                    bad.push(format!(
                        "{}: from {from} to {rank}: got {:?} expected {:?}",
                        std::any::type_name::<T>(),
                        got.iter().take(3).collect::<Vec<_>>(),
                        want.iter().take(3).collect::<Vec<_>>()
                    ));
                }
            }
        }
        let mut bad = vec![];
        go::<f64>(mix(seed, 1), n, rank, len, &mut bad);
        go::<Nested>(mix(seed, 2), n, rank, len, &mut bad);
        go::<Item>(mix(seed, 3), n, rank, len, &mut bad);
        go::<i32>(mix(seed, 4), n, rank, len, &mut bad);
        go::<u8>(mix(seed, 5), n, rank, len, &mut bad);
        go::<bool>(mix(seed, 6), n, rank, len, &mut bad);
        go::<u64>(mix(seed, 7), n, rank, len, &mut bad);
        go::<Identified<Nested>>(mix(seed, 8), n, rank, len, &mut bad);
        bad
    });
    if job.finished() {
        for (r, bad) in job.all().into_iter().enumerate() {
            c.check("*", bad.is_empty(), "optional", || format!("rank {r}: {}", bad.join("; ")));
        }
        c.res.evaluations += (8 * len * n * (n - 1)) as u64;
        c.res.nontrivial = true;
    }
}
