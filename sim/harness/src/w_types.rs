//! The communicated records of the repository, and the separation of messages of different types.
use mpi::traits::Equivalence;
use simcore::choice::mix;
use simcore::choice::Rng;
use subsweep::communication::communicator::Communicator;
use subsweep::communication::CommunicatedOption;
use subsweep::communication::DataByRank;
use subsweep::communication::ExchangeCommunicator;
use subsweep::communication::Identified;
use subsweep::communication::SizedCommunicator;
use subsweep::components;
use subsweep::prelude::ParticleId;
use subsweep::source_systems::Source;
use subsweep::sweep::timestep_level::TimestepLevel;
use subsweep::sweep::DirectionIndex;
use subsweep::units;
use subsweep::units::MVec;
use subsweep::units::VecLength;
use subsweep::verif::extent::Extent;
use subsweep::verif::peano_hilbert::PeanoKey2d;
use subsweep::verif::peano_hilbert::PeanoKey3d;

use crate::ctx::Ctx;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "records", run: records },
        Workload { name: "tags", run: tags },
    ]
}

fn float(h: u64) -> f64 {
    match h % 11 {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::MIN_POSITIVE / 8.0,
        _ => {
            let x = f64::from_bits(mix(h, 77));
            if x.is_nan() {
                1.5
            } else {
                x
            }
        }
    }
}

/// A record with a bit-exact description of its value.
trait Rec: Equivalence + Clone + 'static {
    fn make(h: u64) -> Self;
    fn bits(&self) -> Vec<u64>;
}

macro_rules! scalar_rec {
    ($($t:ty, $make:expr, $bits:expr;)*) => {
        $(impl Rec for $t {
            fn make(h: u64) -> Self {
                let f: fn(u64) -> $t = $make;
                f(h)
            }
            fn bits(&self) -> Vec<u64> {
                let f: fn(&$t) -> Vec<u64> = $bits;
                f(self)
            }
        })*
    };
}

fn vec3(h: u64) -> MVec {
    MVec::new(float(mix(h, 1)), float(mix(h, 2)), float(mix(h, 3)))
}

fn vec_bits(v: &MVec) -> Vec<u64> {
    vec![v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]
}

fn length(h: u64) -> VecLength {
    VecLength::new_unchecked(vec3(h))
}

scalar_rec! {
    u64, |h| h, |x| vec![*x];
    i64, |h| h as i64, |x| vec![*x as u64];
    usize, |h| h as usize, |x| vec![*x as u64];
    u32, |h| h as u32, |x| vec![*x as u64];
    i32, |h| h as i32, |x| vec![*x as u64];
    u16, |h| h as u16, |x| vec![*x as u64];
    u8, |h| h as u8, |x| vec![*x as u64];
    bool, |h| h % 2 == 1, |x| vec![*x as u64];
    f64, float, |x| vec![x.to_bits()];
    f32, |h| float(h) as f32, |x| vec![x.to_bits() as u64];
    PeanoKey2d, |h| PeanoKey2d(h), |x| vec![x.0];
    PeanoKey3d, |h| PeanoKey3d((mix(h, 1) as u128) << 64 | h as u128), |x| vec![x.0 as u64, (x.0 >> 64) as u64];
    DirectionIndex, |h| DirectionIndex(h as usize), |x| vec![x.0 as u64];
    TimestepLevel, |h| TimestepLevel(h as usize), |x| vec![x.0 as u64];
    ParticleId, |h| ParticleId { rank: mix(h, 1) as i32, index: mix(h, 2) as u32 }, |x| vec![x.rank as u64, x.index as u64];
    VecLength, length, |x| vec_bits(&x.value_unchecked());
    units::Length, |h| units::Length::new_unchecked(float(h)), |x| vec![x.value_unchecked().to_bits()];
    components::Position, |h| components::Position(length(h)), |x| vec_bits(&x.0.value_unchecked());
    components::Density, |h| components::Density(units::Density::new_unchecked(float(h))), |x| vec![x.0.value_unchecked().to_bits()];
    components::Mass, |h| components::Mass(units::Mass::new_unchecked(float(h))), |x| vec![x.0.value_unchecked().to_bits()];
    components::Temperature, |h| components::Temperature(units::Temperature::new_unchecked(float(h))), |x| vec![x.0.value_unchecked().to_bits()];
    Source, |h| Source { pos: length(h), rate: units::SourceRate::new_unchecked(float(mix(h, 9))) },
        |x| { let mut v = vec_bits(&x.pos.value_unchecked()); v.push(x.rate.value_unchecked().to_bits()); v };
}

impl<P: Rec> Rec for Extent<P> {
    fn make(h: u64) -> Self {
        Extent { min: P::make(mix(h, 1)), max: P::make(mix(h, 2)), center: P::make(mix(h, 3)) }
    }
    fn bits(&self) -> Vec<u64> {
        [&self.min, &self.max, &self.center].iter().flat_map(|p| p.bits()).collect()
    }
}

impl<T: Rec> Rec for Identified<T> {
    fn make(h: u64) -> Self {
        Identified { key: mix(h, 1), data: T::make(mix(h, 2)) }
    }
    fn bits(&self) -> Vec<u64> {
        let mut v = vec![self.key];
        v.extend(self.data.bits());
        v
    }
}

impl<T: Rec> Rec for CommunicatedOption<T> {
    fn make(h: u64) -> Self {
        (h % 3 != 0).then(|| T::make(mix(h, 1))).into()
    }
    fn bits(&self) -> Vec<u64> {
        let x: Option<T> = self.clone().into();
        x.map(|x| x.bits()).unwrap_or_default()
    }
}

fn item<T: Rec>(seed: u64, from: usize, to: usize, k: usize) -> T {
    T::make(mix(mix(seed, k as u64), (from as u64) << 20 | to as u64))
}

fn record_round<T: Rec>(seed: u64, n: usize, rank: usize, len: usize, bad: &mut Vec<String>) {
    let name = std::any::type_name::<T>();
    let num = |from: usize, to: usize| (mix(seed, (from * 64 + to) as u64) % (len as u64 + 1)) as usize;
    let all = |from: usize, to: usize| -> Vec<T> { (0..num(from, to)).map(|k| item(seed, from, to, k)).collect() };
    let differ = |a: &[T], b: &[T]| -> bool {
        a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.bits() != y.bits())
    };
    let mut comm: ExchangeCommunicator<T> = ExchangeCommunicator::new();
    let data: DataByRank<Vec<T>> = (0..n).filter(|r| *r != rank).map(|to| (to as i32, all(rank, to))).collect();
    for (from, got) in comm.exchange_all(data) {
        if differ(&got, &all(from as usize, rank)) {
            bad.push(format!("{name}: {} records from {from} to {rank} changed", got.len()));
        }
    }
    let mut w: Communicator<T> = Communicator::new();
    // a record alone and a list of records, from every rank
    let got = w.all_gather(&item(seed, rank, n, 0));
    let want: Vec<T> = (0..n).map(|r| item(seed, r, n, 0)).collect();
    if differ(&got, &want) {
        bad.push(format!("{name}: gathered records changed on {rank}"));
    }
    let got = w.all_gather_varcount(&all(rank, n));
    let want: Vec<T> = (0..n).flat_map(|r| all(r, n)).collect();
    if differ(&got, &want) {
        bad.push(format!("{name}: gathered lists of records changed on {rank}"));
    }
}

/// Every communicated record that can be reached from outside, through every kind of operation.
fn records(c: &mut Ctx) {
    let n = c.int("ranks", 1, 4);
    let env = c.env(n);
    let seed = c.rng("data").next();
    let len = c.pick("len", &[1usize, 4, 30]);
    let first = c.int("first", 0, 2);
    c.desc(format!("{n} ranks, up to {len} records"));
    let job = c.job(n, env, move |rank| {
        let mut bad = vec![];
        let b = &mut bad;
        let s = |k: u64| mix(seed, k);
        if first == 0 {
            record_round::<PeanoKey2d>(s(1), n, rank, len, b);
            record_round::<PeanoKey3d>(s(2), n, rank, len, b);
            record_round::<Extent<VecLength>>(s(5), n, rank, len, b);
            record_round::<CommunicatedOption<Extent<VecLength>>>(s(6), n, rank, len, b);
        } else if first == 1 {
            record_round::<Extent<f64>>(s(7), n, rank, len, b);
            record_round::<ParticleId>(s(8), n, rank, len, b);
            record_round::<CommunicatedOption<ParticleId>>(s(9), n, rank, len, b);
            record_round::<Identified<components::Position>>(s(10), n, rank, len, b);
            record_round::<Source>(s(11), n, rank, len, b);
            record_round::<CommunicatedOption<u8>>(s(12), n, rank, len, b);
            record_round::<CommunicatedOption<CommunicatedOption<u16>>>(s(13), n, rank, len, b);
        } else {
            record_round::<DirectionIndex>(s(14), n, rank, len, b);
            record_round::<TimestepLevel>(s(15), n, rank, len, b);
            record_round::<components::Density>(s(16), n, rank, len, b);
            record_round::<Identified<Identified<u8>>>(s(17), n, rank, len, b);
            record_round::<CommunicatedOption<Identified<Source>>>(s(18), n, rank, len, b);
            record_round::<Identified<CommunicatedOption<bool>>>(s(19), n, rank, len, b);
            record_round::<units::Length>(s(20), n, rank, len, b);
        }
        bad
    });
    if job.finished() {
        for (r, bad) in job.all().into_iter().enumerate() {
            c.check("*", bad.is_empty(), "record", || format!("rank {r}: {}", bad.join("; ")));
        }
        c.res.evaluations += (6 * n * n) as u64;
        c.res.nontrivial = n > 1;
    }
}

macro_rules! same_names {
    ($($m:ident),*) => {
        $(pub mod $m {
            use mpi::traits::Equivalence;
            #[derive(Equivalence, Clone, Debug, PartialEq)]
            pub struct Record(pub u64);
            impl super::Rec for Record {
                fn make(h: u64) -> Self {
                    Record(h)
                }
                fn bits(&self) -> Vec<u64> {
                    vec![self.0]
                }
            }
        })*
    };
}
same_names!(red, green, blue);

/// One channel per type: sends and receives lists of values of its type.
trait Channel {
    fn send(&mut self, to: usize, seed: u64);
    fn receive(&mut self, from: usize, seed: u64) -> Option<String>;
    fn name(&self) -> &'static str;
}

struct Typed<T>(Communicator<T>);

fn list<T: Rec>(seed: u64) -> Vec<T> {
    (0..1 + seed % 4).map(|k| T::make(mix(seed, k))).collect()
}

impl<T: Rec> Channel for Typed<T> {
    fn send(&mut self, to: usize, seed: u64) {
        self.0.blocking_send_vec(to as i32, &list::<T>(seed));
    }
    fn receive(&mut self, from: usize, seed: u64) -> Option<String> {
        let got = self.0.receive_vec(from as i32);
        let want = list::<T>(seed);
        let bits = |v: &[T]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
        (bits(&got) != bits(&want)).then(|| format!("{}: got {:x?}, expected {:x?}", self.name(), bits(&got), bits(&want)))
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
}

/// Messages of many types between the same ranks, received in another order than sent: each list
/// has to arrive on the channel of its type.
fn tags(c: &mut Ctx) {
    let n = c.int("ranks", 2, 3);
    let mut env = c.env(n);
    // blocking sends before the receives: legal only where messages are buffered
    env.eager_limit = 1 << 20;
    let seed = c.rng("data").next();
    let use_types = c.pick("types", &[4usize, 10, 19]);
    c.desc(format!("{n} ranks, {use_types} types"));
    let job = c.job(n, env, move |rank| {
        let mut bad = vec![];
        macro_rules! channels {
            ($($t:ty),*) => { vec![$(Box::new(Typed::<$t>(Communicator::new())) as Box<dyn Channel>),*] };
        }
        let mut channels: Vec<Box<dyn Channel>> = channels!(
            red::Record, green::Record, blue::Record,
            CommunicatedOption<red::Record>, CommunicatedOption<green::Record>, CommunicatedOption<u64>,
            Identified<red::Record>, Identified<green::Record>, Identified<u64>,
            u64, i64, usize, f64, u32, i32, f32,
            TimestepLevel, DirectionIndex, PeanoKey2d
        );
        // the same choice of types on all ranks
        let mut rng = Rng::new(mix(seed, 5));
        let mut chosen: Vec<usize> = (0..channels.len()).collect();
        rng.shuffle(&mut chosen);
        chosen.truncate(use_types);
        let value = |ty: usize, from: usize, to: usize| mix(mix(seed, ty as u64), (from * 64 + to) as u64);
        let mut order: Vec<(usize, usize)> =
            chosen.iter().flat_map(|t| (0..n).filter(|r| *r != rank).map(move |to| (*t, to))).collect();
        let mut rng = Rng::new(mix(seed, 100 + rank as u64));
        rng.shuffle(&mut order);
        for (t, to) in &order {
            channels[*t].send(*to, value(*t, rank, *to));
        }
        rng.shuffle(&mut order);
        for (t, from) in &order {
            bad.extend(channels[*t].receive(*from, value(*t, *from, rank)));
        }
        bad
    });
    if job.finished() {
        for (r, bad) in job.all().into_iter().enumerate() {
            c.check("*", bad.is_empty(), "message_type", || format!("rank {r}: {}", bad.join("; ")));
        }
        c.res.evaluations += (use_types * n * (n - 1)) as u64;
        c.res.nontrivial = true;
    }
}
