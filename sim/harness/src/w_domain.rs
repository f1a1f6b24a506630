//! Workloads on what happens before the first step: decomposition, migration,
//! identifiers, search tree, Voronoi grid, sources.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::rc::Rc;

use bevy_ecs::prelude::*;
use mpi::traits::Equivalence;
use simcore::choice::mix;
use simcore::choice::Rng;
use simcore::sched::Outcome;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::communication::Rank;
use subsweep::components as c;
use subsweep::domain::DecompositionState;
use subsweep::domain::DomainPlugin;
use subsweep::domain::IdEntityMap;
use subsweep::domain::IntoKey;
use subsweep::parameters::Cosmology;
use subsweep::parameters::SimulationBox;
use subsweep::parameters::SimulationParameters;
use subsweep::parameters::SweepParameters;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::source_systems::Source;
use subsweep::source_systems::SourcePlugin;
use subsweep::source_systems::Sources;
use subsweep::source_systems::TotalLuminosity;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::grid::ParticleType;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units::*;

use crate::ctx::Ctx;
use crate::driver::Workload;
use crate::geometry as geo;
use crate::geometry::V;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "domain", run: domain },
        Workload { name: "sources", run: sources },
        Workload { name: "voronoi", run: voronoi },
    ]
}

/// A component of our own that is sent along.
#[derive(Component, Clone, Debug, Equivalence, Named, PartialEq)]
#[name = "verif_tag"]
pub struct Tag {
    pub small: u8,
    pub number: u64,
    pub value: f64,
    pub pair: [u32; 2],
}

#[derive(Clone)]
pub struct Start {
    pub lo: V,
    pub hi: V,
    pub pos: Vec<V>,
    /// Initial rank of each particle.
    pub first: Vec<usize>,
    /// Position, rate, rank that knows of it.
    pub sources: Vec<(V, f64, usize)>,
    pub grid: bool,
    pub periodic: bool,
    pub search_radius: Option<f64>,
    pub probes: Vec<V>,
    /// Centre and radius of searches in the tree.
    pub balls: Vec<(V, f64)>,
}

#[derive(Clone, Debug, Default)]
pub struct NeighbourOut {
    pub area: f64,
    pub normal: V,
    /// Identifier of the neighbour; none for a boundary.
    pub id: Option<(Rank, u32)>,
    pub periodic: bool,
    pub remote: bool,
}

#[derive(Clone, Debug, Default)]
pub struct PartOut {
    pub number: u64,
    pub id: (Rank, u32),
    pub ok: bool,
    pub pos: V,
    pub source: Option<f64>,
    pub mapped: bool,
    pub volume: f64,
    pub size: f64,
    pub faces: Vec<NeighbourOut>,
    pub has_cell: bool,
}

#[derive(Clone, Debug, Default)]
pub struct StartOut {
    pub parts: Vec<PartOut>,
    /// Local particles lacking any of the components.
    pub broken: usize,
    pub haloes: Vec<((Rank, u32), Rank, V)>,
    pub owners: Vec<Rank>,
    pub part_owners: Vec<Rank>,
    pub map_len: usize,
    pub balls: Vec<Vec<(Rank, u32)>>,
    pub key_order: Vec<usize>,
}

fn vl(v: &V) -> VecLength {
    VecLength::meters(v[0], v[1], v[2])
}
fn back(v: &VecLength) -> V {
    let m = v.in_meters();
    [m.x, m.y, m.z]
}

fn density(i: u64) -> f64 {
    1.0 + i as f64 * 0.37
}
fn fraction(i: u64) -> f64 {
    (mix(i, 5) % 1000003) as f64 / 1000003.0
}
fn temperature(i: u64) -> f64 {
    10.0 + (mix(i, 6) % 99991) as f64
}
fn tag(i: u64) -> Tag {
    Tag {
        small: mix(i, 1) as u8,
        number: i,
        value: (mix(i, 2) as f64) * 1e-3,
        pair: [mix(i, 3) as u32, mix(i, 4) as u32],
    }
}

pub fn box_of(s: &Start) -> SimulationBox {
    SimulationBox::new(Extent::from_min_max(vl(&s.lo), vl(&s.hi)))
}

fn build(s: &Start, n: usize, rank: usize) -> Simulation {
    let mut sim = Simulation::default();
    let grid_params = match s.search_radius {
        Some(r) => format!("grid:\n  initial_search_radius: {r:e} m\n"),
        None => "grid: {}\n".to_string(),
    };
    sim.add_parameter_file_contents(if s.grid { grid_params } else { "{}".into() })
        .read_initial_conditions(false)
        .write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(n, rank as Rank));
    sim.add_parameters_explicitly(box_of(s))
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_parameters_explicitly(SimulationParameters { final_time: None })
        .add_parameters_explicitly(SweepParameters {
            directions: DirectionsSpecification::Num(1),
            rotate_directions: false,
            num_timestep_levels: 1,
            significant_rate_threshold: PhotonRate::photons_per_second(0.0),
            timestep_safety_factor: Dimensionless::dimensionless(0.1),
            chemistry_timestep_safety_factor: Dimensionless::dimensionless(0.1),
            check_deadlock: false,
            periodic: s.periodic,
            max_timestep: Time::seconds(1.0),
            prevent_cooling: false,
            num_tasks_to_solve_before_send_receive: 10,
        });
    sim.add_plugin(SimulationPlugin).add_plugin(DomainPlugin);
    sim.add_derived_component::<c::Density>()
        .add_derived_component::<c::IonizedHydrogenFraction>()
        .add_component_no_io::<Tag>()
        .add_derived_component::<c::Temperature>();
    if s.grid {
        sim.add_plugin(ParallelVoronoiGridConstruction);
    }
    let with_sources = !s.sources.is_empty();
    if with_sources {
        sim.add_derived_component::<c::Source>();
        sim.insert_resource(Sources {
            sources: s
                .sources
                .iter()
                .filter(|x| x.2 == rank)
                .map(|(p, r, _)| Source { pos: vl(p), rate: SourceRate::photons_per_second(*r) })
                .collect(),
        });
        sim.add_event::<TotalLuminosity>();
        sim.add_plugin(SourcePlugin);
    }
    let (pos, first) = (s.pos.clone(), s.first.clone());
    sim.add_startup_system_to_stage(StartupStages::ReadInput, move |mut commands: Commands| {
        for (i, p) in pos.iter().enumerate() {
            if first[i] != rank {
                continue;
            }
            let k = i as u64;
            let e = commands
                .spawn((
                    LocalParticle,
                    c::Position(vl(p)),
                    c::Density(Mass::kilograms(density(k)) / Volume::cubic_meters(1.0)),
                    c::IonizedHydrogenFraction(Dimensionless::dimensionless(fraction(k))),
                    c::Temperature(Temperature::kelvins(temperature(k))),
                    tag(k),
                ))
                .id();
            if with_sources {
                commands.entity(e).insert(c::Source(SourceRate::zero()));
            }
        }
    });
    sim
}

fn read(s: &Start, sim: &mut Simulation) -> StartOut {
    let mut out = StartOut::default();
    let box_ = box_of(s);
    let world = sim.world();
    let mut total = world.query_filtered::<Entity, With<LocalParticle>>();
    let num = total.iter(world).count();
    let mut q = world.query_filtered::<(
        Entity,
        &ParticleId,
        &c::Position,
        &c::Density,
        &c::IonizedHydrogenFraction,
        &c::Temperature,
        &Tag,
    ), With<LocalParticle>>();
    let mut rows = vec![];
    for (e, id, p, d, x, t, tg) in q.iter(world) {
        let k = tg.number;
        let ok = *tg == tag(k)
            && (d.value_unchecked() == (Mass::kilograms(density(k)) / Volume::cubic_meters(1.0)).value_unchecked())
            && x.value() == fraction(k)
            && t.in_kelvins() == Temperature::kelvins(temperature(k)).in_kelvins()
            && (k as usize) < s.pos.len()
            && (0..3).all(|a| back(p)[a] == back(&vl(&s.pos[k as usize]))[a]);
        rows.push((
            e,
            PartOut { number: k, id: (id.rank, id.index), ok, pos: back(p), ..Default::default() },
        ));
    }
    out.broken = num - rows.len();
    {
        let map = world.get_resource::<IdEntityMap>().unwrap();
        out.map_len = map.len();
        for (e, r) in rows.iter_mut() {
            let id = ParticleId { index: r.id.1, rank: r.id.0 };
            r.mapped = map.get_by_left(&id) == Some(e) && map.get_by_right(e) == Some(&id);
        }
    }
    for (e, r) in rows.iter_mut() {
        r.source = world.get::<c::Source>(*e).map(|x| x.in_photons_per_second());
        if let Some(cell) = world.get::<Cell>(*e) {
            r.has_cell = true;
            r.volume = cell.volume().in_cubic_meters();
            r.size = cell.size.in_meters();
            for (face, t) in &cell.neighbours {
                let nrm = face.normal.value_unchecked();
                let mut o = NeighbourOut {
                    area: face.area.in_square_meters(),
                    normal: [nrm.x, nrm.y, nrm.z],
                    ..Default::default()
                };
                if !t.is_boundary() {
                    let id = t.unwrap_id();
                    o.id = Some((id.rank, id.index));
                    match t {
                        ParticleType::Remote(x) => {
                            o.remote = true;
                            o.id = Some((x.rank, id.index));
                        }
                        ParticleType::LocalPeriodic(_) => o.periodic = true,
                        ParticleType::RemotePeriodic(x) => {
                            o.periodic = true;
                            o.remote = true;
                            o.id = Some((x.rank, id.index));
                        }
                        _ => {}
                    }
                }
                r.faces.push(o);
            }
        }
    }
    let mut h = world.query_filtered::<(&ParticleId, &HaloParticle, &c::Position), ()>();
    for (id, halo, p) in h.iter(world) {
        out.haloes.push(((id.rank, id.index), halo.rank, back(p)));
    }
    out.parts = rows.into_iter().map(|x| x.1).collect();
    let dec = world.get_resource::<DecompositionState>().unwrap();
    let keys: Vec<_> = s.probes.iter().map(|p| vl(p).into_key(&*box_)).collect();
    out.owners = keys.iter().map(|k| dec.get_owning_rank(*k)).collect();
    out.part_owners = s.pos.iter().map(|p| dec.get_owning_rank(vl(p).into_key(&*box_))).collect();
    let mut all: Vec<_> = s.pos.iter().chain(s.probes.iter()).map(|p| vl(p).into_key(&*box_)).enumerate().collect();
    all.sort_by(|a, b| a.1.cmp(&b.1));
    out.key_order = all.into_iter().map(|x| x.0).collect();
    let tree = world.get_resource::<subsweep::domain::QuadTree>().unwrap();
    for (p, r) in &s.balls {
        let mut v: Vec<(Rank, u32)> = tree
            .iter_particles_in_radius(&box_, vl(p), Length::meters(*r))
            .map(|l| (l.id.rank, l.id.index))
            .collect();
        v.sort();
        out.balls.push(v);
    }
    out
}

/// Particles; distinguishable at well over 1e-4 of the box unless `close`.
fn place(ctx: &mut Ctx, num: usize, lo: V, hi: V, dense: bool) -> (Vec<V>, &'static str) {
    let mode = ctx.int("placing", 0, if dense { 6 } else { 5 });
    let mut rng = ctx.rng("posseed");
    let at = |f: V| -> V { std::array::from_fn(|a| lo[a] + (hi[a] - lo[a]) * f[a]) };
    let mut v: Vec<V> = vec![];
    let mut seen: BTreeSet<[i64; 3]> = BTreeSet::new();
    let name = ["uniform", "lattice", "blobs", "slab", "corner", "line", "dense"][mode];
    let side = (num as f64).cbrt().ceil() as usize;
    let centers: Vec<V> = (0..3).map(|_| std::array::from_fn(|_| 0.2 + 0.6 * rng.unit())).collect();
    // Nearly all in two small regions, much smaller than the domain of a rank would be.
    let radius = 10f64.powf(rng.range(-2.7, -1.5)) * (num as f64 / 200.0).max(1.0).cbrt();
    let mut i = 0;
    let mut tries = 0;
    while v.len() < num {
        let mut u = || rng.unit();
        let f: V = match mode {
            1 => {
                let k = [i % side, (i / side) % side, i / side / side];
                i += 1;
                std::array::from_fn(|a| (k[a] as f64 + 0.3 + 0.4 * u()) / side as f64)
            }
            2 if u() < 0.8 => {
                let ctr = centers[(u() * 3.0) as usize];
                std::array::from_fn(|a| ctr[a] + 0.15 * (u() + u() - 1.0))
            }
            3 => [u(), u(), 0.5 + 0.1 * u()],
            4 => std::array::from_fn(|_| u() * u() * 0.9),
            5 => {
                let t = u();
                std::array::from_fn(|a| ([t, 1.0 - t, 0.5 * t][a] * 0.8 + 0.2 * u()).clamp(0.0, 1.0))
            }
            6 if u() < 0.95 => {
                let ctr = centers[(u() * 2.0) as usize];
                std::array::from_fn(|a| ctr[a] + radius * (u() - 0.5))
            }
            _ => [u(), u(), u()],
        };
        tries += 1;
        if tries > 100 * num {
            break;
        }
        let key = std::array::from_fn(|a| (f[a] * 4000.0).floor() as i64);
        if f.iter().all(|x| (0.0..=1.0).contains(x)) && seen.insert(key) {
            v.push(at(f));
        }
    }
    (v, name)
}

fn spread(ctx: &mut Ctx, num: usize, n: usize) -> Vec<usize> {
    let mode = ctx.int("spread", 0, 3);
    let mut rng = ctx.rng("spreadseed");
    let mut v: Vec<usize> = match mode {
        0 => (0..num).map(|i| i * n / num).collect(),
        1 => (0..num).map(|i| i % n).collect(),
        2 => (0..num).map(|_| rng.below(n as u64) as usize).collect(),
        _ => {
            let fav = rng.below(n as u64) as usize;
            (0..num).map(|i| if i < n { i } else { fav }).collect()
        }
    };
    for r in 0..n {
        if !v.contains(&r) {
            let mut count = vec![0; n];
            v.iter().for_each(|o| count[*o] += 1);
            let i = (0..num).find(|i| count[v[*i]] > 1).unwrap();
            v[i] = r;
        }
    }
    v
}

fn make_box(ctx: &mut Ctx) -> (V, V) {
    let scale = ctx.pick("boxscale", &[1.0, 3.0857e19, 1e-3, 77.5]);
    match ctx.int("boxkind", 0, 2) {
        0 => ([0.0; 3], [scale; 3]),
        1 => ([-0.5 * scale; 3], [0.5 * scale; 3]),
        _ => {
            let mut rng = ctx.rng("boxseed");
            let lo: V = std::array::from_fn(|_| (rng.unit() - 0.5) * scale);
            let hi = std::array::from_fn(|a| lo[a] + scale * (0.7 + 0.6 * rng.unit()));
            (lo, hi)
        }
    }
}

pub fn make_start(ctx: &mut Ctx, n: usize, min: usize, max: usize, dense: bool) -> Start {
    let (lo, hi) = make_box(ctx);
    let num = ctx.int("particles", min.max(n), max.max(n));
    let (pos, name) = place(ctx, num, lo, hi, dense);
    let first = spread(ctx, pos.len(), n);
    ctx.desc(format!("{n} ranks, {} particles ({name})", pos.len()));
    Start {
        lo,
        hi,
        first,
        pos,
        sources: vec![],
        grid: false,
        periodic: false,
        search_radius: None,
        probes: vec![],
        balls: vec![],
    }
}

fn rand_in(rng: &mut Rng, s: &Start) -> V {
    std::array::from_fn(|a| s.lo[a] + (s.hi[a] - s.lo[a]) * rng.unit())
}

/// Probe positions: anywhere, corners, faces, next to particles.
fn add_probes(ctx: &mut Ctx, s: &mut Start, k: usize) {
    let mut rng = ctx.rng("probes");
    for _ in 0..k {
        let p = rand_in(&mut rng, s);
        s.probes.push(p);
        let q = s.pos[rng.below(s.pos.len() as u64) as usize];
        let d: V = std::array::from_fn(|a| {
            (q[a] + (rng.unit() - 0.5) * 1e-3 * (s.hi[a] - s.lo[a])).clamp(s.lo[a], s.hi[a])
        });
        s.probes.push(d);
    }
    for m in 0..8 {
        s.probes.push(std::array::from_fn(|a| if m >> a & 1 == 0 { s.lo[a] } else { s.hi[a] }));
    }
    for _ in 0..6 {
        let r = 0.5 * (s.hi[0] - s.lo[0]) * rng.unit() * rng.unit();
        let p = rand_in(&mut rng, s);
        s.balls.push((p, r));
    }
}

pub fn start(ctx: &mut Ctx, s: &Rc<Start>, n: usize) -> Option<Vec<StartOut>> {
    let env = ctx.env(n);
    let s2 = s.clone();
    let j = ctx.job(n, env, move |rank| {
        let mut sim = build(&s2, n, rank);
        sim.update();
        read(&s2, &mut sim)
    });
    if !j.finished() {
        return None;
    }
    Some(j.all())
}

/// Everything that has to hold after any start.
pub fn check_start(ctx: &mut Ctx, s: &Start, n: usize, outs: &[StartOut]) {
    // P08: owners
    for (r, o) in outs.iter().enumerate().skip(1) {
        ctx.check("P08,P18", o.owners == outs[0].owners && o.part_owners == outs[0].part_owners, "owner_disagreement", || {
            let i = (0..o.owners.len()).find(|i| o.owners[*i] != outs[0].owners[*i]);
            format!("rank {r} and rank 0 disagree on the owner of a position: {i:?}")
        });
    }
    for (i, o) in outs[0].owners.iter().enumerate() {
        ctx.check("P08,P18", (0..n as Rank).contains(o), "no_owner", || {
            format!("position {:?} belongs to rank {o} of {n}", s.probes[i])
        });
    }
    let all: Vec<Rank> = outs[0].part_owners.iter().chain(outs[0].owners.iter()).copied().collect();
    let order = &outs[0].key_order;
    let ok = order.windows(2).all(|w| all[w[0]] <= all[w[1]]);
    ctx.check("P08", ok, "ranges_not_contiguous", || {
        format!("owners along the curve: {:?}", order.iter().map(|i| all[*i]).collect::<Vec<_>>())
    });
    let mut count = vec![0usize; n];
    for o in &outs[0].part_owners {
        if (0..n as Rank).contains(o) {
            count[*o as usize] += 1;
        }
    }
    let avg = s.pos.len() as f64 / n as f64;
    ctx.check("P08", count.iter().all(|k| (*k as f64 - avg).abs() <= n as f64 + 3.0), "imbalance", || {
        format!("particles per rank: {count:?}")
    });
    // P09: particles
    let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
    for (r, o) in outs.iter().enumerate() {
        ctx.check("P09", o.broken == 0, "component_missing", || format!("{} particles on rank {r} lack a component", o.broken));
        for p in &o.parts {
            *seen.entry(p.number).or_insert(0) += 1;
            ctx.check("P09", p.ok, "particle_changed", || format!("particle {} on rank {r}: {p:?}", p.number));
            ctx.check(
                "P09",
                outs[0].part_owners.get(p.number as usize) == Some(&(r as Rank)),
                "wrong_rank",
                || format!("particle {} is on rank {r}, not on its owner", p.number),
            );
            ctx.check("P09", p.id.0 == r as Rank, "id_rank", || format!("particle on rank {r} has identifier {:?}", p.id));
            ctx.check("P09", p.mapped, "id_map", || format!("identifier {:?} does not lead to its particle", p.id));
        }
        let ids: BTreeSet<u32> = o.parts.iter().map(|p| p.id.1).collect();
        ctx.check("P09", ids == (0..o.parts.len() as u32).collect(), "ids_not_dense", || format!("identifiers on rank {r}: {ids:?}"));
        ctx.check("P09", o.map_len == o.parts.len(), "id_map_size", || format!("map on rank {r} has {} entries for {} particles", o.map_len, o.parts.len()));
    }
    let ok = (0..s.pos.len() as u64).all(|i| seen.get(&i) == Some(&1)) && seen.len() == s.pos.len();
    ctx.check("P09,P10", ok, "particles_lost", || {
        let bad: Vec<_> = (0..s.pos.len() as u64).filter(|i| seen.get(i) != Some(&1)).collect();
        format!("particles not present exactly once: {bad:?}")
    });
    // search tree
    for (r, o) in outs.iter().enumerate() {
        for (b, (ctr, rad)) in s.balls.iter().enumerate() {
            let got: BTreeSet<_> = o.balls[b].iter().copied().collect();
            ctx.check("P09,P10", got.len() == o.balls[b].len(), "search_duplicates", || format!("search {b} on rank {r} found {:?}", o.balls[b]));
            for p in &o.parts {
                let d = geo::periodic_distance(&p.pos, ctr, &s.lo, &s.hi);
                if (d - rad).abs() < 1e-9 * (s.hi[0] - s.lo[0]) {
                    continue;
                }
                ctx.check("P09,P10", got.contains(&p.id) == (d < *rad), "search_wrong", || {
                    format!("search around {ctr:?} radius {rad}: particle {} at distance {d}: found {}", p.number, got.contains(&p.id))
                });
            }
        }
    }
    let mut h = 0u64;
    for o in outs {
        for p in &o.parts {
            h = mix(h, mix(p.number, p.id.1 as u64));
        }
    }
    ctx.note(h);
}

fn domain(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 8, 32);
    let big = ctx.chance("big", 0.1);
    // More than fits into 16 bits.
    let huge = ctx.chance("huge", 0.001);
    let n = if huge && ctx.chance("alone", 0.7) { 1 } else { n };
    let (min, max) = if huge { (66_000, 70_000) } else { (1, if big { 1500 } else { 200 }) };
    let mut s = make_start(ctx, n, min, max, true);
    add_probes(ctx, &mut s, 30);
    let s = Rc::new(s);
    let Some(outs) = start(ctx, &s, n) else { return };
    check_start(ctx, &s, n, &outs);
    ctx.res.nontrivial = n > 1;
    // other initial places, same result
    if n > 1 && ctx.chance("again", 0.6) {
        let mut s2 = (*s).clone();
        s2.first = spread(ctx, s.pos.len(), n);
        // the order of the particles must not matter either
        let s2 = Rc::new(s2);
        let Some(o2) = start(ctx, &s2, n) else { return };
        check_start(ctx, &s2, n, &o2);
        ctx.check("P08", o2[0].owners == outs[0].owners && o2[0].part_owners == outs[0].part_owners, "depends_on_history", || {
            format!("owners differ after starting from another distribution: {:?} / {:?}", outs[0].part_owners, o2[0].part_owners)
        });
    }
}

fn sources(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 7, 20);
    let mut s = make_start(ctx, n, if n == 1 { 1 } else { 4 * n }, 150.max(4 * n), true);
    add_probes(ctx, &mut s, 5);
    let k = ctx.size("sources", 1, 30, 400);
    let mut rng = ctx.rng("sourceseed");
    let mode = ctx.int("sourcerank", 0, 2);
    for i in 0..k {
        let p = match rng.below(4) {
            0 => s.pos[rng.below(s.pos.len() as u64) as usize],
            1 if !s.sources.is_empty() => s.sources[0].0,
            _ => rand_in(&mut rng, &s),
        };
        let r = match mode {
            0 => 0,
            1 => i % n,
            _ => rng.below(n as u64) as usize,
        };
        // powers of two keep the sums exact
        s.sources.push((p, (1u64 << rng.below(20)) as f64, r));
    }
    s.probes.extend(s.sources.iter().map(|x| x.0));
    ctx.desc(format!("{k} sources"));
    let s = Rc::new(s);
    let Some(outs) = start(ctx, &s, n) else { return };
    check_start(ctx, &s, n, &outs);
    ctx.res.nontrivial = n > 1;
    let off = s.probes.len() - s.sources.len();
    let mut want: BTreeMap<u64, f64> = BTreeMap::new();
    for (i, (p, rate, _)) in s.sources.iter().enumerate() {
        let o = outs[0].owners[off + i];
        if !(0..n as Rank).contains(&o) {
            continue;
        }
        let near = outs[o as usize]
            .parts
            .iter()
            .min_by(|a, b| geo::dist2(&a.pos, p).partial_cmp(&geo::dist2(&b.pos, p)).unwrap());
        if let Some(near) = near {
            *want.entry(near.number).or_insert(0.0) += rate;
        }
    }
    let mut total = 0.0;
    for o in &outs {
        for p in &o.parts {
            let got = p.source.unwrap_or(f64::NAN);
            total += got;
            let w = want.get(&p.number).copied().unwrap_or(0.0);
            ctx.check("P18", (got - w).abs() <= 1e-9 * w.abs(), "source_wrong", || {
                format!("particle {}: source {got}, expected {w}", p.number)
            });
        }
    }
    let lum: f64 = s.sources.iter().map(|x| x.1).sum();
    ctx.check("P18", (total - lum).abs() <= 1e-9 * lum, "luminosity", || format!("sources add up to {total}, not {lum}"));
}

/// Evenly spread points: one per cell of a lattice, moved at random.
fn even_points(ctx: &mut Ctx, s: &mut Start, n: usize, side: usize) -> f64 {
    let jitter = ctx.pick("jitter", &[0.3, 0.1, 0.6, 0.9]);
    let mut rng = ctx.rng("evenseed");
    s.pos.clear();
    for i in 0..side * side * side {
        let k = [i % side, (i / side) % side, i / side / side];
        s.pos.push(std::array::from_fn(|a| {
            s.lo[a] + (s.hi[a] - s.lo[a]) * (k[a] as f64 + 0.5 + jitter * (rng.unit() - 0.5)) / side as f64
        }));
    }
    let p = s.pos.clone();
    let mut order: Vec<usize> = (0..p.len()).collect();
    if ctx.chance("shuffle", 0.5) {
        rng.shuffle(&mut order);
    }
    s.pos = order.iter().map(|i| p[*i]).collect();
    s.first = spread(ctx, s.pos.len(), n);
    ctx.desc(format!("even {side}^3 jitter {jitter}"));
    jitter
}

fn voronoi(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 6, 14);
    let uneven = ctx.chance("uneven", 0.1);
    let mut s = make_start(ctx, n, 60, 200, false);
    let mut must = false;
    let side = ctx.pick("side", &[7, 5, 6, 7, 8]);
    if !uneven {
        let jitter = even_points(ctx, &mut s, n, side);
        let l: V = std::array::from_fn(|a| s.hi[a] - s.lo[a]);
        let cube = l[0] == l[1] && l[1] == l[2];
        must = cube && side >= 7 && jitter < 0.5;
    }
    s.grid = true;
    s.periodic = ctx.chance("periodic", 0.5);
    let l = (0..3).map(|a| s.hi[a] - s.lo[a]).fold(0.0f64, f64::max);
    if ctx.chance("radius", 0.3) {
        s.search_radius = Some(ctx.pick("radiusval", &[0.01, 0.03, 0.1, 0.2]) * l);
    }
    add_probes(ctx, &mut s, 5);
    ctx.desc(format!("periodic {} radius {:?} box {:?} {:?}", s.periodic, s.search_radius, s.lo, s.hi));
    let s = Rc::new(s);
    // A set may be refused: sparse ones because the images of a point come too
    // close, others because points and their images are exactly coplanar. Dense,
    // even sets are refused rarely, so several in a row must not be.
    let mut s = s;
    let mut tries = 1;
    let outs = loop {
        let env = ctx.env(n);
        let s2 = s.clone();
        let j = ctx.raw_job(n, env, move |rank| {
            let mut sim = build(&s2, n, rank);
            sim.update();
            read(&s2, &mut sim)
        });
        if let Outcome::Panicked(..) = &j.outcome {
            ctx.stat("refused", 1);
            if !must {
                return;
            }
            if !ctx.check("P10", tries < 7, "always_refused", || {
                format!("{tries} even sets of points in a row refused, at last: {}", crate::ctx::describe(&j.outcome))
            }) {
                return;
            }
            tries += 1;
            let mut again = (*s).clone();
            even_points(ctx, &mut again, n, side);
            s = Rc::new(again);
            continue;
        }
        if !ctx.check("P10", j.finished(), "stuck", || crate::ctx::describe(&j.outcome)) {
            return;
        }
        break j.all();
    };
    ctx.res.nontrivial = n > 1;
    check_start(ctx, &s, n, &outs);
    check_grid(ctx, &s, &outs);
}

pub fn check_grid(ctx: &mut Ctx, s: &Start, outs: &[StartOut]) {
    let reference = geo::periodic_voronoi(&s.pos, &s.lo, &s.hi);
    let mut number: BTreeMap<(Rank, u32), usize> = BTreeMap::new();
    for o in outs {
        for p in &o.parts {
            number.insert(p.id, p.number as usize);
        }
    }
    let boxvol: f64 = (0..3).map(|a| s.hi[a] - s.lo[a]).product();
    let mut sum = 0.0;
    for (r, o) in outs.iter().enumerate() {
        let halo: BTreeSet<(Rank, u32)> = o.haloes.iter().map(|h| h.0).collect();
        for (id, hr, p) in &o.haloes {
            ctx.check("P10", id.0 == *hr && *hr != r as Rank, "halo_rank", || format!("halo {id:?} of rank {hr} on rank {r}"));
            let k = number.get(id);
            ctx.check("P10", k.is_some_and(|k| geo::periodic_distance(&s.pos[*k], p, &s.lo, &s.hi) < 1e-9 * (s.hi[0] - s.lo[0])), "halo_position", || {
                format!("halo {id:?} on rank {r} at {p:?}, particle {k:?}")
            });
        }
        for p in &o.parts {
            if !ctx.check("P10", p.has_cell, "no_cell", || format!("particle {} has no cell", p.number)) {
                continue;
            }
            let i = p.number as usize;
            let want = &reference[i];
            sum += p.volume;
            let scale = want.volume;
            let area_scale = scale.powf(2.0 / 3.0);
            ctx.check("P10", (p.volume - want.volume).abs() <= 1e-6 * scale, "volume", || {
                format!("particle {i} on rank {r}: volume {} instead of {}", p.volume, want.volume)
            });
            let size = (3.0 * want.volume / (4.0 * std::f64::consts::PI)).cbrt();
            ctx.check("P10", (p.size - size).abs() <= 1e-6 * size, "size", || format!("particle {i}: size {} instead of {size}", p.size));
            let tiny = 1e-6 * area_scale;
            let mut used = vec![false; p.faces.len()];
            for f in &want.faces {
                if f.area <= tiny {
                    continue;
                }
                let boundary = f.wrapped && !s.periodic;
                let hit = (0..p.faces.len()).find(|k| {
                    let g = &p.faces[*k];
                    !used[*k]
                        && geo::dot(&g.normal, &f.normal) > 1.0 - 1e-9
                        && match g.id {
                            None => boundary,
                            Some(id) => !boundary && number.get(&id) == Some(&f.other) && g.periodic == f.wrapped,
                        }
                });
                ctx.check("P10", hit.is_some(), "face_missing", || {
                    format!("particle {i} on rank {r}: no face towards {} (wrapped {}) of area {} normal {:?}; faces {:?}", f.other, f.wrapped, f.area, f.normal, p.faces)
                });
                if let Some(k) = hit {
                    used[k] = true;
                    let g = &p.faces[k];
                    ctx.check("P10", (g.area - f.area).abs() <= 1e-6 * area_scale, "face_area", || {
                        format!("particle {i}: face towards {} has area {} instead of {}", f.other, g.area, f.area)
                    });
                    if let Some(id) = g.id {
                        let other_rank = id.0 as usize;
                        ctx.check("P10", g.remote == (other_rank != r), "face_rank", || format!("particle {i}: neighbour {id:?} on rank {r} remote {}", g.remote));
                        if other_rank != r {
                            ctx.check("P10", halo.contains(&id), "halo_missing", || format!("rank {r} has no halo for {id:?}"));
                        }
                    }
                }
            }
            for (k, u) in used.iter().enumerate() {
                ctx.check("P10", *u || p.faces[k].area <= 2.0 * tiny, "face_extra", || {
                    format!("particle {i} on rank {r}: face {:?} does not exist", p.faces[k])
                });
            }
        }
    }
    ctx.check("P10", (sum - boxvol).abs() <= 1e-6 * boxvol, "volume_sum", || format!("volumes add up to {sum}, box {boxvol}"));
}
