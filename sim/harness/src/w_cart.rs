//! Workload on the regular grid: its cells, and the sweep on it.
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::rc::Rc;

use bevy_ecs::prelude::*;
use simcore::sched::Env;
use subsweep::communication::Rank;
use subsweep::components as c;
use subsweep::parameters::SimulationBox;
use subsweep::prelude::*;
use subsweep::sweep::grid::init_cartesian_grid_system;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::grid::NumCellsSpec;
use subsweep::sweep::grid::ParticleType;
use subsweep::units::*;
use subsweep::verif::simulation_box::PeriodicWrapType3d;
use subsweep::verif::simulation_box::WrapType;

use crate::ctx::Ctx;
use crate::driver::Workload;
use crate::w_sweep::*;

pub fn workloads() -> Vec<Workload> {
    vec![Workload { name: "cartesian", run: cartesian }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Local,
    Remote,
    Boundary,
    LocalPeriodic,
    RemotePeriodic,
}

/// A face as the code has it: area, normal, kind, and the id it leads to.
#[derive(Clone, Debug)]
struct FaceOut {
    area: f64,
    normal: [f64; 3],
    kind: Kind,
    other: Option<(i32, u32)>,
    rank: Option<i32>,
    /// Image of the box in which a periodic neighbour lies.
    image: [i8; 3],
}

#[derive(Clone, Debug)]
struct GridCell {
    at: [f64; 3],
    id: (i32, u32),
    size: f64,
    volume: f64,
    faces: Vec<FaceOut>,
}

#[derive(Clone, Debug, Default)]
struct Out {
    cells: Vec<GridCell>,
    /// Rank it is said to be from, and id.
    haloes: Vec<(i32, (i32, u32))>,
    /// Rate, ionized fraction and temperature by position after each update.
    steps: Vec<Vec<([f64; 3], [f64; 3])>>,
}

fn image(wrap: &PeriodicWrapType3d) -> [i8; 3] {
    [wrap.x, wrap.y, wrap.z].map(|w| match w {
        WrapType::NoWrap => 0,
        WrapType::Minus => -1,
        WrapType::Plus => 1,
    })
}

fn pair(id: &ParticleId) -> (i32, u32) {
    (id.rank, id.index)
}

/// A lattice of n[0] * n[1] * n[2] cells of side h, x slowest.
fn lattice(n: [usize; 3], periodic: bool) -> Vec<Vec<(usize, bool, Option<(usize, bool)>)>> {
    let index = |p: [usize; 3]| (p[0] * n[1] + p[1]) * n[2] + p[2];
    let mut v = vec![];
    for x in 0..n[0] {
        for y in 0..n[1] {
            for z in 0..n[2] {
                let p = [x, y, z];
                let mut f = vec![];
                for axis in 0..3 {
                    for positive in [true, false] {
                        let edge = p[axis] == if positive { n[axis] - 1 } else { 0 };
                        let mut q = p;
                        q[axis] = (p[axis] + if positive { 1 } else { n[axis] - 1 }) % n[axis];
                        let other = if edge && !periodic { None } else { Some((index(q), edge)) };
                        f.push((axis, positive, other));
                    }
                }
                v.push(f);
            }
        }
    }
    v
}

fn at(n: [usize; 3], h: f64, pos: &[f64; 3]) -> Option<usize> {
    let mut i = 0;
    for a in 0..3 {
        let x = pos[a] / h;
        // anywhere in the cell
        let k = (x + 1e-6).floor();
        if !(k >= 0.0 && k < n[a] as f64) {
            return None;
        }
        i = i * n[a] + k as usize;
    }
    Some(i)
}

fn grid_sim(s: &Setup, n: [usize; 3], box_: SimulationBox, h: Length, sweep: bool, size: usize, rank: usize) -> Simulation {
    let mut sim = build_without_grid(s, box_, size, rank);
    let periodic = s.periodic;
    sim.add_startup_system(
        move |commands: Commands, box_size: Res<SimulationBox>, world_size: Res<WorldSize>, world_rank: Res<WorldRank>| {
            init_cartesian_grid_system(commands, box_size, NumCellsSpec::CellSize(h), world_size, world_rank, periodic)
        },
    );
    let (cells, side) = (s.cells.clone(), h.in_meters());
    sim.add_startup_system_to_stage(
        StartupStages::InsertDerivedComponents,
        move |mut commands: Commands, particles: Query<(Entity, &c::Position), With<LocalParticle>>| {
            for (entity, pos) in particles.iter() {
                let p = [pos.x().in_meters(), pos.y().in_meters(), pos.z().in_meters()];
                let g = match at(n, side, &p) {
                    Some(i) => &cells[i],
                    None => &cells[0],
                };
                commands.entity(entity).insert((
                    c::Density(Mass::kilograms(g.density * MP) / Volume::cubic_meters(1.0)),
                    c::IonizedHydrogenFraction(Dimensionless::dimensionless(g.xhii)),
                    c::Temperature(Temperature::kelvins(g.temp)),
                    c::Source(SourceRate::photons_per_second(g.source)),
                    c::PhotonRate(PhotonRate::zero()),
                    c::Timestep::default(),
                    c::IonizationTime::default(),
                ));
            }
        },
    );
    if sweep {
        sim.add_plugin(SweepPlugin);
    }
    sim
}

fn read_cells(sim: &mut Simulation) -> (Vec<GridCell>, Vec<(i32, (i32, u32))>) {
    let world = sim.world();
    let mut q = world.query_filtered::<(&ParticleId, &c::Position, &Cell), With<LocalParticle>>();
    let mut cells = vec![];
    for (id, pos, cell) in q.iter(world) {
        let faces = cell
            .neighbours
            .iter()
            .map(|(face, to)| {
                let (kind, other, rank) = match to {
                    ParticleType::Local(id) => (Kind::Local, Some(pair(id)), None),
                    ParticleType::Remote(x) => (Kind::Remote, Some(pair(&x.id)), Some(x.rank)),
                    ParticleType::Boundary => (Kind::Boundary, None, None),
                    ParticleType::LocalPeriodic(x) => (Kind::LocalPeriodic, Some(pair(&x.id)), None),
                    ParticleType::RemotePeriodic(x) => (Kind::RemotePeriodic, Some(pair(&x.id)), Some(x.rank)),
                };
                let image = match to {
                    ParticleType::LocalPeriodic(x) => image(&x.periodic_wrap_type),
                    ParticleType::RemotePeriodic(x) => image(&x.periodic_wrap_type),
                    _ => [0; 3],
                };
                FaceOut {
                    image,
                    area: face.area.in_square_meters(),
                    normal: [face.normal.x().value(), face.normal.y().value(), face.normal.z().value()],
                    kind,
                    other,
                    rank,
                }
            })
            .collect();
        cells.push(GridCell {
            at: [pos.x().in_meters(), pos.y().in_meters(), pos.z().in_meters()],
            id: pair(id),
            size: cell.size.in_meters(),
            volume: cell.volume.in_cubic_meters(),
            faces,
        });
    }
    let mut q = world.query::<(&HaloParticle, &ParticleId)>();
    let haloes = q.iter(world).map(|(h, id)| (h.rank, pair(id))).collect();
    (cells, haloes)
}

fn read_state(sim: &mut Simulation) -> Vec<([f64; 3], [f64; 3])> {
    let world = sim.world();
    let mut q = world
        .query_filtered::<(&c::Position, &c::PhotonRate, &c::IonizedHydrogenFraction, &c::Temperature), With<LocalParticle>>();
    q.iter(world)
        .map(|(p, r, x, t)| {
            (
                [p.x().in_meters(), p.y().in_meters(), p.z().in_meters()],
                [r.in_photons_per_second(), x.value(), t.in_kelvins()],
            )
        })
        .collect()
}

fn cartesian(ctx: &mut Ctx) {
    let sweep = ctx.chance("sweep", 0.4);
    let shape = ctx.int("shape", 0, 3);
    let big = if sweep { 5 } else { 9 };
    let mut n = [0; 3];
    for k in n.iter_mut() {
        *k = ctx.int("cells", 1, big);
    }
    match shape {
        // a column, as in the one-dimensional example
        0 => n = [ctx.size("column", 1, 30, 120), 1, 1],
        1 => n = [n[0]; 3],
        2 => n[0] = ctx.size("long", 1, 12, 40),
        _ => {}
    }
    if sweep {
        while n[0] * n[1] * n[2] > 60 {
            let a = (0..3).max_by_key(|a| n[*a]).unwrap();
            n[a] = (n[a] + 1) / 2;
        }
    }
    let count = n[0] * n[1] * n[2];
    let periodic = ctx.chance("periodic", 0.5);
    // The side of a cell is computed from the box in some programs and
    // the box from the side of a cell in others.
    let (h, side) = if ctx.chance("from_box", 0.5) {
        let l = ctx.pick("side", &[1.0 * KPC, 10.0 * KPC, 0.01 * KPC, 1.0]);
        // gas in a tiny box would be dense beyond anything the chemistry is for
        let l = if sweep { l.max(0.01 * KPC) } else { l };
        let h = l / n[0] as f64;
        (h, [l, h * n[1] as f64, h * n[2] as f64])
    } else {
        let h = ctx.pick("cell", &[0.1, 0.1 * KPC, 0.3 * KPC, 0.7]);
        let h = if sweep { h.max(0.01 * KPC) } else { h };
        (h, [h * n[0] as f64, h * n[1] as f64, h * n[2] as f64])
    };
    // One layer of cells for each rank leaves no room for rounding.
    let size = if ctx.chance("layer_each", 0.15) { n[0].min(24) } else { ctx.size("ranks", 1, 6, 14) };
    let size = if sweep { size.min(n[0]) } else { size };
    let mut rng = ctx.rng("medium");
    let links = lattice(n, periodic);
    let cells: Vec<GCell> = (0..count)
        .map(|i| {
            let p = [i / (n[1] * n[2]), i / n[2] % n[1], i % n[2]];
            let lo = [p[0] as f64 * h, p[1] as f64 * h, p[2] as f64 * h];
            GCell {
                lo,
                hi: [lo[0] + h, lo[1] + h, lo[2] + h],
                faces: links[i]
                    .iter()
                    .map(|(axis, positive, other)| GFace { axis: *axis, positive: *positive, area: h * h, other: *other })
                    .collect(),
                density: 10f64.powf(rng.range(-3.0, 1.3)) / (SIGMA * side[0]),
                xhii: if rng.chance(0.5) { 10f64.powf(rng.range(-6.0, -2.0)) } else { rng.range(0.01, 0.99) },
                temp: 10f64.powf(rng.range(2.0, 5.0)),
                source: 0.0,
            }
        })
        .collect();
    let mut s = plain_setup(cells, side[0]);
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(count as u64) as usize;
        s.cells[i].source += 10f64.powf(rng.range(44.0, 50.0));
    }
    s.periodic = periodic;
    s.dirs = make_dirs(ctx);
    s.max_timestep = 1e4 * YR;
    s.check_deadlock = ctx.chance("checkdeadlock", 0.2);
    s.batch = ctx.pick("batch", &[10000, 17, 100]).max(count * s.dirs.len() / 300);
    let updates = if sweep { ctx.size("updates", 1, 3, 6) } else { 1 };
    ctx.desc(format!(
        "{n:?} cells of {h:e} m in a box of {side:?} m, periodic {periodic}, {size} ranks, sweep {sweep}, {updates} updates, dirs {:?}",
        s.dirs
    ));
    ctx.stat(if sweep { "cov_grid_sweep" } else { "cov_grid_only" }, 1);
    ctx.stat(if periodic { "cov_periodic" } else { "cov_nonperiodic" }, 1);
    if size > n[0] {
        ctx.stat("cov_more_ranks_than_layers", 1);
    }
    if size > 1 {
        ctx.res.nontrivial = true;
    }
    let s = Rc::new(s);
    let env = ctx.env(size);
    let s2 = s.clone();
    let job = ctx.job(size, env, move |rank| {
        let box_ = SimulationBox::new(Extent::from_min_max(
            VecLength::zero(),
            VecLength::meters(side[0], side[1], side[2]),
        ));
        let mut sim = grid_sim(&s2, n, box_, Length::meters(h), sweep, size, rank);
        let mut out = Out::default();
        for k in 0..updates {
            sim.update();
            if k == 0 {
                (out.cells, out.haloes) = read_cells(&mut sim);
            }
            out.steps.push(read_state(&mut sim));
        }
        out
    });
    if !job.finished() {
        return;
    }
    let outs = job.all();
    check_grid(ctx, n, h, side, &links, &outs);
    if !sweep || periodic || ctx.has_failed() {
        return;
    }
    // The same cells made by hand, on one rank.
    let one = simulate(ctx, &s, vec![0; count], 1, updates, Env::default());
    if !one.finished() {
        return;
    }
    let one = one.all();
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    for step in 0..updates {
        let expected = merge(&one, step);
        for (rank, o) in outs.iter().enumerate() {
            for (p, [rate, x, t]) in &o.steps[step] {
                let Some(i) = at(n, h, p) else { continue };
                let e = &expected[&i];
                let ok = close(e.rate, *rate, 1e-6, 1e-10 * total);
                ctx.check("P24,P05,P06", ok, "grid_rate", || {
                    format!("update {step}, cell {i} (rank {rank}): photon rate {rate:e} on the regular grid, {:e} on the same cells made by hand", e.rate)
                });
                let ok = close(e.xhii, *x, 1e-5, 1e-12) && close(e.temp, *t, 1e-5, 0.0);
                ctx.check("P24,P05", ok, "grid_state", || {
                    format!("update {step}, cell {i} (rank {rank}): x {x:e} T {t:e} on the regular grid, x {:e} T {:e} on the same cells made by hand", e.xhii, e.temp)
                });
                if ctx.has_failed() {
                    return;
                }
            }
        }
    }
}

fn check_grid(ctx: &mut Ctx, n: [usize; 3], h: f64, side: [f64; 3], links: &[Vec<(usize, bool, Option<(usize, bool)>)>], outs: &[Out]) {
    let count = links.len();
    let size = outs.len();
    // Which rank has which cell, and its id.
    let mut by_place: BTreeMap<usize, (usize, &GridCell)> = BTreeMap::new();
    let mut by_id: BTreeMap<(i32, u32), usize> = BTreeMap::new();
    for (rank, o) in outs.iter().enumerate() {
        let mut index = BTreeSet::new();
        for cell in &o.cells {
            let place = at(n, h, &cell.at);
            ctx.check("P24", place.is_some(), "outside", || {
                format!("rank {rank} has a cell at {:?}, outside of the box of {side:?}", cell.at)
            });
            let Some(place) = place else { return };
            let before = by_place.insert(place, (rank, cell));
            ctx.check("P24", before.is_none(), "twice", || {
                format!("the cell at {:?} exists on rank {} and on rank {rank}", cell.at, before.unwrap().0)
            });
            let before = by_id.insert(cell.id, place);
            ctx.check("P24", before.is_none(), "id_twice", || format!("two cells have the id {:?}", cell.id));
            ctx.check("P24", cell.id.0 == rank as Rank, "id_rank", || {
                format!("rank {rank} has a cell with the id {:?}", cell.id)
            });
            index.insert(cell.id.1);
            let ok = close(cell.size, h, 1e-9, 0.0) && close(cell.volume, h * h * h, 1e-9, 0.0);
            ctx.check("P24", ok, "volume", || {
                format!("cell at {:?}: size {:e}, volume {:e}, expected sides of {h:e}", cell.at, cell.size, cell.volume)
            });
        }
        // indices are used to index arrays
        let ok = index.iter().enumerate().all(|(i, k)| i as u32 == *k);
        ctx.check("P24", ok, "id_index", || format!("rank {rank} has the indices {index:?}"));
    }
    ctx.check("P24", by_place.len() == count, "missing", || {
        format!("{} of {count} cells exist", by_place.len())
    });
    if ctx.has_failed() {
        return;
    }
    let volume: f64 = outs.iter().flat_map(|o| &o.cells).map(|c| c.volume).sum();
    ctx.check("P24", close(volume, side[0] * side[1] * side[2], 1e-9, 0.0), "total_volume", || {
        format!("the cells have a volume of {volume:e}, the box one of {:e}", side[0] * side[1] * side[2])
    });
    // Ranks have slabs of nearly equal thickness.
    for (place, (rank, _)) in &by_place {
        let x = (place / (n[1] * n[2])) as f64 / n[0] as f64 * size as f64;
        let ok = (*rank as f64) <= x + 1e-6 && x <= *rank as f64 + 1.0 + 1e-6;
        ctx.check("P24", ok, "slab", || format!("cell {place} of {n:?} is on rank {rank} of {size}"));
    }
    let mut wanted: Vec<BTreeSet<(i32, u32)>> = vec![BTreeSet::new(); size];
    for (place, (rank, cell)) in &by_place {
        ctx.check("P24", cell.faces.len() == 6, "faces", || {
            format!("cell {place} has {} faces", cell.faces.len())
        });
        for (axis, positive, other) in &links[*place] {
            let sign = if *positive { 1.0 } else { -1.0 };
            let found: Vec<&FaceOut> = cell
                .faces
                .iter()
                .filter(|f| (0..3).all(|a| (f.normal[a] - if a == *axis { sign } else { 0.0 }).abs() < 1e-6))
                .collect();
            ctx.check("P24", found.len() == 1, "normal", || {
                format!("cell {place} has {} faces with the normal {sign} along axis {axis}: {:?}", found.len(), cell.faces)
            });
            let [f] = found[..] else { continue };
            ctx.check("P24", close(f.area, h * h, 1e-9, 0.0), "area", || {
                format!("cell {place}, axis {axis}: area {:e}, expected {:e}", f.area, h * h)
            });
            let (kind, id) = match other {
                None => (Kind::Boundary, None),
                Some((j, edge)) => {
                    let (r, c) = &by_place[j];
                    let kind = match (r == rank, edge) {
                        (true, false) => Kind::Local,
                        (false, false) => Kind::Remote,
                        (true, true) => Kind::LocalPeriodic,
                        (false, true) => Kind::RemotePeriodic,
                    };
                    if r != rank {
                        wanted[*rank].insert(c.id);
                    }
                    (kind, Some(c.id))
                }
            };
            ctx.check("P24", f.kind == kind && f.other == id && f.rank.map_or(true, |r| Some(r) == id.map(|i| i.0)), "neighbour", || {
                format!("rank {rank}, cell {place}, axis {axis} sign {sign}: {f:?}, expected {kind:?} {id:?}")
            });
            let mut expected = [0; 3];
            if matches!(other, Some((_, true))) {
                expected[*axis] = if *positive { 1 } else { -1 };
            }
            ctx.check("P24", f.image == expected, "image", || {
                format!("rank {rank}, cell {place}, axis {axis} sign {sign}: neighbour in image {:?} of the box, expected {expected:?}", f.image)
            });
            if ctx.has_failed() {
                return;
            }
        }
    }
    for (rank, o) in outs.iter().enumerate() {
        let mut have: Vec<(i32, u32)> = o.haloes.iter().map(|h| h.1).collect();
        have.sort();
        let want: Vec<(i32, u32)> = wanted[rank].iter().cloned().collect();
        ctx.check("P24", have == want, "haloes", || {
            format!("rank {rank} has haloes {have:?}, its remote neighbours are {want:?}")
        });
        let ok = o.haloes.iter().all(|(r, id)| *r == id.0);
        ctx.check("P24", ok, "halo_rank", || format!("rank {rank}: haloes {:?}", o.haloes));
    }
}
