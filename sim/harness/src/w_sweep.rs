//! Workloads on the sweep: termination, transport, timesteps.
use std::collections::BTreeMap;
use std::rc::Rc;

use bevy_ecs::prelude::*;
use simcore::choice::Rng;
use simcore::sched::Env;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::communication::Rank;
use subsweep::components as c;
use subsweep::parameters::Cosmology;
use subsweep::parameters::Fields;
use subsweep::parameters::HandleExistingOutput;
use subsweep::parameters::OutputParameters;
use subsweep::parameters::SimulationBox;
use subsweep::parameters::SimulationParameters;
use subsweep::parameters::SweepParameters;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::grid::Face;
use subsweep::sweep::grid::ParticleType;
use subsweep::sweep::grid::PeriodicNeighbour;
use subsweep::sweep::grid::RemoteNeighbour;
use subsweep::sweep::grid::RemotePeriodicNeighbour;
use subsweep::sweep::verif::Directions;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units::*;
use subsweep::verif::chemistry::Chemistry;
use subsweep::verif::chemistry::HydrogenOnly;
use subsweep::verif::chemistry::HydrogenOnlySpecies;
use subsweep::verif::chemistry::Site;

use crate::ctx::Ctx;
use crate::ctx::Job;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "sweep_any", run: sweep_any },
        Workload { name: "sweep_ranks", run: sweep_ranks },
        Workload { name: "sweep_rotation", run: sweep_rotation },
        Workload { name: "sweep_rotation_known", run: sweep_rotation_known },
        Workload { name: "sweep_transport", run: sweep_transport },
        Workload { name: "sweep_time", run: sweep_time },
        Workload { name: "sweep_final", run: sweep_final },
        Workload { name: "sweep_series", run: sweep_series },
        Workload { name: "sweep_chemistry", run: sweep_chemistry },
        Workload { name: "sweep_model", run: sweep_model },
    ]
}

#[derive(Clone)]
pub struct GFace {
    pub axis: usize,
    pub positive: bool,
    pub area: f64,
    /// Neighbour and whether the face is across the periodic boundary.
    pub other: Option<(usize, bool)>,
}

#[derive(Clone)]
pub struct GCell {
    pub lo: [f64; 3],
    pub hi: [f64; 3],
    pub faces: Vec<GFace>,
    pub density: f64, // hydrogen atoms per m^3
    pub xhii: f64,
    pub temp: f64,
    pub source: f64,
}

impl GCell {
    pub fn volume(&self) -> f64 {
        (0..3).map(|i| self.hi[i] - self.lo[i]).product()
    }
    pub fn size(&self) -> f64 {
        self.volume().cbrt()
    }
}

#[derive(Clone)]
pub struct Setup {
    pub cells: Vec<GCell>,
    pub length: f64,
    pub periodic: bool,
    pub dirs: Dirs,
    pub rotate: bool,
    pub levels: usize,
    pub threshold: f64,
    pub safety: f64,
    pub chem_safety: f64,
    pub check_deadlock: bool,
    pub prevent_cooling: bool,
    pub batch: usize,
    pub max_timestep: f64,
    pub final_time: Option<f64>,
    pub all_fields: bool,
    pub scale_factor: Option<f64>,
    /// Write output, with these fields.
    pub output: Option<Option<Vec<String>>>,
    pub dir: std::path::PathBuf,
}

#[derive(Clone, Debug)]
pub enum Dirs {
    Num(usize),
    Explicit(Vec<[f64; 3]>),
}

impl Dirs {
    pub fn len(&self) -> usize {
        match self {
            Dirs::Num(n) => *n,
            Dirs::Explicit(v) => v.len(),
        }
    }
    fn spec(&self) -> DirectionsSpecification {
        match self {
            Dirs::Num(n) => DirectionsSpecification::Num(*n),
            Dirs::Explicit(v) => DirectionsSpecification::Explicit(
                v.iter()
                    .map(|d| MVec3::new(d[0], d[1], d[2]) * Dimensionless::dimensionless(1.0))
                    .collect(),
            ),
        }
    }
}

/// Split the box recursively into `n` boxes (a binary space partition, so
/// that every direction has a consistent order of the cells).
pub fn kd_cells(rng: &mut Rng, n: usize, length: f64, regular: bool) -> Vec<([f64; 3], [f64; 3])> {
    let mut cells = vec![([0.0; 3], [length; 3])];
    if regular {
        let k = ((n as f64).cbrt().ceil() as usize).max(1);
        let l = length / k as f64;
        let mut v = vec![];
        for x in 0..k {
            for y in 0..k {
                for z in 0..k {
                    let lo = [x as f64 * l, y as f64 * l, z as f64 * l];
                    let hi = [(x + 1) as f64 * l, (y + 1) as f64 * l, (z + 1) as f64 * l];
                    v.push((lo, hi));
                }
            }
        }
        return v;
    }
    while cells.len() < n {
        // split one of the larger cells
        let mut idx: Vec<usize> = (0..cells.len()).collect();
        let vol = |c: &([f64; 3], [f64; 3])| -> f64 { (0..3).map(|i| c.1[i] - c.0[i]).product() };
        idx.sort_by(|a, b| vol(&cells[*b]).partial_cmp(&vol(&cells[*a])).unwrap());
        let i = idx[rng.below((idx.len() as u64 + 2) / 3) as usize];
        let (lo, hi) = cells[i];
        let axis = rng.below(3) as usize;
        let f = if rng.chance(0.5) { 0.5 } else { 0.25 + 0.5 * rng.unit() };
        let cut = lo[axis] + f * (hi[axis] - lo[axis]);
        let (mut a, mut b) = ((lo, hi), (lo, hi));
        a.1[axis] = cut;
        b.0[axis] = cut;
        cells[i] = a;
        cells.push(b);
    }
    cells
}

pub fn faces(boxes: &[([f64; 3], [f64; 3])], i: usize, length: f64, periodic: bool) -> Vec<GFace> {
    let (lo, hi) = boxes[i];
    let mut v = vec![];
    for axis in 0..3 {
        let (u, w) = ((axis + 1) % 3, (axis + 2) % 3);
        for positive in [true, false] {
            let at = if positive { hi[axis] } else { lo[axis] };
            let boundary = at == if positive { length } else { 0.0 };
            if boundary && !periodic {
                let area = (hi[u] - lo[u]) * (hi[w] - lo[w]);
                v.push(GFace { axis, positive, area, other: None });
                continue;
            }
            let target = if boundary { if positive { 0.0 } else { length } } else { at };
            for (j, (l2, h2)) in boxes.iter().enumerate() {
                let touches = if positive { l2[axis] == target } else { h2[axis] == target };
                if !touches {
                    continue;
                }
                let ov = |k: usize| hi[k].min(h2[k]) - lo[k].max(l2[k]);
                if ov(u) > 0.0 && ov(w) > 0.0 {
                    v.push(GFace { axis, positive, area: ov(u) * ov(w), other: Some((j, boundary)) });
                }
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
pub enum Medium {
    Transparent,
    Inert,
    Mixed,
}

pub const KPC: f64 = 3.0857e19;
pub const YR: f64 = 3.15576e7;
pub const SIGMA: f64 = 2.9580524545305314e-22; // m^2
pub const MP: f64 = 1.67262192369e-27;

pub fn make_grid(ctx: &mut Ctx, max_cells: usize, periodic: bool, medium: Medium) -> (Vec<GCell>, f64) {
    let mut rng = ctx.rng("gridseed");
    let length = ctx.pick("length", &[1.0 * KPC, 10.0 * KPC, 0.01 * KPC]);
    let n = ctx.size("ncells", 1, max_cells, max_cells * 5 / 2);
    let regular = ctx.chance("regular", 0.3);
    // The k-d tree of the code refuses more than 32 positions with a common coordinate.
    let n = if regular { n.min(max_cells) } else { n };
    let boxes = kd_cells(&mut rng, n, length, regular);
    let nsrc = ctx.pick("nsources", &[1usize, 0, 2, 5, 1000]);
    let mut cells: Vec<GCell> = (0..boxes.len())
        .map(|i| {
            // hydrogen atoms per cubic metre; optical depth over the box
            let tau = match medium {
                Medium::Transparent => 0.0,
                _ => 10f64.powf(rng.range(-3.0, 1.3)),
            };
            let density = if medium == Medium::Transparent { 1e-12 } else { tau / (SIGMA * length) };
            GCell {
                lo: boxes[i].0,
                hi: boxes[i].1,
                faces: faces(&boxes, i, length, periodic),
                density,
                xhii: if rng.chance(0.5) { 10f64.powf(rng.range(-6.0, -2.0)) } else { rng.range(0.01, 0.99) },
                temp: 10f64.powf(rng.range(2.0, 5.0)),
                source: 0.0,
            }
        })
        .collect();
    let strength = 10f64.powf(rng.range(44.0, 50.0));
    for _ in 0..nsrc.min(cells.len()) {
        let i = rng.below(cells.len() as u64) as usize;
        cells[i].source += strength * 10f64.powf(rng.range(-2.0, 0.0));
    }
    (cells, length)
}

pub fn make_dirs(ctx: &mut Ctx) -> Dirs {
    match ctx.int("dirs", 0, 9) {
        0 => Dirs::Num(1),
        1 | 2 => Dirs::Num(16),
        3 => Dirs::Num(ctx.pick("ndirs", &[21, 32, 64, 84])),
        4 => {
            let v = vec![
                [1.0, 0.0, 0.0],
                [-1.0, 0.0, 0.0],
                [0.0, 1.0, 0.0],
                [0.0, -1.0, 0.0],
                [0.0, 0.0, 1.0],
                [0.0, 0.0, -1.0],
            ];
            let k = ctx.int("naxes", 1, 6);
            Dirs::Explicit(v[..k].to_vec())
        }
        _ => {
            let k = ctx.int("nexp", 1, 8);
            let mut rng = ctx.rng("dirseed");
            Dirs::Explicit(
                (0..k)
                    .map(|_| {
                        let s = 10f64.powf(rng.range(-2.0, 2.0));
                        if rng.chance(0.2) {
                            // in a coordinate plane
                            let mut d = [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-1.0, 1.0)];
                            d[rng.below(3) as usize] = 0.0;
                            d
                        } else {
                            [rng.range(-s, s), rng.range(-s, s), rng.range(-s, s)]
                        }
                    })
                    .collect(),
            )
        }
    }
}

fn make_setup(ctx: &mut Ctx, max_cells: usize, periodic: bool, medium: Medium, max_levels: usize) -> Setup {
    // many values in one message
    let bulk = max_cells > 24 && ctx.chance("bulk", 0.02);
    let (cells, length) = make_grid(ctx, if bulk { 300 } else { max_cells }, periodic, medium);
    let mut dirs = make_dirs(ctx);
    if bulk {
        dirs = Dirs::Num(84);
    }
    let levels = if max_levels > 1 && !bulk { ctx.size("levels", 1, max_levels, max_levels + 3) } else { 1 };
    let total: f64 = cells.iter().map(|c| c.source).sum();
    // Rates far below the sources' are rounding noise; the parameter
    // exists to ignore them.
    let threshold = if levels > 1 || ctx.chance("threshold", 0.3) {
        let part = ctx.pick("threshold_part", &[1e-8, 1e-8, 1e-8, 1.37e-3, 3.71e-2]);
        total * part / dirs.len() as f64 + 1e-30
    } else {
        0.0
    };
    Setup {
        length,
        periodic,
        rotate: ctx.chance("rotate", 0.2),
        levels,
        threshold,
        safety: ctx.pick("safety", &[0.1, 1.0, 0.01, 0.5]),
        chem_safety: ctx.pick("chemsafety", &[0.1, 0.5, 0.02]),
        check_deadlock: ctx.chance("checkdeadlock", 0.2),
        prevent_cooling: ctx.chance("preventcooling", 0.4),
        batch: {
            let b = ctx.pick("batch", &[10000, 0, 1, 3, 17, 100]);
            // one message per task makes large problems slow
            if bulk { 100_000 } else { b.max(cells.len() * dirs.len() / 300) }
        },
        max_timestep: ctx.pick("maxdt", &[1e4 * YR, 1e5 * YR, 1e3 * YR, 1e6 * YR]),
        final_time: None,
        all_fields: ctx.chance("allfields", 0.3),
        scale_factor: None,
        output: None,
        dir: ctx.dir.clone(),
        dirs,
        cells,
    }
}

/// A setup for the reference solution only.
pub fn plain_setup(cells: Vec<GCell>, length: f64) -> Setup {
    Setup {
        cells,
        length,
        periodic: false,
        dirs: Dirs::Num(1),
        rotate: false,
        levels: 1,
        threshold: 0.0,
        safety: 0.1,
        chem_safety: 0.1,
        check_deadlock: false,
        prevent_cooling: true,
        batch: 0,
        max_timestep: 0.0,
        final_time: None,
        all_fields: false,
        scale_factor: None,
        output: None,
        dir: "".into(),
    }
}

/// Cell to rank; every rank has at least one cell.
fn partition(ctx: &mut Ctx, s: &Setup, n: usize) -> Vec<usize> {
    let k = s.cells.len();
    let mode = ctx.int("partition", 0, 5);
    let mut rng = ctx.rng("partseed");
    let mut own: Vec<usize> = match mode {
        0 => (0..k).map(|i| i * n / k).collect(),
        1 => {
            let axis = rng.below(3) as usize;
            (0..k)
                .map(|i| (((s.cells[i].lo[axis] / s.length) * n as f64) as usize).min(n - 1))
                .collect()
        }
        2 => (0..k).map(|_| rng.below(n as u64) as usize).collect(),
        3 => (0..k).map(|i| i % n).collect(),
        4 => (0..k).map(|_| if rng.chance(0.9) { 0 } else { rng.below(n as u64) as usize }).collect(),
        _ => (0..k)
            .map(|i| {
                // shells around a point
                let d: f64 = (0..3)
                    .map(|a| (0.5 * (s.cells[i].lo[a] + s.cells[i].hi[a]) / s.length - 0.4).powi(2))
                    .sum::<f64>()
                    .sqrt();
                ((d * 1.2 * n as f64) as usize).min(n - 1)
            })
            .collect(),
    };
    for r in 0..n {
        if !own.contains(&r) {
            // take a cell from a rank with several
            let mut count = vec![0; n];
            own.iter().for_each(|o| count[*o] += 1);
            let i = (0..k).find(|i| count[own[*i]] > 1).unwrap();
            own[i] = r;
        }
    }
    own
}

#[derive(Clone, Debug, Default)]
pub struct CellOut {
    pub rate: f64,
    pub xhii: f64,
    pub temp: f64,
    pub timestep: f64,
    pub ionization_time: f64,
    pub photoionization: Option<f64>,
    pub heating: Option<f64>,
    pub recombination: Option<f64>,
    pub collisional: Option<f64>,
}

#[derive(Clone, Debug, Default)]
pub struct RankOut {
    /// Simulation time after each update.
    pub times: Vec<f64>,
    pub cells: Vec<BTreeMap<usize, CellOut>>,
}

#[derive(Resource, Default)]
struct TimeLog(Vec<f64>);

fn log_time_system(time: Res<SimulationTime>, mut log: ResMut<TimeLog>) {
    log.0.push(time.in_seconds());
}

fn ids(own: &[usize]) -> Vec<ParticleId> {
    let mut next: BTreeMap<usize, u32> = BTreeMap::new();
    own.iter()
        .map(|r| {
            let e = next.entry(*r).or_insert(0);
            *e += 1;
            ParticleId { index: *e - 1, rank: *r as Rank }
        })
        .collect()
}

fn wrap_type(f: &GFace) -> subsweep::dimension::ActiveWrapType {
    let mut w = subsweep::dimension::ActiveWrapType::no_wrap();
    // only used for display
    let _ = &mut w;
    let _ = f;
    w
}

pub fn build_without_grid(s: &Setup, box_: SimulationBox, n: usize, rank: usize) -> Simulation {
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents("{}".into())
        .read_initial_conditions(false)
        .write_output(s.output.is_some());
    sim.add_plugin(BaseCommunicationPlugin::new(n, rank as Rank));
    sim.add_parameters_explicitly(box_)
        .add_parameters_explicitly(match s.scale_factor {
            Some(a) => Cosmology::Cosmological { a, h: 0.7, params: None },
            None => Cosmology::NonCosmological,
        })
        .add_parameters_explicitly(SweepParameters {
            directions: s.dirs.spec(),
            rotate_directions: s.rotate,
            num_timestep_levels: s.levels,
            significant_rate_threshold: PhotonRate::photons_per_second(s.threshold),
            timestep_safety_factor: Dimensionless::dimensionless(s.safety),
            chemistry_timestep_safety_factor: Dimensionless::dimensionless(s.chem_safety),
            check_deadlock: s.check_deadlock,
            periodic: s.periodic,
            max_timestep: Time::seconds(s.max_timestep),
            prevent_cooling: s.prevent_cooling,
            num_tasks_to_solve_before_send_receive: s.batch,
        })
        .add_parameters_explicitly(SimulationParameters {
            final_time: s.final_time.map(Time::seconds),
        });
    if s.all_fields || s.output.is_some() {
        sim.add_parameters_explicitly(OutputParameters {
            time_between_snapshots: Time::seconds(0.0),
            time_first_snapshot: None,
            output_dir: s.dir.clone(),
            snapshots_dir: "snapshots".into(),
            time_series_dir: "time_series".into(),
            fields: match &s.output {
                Some(Some(v)) => Fields::Some(v.clone()),
                _ => Fields::All,
            },
            snapshot_padding: 3,
            used_parameters_filename: "parameters.yml".into(),
            handle_existing_output: HandleExistingOutput::Panic,
            performance_data_filename: "performance.yml".into(),
            num_output_files: 1,
        });
    }
    if s.output.is_some() {
        sim.insert_resource(subsweep::io::input::NumParticlesTotal(s.cells.len()));
    }
    sim.add_plugin(SimulationPlugin);
    sim.insert_resource(TimeLog::default());
    sim.add_system_to_stage(Stages::Final, log_time_system);
    sim
}

fn build(s: &Setup, own: &[usize], n: usize, rank: usize) -> Simulation {
    let mut sim = build_without_grid(s, SimulationBox::cube_from_side_length(Length::meters(s.length)), n, rank);
    let id = ids(own);
    let (cells, own2) = (s.cells.clone(), own.to_vec());
    let write = s.output.is_some();
    sim.add_startup_system_to_stage(StartupStages::ReadInput, move |mut commands: Commands| {
        let mut haloes = std::collections::BTreeSet::new();
        for (i, g) in cells.iter().enumerate() {
            if own2[i] != rank {
                continue;
            }
            let mut neighbours = vec![];
            for f in &g.faces {
                let sign = if f.positive { 1.0 } else { -1.0 };
                let mut nrm = [0.0; 3];
                nrm[f.axis] = sign;
                let face = Face {
                    area: Area::square_meters(f.area),
                    normal: MVec3::new(nrm[0], nrm[1], nrm[2]) * Dimensionless::dimensionless(1.0),
                };
                let t = match f.other {
                    None => ParticleType::Boundary,
                    Some((j, per)) => {
                        let local = own2[j] == rank;
                        let r = own2[j] as Rank;
                        if !local {
                            haloes.insert(j);
                        }
                        match (local, per) {
                            (true, false) => ParticleType::Local(id[j]),
                            (false, false) => ParticleType::Remote(RemoteNeighbour { id: id[j], rank: r }),
                            (true, true) => ParticleType::LocalPeriodic(PeriodicNeighbour {
                                id: id[j],
                                periodic_wrap_type: wrap_type(f),
                            }),
                            (false, true) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour {
                                id: id[j],
                                rank: r,
                                periodic_wrap_type: wrap_type(f),
                            }),
                        }
                    }
                };
                neighbours.push((face, t));
            }
            let cell = Cell {
                neighbours,
                size: Length::meters(g.size()),
                volume: Volume::cubic_meters(g.volume()),
            };
            let m = |a: usize| 0.5 * (g.lo[a] + g.hi[a]);
            let mut entity = commands.spawn((
                (LocalParticle, c::Position(VecLength::meters(m(0), m(1), m(2))), cell, id[i]),
                (
                    c::Density(Mass::kilograms(g.density * MP) / Volume::cubic_meters(1.0)),
                    c::IonizedHydrogenFraction(Dimensionless::dimensionless(g.xhii)),
                    c::Temperature(Temperature::kelvins(g.temp)),
                    c::Source(SourceRate::photons_per_second(g.source)),
                    c::PhotonRate(PhotonRate::zero()),
                    c::Timestep::default(),
                    c::IonizationTime::default(),
                ),
            ));
            if write {
                entity.insert(c::Mass(Mass::kilograms(g.density * MP * g.volume())));
            }
        }
        for j in haloes {
            commands.spawn((HaloParticle { rank: own2[j] as Rank }, id[j]));
        }
    });
    sim.add_plugin(SweepPlugin);
    sim
}

fn read(sim: &mut Simulation, own: &[usize], rank: usize) -> BTreeMap<usize, CellOut> {
    let mine: Vec<usize> = (0..own.len()).filter(|i| own[*i] == rank).collect();
    let world = sim.world();
    let mut q = world.query_filtered::<(
        &ParticleId,
        &c::PhotonRate,
        &c::IonizedHydrogenFraction,
        &c::Temperature,
        &c::Timestep,
        &c::IonizationTime,
        Option<&c::PhotoionizationRate>,
        (Option<&c::HeatingRate>, Option<&c::RecombinationRate>, Option<&c::CollisionalIonizationRate>),
    ), With<LocalParticle>>();
    let mut out = BTreeMap::new();
    for (id, rate, x, t, dt, it, ph, (heat, rec, col)) in q.iter(world) {
        out.insert(
            mine[id.index as usize],
            CellOut {
                rate: rate.in_photons_per_second(),
                xhii: x.value(),
                temp: t.in_kelvins(),
                timestep: dt.in_seconds(),
                ionization_time: it.in_seconds(),
                photoionization: ph.map(|x| x.value_unchecked()),
                heating: heat.map(|x| x.value_unchecked()),
                recombination: rec.map(|x| x.value_unchecked()),
                collisional: col.map(|x| x.value_unchecked()),
            },
        );
    }
    out
}

pub fn simulate(ctx: &mut Ctx, s: &Rc<Setup>, own: Vec<usize>, n: usize, updates: usize, env: Env) -> Job<RankOut> {
    let s = s.clone();
    let own = Rc::new(own);
    ctx.job(n, env, move |rank| {
        let mut sim = build(&s, &own, n, rank);
        let mut out = RankOut::default();
        for _ in 0..updates {
            sim.update();
            out.times.push(sim.get_resource::<SimulationTime>().unwrap().in_seconds());
            out.cells.push(read(&mut sim, &own, rank));
        }
        out
    })
}

pub fn merge(outs: &[RankOut], step: usize) -> BTreeMap<usize, CellOut> {
    let mut m = BTreeMap::new();
    for o in outs {
        for (k, v) in &o.cells[step] {
            m.insert(*k, v.clone());
        }
    }
    m
}

fn describe(ctx: &mut Ctx, s: &Setup, n: usize, own: &[usize], updates: usize) {
    ctx.desc(format!(
        "{} cells, {} ranks, dirs {:?}, {} levels, periodic {}, rotate {}, deadlock check {}, batch {}, {} updates, prevent_cooling {}",
        s.cells.len(), n, s.dirs, s.levels, s.periodic, s.rotate, s.check_deadlock, s.batch, updates, s.prevent_cooling
    ));
    if s.cells.len() <= 24 {
        ctx.desc(format!("owners {own:?}"));
    }
    ctx.stat(&format!("cov_levels_{}", s.levels), 1);
    ctx.stat(if s.periodic { "cov_periodic" } else { "cov_nonperiodic" }, 1);
    ctx.stat(if s.rotate { "cov_rotate" } else { "cov_norotate" }, 1);
    if s.check_deadlock {
        ctx.stat("cov_check_deadlock", 1);
    }
    if n > 1 {
        ctx.res.nontrivial = true;
    }
}

/// Time after the k-th sweep of a run with `levels` timestep levels.
pub fn expected_times(s: &Setup, updates: usize) -> Vec<f64> {
    let mut t = 0.0;
    let mut out = vec![0.0];
    let mut lowest = s.levels as i32 - 1;
    for k in 1..updates {
        t += s.max_timestep * 0.5f64.powi(lowest);
        out.push(t);
        if k > 1 && lowest > 0 {
            lowest -= 1;
        }
    }
    out
}

fn check_common(ctx: &mut Ctx, s: &Setup, outs: &[RankOut], updates: usize) {
    let times = expected_times(s, updates);
    for (r, o) in outs.iter().enumerate() {
        ctx.check("P07", o.times == outs[0].times, "time_disagreement", || {
            format!("rank {r} is at {:?}, rank 0 at {:?}", o.times, outs[0].times)
        });
        let ok = o.times.iter().zip(&times).all(|(a, b)| (a - b).abs() <= 1e-9 * b.abs());
        ctx.check("P07", ok, "time", || format!("rank {r}: times {:?}, expected {times:?}", o.times));
    }
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    let last = merge(outs, updates - 1);
    ctx.check("P04,P05,P06", last.len() == s.cells.len(), "cells", || {
        format!("{} cells in the result, {} in the grid", last.len(), s.cells.len())
    });
    for step in 0..updates {
        for (i, v) in merge(outs, step) {
            let ok = v.rate.is_finite() && v.rate >= -1e-9 * total;
            let kind = if s.rotate && v.rate.is_finite() { "negative_rate_after_rotation" } else { "rate_range" };
            ctx.check("P06", ok, kind, || format!("update {step}, cell {i}: photon rate {:e}", v.rate));
            let ok = v.xhii.is_finite() && v.xhii >= 0.0 && v.xhii <= 1.0 && v.temp.is_finite() && v.temp > 0.0;
            ctx.check("P05,P06", ok, "state_range", || {
                format!("update {step}, cell {i}: ionized fraction {:e}, temperature {:e}", v.xhii, v.temp)
            });
        }
    }
}

/// Anything goes: the sweep has to come to an end.
fn sweep_any(ctx: &mut Ctx) {
    let periodic = ctx.chance("periodic", 0.5);
    let s = Rc::new(make_setup(ctx, 60, periodic, Medium::Mixed, 5));
    let n = ctx.size("ranks", 1, 6, 16).min(s.cells.len());
    let own = partition(ctx, &s, n);
    let updates = ctx.size("updates", 2, 7, 25);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if j.finished() {
        let outs = j.all();
        check_common(ctx, &s, &outs, updates);
    }
}

/// One fixed history of a known finding: rotated directions and several levels.
fn sweep_rotation_known(ctx: &mut Ctx) {
    let k = ROTATION_SEED;
    let mut sub = Ctx::new(&ctx.focus, simcore::choice::Choices::random(k), ctx.dir.clone(), false);
    let mut s = make_setup(&mut sub, 60, false, Medium::Mixed, 5);
    s.rotate = true;
    s.levels = s.levels.max(2);
    s.dirs = Dirs::Num(16);
    s.batch = 10000;
    let s = Rc::new(s);
    describe(ctx, &s, 1, &[], 8);
    let j = simulate(ctx, &s, vec![0; s.cells.len()], 1, 8, Env::default());
    if j.finished() {
        let outs = j.all();
        check_common(ctx, &s, &outs, 8);
    }
}

const ROTATION_SEED: u64 = 1116;

/// Rotated directions in a transparent medium: what leaves an inner cell
/// arrives in its neighbours.
fn sweep_rotation(ctx: &mut Ctx) {
    let mut s = make_setup(ctx, 64, false, Medium::Transparent, 1);
    s.threshold = 0.0;
    s.rotate = ctx.chance("rotating", 0.5);
    s.dirs = Dirs::Num(ctx.pick("rotdirs", &[16, 21, 32, 64, 84]));
    let s = Rc::new(s);
    let n = ctx.int("ranks", 1, 3).min(s.cells.len());
    let own = partition(ctx, &s, n);
    let updates = ctx.int("updates", 3, 7);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    ctx.res.nontrivial = total > 0.0;
    for step in 1..updates {
        let v = merge(&outs, step);
        for (i, c) in s.cells.iter().enumerate() {
            if c.faces.iter().any(|f| f.other.is_none()) {
                continue;
            }
            let mut nbr: Vec<usize> = c.faces.iter().map(|f| f.other.unwrap().0).collect();
            nbr.sort();
            nbr.dedup();
            let out = v[&i].rate + c.source;
            let arrived: f64 = nbr.iter().map(|j| v[j].rate).sum();
            // The first rotation comes after the first sweep.
            let kind = if s.rotate && step > 1 { "lost_after_rotation" } else { "lost" };
            ctx.check("P06", arrived >= out - 1e-9 * total, kind, || {
                format!("update {step}: {out:e} photons per second leave cell {i}, {arrived:e} arrive in its neighbours")
            });
        }
    }
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}

/// The same problem on several ranks and on one.
fn sweep_ranks(ctx: &mut Ctx) {
    let s = Rc::new(make_setup(ctx, 50, false, Medium::Mixed, 5));
    let n = ctx.size("ranks", 2, 6, 16).min(s.cells.len());
    let own = partition(ctx, &s, n);
    let updates = ctx.size("updates", 2, 8, 25);
    describe(ctx, &s, n, &own, updates);
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    let one = simulate(ctx, &s, vec![0; s.cells.len()], 1, updates, Env::default());
    let env = ctx.env(n);
    let many = simulate(ctx, &s, own.clone(), n, updates, env);
    if !one.finished() || !many.finished() {
        return;
    }
    let (one, many) = (one.all(), many.all());
    check_common(ctx, &s, &many, updates);
    for step in 0..updates {
        let (a, b) = (merge(&one, step), merge(&many, step));
        for i in 0..s.cells.len() {
            let (Some(x), Some(y)) = (a.get(&i), b.get(&i)) else { continue };
            let ok = close(x.rate, y.rate, 1e-6, 1e-10 * total);
            ctx.check("P05", ok, "rate", || {
                format!("update {step}, cell {i} (rank {}): photon rate {:e} on one rank, {:e} on {n}", own[i], x.rate, y.rate)
            });
            let ok = close(x.xhii, y.xhii, 1e-5, 1e-12) && close(x.temp, y.temp, 1e-5, 0.0);
            ctx.check("P05", ok, "state", || {
                format!(
                    "update {step}, cell {i} (rank {}): x {:e} T {:e} on one rank, x {:e} T {:e} on {n}",
                    own[i], x.xhii, x.temp, y.xhii, y.temp
                )
            });
            let ok = close(x.timestep, y.timestep, 1e-4, 0.0) || x.timestep.min(y.timestep) > 1e6 * s.max_timestep;
            ctx.check("P05", ok, "timestep", || {
                format!("update {step}, cell {i}: timescale {:e} on one rank, {:e} on {n}", x.timestep, y.timestep)
            });
            if ctx.has_failed() {
                return;
            }
        }
    }
}

pub fn unit(d: &[f64; 3]) -> [f64; 3] {
    let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    [d[0] / l, d[1] / l, d[2] / l]
}

/// Independent solution of the transport problem for the given state.
pub struct Transport {
    pub arriving: Vec<f64>,
    pub leaving: f64,
    pub absorbed: f64,
}

pub fn transport(s: &Setup, dirs: &[[f64; 3]], xhii: &[f64]) -> Transport {
    let n = s.cells.len();
    let mut res = Transport { arriving: vec![0.0; n], leaving: 0.0, absorbed: 0.0 };
    for d in dirs {
        let dot = |f: &GFace| d[f.axis] * if f.positive { 1.0 } else { -1.0 };
        let mut missing: Vec<usize> = s
            .cells
            .iter()
            .map(|c| c.faces.iter().filter(|f| f.other.is_some() && dot(f) < 0.0).count())
            .collect();
        let mut arriving = vec![0.0; n];
        let mut ready: Vec<usize> = (0..n).filter(|i| missing[*i] == 0).collect();
        while let Some(i) = ready.pop() {
            let c = &s.cells[i];
            let inc = arriving[i] + c.source / dirs.len() as f64;
            let out = if inc < s.threshold {
                0.0
            } else {
                inc * (-c.density * (1.0 - xhii[i]) * SIGMA * c.size()).exp()
            };
            res.absorbed += inc - out;
            let down: f64 = c.faces.iter().map(|f| dot(f).max(0.0) * f.area).sum();
            for f in &c.faces {
                if dot(f) > 0.0 {
                    let share = out * dot(f) * f.area / down;
                    match f.other {
                        None => res.leaving += share,
                        Some((j, _)) => {
                            arriving[j] += share;
                            missing[j] -= 1;
                            if missing[j] == 0 {
                                ready.push(j);
                            }
                        }
                    }
                }
            }
        }
        for i in 0..n {
            res.arriving[i] += arriving[i];
        }
    }
    res
}

/// Photon rates against an independent solution.
fn sweep_transport(ctx: &mut Ctx) {
    let medium = if ctx.chance("transparent", 0.3) { Medium::Transparent } else { Medium::Mixed };
    let mut s = make_setup(ctx, 60, false, medium, 4);
    s.rotate = false;
    // The reference needs the directions.
    let dirs = match &s.dirs {
        Dirs::Num(1) => vec![[1.0, 0.0, 0.0]],
        Dirs::Num(k) => {
            let d = reference_bins(*k);
            d
        }
        Dirs::Explicit(v) => v.iter().map(unit).collect(),
    };
    let n = ctx.size("ranks", 1, 5, 14).min(s.cells.len());
    let updates = ctx.int("updates", 2, 6);
    // With one level, every update is one sweep over all cells. With
    // several levels that is so for the first two sweeps.
    let checked = if s.levels == 1 { updates } else { updates.min(3) };
    let s = Rc::new(s);
    let own = partition(ctx, &s, n);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    ctx.res.nontrivial = total > 0.0;
    for step in 1..checked {
        let before = merge(&outs, step - 1);
        let x: Vec<f64> = (0..s.cells.len()).map(|i| before[&i].xhii).collect();
        let t = transport(&s, &dirs, &x);
        let after = merge(&outs, step);
        let sum: f64 = after.values().map(|v| v.rate).sum();
        let expect: f64 = t.arriving.iter().sum();
        ctx.check("P06", close(sum, expect, 1e-6, 1e-9 * total), "total_rate", || {
            format!("update {step}: photon rates sum to {sum:e}, expected {expect:e} (sources {total:e})")
        });
        for i in 0..s.cells.len() {
            let ok = close(after[&i].rate, t.arriving[i], 1e-6, 1e-9 * total);
            ctx.check("P06", ok, "transport", || {
                format!("update {step}, cell {i}: photon rate {:e}, expected {:e} (sources {total:e})", after[&i].rate, t.arriving[i])
            });
        }
        if ctx.has_failed() {
            return;
        }
    }
}

/// The direction bins are data of the program under test; read them through
/// a probe: a single cell in the middle of a 3x3x3 grid cannot tell them
/// apart, so the reference table is kept here.
pub fn reference_bins(k: usize) -> Vec<[f64; 3]> {
    crate::bins::bins(k)
}

/// No photons: every cell's chemistry is advanced by exactly the elapsed
/// time, whatever its timestep levels were.
fn sweep_time(ctx: &mut Ctx) {
    let mut s = make_setup(ctx, 20, false, Medium::Mixed, 5);
    for c in s.cells.iter_mut() {
        c.source = 0.0;
        // recombining gas, no collisional ionization
        c.temp = 10f64.powf(3.0 + 0.5 * c.xhii);
        c.xhii = 0.3 + 0.6 * c.xhii;
    }
    s.output = Some(None);
    s.chem_safety = 0.005;
    s.prevent_cooling = false;
    s.rotate = false;
    s.threshold = 1.0;
    s.safety = ctx.pick("safety2", &[1.0, 10.0, 0.2, 50.0]);
    // recombination time of the densest cell
    let nmax = s.cells.iter().map(|c| c.density).fold(0.0, f64::max);
    let trec = 1.0 / (3e-19 * nmax);
    s.max_timestep = trec * ctx.pick("dtfactor", &[0.05, 0.2, 0.01, 0.5]);
    let n = ctx.size("ranks", 1, 4, 14).min(s.cells.len());
    let updates = ctx.size("updates", 3, 8, 40);
    let s = Rc::new(s);
    let own = partition(ctx, &s, n);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    ctx.res.nontrivial = s.levels > 1;
    let steps: Vec<_> = (0..updates).map(|k| merge(&outs, k)).collect();
    match read_series(&s, "num_particles_at_timestep_levels") {
        Ok(v) if v.len() == updates => {
            for (k, x) in v.iter().enumerate() {
                check_levels(ctx, &s, &x.1, k, &steps);
            }
        }
        Ok(v) => {
            ctx.check("P17", false, "series_times", || format!("{} entries in {updates} steps", v.len()));
        }
        Err(e) => {
            ctx.check("P17", false, "bad_series", || e);
        }
    }
    let last = merge(&outs, updates - 1);
    let elapsed = outs[0].times[updates - 1];
    for (i, g) in s.cells.iter().enumerate() {
        let v = &last[&i];
        let (x, _t) = recombine(g.density, g.xhii, g.temp, elapsed);
        let change = (g.xhii - x).abs();
        let tol = 0.08 * change + 1e-4;
        ctx.check("P07,P05", (v.xhii - x).abs() <= tol, "elapsed_chemistry", || {
            format!(
                "cell {i}: ionized fraction {:.8} -> {:.8} after {elapsed:e} s on {} levels, expected {:.8}",
                g.xhii, v.xhii, s.levels, x
            )
        });
    }
}

/// Recombination and cooling of a hydrogen gas without radiation, integrated
/// with small explicit steps (rates from Rosdahl et al. 2015, as the
/// program's documentation states).
fn recombine(n: f64, mut x: f64, mut t: f64, time: f64) -> (f64, f64) {
    let ncm = n * 1e-6;
    let kb = 1.380649e-16;
    let mut left = time;
    while left > 0.0 {
        let l = 315614.0 / t;
        let alpha = 2.753e-14 * l.powf(1.5) / (1.0 + (l / 2.74).powf(0.407)).powf(2.242);
        let fit = t.sqrt() / (1.0 + (t / 1e5).sqrt()) * (-157809.1 / t).exp();
        let beta = 5.85e-11 * fit;
        let ne = ncm * x;
        let dx = beta * ne * (1.0 - x) - alpha * ne * x;
        let rec = 3.435e-30 * t * l.powf(1.97) / (1.0 + (l / 2.25).powf(0.376)).powf(3.72);
        let col = 1.27e-21 * fit + 7.5e-19 / (1.0 + (t / 1e5).sqrt()) * (-118348.0 / t).exp();
        let brems = 1.42e-27 * t.sqrt();
        let compton = 1.017e-37 * 2.727f64.powi(4) * (t - 2.727) * ne;
        let cool = col * ne * ncm * (1.0 - x) + (rec + brems) * ne * ne + compton;
        let mu = 1.0 / (1.0 + x);
        let dt_temp = -cool * (2.0 / 3.0) * mu / (ncm * kb);
        let tau = (x / dx.abs()).min(t / dt_temp.abs()) * 1e-3;
        let h = tau.min(left);
        x += dx * h;
        t += dt_temp * h;
        left -= h;
        if h < time * 1e-9 {
            break;
        }
    }
    (x, t)
}

/// A run with a final time ends on all ranks in the same step.
fn sweep_final(ctx: &mut Ctx) {
    let mut s = make_setup(ctx, 12, false, Medium::Mixed, 4);
    let planned = ctx.size("plannedsteps", 1, 8, 40);
    let times = expected_times(&s, planned + 3);
    let exact = ctx.chance("exact", 0.5);
    let t = times[planned - 1];
    s.final_time = Some(if exact { t } else { 0.3 * t + 0.7 * times[planned] });
    let n = ctx.size("ranks", 1, 5, 14).min(s.cells.len());
    let own = Rc::new(partition(ctx, &s, n));
    let s = Rc::new(s);
    describe(ctx, &s, n, &own, planned);
    ctx.desc(format!("final time {:?}", s.final_time));
    let env = ctx.env(n);
    let (s2, own2) = (s.clone(), own.clone());
    let j = ctx.job(n, env, move |rank| {
        let mut sim = build(&s2, &own2, n, rank);
        sim.add_bevy_plugin(bevy_app::ScheduleRunnerPlugin);
        sim.run_without_finalize();
        let log = &sim.get_resource::<TimeLog>().unwrap().0;
        log.clone()
    });
    if !j.finished() {
        return;
    }
    let logs = j.all();
    let ft = s.final_time.unwrap();
    for (r, l) in logs.iter().enumerate() {
        ctx.check("P07", *l == logs[0], "stop_disagreement", || {
            format!("rank {r} stopped after times {l:?}, rank 0 after {:?}", logs[0])
        });
        let k = l.len();
        let end = l[k - 1];
        ctx.check("P07", end >= ft * (1.0 - 1e-12), "stopped_early", || {
            format!("stopped at {end:e}, final time {ft:e}, times {l:?}")
        });
        let before = if k >= 3 { l[k - 3] } else { -1.0 };
        ctx.check("P07", before < ft, "stopped_late", || {
            format!("still running after {before:e}, final time {ft:e}, times {l:?}")
        });
    }
}

fn read_series(s: &Setup, name: &str) -> Result<Vec<(f64, serde_yaml::Value)>, String> {
    let path = s.dir.join("time_series").join(format!("{name}.yml"));
    let t = std::fs::read_to_string(&path).map_err(|e| format!("{}: {e}", path.display()))?;
    crate::w_io::parse_series(&t).map_err(|e| format!("{}: {e} in {t:?}", path.display()))
}

/// The time series written with a sweep, against the cells after each step.
fn sweep_series(ctx: &mut Ctx) {
    let periodic = ctx.chance("periodic", 0.3);
    let mut s = make_setup(ctx, 40, periodic, Medium::Mixed, 4);
    s.output = Some(if ctx.chance("somefields", 0.3) {
        Some(vec!["ionized_hydrogen_fraction".into(), "temperature".into()])
    } else {
        None
    });
    let s = Rc::new(s);
    let n = ctx.size("ranks", 1, 5, 14).min(s.cells.len());
    let own = partition(ctx, &s, n);
    let updates = ctx.size("updates", 1, 6, 30);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    let sum = |v: &BTreeMap<usize, CellOut>, w: &dyn Fn(&GCell) -> f64, f: &dyn Fn(&CellOut) -> f64| -> f64 {
        let a: f64 = v.iter().map(|(i, x)| w(&s.cells[*i]) * f(x)).sum();
        let b: f64 = v.keys().map(|i| w(&s.cells[*i])).sum();
        a / b
    };
    let volume = |g: &GCell| g.volume();
    let mass = |g: &GCell| g.density * MP * g.volume();
    let photo = |x: &CellOut| x.photoionization.unwrap_or(0.0);
    let steps: Vec<BTreeMap<usize, CellOut>> = (0..updates).map(|k| merge(&outs, k)).collect();
    let names = [
        "hydrogen_ionization_mass_average",
        "hydrogen_ionization_volume_average",
        "temperature_mass_average",
        "temperature_volume_average",
        "photoionization_rate_volume_average",
        "weighted_photoionization_rate_volume_average",
        "num_particles_at_timestep_levels",
    ];
    for (k, name) in names.iter().enumerate() {
        let series = match read_series(&s, name) {
            Ok(v) => v,
            Err(e) => {
                ctx.check("P17", false, "bad_series", || e);
                continue;
            }
        };
        let times: Vec<f64> = series.iter().map(|x| x.0).collect();
        let ok = times.len() == updates && times.iter().zip(&outs[0].times).all(|(a, b)| close(*a, *b, 1e-9, 0.0));
        if !ctx.check("P17", ok, "series_times", || {
            format!("{name} has entries at {times:?}, the steps ended at {:?}", outs[0].times)
        }) {
            continue;
        }
        for step in 0..updates {
            let v = &steps[step];
            let val = &series[step].1;
            if k == 6 {
                check_levels(ctx, &s, val, step, &steps);
                continue;
            }
            let want = match k {
                0 => sum(v, &mass, &|x| x.xhii),
                1 => sum(v, &volume, &|x| x.xhii),
                2 => sum(v, &mass, &|x| x.temp),
                3 => sum(v, &volume, &|x| x.temp),
                4 => sum(v, &volume, &photo),
                _ => sum(v, &volume, &|x| photo(x) * x.xhii),
            };
            let have = crate::w_io::quantity(val).unwrap_or(f64::NAN);
            if k >= 4 {
                let ok = v.values().all(|x| x.rate <= 0.0) || have > 0.0;
                ctx.check("P17", ok, "series_zero", || {
                    format!("{name} is {have} in step {step} although photons arrive")
                });
            }
            ctx.check("P17", close(have, want, 1e-9, 0.0), "series_value", || {
                format!("{name} is {have:e} in step {step}, the average over all cells is {want:e}")
            });
        }
    }
}

/// Number of cells at each level or a shorter timestep after a step, as
/// (at least, at most), from the timescales and rates of the cells.
fn expected_counts(s: &Setup, steps: &[BTreeMap<usize, CellOut>], step: usize) -> Option<Vec<(usize, usize)>> {
    let top = s.levels - 1;
    let dark = s.cells.iter().all(|c| c.source == 0.0) && s.threshold > 0.0;
    // The rate before the last sweep is only known if every step is one sweep.
    if s.periodic || (!dark && step > 2) {
        return None;
    }
    let lowest = if step < 2 { top } else { (top + 1).saturating_sub(step) };
    let mut counts = vec![(0, 0); s.levels];
    for (i, c) in s.cells.iter().enumerate() {
        let level = |eps: f64| -> usize {
            if step == 0 {
                return top;
            }
            let rate = |k: usize| if k == 0 { 0.0 } else { steps[k][&i].rate + c.source };
            let dt = s.max_timestep * 0.5f64.powi(top as i32);
            let change = if dark || rate(step).abs() < s.threshold {
                0.0
            } else {
                ((rate(step) - rate(step - 1)) / rate(step)).abs()
            };
            let scale = (dt / change).min(steps[step][&i].timestep);
            let ratio = s.max_timestep / (s.safety * scale) * (1.0 + eps);
            (ratio.log2().ceil().max(0.0) as usize).min(top).max(lowest)
        };
        let (a, b) = (level(-1e-6), level(1e-6));
        for (l, n) in counts.iter_mut().enumerate() {
            n.0 += (a >= l) as usize;
            n.1 += (b >= l) as usize;
        }
    }
    Some(counts)
}

fn check_levels(ctx: &mut Ctx, s: &Setup, val: &serde_yaml::Value, step: usize, steps: &[BTreeMap<usize, CellOut>]) {
    let list = val.as_sequence().cloned().unwrap_or_default();
    let mut have = vec![];
    for x in &list {
        let get = |k: &str| x.get(k).and_then(|x| x.as_u64()).unwrap_or(u64::MAX);
        let dt = x.get("timestep").map_or(f64::NAN, |x| crate::w_io::quantity(x).unwrap_or(f64::NAN));
        have.push((get("level"), get("num"), dt));
    }
    // Number of cells swept at each level: those at it or at a shorter one.
    let ok = have.len() == s.levels
        && have.iter().enumerate().all(|(i, x)| x.0 == i as u64 && close(x.2, s.max_timestep * 0.5f64.powi(i as i32), 1e-9, 0.0))
        && have[0].1 == s.cells.len() as u64
        && have.windows(2).all(|w| w[1].1 <= w[0].1);
    ctx.check("P17", ok, "series_levels", || {
        format!("step {step}: cells per level {have:?}, {} cells and {} levels", s.cells.len(), s.levels)
    });
    if !ok {
        return;
    }
    if let Some(want) = expected_counts(s, steps, step) {
        ctx.stat("cov_levels_checked", 1);
        let ok = have.iter().zip(&want).all(|(h, w)| h.1 >= w.0 as u64 && h.1 <= w.1 as u64);
        ctx.check("P07,P17", ok, "levels", || {
            format!("step {step}: cells per level {have:?}, the timescales ask for {want:?}")
        });
    }
}

/// Hydrogen gas in one cell (Rosdahl et al. 2015, as the program says), in cgs.
struct Gas {
    /// hydrogen atoms per cm^3
    n: f64,
    volume: f64,
    size: f64,
    /// photons per second
    rate: f64,
    scale_factor: f64,
}

struct GasRates {
    depth: f64,
    cooling: f64,
    photo: f64,
    recombination: f64,
    collisional: f64,
    heating: f64,
}

impl Gas {
    fn rates(&self, x: f64, t: f64) -> GasRates {
        let n = self.n;
        let ne = n * x;
        let l = 315614.0 / t;
        let alpha = 2.753e-14 * l.powf(1.5) / (1.0 + (l / 2.74).powf(0.407)).powf(2.242);
        let fit = t.sqrt() / (1.0 + (t / 1e5).sqrt()) * (-157809.1 / t).exp();
        let beta = 5.85e-11 * fit;
        let neutral = n * (1.0 - x);
        let absorbed = self.rate * -(-neutral * SIGMA * 1e4 * self.size).exp_m1();
        let photo = absorbed / (neutral * self.volume);
        let rec = 3.435e-30 * t * l.powf(1.97) / (1.0 + (l / 2.25).powf(0.376)).powf(3.72);
        let col = 1.27e-21 * fit + 7.5e-19 / (1.0 + (t / 1e5).sqrt()) * (-118348.0 / t).exp();
        let brems = 1.42e-27 * t.sqrt();
        let cmb = 2.727 / self.scale_factor;
        let compton = 1.017e-37 * cmb.powi(4) * (t - cmb) * ne;
        let cool = col * ne * neutral + (rec + brems) * ne * ne + compton;
        let ev = 1.602176634e-12;
        let heat = absorbed / self.volume * (18.028356312818811 - 13.65693) * ev;
        let depth = neutral * SIGMA * 1e4 * self.size;
        GasRates { depth, cooling: cool, photo, recombination: alpha * ne * x, collisional: beta * ne * (1.0 - x), heating: heat - cool }
    }

    /// Change of ionized fraction and temperature per second.
    fn change(&self, x: f64, t: f64) -> (f64, f64) {
        let r = self.rates(x, t);
        let dx = r.photo * (1.0 - x) + r.collisional - r.recombination;
        let dt = r.heating * (2.0 / 3.0) / ((1.0 + x) * self.n * 1.380649e-16);
        (dx, dt)
    }

    /// The state after `time` and the total variation on the way.
    fn evolve(&self, mut x: f64, mut t: f64, time: f64) -> Option<(f64, f64, f64, f64)> {
        let (mut vx, mut vt) = (0.0, 0.0);
        let mut left = time;
        let mut h = time;
        let rk = |x: f64, t: f64, h: f64| {
            let k1 = self.change(x, t);
            let k2 = self.change(x + 0.5 * h * k1.0, t + 0.5 * h * k1.1);
            let k3 = self.change(x + 0.5 * h * k2.0, t + 0.5 * h * k2.1);
            let k4 = self.change(x + h * k3.0, t + h * k3.1);
            (
                x + h / 6.0 * (k1.0 + 2.0 * k2.0 + 2.0 * k3.0 + k4.0),
                t + h / 6.0 * (k1.1 + 2.0 * k2.1 + 2.0 * k3.1 + k4.1),
            )
        };
        for _ in 0..20000 {
            h = h.min(left);
            let a = rk(x, t, h);
            let m = rk(x, t, 0.5 * h);
            let b = rk(m.0, m.1, 0.5 * h);
            let valid = |s: (f64, f64)| s.0 > 0.0 && s.0 < 1.0 && s.1 > 0.0;
            let err = ((a.0 - b.0).abs() / x.min(1.0 - x)).max((a.1 - b.1).abs() / t);
            if valid(a) && valid(b) && err < 1e-5 {
                vx += (b.0 - x).abs();
                vt += (b.1 - t).abs();
                (x, t) = b;
                left -= h;
                if left <= 0.0 {
                    return Some((x, t, vx, vt));
                }
                h *= if err > 0.0 { (0.5 * (1e-5 / err).powf(0.2)).clamp(0.3, 3.0) } else { 3.0 };
            } else {
                h *= 0.3;
            }
        }
        None
    }
}

/// Every cell's gas follows the rate equations with the photons arriving.
fn sweep_chemistry(ctx: &mut Ctx) {
    let mut s = make_setup(ctx, 24, false, Medium::Mixed, 1);
    s.rotate = false;
    s.all_fields = true;
    s.chem_safety = ctx.pick("chemsafety2", &[0.003, 0.01, 0.001]);
    if ctx.chance("cosmological", 0.3) {
        s.scale_factor = Some(ctx.pick("scalefactor", &[0.5, 0.1, 0.05, 1.0]));
    }
    let hot = ctx.chance("hot", 0.3);
    let mut rng = ctx.rng("gasseed");
    for c in s.cells.iter_mut() {
        if hot {
            c.temp = 10f64.powf(rng.range(4.0, 7.0));
        }
        if rng.chance(0.2) {
            c.xhii = 1.0 - 10f64.powf(rng.range(-5.0, -2.0));
        }
    }
    let n = ctx.size("ranks", 1, 4, 14).min(s.cells.len());
    let updates = ctx.int("updates", 2, 5);
    let s = Rc::new(s);
    let own = partition(ctx, &s, n);
    describe(ctx, &s, n, &own, updates);
    ctx.desc(format!("timestep {:e}, chemistry safety {}, scale factor {:?}", s.max_timestep, s.chem_safety, s.scale_factor));
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    ctx.res.nontrivial = true;
    for step in 1..updates {
        let (before, after) = (merge(&outs, step - 1), merge(&outs, step));
        for (i, g) in s.cells.iter().enumerate() {
            let (b, a) = (&before[&i], &after[&i]);
            let gas = Gas {
                n: g.density * 1e-6,
                volume: g.volume() * 1e6,
                size: g.size() * 1e2,
                rate: a.rate + g.source,
                scale_factor: s.scale_factor.unwrap_or(1.0),
            };
            let ok = a.xhii >= 0.99e-10 && a.xhii <= 1.0 - 0.99e-10;
            ctx.check("P19", ok, "fraction_range", || format!("update {step}, cell {i}: ionized fraction {:e}", a.xhii));
            // derived fields
            let r = gas.rates(a.xhii, a.temp);
            let fields = [
                ("photoionization rate", a.photoionization, r.photo),
                ("recombination rate", a.recombination, r.recombination),
                ("collisional ionization rate", a.collisional, r.collisional),
                ("heating rate", a.heating, r.heating * 0.1),
            ];
            for (name, have, want) in fields {
                let have = have.unwrap_or(f64::NAN);
                // the program computes 1 - exp(-depth)
                if r.depth < 1e-10 && gas.rate > 0.0 {
                    continue;
                }
                let abs = if name == "heating rate" { 1e-4 * r.cooling } else { 0.0 };
                ctx.check("P19", close(have, want, 1e-4, abs + 1e-300), "derived_field", || {
                    format!("update {step}, cell {i}: {name} {have:e}, expected {want:e} at {a:?}")
                });
            }
            if s.prevent_cooling {
                let ok = a.temp >= b.temp && a.xhii >= b.xhii.min(1.0 - 1e-10);
                ctx.check("P19", ok, "cooled", || {
                    format!("update {step}, cell {i}: cooling is to be prevented but x {:e} T {:e} became x {:e} T {:e}", b.xhii, b.temp, a.xhii, a.temp)
                });
            }
            if r.depth < 1e-10 && gas.rate > 0.0 {
                continue;
            }
            if b.xhii < 1e-9 || b.xhii > 1.0 - 1e-9 || a.xhii < 1e-9 || a.xhii > 1.0 - 1e-9 {
                continue;
            }
            // The timescale that decides the next timestep.
            let limit = |x: f64, t: f64| {
                let (dx, dt) = gas.change(x, t);
                s.chem_safety * (x / dx.abs()).min(t / dt.abs())
            };
            let (l0, l1) = (limit(b.xhii, b.temp), limit(a.xhii, a.temp));
            if l0 < 1.1 * l1 && l1 < 1.1 * l0 && !s.prevent_cooling && a.xhii < 0.98 {
                ctx.stat("cov_timescale_compared", 1);
                ctx.check("P19,P07", a.timestep < 1.5 * l1 && a.timestep > l1 / 1.5, "timescale", || {
                    format!("update {step}, cell {i}: timescale {:e}, expected {l1:e} at {a:?}", a.timestep)
                });
            }
            let Some((x, t, vx, vt)) = gas.evolve(b.xhii, b.temp, s.max_timestep) else { 
                ctx.stat("cov_chemistry_skipped", 1);
                continue };
            ctx.stat("cov_chemistry_compared", 1);
            let falls = vx > 1.01 * (x - b.xhii) || vt > 1.01 * (t - b.temp);
            if s.prevent_cooling && (falls || x < b.xhii * 1.001 || t < b.temp * 1.001) {
                // the limits come into play
                continue;
            }
            // The solver limits the change of x and T, not of 1 - x, so that it may take
            // steps in which heating and cooling rates, which go with 1 - x, change a lot.
            let change = ((1.0 - x) / (1.0 - b.xhii)).ln().abs();
            let r0 = gas.rates(b.xhii, b.temp);
            let heat = (r0.heating + 2.0 * r0.cooling).max(r.heating + 2.0 * r.cooling) * s.max_timestep
                / (1.5 * (1.0 + x) * gas.n * 1.380649e-16 * t);
            if b.xhii.max(x) > 0.9 && (1.0 - x > 1.2 * (1.0 - b.xhii) || change * heat > 3.0 * s.chem_safety) {
                ctx.stat("cov_chemistry_stiff", 1);
                continue;
            }
            // The changes the solver accepts in one step are relative to the value.
            let k = s.chem_safety;
            let okx = (a.xhii - x).abs() <= 10.0 * k * vx + 8.0 * k * x;
            let okt = (a.temp - t).abs() <= 10.0 * k * vt + 8.0 * k * t;
            ctx.check("P19", okx && okt, "rate_equations", || {
                format!(
                    "update {step}, cell {i}: x {:e} T {:e} became x {:e} T {:e}, expected x {x:e} T {t:e} (variation {vx:e} {vt:e})",
                    b.xhii, b.temp, a.xhii, a.temp
                )
            });
        }
        if ctx.has_failed() {
            return;
        }
    }
}

/// A reference model of the whole sweep with several timestep levels, on one
/// rank and without messages: every sweep solves the active cells in upwind
/// order from what the others last passed on. The change of one cell's gas in
/// one step is the program's own (decided by `sweep_chemistry`).
struct Model<'a> {
    s: &'a Setup,
    dirs: Vec<[f64; 3]>,
    chemistry: HydrogenOnly,
    sites: Vec<Site<HydrogenOnly>>,
    level: Vec<usize>,
    /// per direction and cell
    arriving: Vec<Vec<f64>>,
    outgoing: Vec<Vec<f64>>,
    previous: Vec<f64>,
    timescale: Vec<f64>,
    lowest: usize,
    runs: usize,
    total: f64,
    /// A decision is too close to call.
    ambiguous: bool,
    by_rate: Vec<bool>,
    set_by_rate: u64,
}

impl<'a> Model<'a> {
    fn new(s: &'a Setup, dirs: Vec<[f64; 3]>) -> Self {
        let n = s.cells.len();
        let d: Directions = (&s.dirs.spec()).into();
        let sites = s
            .cells
            .iter()
            .map(|c| {
                Site::new(
                    &d,
                    HydrogenOnlySpecies {
                        ionized_hydrogen_fraction: Dimensionless::dimensionless(c.xhii),
                        temperature: Temperature::kelvins(c.temp),
                        timestep: Time::seconds(0.0),
                    },
                    Mass::kilograms(c.density * MP) / Volume::cubic_meters(1.0),
                    PhotonRate::photons_per_second(c.source),
                )
            })
            .collect();
        Model {
            chemistry: HydrogenOnly {
                rate_threshold: PhotonRate::photons_per_second(s.threshold),
                scale_factor: Dimensionless::dimensionless(s.scale_factor.unwrap_or(1.0)),
                timestep_safety_factor: Dimensionless::dimensionless(s.chem_safety),
                prevent_cooling: s.prevent_cooling,
            },
            sites,
            level: vec![s.levels - 1; n],
            arriving: vec![vec![0.0; n]; dirs.len()],
            outgoing: vec![vec![0.0; n]; dirs.len()],
            previous: vec![0.0; n],
            timescale: vec![0.0; n],
            lowest: s.levels - 1,
            runs: 0,
            total: s.cells.iter().map(|c| c.source).sum(),
            ambiguous: false,
            by_rate: vec![false; n],
            set_by_rate: 0,
            dirs,
            s,
        }
    }

    fn xhii(&self, i: usize) -> f64 {
        self.sites[i].species.ionized_hydrogen_fraction.value()
    }

    fn below(&mut self, rate: f64) -> bool {
        let t = self.s.threshold;
        if t > 0.0 && (rate - t).abs() < 1e-5 * t + 1e-12 * self.total {
            self.ambiguous = true;
        }
        rate < t
    }

    fn sweep(&mut self, current: usize) {
        let (s, n) = (self.s, self.s.cells.len());
        for k in 0..self.dirs.len() {
            let d = self.dirs[k];
            let dot = |f: &GFace| d[f.axis] * if f.positive { 1.0 } else { -1.0 };
            // upwind order of all cells
            let mut missing: Vec<usize> = s
                .cells
                .iter()
                .map(|c| c.faces.iter().filter(|f| f.other.is_some() && dot(f) < 0.0).count())
                .collect();
            let mut ready: Vec<usize> = (0..n).filter(|i| missing[*i] == 0).collect();
            let mut arriving = vec![0.0; n];
            while let Some(i) = ready.pop() {
                let c = &s.cells[i];
                if self.level[i] >= current {
                    let inc = arriving[i] + c.source / self.dirs.len() as f64;
                    let depth = c.density * (1.0 - self.xhii(i)) * SIGMA * c.size();
                    self.outgoing[k][i] = if self.below(inc) { 0.0 } else { inc * (-depth).exp() };
                }
                let down: f64 = c.faces.iter().map(|f| dot(f).max(0.0) * f.area).sum();
                for f in c.faces.iter().filter(|f| dot(f) > 0.0) {
                    if let Some((j, _)) = f.other {
                        arriving[j] += self.outgoing[k][i] * dot(f) * f.area / down;
                        missing[j] -= 1;
                        if missing[j] == 0 {
                            ready.push(j);
                        }
                    }
                }
            }
            self.arriving[k] = arriving;
        }
        for i in 0..n {
            if self.level[i] < current {
                continue;
            }
            let c = &s.cells[i];
            let dt = s.max_timestep * 0.5f64.powi(self.level[i] as i32);
            let rate = c.source + self.arriving.iter().map(|a| a[i]).sum::<f64>();
            let change = if self.below(rate) { 0.0 } else { ((rate - self.previous[i]) / rate).abs() };
            let change = if change * rate < 1e-10 * self.total { 0.0 } else { change };
            self.previous[i] = rate;
            let chem = self
                .chemistry
                .update_abundances(
                    &mut self.sites[i],
                    PhotonRate::photons_per_second(rate),
                    Time::seconds(dt),
                    Volume::cubic_meters(c.volume()),
                    Length::meters(c.size()),
                )
                .time
                .in_seconds();
            self.timescale[i] = chem.min(dt / change);
            self.by_rate[i] = dt / change < chem;
        }
    }

    /// All sweeps of one step.
    fn run(&mut self) {
        let top = self.s.levels - 1;
        for i in 0..1usize << (top - self.lowest) {
            // the coarsest level whose step starts now
            let current = (self.lowest..=top).find(|l| i % (1 << (top - l)) == 0).unwrap();
            if self.level.iter().any(|l| *l >= current) {
                self.sweep(current);
            }
        }
        self.runs += 1;
        if self.runs > 1 && self.lowest > 0 {
            self.lowest -= 1;
        }
        for i in 0..self.level.len() {
            let level = |eps: f64| {
                let ratio = self.s.max_timestep / (self.s.safety * self.timescale[i]) * (1.0 + eps);
                (ratio.log2().ceil().max(0.0) as usize).min(top).max(self.lowest)
            };
            let (a, b) = (level(-1e-4), level(1e-4));
            if a != b {
                self.ambiguous = true;
            }
            self.level[i] = a;
            if self.by_rate[i] && a > self.lowest && a < top {
                self.set_by_rate += 1;
            }
        }
    }

    /// Number of cells at each level or a shorter timestep.
    fn counts(&self) -> Vec<u64> {
        (0..self.s.levels).map(|l| self.level.iter().filter(|x| **x >= l).count() as u64).collect()
    }
}

/// Several levels and photons, against the reference model.
fn sweep_model(ctx: &mut Ctx) {
    let mut s = make_setup(ctx, 30, false, Medium::Mixed, 5);
    s.rotate = false;
    s.output = if ctx.chance("output", 0.5) { Some(None) } else { None };
    if ctx.chance("cosmological", 0.2) {
        s.scale_factor = Some(ctx.pick("scalefactor", &[0.5, 0.1, 1.0]));
    }
    s.safety = ctx.pick("safety3", &[0.1, 1.0, 5.0, 50.0, 0.5]);
    let dirs = match &s.dirs {
        Dirs::Num(1) => vec![[1.0, 0.0, 0.0]],
        Dirs::Num(k) => reference_bins(*k),
        Dirs::Explicit(v) => v.iter().map(unit).collect(),
    };
    let total: f64 = s.cells.iter().map(|c| c.source).sum();
    if total > 0.0 && ctx.chance("front", 0.75) {
        // Ionization fronts that cross some of the cells in a step.
        let atoms: f64 = s.cells.iter().map(|c| c.density * c.volume()).sum();
        s.max_timestep = atoms / total * ctx.pick("front_step", &[0.3, 0.1, 1.0, 3.0, 0.03]);
        s.chem_safety = ctx.pick("chemsafety3", &[0.5, 0.1, 10.0, 3.0]);
        s.safety = ctx.pick("safety4", &[0.1, 0.01, 0.5, 0.03]);
        s.levels += 2;
        if s.threshold == 0.0 {
            s.threshold = total * 1e-8 / dirs.len() as f64;
        }
        let x = ctx.pick("front_x", &[1e-3, 1e-5, 0.1]);
        for c in s.cells.iter_mut() {
            if c.xhii < 0.7 {
                c.xhii = x;
            }
        }
    }
    let n = ctx.size("ranks", 1, 5, 14).min(s.cells.len());
    let updates = ctx.size("updates", 4, 10, 20);
    let s = Rc::new(s);
    let own = partition(ctx, &s, n);
    describe(ctx, &s, n, &own, updates);
    let env = ctx.env(n);
    let j = simulate(ctx, &s, own, n, updates, env);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    check_common(ctx, &s, &outs, updates);
    let counts: Option<Vec<Vec<u64>>> = s.output.as_ref().and_then(|_| {
        let v = read_series(&s, "num_particles_at_timestep_levels").ok()?;
        v.iter()
            .map(|x| x.1.as_sequence()?.iter().map(|x| x.get("num")?.as_u64()).collect::<Option<Vec<u64>>>())
            .collect()
    });
    let mut m = Model::new(&s, dirs);
    let total = m.total;
    for step in 1..updates {
        m.run();
        if m.ambiguous {
            ctx.stat("cov_model_ambiguous", 1);
            break;
        }
        ctx.res.nontrivial = true;
        ctx.stat("cov_model_steps", 1);
        let after = merge(&outs, step);
        let mixed = m.level.iter().any(|l| *l != m.level[0]);
        if mixed {
            ctx.stat("cov_model_mixed_levels", 1);
        }
        for i in 0..s.cells.len() {
            let v = &after[&i];
            let rate: f64 = m.arriving.iter().map(|a| a[i]).sum();
            ctx.check("P04,P05,P06,P07", close(v.rate, rate, 1e-5, 1e-9 * total), "model_rate", || {
                format!("update {step}, cell {i}: photon rate {:e}, the model has {rate:e} (levels {:?})", v.rate, m.level)
            });
            let sp = &m.sites[i].species;
            let (x, t) = (sp.ionized_hydrogen_fraction.value(), sp.temperature.in_kelvins());
            ctx.check("P05,P07,P19", close(v.xhii, x, 1e-4, 1e-12) && close(v.temp, t, 1e-4, 0.0), "model_state", || {
                format!("update {step}, cell {i}: x {:e} T {:e}, the model has x {x:e} T {t:e} (levels {:?})", v.xhii, v.temp, m.level)
            });
            if ctx.has_failed() {
                return;
            }
        }
        if let Some(c) = counts.as_ref().and_then(|c| c.get(step)) {
            ctx.check("P05,P07,P17,P19", *c == m.counts(), "model_levels", || {
                format!("update {step}: cells per level {c:?}, the model has {:?}", m.counts())
            });
        }
    }
    ctx.stat("cov_model_levels_by_rate", m.set_by_rate);
}
