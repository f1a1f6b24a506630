//! Workloads on input and output: initial conditions, snapshots, restarts,
//! cadence, faults and crashes, time series.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::path::PathBuf;

use bevy_ecs::prelude::*;
use derive_more::Deref;
use derive_more::DerefMut;
use derive_more::From;
use hdf5::H5Type;
use mpi::traits::Equivalence;
use simcore::choice::mix;
use simcore::choice::Rng;
use simcore::sched::Env;
use simcore::sched::Outcome;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::communication::Rank;
use subsweep::components as c;
use subsweep::impl_to_dataset;
use subsweep::io::input::attribute::read_attribute;
use subsweep::io::input::get_file_or_all_hdf5_files_in_path_if_dir;
use subsweep::io::input::DatasetInputPlugin;
use subsweep::io::input::NumParticlesTotal;
use subsweep::io::input::Reader;
use subsweep::io::time_series::TimeSeriesPlugin;
use subsweep::io::verif as fd;
use subsweep::io::DatasetDescriptor;
use subsweep::io::DatasetShape;
use subsweep::io::DefaultUnitReader;
use subsweep::io::InputDatasetDescriptor;
use subsweep::verif::performance::Performance;
use subsweep::prelude::*;
use subsweep::prelude::MVec;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::units::*;

use crate::ctx::describe;
use crate::ctx::Ctx;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "shares", run: shares },
        Workload { name: "input", run: input },
        Workload { name: "snapshots", run: snapshots },
        Workload { name: "restart", run: restart },
        Workload { name: "faults", run: faults },
        Workload { name: "rerun", run: rerun },
    ]
}

/// Number of a particle, written as any other field.
#[derive(H5Type, Component, Debug, Clone, Equivalence, Deref, DerefMut, From, Default, Named)]
#[name = "verif_number"]
#[repr(transparent)]
pub struct Num(pub Dimensionless);

impl_to_dataset!(Num, Dimensionless, false);

/// A quantity recorded once per step.
#[derive(Clone, Debug, serde::Serialize, Named)]
#[name = "verif_series"]
pub struct Series(pub f64);

/// A second one, recorded in some steps only.
#[derive(Clone, Debug, serde::Serialize, Named)]
#[name = "verif_rare_series"]
pub struct RareSeries {
    step: usize,
    what: String,
}

// ---------------------------------------------------------------- shares

fn shares(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 5, 40);
    let num_files = ctx.size("files", 1, 7, 40);
    let big = ctx.chance("big", 0.15);
    let mut rng = ctx.rng("sizes");
    let mut size = |rng: &mut Rng| -> usize {
        match rng.below(5) {
            0 => 0,
            1 => 1,
            2 => rng.below(4) as usize,
            3 => rng.below(40) as usize,
            _ => rng.below(if big { 1 << 40 } else { 300 }) as usize,
        }
    };
    let files: Vec<usize> = (0..num_files).map(|_| size(&mut rng)).collect();
    let per_rank: Vec<usize> = (0..n).map(|_| size(&mut rng)).collect();
    let out_files = ctx.size("outfiles", 1, 9, 60);
    ctx.desc(format!("{n} ranks, files {files:?}, rows per rank {per_rank:?}, {out_files} output files"));
    let env = ctx.env(n);
    let (f2, p2) = (files.clone(), per_rank.clone());
    let j = ctx.job(n, env, move |rank| {
        let r = rank as Rank;
        let i = fd::get_rank_input_assignment_for_rank(&f2, n, r);
        let o = fd::get_rank_output_assignment_for_rank(&p2, out_files, r);
        let whole = fd::get_rank_output_assignment_for_rank(&[p2.iter().sum()], out_files, 0);
        let f = |a: fd::RankAssignment| -> Vec<(usize, usize, usize)> {
            a.regions.iter().map(|g| (g.file_index, g.start, g.end)).collect()
        };
        (f(i), f(o), f(whole))
    });
    if !j.finished() {
        return;
    }
    let outs = j.all();
    ctx.res.nontrivial = n > 1 && files.iter().sum::<usize>() > 0;
    // input: every entry of every file once, split evenly, in order
    let total: usize = files.iter().sum();
    let ins: Vec<_> = outs.iter().map(|o| o.0.clone()).collect();
    if let Some(m) = cover(&ins, &files) {
        ctx.check("P11,P12,P13", false, "input_share", || m);
    }
    for (r, v) in ins.iter().enumerate() {
        let have: usize = v.iter().map(|x| x.2 - x.1).sum();
        let want = if r + 1 < n { total / n } else { total - total / n * (n - 1) };
        ctx.check("P12", have == want, "uneven_input", || {
            format!("rank {r} of {n} reads {have} of {total} entries, expected {want}")
        });
    }
    // output: files as created hold exactly the rows of all ranks
    let total: usize = per_rank.iter().sum();
    let created = &outs[0].2;
    let mut sizes = vec![0; out_files];
    for (f, a, b) in created {
        ctx.check("P11", *a == 0 && *f < out_files, "output_share", || format!("created region {f} {a}..{b}"));
        sizes[(*f).min(out_files - 1)] += b - a;
    }
    ctx.check("P11", sizes.iter().sum::<usize>() == total, "output_share", || {
        format!("files of sizes {sizes:?} for {total} rows")
    });
    let writes: Vec<_> = outs.iter().map(|o| o.1.clone()).collect();
    if let Some(m) = cover(&writes, &sizes) {
        ctx.check("P11,P12,P13", false, "output_share", || m);
    }
    for (r, v) in writes.iter().enumerate() {
        let have: usize = v.iter().map(|x| x.2 - x.1).sum();
        ctx.check("P11", have == per_rank[r], "output_share", || {
            format!("rank {r} with {} rows has room for {have}", per_rank[r])
        });
    }
}

/// Regions of all ranks in turn have to run through all files once.
fn cover(v: &[Vec<(usize, usize, usize)>], sizes: &[usize]) -> Option<String> {
    let mut file = 0;
    let mut pos = 0;
    for (r, regions) in v.iter().enumerate() {
        for (f, a, b) in regions {
            if a >= b {
                return Some(format!("rank {r} has an empty region {a}..{b} of file {f}"));
            }
            while file < sizes.len() && pos == sizes[file] {
                file += 1;
                pos = 0;
            }
            if *f != file || *a != pos || file >= sizes.len() || *b > sizes[file] {
                return Some(format!(
                    "rank {r} has {a}..{b} of file {f}, expected to go on at {pos} of file {file} (file sizes {sizes:?}, all {v:?})"
                ));
            }
            pos = *b;
        }
    }
    while file < sizes.len() && pos == sizes[file] {
        file += 1;
        pos = 0;
    }
    if file != sizes.len() {
        return Some(format!("nobody has file {file} from {pos} on (file sizes {sizes:?}, all {v:?})"));
    }
    None
}

// ---------------------------------------------------------------- particles

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row {
    pub num: f64,
    pub pos: [f64; 3],
    pub dens: f64,
    pub mass: f64,
    pub frac: f64,
    pub temp: f64,
    pub tstep: f64,
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// What particle k holds in step s, in base units.
fn row(seed: u64, k: u64, s: u64) -> Row {
    let u = |i: u64| (mix(mix(seed, k), i) % 1_000_003) as f64 / 1_000_003.0;
    let v = |i: u64| (mix(mix(mix(seed, k), i), s) % 1_000_003) as f64 / 1_000_003.0;
    let special = [0.0, -0.0, f64::INFINITY, 5e-324, f64::MAX, -1.5e-300, 1e22, 1.0 / 3.0];
    let tstep = if mix(seed, k * 31 + s) % 3 == 0 { special[(mix(k, s) % 8) as usize] } else { v(7) * 1e13 };
    Row {
        num: k as f64,
        pos: [u(1), u(2), u(3)],
        dens: 1e-21 * (0.1 + u(4)),
        mass: 1e33 * u(5),
        frac: v(6),
        temp: 1e5 * v(8),
        tstep,
    }
}

fn bundle(r: &Row) -> (LocalParticle, Num, c::Position, c::Density, c::Mass, c::IonizedHydrogenFraction, c::Temperature, c::Timestep) {
    (
        LocalParticle,
        Num(Dimensionless::new_unchecked(r.num)),
        c::Position(VecLength::new_unchecked(MVec::new(r.pos[0], r.pos[1], r.pos[2]))),
        c::Density(Density::new_unchecked(r.dens)),
        c::Mass(Mass::new_unchecked(r.mass)),
        c::IonizedHydrogenFraction(Dimensionless::new_unchecked(r.frac)),
        c::Temperature(Temperature::new_unchecked(r.temp)),
        c::Timestep(Time::new_unchecked(r.tstep)),
    )
}

const FIELDS: [&str; 7] = [
    "verif_number",
    "position",
    "density",
    "mass",
    "ionized_hydrogen_fraction",
    "temperature",
    "timestep",
];
const STATIC: [bool; 7] = [false, true, true, true, false, false, false];
/// length, time, mass, temperature
const DIMS: [[i32; 4]; 7] = [
    [0, 0, 0, 0],
    [1, 0, 0, 0],
    [-3, 0, 1, 0],
    [0, 0, 1, 0],
    [0, 0, 0, 0],
    [0, 0, 0, 1],
    [0, 1, 0, 0],
];
const DIM_NAMES: [&str; 4] = ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"];

fn field(r: &Row, i: usize) -> Vec<f64> {
    match i {
        0 => vec![r.num],
        1 => r.pos.to_vec(),
        2 => vec![r.dens],
        3 => vec![r.mass],
        4 => vec![r.frac],
        5 => vec![r.temp],
        _ => vec![r.tstep],
    }
}

// ---------------------------------------------------------------- input

#[derive(Clone, Debug)]
struct IcFile {
    path: PathBuf,
    rows: Vec<u64>,
    /// Factor the numbers in this file are to be multiplied with.
    factors: [f64; 7],
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Damage {
    None,
    /// A file with entries lacks one of the fields.
    MissingField,
    /// A field has one entry less or more than the others.
    Length,
    /// A field has another dimension.
    Dimension,
    /// A field has one entry less in one file and one more in another.
    Shifted,
}

fn write_ics(seed: u64, files: &[IcFile], two_d: bool, damage: Damage, victim: (usize, usize)) {
    for (fi, f) in files.iter().enumerate() {
        if let Some(d) = f.path.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        let h = hdf5::File::create(&f.path).unwrap();
        for i in 0..7 {
            let hit = (fi, i) == victim;
            if hit && damage == Damage::MissingField {
                continue;
            }
            let mut data: Vec<Vec<f64>> = f
                .rows
                .iter()
                .map(|k| field(&row(seed, *k, 0), i).into_iter().map(|x| x / f.factors[i]).collect())
                .collect();
            if damage == Damage::Shifted && i == victim.1 {
                if hit {
                    data.pop();
                } else if fi == (victim.0 + 1) % files.len() {
                    let k = *files[victim.0].rows.last().unwrap();
                    data.push(field(&row(seed, k, 0), i).into_iter().map(|x| x / f.factors[i]).collect());
                }
            }
            if hit && damage == Damage::Length {
                if seed % 2 == 0 {
                    data.pop();
                } else {
                    data.push(data[0].clone());
                }
            }
            let set = if i == 1 && two_d {
                let s = h.new_dataset::<f64>().shape([data.len(), 3]).create(FIELDS[i]).unwrap();
                let flat: Vec<f64> = data.concat();
                s.write_raw(&flat).unwrap();
                s
            } else if i == 1 {
                let s = h.new_dataset::<c::Position>().shape([data.len()]).create(FIELDS[i]).unwrap();
                let v: Vec<c::Position> = data
                    .iter()
                    .map(|p| c::Position(VecLength::new_unchecked(MVec::new(p[0], p[1], p[2]))))
                    .collect();
                s.write_raw(&v).unwrap();
                s
            } else {
                let s = h.new_dataset::<f64>().shape([data.len()]).create(FIELDS[i]).unwrap();
                let flat: Vec<f64> = data.concat();
                s.write_raw(&flat).unwrap();
                s
            };
            let dims = DIMS[i];
            set.new_attr::<f64>().shape(()).create("scale_factor_si").unwrap().write_scalar(&f.factors[i]).unwrap();
            for a in 0..4 {
                let mut d = dims[a];
                if hit && damage == Damage::Dimension && a as u64 == seed % 4 {
                    d += 1;
                }
                set.new_attr::<i32>().shape(()).create(DIM_NAMES[a]).unwrap().write_scalar(&d).unwrap();
            }
            for a in ["scaling_h", "scaling_a"] {
                set.new_attr::<i32>().shape(()).create(a).unwrap().write_scalar(&0i32).unwrap();
            }
        }
    }
}

fn from_row(v: &[f64]) -> c::Position {
    c::Position(VecLength::new_unchecked(MVec::new(v[0], v[1], v[2])))
}

fn add_input<T: subsweep::io::to_dataset::ToDataset + Component + Named>(sim: &mut Simulation, shape: DatasetShape<T>) {
    sim.add_plugin(DatasetInputPlugin::<T>::from_descriptor(InputDatasetDescriptor::<T>::new(
        DatasetDescriptor { dataset_name: T::name().into(), unit_reader: Box::new(DefaultUnitReader) },
        shape,
    )));
}

fn yaml_paths(v: &[PathBuf]) -> String {
    format!("[{}]", v.iter().map(|p| format!("\"{}\"", p.display())).collect::<Vec<_>>().join(", "))
}

/// Read the given fields from files, without anything else.
fn read_only(n: usize, rank: usize, paths: &[PathBuf], fields: &[usize], two_d: bool) -> (usize, Vec<BTreeMap<usize, Vec<f64>>>) {
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(format!("input:\n  paths: {}\n", yaml_paths(paths)))
        .read_initial_conditions(true)
        .write_output(false);
    sim.add_plugin(BaseCommunicationPlugin::new(n, rank as Rank));
    sim.insert_non_send_resource(Performance::default());
    for i in fields {
        match i {
            0 => add_input::<Num>(&mut sim, DatasetShape::OneDimensional),
            1 => add_input::<c::Position>(
                &mut sim,
                if two_d { DatasetShape::TwoDimensional(from_row) } else { DatasetShape::OneDimensional },
            ),
            2 => add_input::<c::Density>(&mut sim, DatasetShape::OneDimensional),
            3 => add_input::<c::Mass>(&mut sim, DatasetShape::OneDimensional),
            4 => add_input::<c::IonizedHydrogenFraction>(&mut sim, DatasetShape::OneDimensional),
            5 => add_input::<c::Temperature>(&mut sim, DatasetShape::OneDimensional),
            _ => add_input::<c::Timestep>(&mut sim, DatasetShape::OneDimensional),
        }
    }
    sim.update();
    collect(&mut sim)
}

/// Fields of all local particles, and the global number of particles.
fn collect(sim: &mut Simulation) -> (usize, Vec<BTreeMap<usize, Vec<f64>>>) {
    let world = sim.world();
    let total = world.get_resource::<NumParticlesTotal>().map_or(usize::MAX, |x| x.0);
    let mut q = world.query_filtered::<Entity, With<LocalParticle>>();
    let es: Vec<Entity> = q.iter(world).collect();
    let mut out = vec![];
    for e in es {
        let mut m = BTreeMap::new();
        if let Some(x) = world.get::<Num>(e) {
            m.insert(0, vec![x.value_unchecked()]);
        }
        if let Some(x) = world.get::<c::Position>(e) {
            let p = x.value_unchecked();
            m.insert(1, vec![p.x, p.y, p.z]);
        }
        if let Some(x) = world.get::<c::Density>(e) {
            m.insert(2, vec![x.value_unchecked()]);
        }
        if let Some(x) = world.get::<c::Mass>(e) {
            m.insert(3, vec![x.value_unchecked()]);
        }
        if let Some(x) = world.get::<c::IonizedHydrogenFraction>(e) {
            m.insert(4, vec![x.value_unchecked()]);
        }
        if let Some(x) = world.get::<c::Temperature>(e) {
            m.insert(5, vec![x.value_unchecked()]);
        }
        if let Some(x) = world.get::<c::Timestep>(e) {
            m.insert(6, vec![x.value_unchecked()]);
        }
        out.push(m);
    }
    (total, out)
}

/// Compare what the ranks hold with what they should.
fn judge_rows(
    ctx: &mut Ctx,
    props: &str,
    what: &str,
    rows: &[Vec<BTreeMap<usize, Vec<f64>>>],
    fields: &[usize],
    num: u64,
    expected: impl Fn(u64) -> Row,
    exact: bool,
) {
    let mut seen = vec![0; num as usize];
    for (r, v) in rows.iter().enumerate() {
        for m in v {
            for i in fields {
                if !ctx.check(props, m.contains_key(i), "missing_field", || {
                    format!("{what}: a particle on rank {r} has no {}", FIELDS[*i])
                }) {
                    return;
                }
            }
            let k = m[&0][0];
            if !ctx.check(props, k >= 0.0 && k < num as f64 && k.fract() == 0.0, "invented_particle", || {
                format!("{what}: rank {r} has a particle with number {k}")
            }) {
                return;
            }
            seen[k as usize] += 1;
            let want = expected(k as u64);
            for i in fields {
                let (h, w) = (&m[i], field(&want, *i));
                let ok = h.iter().zip(&w).all(|(a, b)| {
                    // Conversion of units is exact only up to rounding, which
                    // may be anything where the numbers run out.
                    same(*a, *b)
                        || (!exact
                            && ((a - b).abs() <= 1e-9 * b.abs()
                                || (b.abs() < 1e-200 && a.abs() < 1e-180)
                                || (b.abs() > 1e200 && b * 1e-150 * a.signum() > 0.0 && a.abs() > 1e180)))
                });
                ctx.check(props, ok, "wrong_value", || {
                    format!("{what}: particle {k} on rank {r} has {} {h:?} instead of {w:?}", FIELDS[*i])
                });
            }
        }
    }
    let bad: Vec<_> = seen.iter().enumerate().filter(|x| *x.1 != 1).map(|(k, n)| format!("{k}: {n} times")).take(10).collect();
    ctx.check(props, bad.is_empty(), "not_exactly_once", || {
        format!("{what}: particles present not exactly once: {bad:?} (of {num})")
    });
}

fn make_ics(ctx: &mut Ctx, dir: &Path, num: usize, num_files: usize, units: bool) -> (Vec<IcFile>, Vec<PathBuf>) {
    let mut rng = ctx.rng("icseed");
    let mut cuts: Vec<usize> = (0..num_files - 1).map(|_| rng.below(num as u64 + 1) as usize).collect();
    // empty files now and then, also several in a row
    if rng.chance(0.4) && !cuts.is_empty() {
        let c0 = cuts[0];
        for x in cuts.iter_mut() {
            if rng.chance(0.5) {
                *x = [c0, 0, num][rng.below(3) as usize];
            }
        }
    }
    cuts.sort();
    cuts.insert(0, 0);
    cuts.push(num);
    let mut order: Vec<u64> = (0..num as u64).collect();
    rng.shuffle(&mut order);
    let layout = ctx.int("layout", 0, 3);
    let mut files = vec![];
    let mut paths = vec![];
    for i in 0..num_files {
        let path = match layout {
            // one directory; names that sort differently as numbers
            0 | 1 => dir.join("ics").join(if layout == 0 { format!("snap.{i}.hdf5") } else { format!("{:03}.hdf5", i * 7) }),
            // single files
            2 => dir.join(format!("ic_{i}.hdf5")),
            // two directories
            _ => dir.join(if i % 2 == 0 { "icsA" } else { "icsB" }).join(format!("{i}.hdf5")),
        };
        if layout == 2 {
            paths.push(path.clone());
        }
        let factors = std::array::from_fn(|f| {
            if units && f > 0 && rng.chance(0.5) {
                [1.0, 5.0, 0.1, 3.0857e19, 1e-3][rng.below(5) as usize]
            } else {
                1.0
            }
        });
        files.push(IcFile { path, rows: order[cuts[i]..cuts[i + 1]].to_vec(), factors });
    }
    match layout {
        0 | 1 => {
            paths.push(dir.join("ics"));
            // things that are not to be read
            std::fs::create_dir_all(dir.join("ics").join("more.hdf5.d")).unwrap();
            std::fs::write(dir.join("ics").join("notes.txt"), "nothing").unwrap();
            std::fs::write(dir.join("ics").join("readme"), "nothing").unwrap();
        }
        3 => {
            paths.push(dir.join("icsA"));
            if num_files > 1 {
                paths.push(dir.join("icsB"));
            }
        }
        _ => {}
    }
    (files, paths)
}

fn fields_with_number(ctx: &mut Ctx) -> Vec<usize> {
    let mut rng = ctx.rng("fields");
    let mut v: Vec<usize> = (1..7).filter(|_| rng.chance(0.6)).collect();
    v.push(0);
    rng.shuffle(&mut v);
    v
}

fn input(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 5, 14);
    let num = match ctx.int("numkind", 0, 3) {
        0 => ctx.int("few", 0, 6),
        _ if ctx.chance("huge", 0.002) => ctx.int("hugenum", 65_500, 70_000),
        _ => ctx.size("particles", 1, 60, 700),
    };
    let num_files = ctx.size("files", 1, 6, 25);
    let seed = ctx.rng("rowseed").next();
    let dir = ctx.dir.clone();
    let (files, paths) = make_ics(ctx, &dir, num, num_files, true);
    let two_d = ctx.chance("twod", 0.5);
    let fields = fields_with_number(ctx);
    let mut damage = if ctx.chance("damaged", 0.12) {
        ctx.pick("damage", &[Damage::MissingField, Damage::Length, Damage::Dimension, Damage::Shifted])
    } else {
        Damage::None
    };
    let victim = (
        ctx.int("victimfile", 0, num_files - 1),
        fields[ctx.int("victimfield", 0, fields.len() - 1)],
    );
    if files[victim.0].rows.is_empty() || fields.len() < 2 {
        damage = Damage::None;
    }
    if damage == Damage::Shifted && num_files < 2 {
        damage = Damage::None;
    }
    if seed % 2 != 0 && damage == Damage::Length && num == 0 {
        damage = Damage::None;
    }
    let mut env = ctx.env(n);
    env.permute_readdir = ctx.chance("readdir", 0.5);
    env.p_short = if ctx.chance("shortio", 0.15) { 0.02 } else { 0.0 };
    write_ics(seed, &files, two_d, damage, victim);
    ctx.desc(format!(
        "{n} ranks read {num} entries from {:?} (fields {fields:?}, {damage:?} {victim:?})",
        files.iter().map(|f| f.rows.len()).collect::<Vec<_>>()
    ));
    let full = ctx.chance("reader", 0.4);
    let chunk = ctx.size("chunk", 1, 9, 300);
    let (p2, f2) = (paths.clone(), fields.clone());
    let body = move |rank: usize| {
        let (total, rows) = read_only(n, rank, &p2, &f2, two_d);
        let mut direct = vec![];
        if full {
            let all = || p2.iter().flat_map(|p| get_file_or_all_hdf5_files_in_path_if_dir(p));
            let d = || {
                InputDatasetDescriptor::<Num>::new(
                    DatasetDescriptor { dataset_name: "verif_number".into(), unit_reader: Box::new(DefaultUnitReader) },
                    DatasetShape::OneDimensional,
                )
            };
            let part: Vec<f64> = Reader::split_between_ranks(all())
                .read_dataset_chunked(d(), chunk)
                .map(|x| x.value_unchecked())
                .collect();
            let whole: Vec<f64> = Reader::full(all()).read_dataset_chunked(d(), chunk).map(|x| x.value_unchecked()).collect();
            let plain: Vec<f64> = Reader::full(all()).read_dataset(d()).map(|x| x.value_unchecked()).collect();
            direct = vec![part, whole, plain];
        }
        (total, rows, direct)
    };
    ctx.res.nontrivial = n > 1 && num > 0;
    if damage != Damage::None {
        let j = ctx.raw_job(n, env, body);
        ctx.stat(&format!("damaged_input_{damage:?}"), 1);
        ctx.check("P12", matches!(j.outcome, Outcome::Panicked(..)), "damage_accepted", || {
            format!("initial conditions with {damage:?} of {} in file {} were not refused: {}", FIELDS[victim.1], victim.0, describe(&j.outcome))
        });
        return;
    }
    let j = ctx.job(n, env, body);
    if !j.finished() {
        return;
    }
    let outs = j.all();
    let rows: Vec<_> = outs.iter().map(|o| o.1.clone()).collect();
    for (r, (total, v, _)) in outs.iter().enumerate() {
        ctx.check("P12", *total == num, "wrong_total", || format!("rank {r} believes in {total} particles instead of {num}"));
        let want = if r + 1 < n { num / n } else { num - num / n * (n - 1) };
        ctx.check("P12", v.len() == want, "uneven_input", || {
            format!("rank {r} of {n} has {} of {num} particles, expected {want}", v.len())
        });
    }
    judge_rows(ctx, "P12,P13", "input", &rows, &fields, num as u64, |k| row(seed, k, 0), false);
    if full {
        let mut parts: Vec<f64> = outs.iter().flat_map(|o| o.2[0].clone()).collect();
        parts.sort_by(f64::total_cmp);
        let want: Vec<f64> = (0..num).map(|k| k as f64).collect();
        ctx.check("P12", parts == want, "chunked_read", || format!("read in chunks of {chunk}: {parts:?}"));
        for (r, o) in outs.iter().enumerate() {
            let mut a = o.2[1].clone();
            ctx.check("P12", o.2[1] == outs[0].2[1] && o.2[2] == outs[0].2[2], "read_order", || {
                format!("rank {r} reads {:?}, rank 0 reads {:?}", o.2[1], outs[0].2[1])
            });
            ctx.check("P12", o.2[1] == o.2[2], "chunked_read", || {
                format!("rank {r} reads {:?} in chunks of {chunk} and {:?} at once", o.2[1], o.2[2])
            });
            a.sort_by(f64::total_cmp);
            ctx.check("P12", a == want, "chunked_read", || format!("rank {r} reads {a:?} in chunks of {chunk}"));
        }
    }
}

// ---------------------------------------------------------------- a run with output

#[derive(Clone, Copy, PartialEq, Debug)]
enum Policy {
    Default,
    Panic,
    Overwrite,
    Delete,
}

#[derive(Clone, Debug)]
struct Plan {
    n: usize,
    num: usize,
    /// Rank holding each particle, if they are not read from files.
    first: Vec<usize>,
    ics: Option<Vec<PathBuf>>,
    two_d: bool,
    seed: u64,
    out: PathBuf,
    num_files: usize,
    padding: Option<usize>,
    fields: Option<Vec<usize>>,
    snapshots_dir: Option<String>,
    series_dir: Option<String>,
    between: Option<f64>,
    first_time: Option<f64>,
    final_time: f64,
    dts: Vec<f64>,
    policy: Policy,
    cosmology: Option<(f64, f64, bool)>,
    series: bool,
    rare: Vec<usize>,
    domain: bool,
    params: PathBuf,
}

/// One step of the run as it should be.
#[derive(Clone, Debug)]
struct Step {
    time: f64,
    stop: bool,
    snapshot: Option<usize>,
}

fn model(p: &Plan) -> Vec<Step> {
    let mut t = 0.0;
    let mut next = p.first_time.unwrap_or(0.0);
    let mut num = 0;
    let mut v = vec![];
    for s in 0..100_000 {
        let stop = t >= p.final_time;
        if s > 0 {
            t += p.dts[(s - 1) % p.dts.len()];
        }
        let mut snapshot = None;
        if stop || t >= next {
            snapshot = Some(num);
            num += 1;
            next += p.between.unwrap_or(0.0);
        }
        v.push(Step { time: t, stop, snapshot });
        if stop {
            break;
        }
    }
    v
}

/// A path as a user gives it: absolute or from the directory the run is started in.
pub fn given(p: &Path, relative: bool) -> PathBuf {
    let here = std::env::current_dir().unwrap_or_default();
    match p.strip_prefix(&here) {
        Ok(r) if relative && r != Path::new("") => r.to_owned(),
        _ => p.to_owned(),
    }
}

fn params_yaml(p: &Plan) -> String {
    let relative = p.seed % 4 == 1;
    let mut s = String::new();
    s.push_str(&format!("simulation:\n  final_time: {:?} s\n", p.final_time));
    s.push_str("box_size: 1.0 m\n");
    if let Some((a, h, full)) = p.cosmology {
        s.push_str(&format!("cosmology:\n  a: {a:?}\n  h: {h:?}\n"));
        if full {
            s.push_str("  params:\n    omega_0: 0.3\n    omega_lambda: 0.7\n");
        }
    }
    if let Some(v) = &p.ics {
        let v: Vec<_> = v.iter().map(|x| given(x, relative)).collect();
        s.push_str(&format!("input:\n  paths: {}\n", yaml_paths(&v)));
    }
    s.push_str(&format!("output:\n  output_dir: \"{}\"\n  num_output_files: {}\n", given(&p.out, relative).display(), p.num_files));
    if let Some(x) = p.padding {
        s.push_str(&format!("  snapshot_padding: {x}\n"));
    }
    if let Some(x) = &p.fields {
        s.push_str(&format!("  fields: [{}]\n", x.iter().map(|i| FIELDS[*i]).collect::<Vec<_>>().join(", ")));
    }
    if let Some(x) = p.between {
        s.push_str(&format!("  time_between_snapshots: {x:?} s\n"));
    }
    if let Some(x) = p.first_time {
        s.push_str(&format!("  time_first_snapshot: {x:?} s\n"));
    }
    if let Some(x) = &p.snapshots_dir {
        s.push_str(&format!("  snapshots_dir: {x}\n"));
    }
    if let Some(x) = &p.series_dir {
        s.push_str(&format!("  time_series_dir: {x}\n"));
    }
    if p.policy != Policy::Default {
        s.push_str(&format!("  handle_existing_output: {}\n", format!("{:?}", p.policy).to_lowercase()));
    }
    s
}

thread_local! {
    /// (rank, step, time) of every step a rank went through.
    static HISTORY: RefCell<Vec<(usize, usize, f64)>> = RefCell::new(vec![]);
}

fn series_value(seed: u64, step: usize) -> f64 {
    (mix(seed, step as u64 + 77) % 1000) as f64 + 0.5
}

#[derive(Resource)]
struct StepCount(usize);

/// The run on one rank.
fn run(p: &Plan, rank: usize) {
    let mut b = SimulationBuilder::new();
    let b = b
        .parameter_file_path(&p.params)
        .read_initial_conditions(p.ics.is_some())
        .write_output(true)
        .log(false);
    let mut sim = if p.domain {
        b.build()
    } else {
        // as the builder does it, without the domain decomposition
        let mut sim = Simulation::default();
        sim.add_parameters_from_file(&p.params);
        sim.read_initial_conditions(p.ics.is_some()).write_output(true);
        sim.add_plugin(BaseCommunicationPlugin::new(p.n, rank as Rank));
        if rank == 0 {
            let params = sim.add_parameter_type_and_get_result::<subsweep::parameters::OutputParameters>().clone();
            subsweep::io::output::make_output_dirs(&params);
        } else {
            sim.add_parameter_type::<subsweep::parameters::OutputParameters>();
        }
        subsweep::communication::MPI_UNIVERSE.barrier();
        sim.add_plugin(SimulationPlugin);
        sim.add_bevy_plugin(bevy_app::ScheduleRunnerPlugin);
        sim
    };
    if p.ics.is_some() {
        if p.two_d {
            add_input::<c::Position>(&mut sim, DatasetShape::TwoDimensional(from_row));
        }
        add_input::<Num>(&mut sim, DatasetShape::OneDimensional);
        sim.add_required_component::<c::Density>()
            .add_required_component::<c::Mass>()
            .add_required_component::<c::IonizedHydrogenFraction>()
            .add_required_component::<c::Temperature>()
            .add_required_component::<c::Timestep>();
        sim.add_derived_component::<Num>();
    } else {
        sim.add_derived_component::<c::Density>()
            .add_derived_component::<c::Mass>()
            .add_derived_component::<Num>()
            .add_derived_component::<c::IonizedHydrogenFraction>()
            .add_derived_component::<c::Temperature>()
            .add_derived_component::<c::Timestep>();
        sim.insert_resource(NumParticlesTotal(p.num));
        let (first, seed) = (p.first.clone(), p.seed);
        sim.add_startup_system_to_stage(StartupStages::ReadInput, move |mut commands: Commands| {
            for (k, r) in first.iter().enumerate() {
                if *r == rank {
                    commands.spawn(bundle(&row(seed, k as u64, 0)));
                }
            }
        });
    }
    if p.series {
        sim.add_plugin(TimeSeriesPlugin::<Series>::default())
            .add_plugin(TimeSeriesPlugin::<RareSeries>::default());
    }
    sim.insert_resource(StepCount(0));
    let (seed, dts) = (p.seed, p.dts.clone());
    sim.add_system_to_stage(
        Stages::Sweep,
        move |mut step: ResMut<StepCount>,
              mut time: ResMut<SimulationTime>,
              mut q: Particles<(&Num, &mut c::IonizedHydrogenFraction, &mut c::Temperature, &mut c::Timestep)>| {
            let s = step.0;
            step.0 += 1;
            if s == 0 {
                return;
            }
            **time = **time + Time::new_unchecked(dts[(s - 1) % dts.len()]);
            for (k, mut x, mut t, mut d) in q.iter_mut() {
                let r = row(seed, k.value_unchecked() as u64, s as u64);
                **x = Dimensionless::new_unchecked(r.frac);
                **t = Temperature::new_unchecked(r.temp);
                **d = Time::new_unchecked(r.tstep);
            }
        },
    );
    if p.series {
        let rare = p.rare.clone();
        sim.add_system_to_stage(
            Stages::AfterSweep,
            move |step: Res<StepCount>, mut w: EventWriter<Series>, mut w2: EventWriter<RareSeries>| {
                let s = step.0 - 1;
                w.send(Series(series_value(seed, s)));
                for (i, x) in rare.iter().enumerate() {
                    if s % (x + 1) == 0 {
                        w2.send(RareSeries { step: s, what: format!("s{s}_{i}") });
                    }
                }
            },
        );
    }
    sim.add_system_to_stage(Stages::Final, move |step: Res<StepCount>, time: Res<SimulationTime>| {
        HISTORY.with(|h| h.borrow_mut().push((rank, step.0 - 1, time.value_unchecked())));
    });
    sim.run_without_finalize();
}

fn plan(ctx: &mut Ctx) -> Plan {
    let n = ctx.size("ranks", 1, 4, 13);
    let ics = ctx.chance("ics", 0.3);
    let domain = ics && ctx.chance("domain", 0.7);
    let num = if domain {
        ctx.size("particles", n, 40.max(n), 400)
    } else {
        match ctx.int("numkind", 0, 4) {
            0 => ctx.int("few", 0, 5),
            _ if ctx.chance("huge", 0.003) => ctx.int("hugenum", 4000, 9000),
            _ => ctx.size("particles", 1, 40, 400),
        }
    };
    let dir = ctx.dir.clone();
    let seed = ctx.rng("rowseed").next();
    let two_d = ctx.chance("twod", 0.5);
    let files = if ics {
        let k = ctx.size("files", 1, 4, 14);
        let (files, paths) = make_ics(ctx, &dir, num, k, false);
        write_ics(seed, &files, two_d, Damage::None, (0, 0));
        Some(paths)
    } else {
        None
    };
    let long = ctx.chance("long", 0.04);
    let many_files = ctx.chance("manyfiles", 0.03);
    let mut rng = ctx.rng("planseed");
    let cosmological = rng.chance(0.3) && !long;
    let skew = rng.below(3);
    let first = (0..num)
        .map(|_| match skew {
            0 => rng.below(n as u64) as usize,
            // one rank without any, or with all
            1 => (rng.below(n as u64) as usize).max(1) % n,
            _ => n - 1,
        })
        .collect();
    let dt = [1.0, 0.25, 0.1, 3.0, 1e18][rng.below(5) as usize];
    // the age of the universe is limited
    let dt = if cosmological && dt > 3.0 { 1.0 } else { dt };
    let dts: Vec<f64> = if rng.chance(0.5) { vec![dt] } else { (0..4).map(|_| dt * (0.1 + 2.0 * rng.unit())).collect() };
    let steps = if long { 8 + rng.below(25) as usize } else { 1 + rng.below(7) as usize };
    let mean: f64 = dts.iter().sum::<f64>() / dts.len() as f64;
    let between = match rng.below(5) {
        0 => None,
        1 => Some(0.0),
        2 => Some(mean),
        3 => Some(mean * (0.3 + 2.0 * rng.unit())),
        _ => Some(mean * 3.0),
    };
    let first_time = match rng.below(4) {
        0 => Some(mean * steps as f64 * rng.unit()),
        1 => Some(0.0),
        2 => Some(mean * 2.0),
        _ => None,
    };
    let fields = if rng.chance(0.3) {
        let mut v: Vec<usize> = (1..7).filter(|_| rng.chance(0.5)).collect();
        v.push(0);
        Some(v)
    } else {
        None
    };
    let fractional = if rng.chance(0.5) { 0.0 } else { mean * rng.unit() };
    let cosmology = if cosmological { Some((0.1 + 0.3 * rng.unit(), 0.6774, rng.chance(0.8))) } else { None };
    Plan {
        n,
        num,
        first,
        ics: files,
        two_d,
        seed,
        out: dir.join(["output", "deep/er/output", "out put"][rng.below(3) as usize]),
        num_files: if many_files { 101 } else { [1, 1, 2, 3, 10, 12][rng.below(6) as usize] },
        padding: [None, Some(1), Some(5)][rng.below(3) as usize],
        fields,
        snapshots_dir: if rng.chance(0.2) { Some("snaps".into()) } else { None },
        series_dir: if rng.chance(0.2) { Some("series".into()) } else { None },
        between,
        first_time,
        final_time: mean * steps as f64 + fractional - if rng.chance(0.2) { mean * steps as f64 } else { 0.0 },
        dts: if cosmology.is_some() { dts.iter().map(|x| x * 1e15).collect() } else { dts.clone() },
        policy: Policy::Default,
        cosmology,
        series: rng.chance(0.7),
        rare: (0..rng.below(3)).map(|_| rng.below(4) as usize).collect(),
        domain,
        params: dir.join("params.yml"),
    }
    .rescaled()
}

impl Plan {
    /// Cosmological runs take longer.
    fn rescaled(mut self) -> Self {
        if self.cosmology.is_some() {
            self.final_time *= 1e15;
            self.between = self.between.map(|x| x * 1e15);
            self.first_time = self.first_time.map(|x| x * 1e15);
        }
        self
    }
    fn describe(&self) -> String {
        format!(
            "{} ranks, {} particles{}, {} files, first output {:?}, every {:?}, final time {:?}, steps {:?}, fields {:?}{}{}",
            self.n,
            self.num,
            if self.ics.is_some() { " read from files" } else { "" },
            self.num_files,
            self.first_time,
            self.between,
            self.final_time,
            self.dts,
            self.fields,
            if self.cosmology.is_some() { ", cosmological" } else { "" },
            if self.domain { ", decomposed" } else { "" },
        )
    }
    fn snapshots(&self) -> PathBuf {
        self.out.join(self.snapshots_dir.as_deref().unwrap_or("snapshots"))
    }
    fn snapshot(&self, i: usize) -> PathBuf {
        self.snapshots().join(format!("{:0w$}", i, w = self.padding.unwrap_or(3)))
    }
    fn wanted(&self, i: usize) -> bool {
        self.fields.as_ref().map_or(true, |f| f.contains(&i))
    }
}

fn start(ctx: &mut Ctx, p: &Plan, env: Env) -> crate::ctx::Job<()> {
    std::fs::write(&p.params, params_yaml(p)).unwrap();
    HISTORY.with(|h| h.borrow_mut().clear());
    let p2 = p.clone();
    ctx.raw_job(p.n, env, move |rank| run(&p2, rank))
}

pub fn list(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// Everything in one snapshot, as rows in the order of the files.
fn load_snapshot(dir: &Path, fields: &[usize]) -> Result<Vec<BTreeMap<usize, Vec<f64>>>, String> {
    let mut out = vec![];
    for name in list(dir) {
        if !name.ends_with(".hdf5") {
            return Err(format!("unexpected {name}"));
        }
        let f = hdf5::File::open(dir.join(&name)).map_err(|e| format!("{name}: {e:?}"))?;
        let mut cols: BTreeMap<usize, Vec<Vec<f64>>> = BTreeMap::new();
        for i in fields {
            let Ok(d) = f.dataset(FIELDS[*i]) else { continue };
            let v: Vec<Vec<f64>> = if *i == 1 {
                d.read_raw::<c::Position>()
                    .map_err(|e| format!("{name}/{}: {e:?}", FIELDS[*i]))?
                    .iter()
                    .map(|p| {
                        let p = p.value_unchecked();
                        vec![p.x, p.y, p.z]
                    })
                    .collect()
            } else {
                d.read_raw::<f64>().map_err(|e| format!("{name}/{}: {e:?}", FIELDS[*i]))?.iter().map(|x| vec![*x]).collect()
            };
            for a in 0..4 {
                let x: i32 = d
                    .attr(DIM_NAMES[a])
                    .and_then(|x| x.read_scalar())
                    .map_err(|e| format!("{name}/{}: {}: {e:?}", FIELDS[*i], DIM_NAMES[a]))?;
                if x != DIMS[*i][a] {
                    return Err(format!("{name}/{}: {} is {x}", FIELDS[*i], DIM_NAMES[a]));
                }
            }
            let s: f64 = d
                .attr("scale_factor_si")
                .and_then(|x| x.read_scalar())
                .map_err(|e| format!("{name}/{}: no scale factor {e:?}", FIELDS[*i]))?;
            if s != 1.0 {
                return Err(format!("{name}/{}: scale factor {s}", FIELDS[*i]));
            }
            cols.insert(*i, v);
        }
        let len = cols.values().map(|v| v.len()).max().unwrap_or(0);
        if cols.values().any(|v| v.len() != len) {
            return Err(format!(
                "{name}: fields of different lengths {:?}",
                cols.iter().map(|(i, v)| (FIELDS[*i], v.len())).collect::<Vec<_>>()
            ));
        }
        for r in 0..len {
            out.push(cols.iter().map(|(i, v)| (*i, v[r].clone())).collect());
        }
    }
    Ok(out)
}

/// Scale factor after a time, by bisection of the same closed form.
fn scale_factor_after(a0: f64, h: f64, dt: f64) -> f64 {
    let (o0, ol) = (0.3f64, 0.7f64);
    let t = |a: f64| 2.0 / (3.0 * ol.sqrt()) * ((ol / o0).sqrt() * a.powf(1.5) + (1.0 + ol / o0 * a.powi(3)).sqrt()).ln() / (3.2407789e-18 * h);
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if t(m) - t(a0) < dt {
            lo = m;
        } else {
            hi = m;
        }
    }
    lo
}

/// Judge snapshot `i`, written in `step`.
fn judge_snapshot(ctx: &mut Ctx, p: &Plan, i: usize, step: usize, time: f64, props: &str, attr_props: &str) {
    let dir = p.snapshot(i);
    let fields: Vec<usize> = (0..7).filter(|f| p.wanted(*f) && (i == 0 || !STATIC[*f])).collect();
    let all: Vec<usize> = (0..7).collect();
    let rows = match load_snapshot(&dir, &all) {
        Ok(r) => r,
        Err(e) => {
            ctx.check(props, false, "unreadable_snapshot", || format!("snapshot {i} written in step {step}: {e}"));
            return;
        }
    };
    if p.fields.is_some() {
        for r in rows.iter().take(1) {
            let extra: Vec<_> = r.keys().filter(|k| !p.wanted(**k)).map(|k| FIELDS[*k]).collect();
            ctx.check(props, extra.is_empty(), "unwanted_field", || format!("snapshot {i} has {extra:?}"));
        }
    }
    judge_rows(
        ctx,
        props,
        &format!("snapshot {i} (step {step})"),
        &[rows.clone()],
        &fields,
        p.num as u64,
        |k| row(p.seed, k, step as u64),
        true,
    );
    // static fields that are repeated have to be right, too
    if i > 0 {
        if let Ok(first) = load_snapshot(&p.snapshot(0), &[0]) {
            let a: Vec<f64> = first.iter().map(|r| r[&0][0]).collect();
            let b: Vec<f64> = rows.iter().filter_map(|r| r.get(&0).map(|x| x[0])).collect();
            ctx.check(props, a == b, "row_order", || {
                format!("rows of snapshot {i} are in another order than those of snapshot 0, which has the static fields: {b:?} and {a:?}")
            });
        }
    }
    for name in list(&dir) {
        let Ok(f) = hdf5::File::open(dir.join(&name)) else { continue };
        let get = |k: &str| f.attr(k).ok().and_then(|a| a.read_scalar::<f64>().ok());
        let t = get("time");
        ctx.check(attr_props, t == Some(time), "wrong_time", || {
            format!("snapshot {i} was written at {time:?}, its file {name} says {t:?}")
        });
        if let Some((a, h, full)) = p.cosmology {
            let want = if full { scale_factor_after(a, h, time) } else { a };
            let sf = get("scale_factor");
            let tol = 2e-6;
            ctx.check(attr_props, sf.map_or(false, |x| (x - want).abs() < tol * want), "wrong_scale_factor", || {
                format!("snapshot {i} was written at {time:e} s with scale factor {want}, its file {name} says {sf:?}")
            });
            let z = get("redshift");
            let wz = 1.0 / want - 1.0;
            ctx.check(attr_props, z.map_or(false, |x| (x - wz).abs() < 10.0 * tol * (1.0 + wz)), "wrong_redshift", || {
                format!("snapshot {i} was written at redshift {wz}, its file {name} says {z:?}")
            });
            let hh = get("little_h");
            ctx.check(attr_props, hh == Some(h), "wrong_little_h", || format!("snapshot {i}: h is {hh:?}, not {h}"));
        }
    }
}

/// Judge the complete output of a run that ended well.
fn judge_run(ctx: &mut Ctx, p: &Plan, extra_allowed: bool, content: &str, cadence: &str, attrs: &str, series: &str) {
    let steps = model(p);
    let hist = HISTORY.with(|h| h.borrow().clone());
    for r in 0..p.n {
        let mine: Vec<_> = hist.iter().filter(|h| h.0 == r).collect();
        let ok = mine.len() == steps.len() && mine.iter().zip(&steps).enumerate().all(|(i, (h, s))| h.1 == i && h.2 == s.time);
        ctx.check(cadence, ok, "wrong_steps", || {
            format!("rank {r} went through {:?} instead of {:?}", mine, steps.iter().map(|s| s.time).collect::<Vec<_>>())
        });
    }
    let have = list(&p.snapshots());
    let mut want: Vec<String> = steps
        .iter()
        .filter_map(|s| s.snapshot)
        .map(|i| p.snapshot(i).file_name().unwrap().to_string_lossy().into_owned())
        .collect();
    want.sort();
    let ok = if extra_allowed { want.iter().all(|w| have.contains(w)) } else { have == want };
    ctx.check(cadence, ok, "wrong_snapshots", || {
        format!("snapshots {have:?} instead of {want:?}; steps {steps:?}; first {:?} every {:?}", p.first_time, p.between)
    });
    for (s, st) in steps.iter().enumerate() {
        if let Some(i) = st.snapshot {
            judge_snapshot(ctx, p, i, s, st.time, content, attrs);
        }
    }
    let both = if content == series { content.to_string() } else { format!("{content},{series}") };
    for f in ["parameters.yml", "performance.yml"] {
        let t = std::fs::read_to_string(p.out.join(f)).unwrap_or_default();
        let ok = serde_yaml::from_str::<serde_yaml::Value>(&t).map_or(false, |v| v.is_mapping());
        ctx.check(&both, ok, "bad_record", || format!("{f} is not complete: {t:?}"));
    }
    if p.series {
        judge_series(ctx, p, &steps, steps.len(), series);
    }
}

fn judge_series(ctx: &mut Ctx, p: &Plan, steps: &[Step], upto: usize, props: &str) {
    let dir = p.out.join(p.series_dir.as_deref().unwrap_or("time_series"));
    let read = |name: &str| -> Result<Vec<(f64, serde_yaml::Value)>, String> {
        let path = dir.join(format!("{name}.yml"));
        let t = std::fs::read_to_string(&path).map_err(|e| format!("{}: {e}", path.display()))?;
        parse_series(&t).map_err(|e| format!("{}: {e} in {t:?}", path.display()))
    };
    match read("verif_series") {
        Ok(v) => {
            let have: Vec<(f64, f64)> = v.iter().map(|(t, x)| (*t, x.as_f64().unwrap_or(f64::NAN))).collect();
            let want: Vec<(f64, f64)> = steps[..upto].iter().enumerate().map(|(s, st)| (st.time, series_value(p.seed, s))).collect();
            let close = have.len() == want.len()
                && have.iter().zip(&want).all(|(a, b)| (a.0 - b.0).abs() <= 1e-9 * b.0.abs() && a.1 == b.1);
            ctx.check(props, close, "wrong_series", || format!("time series holds {have:?} instead of {want:?}"));
        }
        Err(e) => {
            ctx.check(props, false, "bad_series", || e);
        }
    }
    match read("verif_rare_series") {
        Ok(v) => {
            let have: Vec<String> = v
                .iter()
                .map(|(t, x)| format!("{t:e} {:?} {:?}", x.get("step").and_then(|x| x.as_u64()), x.get("what").and_then(|x| x.as_str())))
                .collect();
            let mut want = vec![];
            for (s, st) in steps[..upto].iter().enumerate() {
                for (i, x) in p.rare.iter().enumerate() {
                    if s % (x + 1) == 0 {
                        want.push((st.time, format!("{:?} {:?}", Some(s as u64), Some(format!("s{s}_{i}")))));
                    }
                }
            }
            let ok = have.len() == want.len() && have.iter().zip(&want).all(|(a, (_, b))| a.ends_with(b.as_str()));
            ctx.check(props, ok, "wrong_series", || format!("time series holds {have:?} instead of {want:?}"));
        }
        Err(e) => {
            ctx.check(props, false, "bad_series", || e);
        }
    }
}

/// Time in seconds and value of each entry of a time series file.
pub fn parse_series(t: &str) -> Result<Vec<(f64, serde_yaml::Value)>, String> {
    if t.trim().is_empty() {
        return Ok(vec![]);
    }
    // Blocks written one after another; each may start with a document marker.
    let text: String = t.lines().filter(|l| l.trim() != "---").map(|l| format!("{l}\n")).collect();
    let v: serde_yaml::Value = serde_yaml::from_str(&text).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for e in v.as_sequence().ok_or("not a list")? {
        let time = e.get("time").ok_or("entry without time")?;
        let time = time.get("time_elapsed").unwrap_or(time);
        let val = e.get("val").ok_or("entry without value")?.clone();
        out.push((quantity(time)?, val));
    }
    Ok(out)
}

/// The number a quantity was written with, in base units.
pub fn quantity(v: &serde_yaml::Value) -> Result<f64, String> {
    if let Some(x) = v.as_f64() {
        return Ok(x);
    }
    let s = v.as_str().ok_or_else(|| format!("not a quantity: {v:?}"))?;
    let w = s.split_whitespace().next().unwrap_or("");
    w.parse().map_err(|_| format!("not a quantity: {s}"))
}

fn snapshots(ctx: &mut Ctx) {
    let p = plan(ctx);
    ctx.desc(p.describe());
    let mut env = ctx.env(p.n);
    env.permute_readdir = ctx.chance("readdir", 0.5);
    env.p_short = if ctx.chance("shortio", 0.2) { 0.02 } else { 0.0 };
    let j = start(ctx, &p, env);
    judge_job(ctx, &j);
    ctx.res.nontrivial = p.n > 1;
    if !j.finished() {
        return;
    }
    ctx.stat("snapshots", list(&p.snapshots()).len() as u64);
    judge_run(ctx, &p, false, "P11,P15", "P14", "P13,P14", "P17");
}

fn judge_job(ctx: &mut Ctx, j: &crate::ctx::Job<()>) {
    ctx.res.evaluations += 1;
    if !j.finished() {
        let m = describe(&j.outcome);
        ctx.fail("run_failed", m);
    }
    ctx.judge_raw(&j.violations.clone());
}

fn restart(ctx: &mut Ctx) {
    let mut p = plan(ctx);
    if let Some(f) = &mut p.fields {
        f.retain(|x| *x != 0);
        f.insert(0, 0);
    }
    ctx.desc(p.describe());
    let env = ctx.env(p.n);
    let j = start(ctx, &p, env);
    judge_job(ctx, &j);
    if !j.finished() {
        return;
    }
    let steps = model(&p);
    let snaps: Vec<(usize, usize, f64)> =
        steps.iter().enumerate().filter_map(|(s, st)| st.snapshot.map(|i| (i, s, st.time))).collect();
    let (i, s, time) = ctx.pick("from", &snaps);
    let n = ctx.int("ranks2", 1, 5);
    let fields: Vec<usize> = (0..7).filter(|f| p.wanted(*f) && (i == 0 || !STATIC[*f])).collect();
    let dir = p.snapshot(i);
    ctx.desc(format!("read back snapshot {i} on {n} ranks"));
    let mut env = ctx.env(n);
    env.permute_readdir = ctx.chance("readdir", 0.5);
    env.p_short = if ctx.chance("shortio", 0.2) { 0.02 } else { 0.0 };
    let f2 = fields.clone();
    let num = p.num;
    let cosm = p.cosmology.is_some();
    let j = ctx.job(n, env, move |rank| {
        let (total, rows) = read_only(n, rank, &[dir.clone()], &f2, false);
        let mut times = vec![];
        for f in get_file_or_all_hdf5_files_in_path_if_dir(&dir) {
            let t = read_attribute::<SimulationTime>(&f).value_unchecked();
            let a = if cosm { *read_attribute::<subsweep::cosmology::ScaleFactor>(&f).0 } else { 1.0 };
            times.push((t, a));
        }
        (total, rows, times)
    });
    ctx.res.nontrivial = n > 1 || p.n > 1;
    if !j.finished() {
        return;
    }
    let outs = j.all();
    for o in &outs {
        ctx.check("P13", o.0 == num, "wrong_total", || format!("{} particles read back instead of {num}", o.0));
        for (t, a) in &o.2 {
            ctx.check("P13", *t == time, "wrong_time", || format!("time {t} read back from snapshot {i} written at {time}"));
            if let Some((a0, h, full)) = p.cosmology {
                let want = if full { scale_factor_after(a0, h, time) } else { a0 };
                ctx.check("P13", (a - want).abs() < 2e-6 * want, "wrong_scale_factor", || {
                    format!("scale factor {a} read back from snapshot {i} written at {want}")
                });
            }
        }
    }
    let rows: Vec<_> = outs.iter().map(|o| o.1.clone()).collect();
    judge_rows(ctx, "P13,P11,P12", &format!("read back from snapshot {i}"), &rows, &fields, num as u64, |k| row(p.seed, k, s as u64), true);
}

// ---------------------------------------------------------------- faults

/// Contents of everything below a directory.
fn tree(dir: &Path, skip: &[&Path]) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd {
            let p = e.unwrap().path();
            if skip.contains(&p.as_path()) {
                continue;
            }
            let m = std::fs::symlink_metadata(&p).unwrap();
            if m.is_dir() {
                out.insert(p.clone(), None);
                todo.push(p);
            } else if m.file_type().is_symlink() {
                out.insert(p.clone(), Some(std::fs::read_link(&p).unwrap().display().to_string().into_bytes()));
            } else {
                out.insert(p.clone(), Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    out
}

fn diff(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Option<String> {
    for (p, x) in a {
        match b.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(y) if x != y => return Some(format!("{} has changed", p.display())),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            return Some(format!("{} is new", p.display()));
        }
    }
    None
}

/// Things around the output directory that are nobody's business.
fn bystanders(p: &Plan) {
    let parent = p.out.parent().unwrap();
    std::fs::create_dir_all(parent).unwrap();
    let name = p.out.file_name().unwrap().to_string_lossy().into_owned();
    for x in [format!("{name}2"), format!("{name}.old"), "snapshots".into(), "time_series".into()] {
        let d = parent.join(x);
        std::fs::create_dir_all(d.join("000")).unwrap();
        std::fs::write(d.join("000/0.hdf5"), "keep").unwrap();
    }
    std::fs::write(parent.join("parameters.yml.bak"), "keep").unwrap();
}

fn faults(ctx: &mut Ctx) {
    let mut p = plan(ctx);
    p.series |= ctx.chance("series", 0.3);
    ctx.desc(p.describe());
    bystanders(&p);
    std::fs::write(&p.params, params_yaml(&p)).unwrap();
    let root = ctx.dir.clone();
    let out = p.out.clone();
    // Count the operations of an undisturbed run.
    let env = ctx.env(p.n);
    let calm = env.clone();
    let mut top = out.clone();
    while top.parent() != Some(root.as_path()) {
        top.pop();
    }
    let j = start(ctx, &p, env);
    if !j.finished() {
        judge_job(ctx, &j);
        return;
    }
    let ops = crate::over::num_ops().max(1);
    let kinds: Vec<Vec<u64>> = crate::over::ops_by_kind().into_values().collect();
    let bytes = crate::over::num_bytes();
    let calls = j.calls.clone();
    std::fs::remove_dir_all(&out).unwrap();
    let before = tree(&root, &[&out]);
    // Now with a fault.
    let kind = ctx.int("fault", 0, 4);
    let mut env = calm;
    let what = match kind {
        0 => {
            let at = if ctx.chance("by_kind", 0.6) {
                // rare kinds of operations as often as frequent ones
                let v = &kinds[ctx.int("opkind", 0, kinds.len() - 1)];
                v[ctx.int("failat", 0, v.len() - 1)]
            } else {
                ctx.int("failat", 1, ops as usize) as u64
            };
            env.fail_write_at = Some(at);
            env.fail_kind = ctx.int("failkind", 0, 4) as u64;
            format!("operation {at} of {ops} on the disk fails")
        }
        1 => {
            let cap = ctx.int("capacity", 0, bytes as usize) as u64;
            env.disk_capacity = Some(cap);
            format!("disk full after {cap} of {bytes} bytes")
        }
        2 => {
            env.p_disk_error = ctx.pick("diskrate", &[0.01, 0.05]);
            "random disk errors".to_string()
        }
        3 => {
            let r = ctx.int("crashrank", 0, p.n - 1);
            let at = ctx.int("crashat", 1, calls[r].max(2) as usize);
            env.crash = Some((r, at as u64));
            format!("rank {r} dies in call {at}")
        }
        _ => {
            env.p_short = 0.05;
            "short and interrupted reads and writes".to_string()
        }
    };
    ctx.desc(what.clone());
    let j = start(ctx, &p, env);
    let hit = j_faulted(ctx);
    ctx.res.nontrivial = hit || kind == 4;
    ctx.judge_raw(&j.violations.clone());
    let after = tree(&root, &[&out]);
    let d = diff(&before, &after);
    ctx.check("P15", d.is_none(), "touched_others", || format!("outside the output directory {}", d.unwrap_or_default()));
    match &j.outcome {
        Outcome::Finished => {
            ctx.stat("finished_despite", 1);
            judge_run(ctx, &p, false, "P15,P11", "P15,P14", "P15,P13", "P15,P17");
        }
        Outcome::Panicked(..) | Outcome::Aborted(_) if kind <= 2 => {
            ctx.stat("ended_with_error", 1);
            judge_partial(ctx, &p, &what);
        }
        Outcome::Crashed(_) if kind == 3 => {
            ctx.stat("killed", 1);
            judge_partial(ctx, &p, &what);
        }
        o => {
            let m = format!("{what}: {}", describe(o));
            ctx.check("P15", false, "bad_end", || m);
        }
    }
    // Start again on what is left.
    let d_out = tree(&out, &[]);
    let exists = out.exists();
    p.policy = ctx.pick("policy", &[Policy::Default, Policy::Panic, Policy::Overwrite, Policy::Delete]);
    again(ctx, &mut p, exists, d_out, &what);
}

fn j_faulted(ctx: &Ctx) -> bool {
    ["disk_fault", "crash", "rank_killed", "short_write", "short_read", "eintr"].iter().any(|k| ctx.res.stats.get(*k).copied().unwrap_or(0) > 0)
}

/// A run that ended early: snapshots that were complete are intact.
fn judge_partial(ctx: &mut Ctx, p: &Plan, what: &str) {
    let hist = HISTORY.with(|h| h.borrow().clone());
    let done = (0..p.n).map(|r| hist.iter().filter(|h| h.0 == r).count()).min().unwrap_or(0);
    let steps = model(p);
    let mut complete = 0;
    for (s, st) in steps.iter().enumerate().take(done) {
        if let Some(i) = st.snapshot {
            judge_snapshot(ctx, p, i, s, st.time, "P15,P11", "P15,P13");
            complete += 1;
        }
    }
    ctx.stat("complete_before_fault", complete);
    let _ = what;
}

fn again(ctx: &mut Ctx, p: &mut Plan, existed: bool, old: BTreeMap<PathBuf, Option<Vec<u8>>>, what: &str) {
    let root = ctx.dir.clone();
    p.n = ctx.int("ranksagain", if p.domain { 1 } else { 1 }, if p.domain { p.n } else { 4 });
    let n = p.n;
    for x in p.first.iter_mut() {
        *x %= n;
    }
    p.seed = mix(p.seed, 99);
    if p.ics.is_some() {
        // other particles from here on
        p.seed = p.seed;
        let files: Vec<IcFile> = vec![IcFile {
            path: root.join("again.hdf5"),
            rows: (0..p.num as u64).collect(),
            factors: [1.0; 7],
        }];
        write_ics(p.seed, &files, p.two_d, Damage::None, (0, 0));
        p.ics = Some(vec![root.join("again.hdf5")]);
    }
    if ctx.chance("other_end", 0.5) {
        p.final_time *= 0.5;
    }
    std::fs::write(&p.params, params_yaml(p)).unwrap();
    let before = tree(&root, &[&p.out]);
    let mut env = ctx.env(p.n);
    let bad_disk = p.policy == Policy::Delete && ctx.chance("deletefails", 0.15);
    if bad_disk {
        env.fail_write_at = Some(ctx.int("failat2", 1, 8) as u64);
    }
    ctx.desc(format!("then again on {} ranks with {:?}", p.n, p.policy));
    let j = start(ctx, p, env);
    ctx.judge_raw(&j.violations.clone());
    let d = diff(&before, &tree(&root, &[&p.out]));
    ctx.check("P15", d.is_none(), "touched_others", || format!("outside the output directory {}", d.unwrap_or_default()));
    let refuse = existed && matches!(p.policy, Policy::Default | Policy::Panic);
    ctx.stat(&format!("again_{:?}_{}", p.policy, if existed { "existing" } else { "fresh" }), 1);
    if refuse {
        ctx.check("P15", matches!(j.outcome, Outcome::Panicked(..)), "not_refused", || {
            format!("after {what}, with existing output and policy {:?}: {}", p.policy, describe(&j.outcome))
        });
        let d = diff(&old, &tree(&p.out, &[]));
        ctx.check("P15", d.is_none(), "old_output_touched", || {
            format!("existing output was refused, but {}", d.unwrap_or_default())
        });
        return;
    }
    if bad_disk && !j.finished() {
        return;
    }
    if !j.finished() {
        judge_job(ctx, &j);
        return;
    }
    let overwrite = p.policy == Policy::Overwrite;
    for own in [p.out.join("analysis.txt"), p.out.join("plots/plot.txt"), p.snapshots().join("note.txt")] {
        if old.contains_key(&own) {
            ctx.check("P15", own.exists() == overwrite, "policy", || {
                format!("with policy {:?} {} {}", p.policy, own.display(), if overwrite { "was removed" } else { "is still there" })
            });
        }
    }
    // Overwriting is documented to leave higher numbers alone.
    judge_run(ctx, p, overwrite, "P15,P11", "P15,P14", "P15,P13", "P15,P17");
    if overwrite {
        let names: Vec<PathBuf> = model(p).iter().filter_map(|s| s.snapshot).map(|i| p.snapshot(i)).collect();
        let now = tree(&p.out, &[]);
        for (path, x) in old.iter().filter(|x| x.0.starts_with(p.snapshots())) {
            if names.iter().any(|n| path.starts_with(n)) {
                continue;
            }
            ctx.check("P15", now.get(path) == Some(x), "old_snapshot_touched", || {
                format!("{} is not part of the new run but was changed", path.display())
            });
        }
    }
}

/// Two runs in the same place, without faults in between.
fn rerun(ctx: &mut Ctx) {
    let mut p = plan(ctx);
    ctx.desc(p.describe());
    bystanders(&p);
    let env = ctx.env(p.n);
    let j = start(ctx, &p, env);
    judge_job(ctx, &j);
    if !j.finished() {
        return;
    }
    ctx.res.nontrivial = true;
    let old = tree(&p.out, &[]);
    // something of the user's own in there
    let own = ctx.chance("own", 0.5);
    let old = if own {
        std::fs::write(p.out.join("analysis.txt"), "mine").unwrap();
        std::fs::create_dir_all(p.out.join("plots")).unwrap();
        std::fs::write(p.out.join("plots/plot.txt"), "mine").unwrap();
        std::fs::write(p.snapshots().join("note.txt"), "mine").unwrap();
        tree(&p.out, &[])
    } else {
        old
    };
    p.policy = ctx.pick("policy", &[Policy::Default, Policy::Panic, Policy::Overwrite, Policy::Delete]);
    again(ctx, &mut p, true, old, "a complete run");
}
