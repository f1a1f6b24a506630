//! The whole program, from its command line to its output files.
use std::collections::BTreeMap;
use std::path::Path;
use std::path::PathBuf;

use simcore::choice::Rng;
use simcore::sched::Env;
use simcore::sched::Outcome;
use subsweep::communication::MpiWorld;
use subsweep::components as c;
use subsweep::units::*;

use crate::bpass_table as table;
use crate::ctx::describe;
use crate::ctx::Ctx;
use crate::ctx::Job;
use crate::driver::Workload;
use crate::geometry as geo;
use crate::geometry::V;
use crate::w_io::list;
use crate::w_io::parse_series;
use crate::w_io::quantity;
use crate::w_sweep as sw;
use crate::w_sweep::close;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "app", run: app },
        Workload { name: "app_construct", run: app_construct },
        Workload { name: "app_remap", run: app_remap },
        Workload { name: "app_stars", run: app_stars },
        Workload { name: "app_ranks", run: app_ranks },
        Workload { name: "app_faults", run: app_faults },
        Workload { name: "app_fields", run: app_fields },
    ]
}

const K_B: f64 = 1.380649e-23;
const M_P: f64 = 1.67262192369e-27;
const SOLAR: f64 = 1.988477e30;
const YEAR: f64 = 3.15576e7;
const HUBBLE: f64 = 3.2407789e-18;

#[derive(Clone, Debug)]
struct Part {
    pos: V,
    density: f64,
    energy: f64,
    electrons: f64,
    volume: f64,
    id: u64,
}

#[derive(Clone, Debug)]
struct Star {
    pos: V,
    metallicity: f64,
    formation: f64,
    mass: f64,
}

#[derive(Clone, Debug)]
struct OldPart {
    pos: V,
    temp: f64,
    x: f64,
}

#[derive(Clone, Debug)]
struct Remap {
    /// Folders, the first holds the positions, the last the state.
    names: Vec<String>,
    a: f64,
    parts: Vec<OldPart>,
    /// Number of entries per file.
    files: Vec<usize>,
}

#[derive(Clone, Debug)]
enum Sources {
    Explicit(Vec<(V, f64)>),
    Stars { escape: f64, stars: Vec<Star> },
}

#[derive(Clone, Copy, Debug)]
struct Cosmo {
    a: f64,
    h: f64,
    omega_0: f64,
    omega_l: f64,
}

#[derive(Clone, Debug)]
struct Connection {
    id1: u64,
    id2: u64,
    kind: i32,
    area: f64,
    normal: V,
}

#[derive(Clone)]
struct App {
    dir: PathBuf,
    out: PathBuf,
    cosmo: Option<Cosmo>,
    length: f64,
    comoving_box: bool,
    parts: Vec<Part>,
    /// Particles per file.
    files: Vec<usize>,
    stars_per_file: Vec<usize>,
    in_dir: bool,
    unit_seed: u64,
    sources: Sources,
    x: Option<f64>,
    remap: Option<Remap>,
    /// The grid, if it is read from a file.
    grid: Option<Vec<sw::GCell>>,
    connections: Vec<Connection>,
    directions: usize,
    levels: usize,
    threshold: f64,
    max_timestep: f64,
    final_time: f64,
    snapshot_every: f64,
    output_files: usize,
    overrides: Vec<String>,
    existing: &'static str,
    /// None: all.
    fields: Option<Vec<&'static str>>,
}

impl App {
    fn describe(&self) -> String {
        format!(
            "{} particles in {:?} (stars {:?}), cosmology {:?}, box {:e} comoving {}, sources {}, x {:?}, remap {:?}, grid {}, {} directions, {} levels, dt {:e} until {:e}, {} output files, {:?}",
            self.parts.len(),
            self.files,
            self.stars_per_file,
            self.cosmo,
            self.length,
            self.comoving_box,
            match &self.sources {
                Sources::Explicit(v) => format!("{} explicit", v.len()),
                Sources::Stars { stars, escape } => format!("{} stars, escape {escape}", stars.len()),
            },
            self.x,
            self.remap.as_ref().map(|r| (r.names.clone(), r.a, r.files.clone())),
            if self.grid.is_some() { format!("read, {} connections", self.connections.len()) } else { "constructed".into() },
            self.directions,
            self.levels,
            self.max_timestep,
            self.final_time,
            self.output_files,
            self.overrides,
        )
    }
}

// ---------------------------------------------------------------- generation

fn make_cosmology(ctx: &mut Ctx, needed: bool, params: bool) -> Option<Cosmo> {
    if !needed && ctx.chance("nocosmology", 0.4) {
        return None;
    }
    let _ = params;
    let mut rng = ctx.rng("cosmoseed");
    let omega_0 = rng.range(0.2, 0.5);
    Some(Cosmo { a: rng.range(0.05, 0.9), h: rng.range(0.5, 0.9), omega_0, omega_l: 1.0 - omega_0 })
}

fn split(ctx: &mut Ctx, num: usize, files: usize) -> Vec<usize> {
    let mut rng = ctx.rng("splitseed");
    let mut v = vec![0; files];
    let lumpy = rng.chance(0.4);
    for _ in 0..num {
        let i = if lumpy && rng.chance(0.7) { 0 } else { rng.below(files as u64) as usize };
        v[i] += 1;
    }
    v
}

struct Want {
    construct: bool,
    remap: f64,
    stars: f64,
    max_cells: usize,
}

/// Points that fill a box evenly, and the volumes of their cells.
fn even_points(rng: &mut Rng, length: f64) -> (Vec<V>, Vec<f64>) {
    let side = 7;
    let jitter = 0.4;
    let mut pos = vec![];
    for i in 0..side * side * side {
        let k = [i % side, (i / side) % side, i / side / side];
        pos.push(std::array::from_fn(|a| length * (k[a] as f64 + 0.5 + jitter * (rng.unit() - 0.5)) / side as f64));
    }
    rng.shuffle(&mut pos);
    let vol = geo::periodic_voronoi(&pos, &[0.0; 3], &[length; 3]).iter().map(|c| c.volume).collect();
    (pos, vol)
}

fn make(ctx: &mut Ctx, w: Want) -> App {
    let with_remap = ctx.chance("remap", w.remap);
    let with_stars = ctx.chance("stars", w.stars);
    let cosmo = make_cosmology(ctx, with_remap || with_stars, with_stars);
    let mut rng = ctx.rng("appseed");
    let (grid, length, positions, volumes): (Option<Vec<sw::GCell>>, f64, Vec<V>, Vec<f64>) = if w.construct {
        let length = 10f64.powf(rng.range(18.0, 21.0));
        let (pos, vol) = even_points(&mut rng, length);
        (None, length, pos, vol)
    } else {
        let (mut cells, length) = sw::make_grid(ctx, w.max_cells, false, sw::Medium::Mixed);
        let boxes: Vec<_> = cells.iter().map(|c| (c.lo, c.hi)).collect();
        for (i, cell) in cells.iter_mut().enumerate() {
            cell.faces = sw::faces(&boxes, i, length, true);
            cell.source = 0.0;
        }
        let pos = cells.iter().map(|c| std::array::from_fn(|a| 0.5 * (c.lo[a] + c.hi[a]))).collect();
        let vol = cells.iter().map(|c| c.volume()).collect();
        (Some(cells), length, pos, vol)
    };
    let num = positions.len();
    let id_mode = rng.below(3);
    let mut ids: Vec<u64> = (0..num as u64)
        .map(|i| match id_mode {
            0 => i + 1,
            1 => 1_000_000_007 * (i + 3) % 4_000_000_000_000,
            _ => (1u64 << 40) - i,
        })
        .collect();
    rng.shuffle(&mut ids);
    let parts: Vec<Part> = (0..num)
        .map(|i| Part {
            pos: positions[i],
            density: match &grid {
                Some(g) => g[i].density * M_P,
                None => 10f64.powf(rng.range(-25.0, -21.0)),
            },
            // 100 K to 1e5 K
            energy: 10f64.powf(rng.range(6.1, 9.1)),
            electrons: match rng.below(5) {
                0 => 0.0,
                1 => 10f64.powf(rng.range(-13.0, -8.0)),
                2 => rng.range(1.2, 1.5),
                _ => rng.range(0.0, 1.1),
            },
            volume: volumes[i],
            id: ids[i],
        })
        .collect();
    let num_files = ctx.size("files", 1, 4, 40);
    let files = split(ctx, num, num_files);
    let near = |rng: &mut Rng| -> V {
        if rng.chance(0.5) {
            parts[rng.below(num as u64) as usize].pos
        } else {
            std::array::from_fn(|_| length * rng.range(0.001, 0.999))
        }
    };
    let (sources, stars_per_file) = if with_stars {
        let k = ctx.pick("numstars", &[5usize, 1, 0, 2, 20, 60]);
        let cosmo = cosmo.unwrap();
        // Stars of similar age, none of which outshines all the others.
        let group = ctx.chance("coeval", 0.5).then(|| rng.range(5.5, 10.15));
        let stars: Vec<Star> = (0..k)
            .map(|_| {
                let (from, to) = group.map_or((5.5, 10.2), |g| (g, g + 0.1));
                let age = 10f64.powf(rng.range(from, to)) * YEAR;
                let now = cosmic_time(&cosmo, cosmo.a);
                let formation = if rng.chance(0.2) {
                    if rng.chance(0.2) { 0.0 } else { -rng.range(0.0001, 1.0) }
                } else if rng.chance(0.05) {
                    (cosmo.a * 1.01).min(1.0)
                } else if age < 0.95 * now {
                    scale_factor_at(&cosmo, now - age)
                } else {
                    cosmo.a * rng.range(0.3, 0.999)
                };
                Star {
                    pos: near(&mut rng),
                    metallicity: 10f64.powf(rng.range(-6.0, -1.0)),
                    formation,
                    mass: 10f64.powf(rng.range(2.0, 6.0)) * SOLAR,
                }
            })
            .collect();
        let per = split(ctx, k, num_files);
        (Sources::Stars { escape: ctx.pick("escape", &[0.1, 1.0, 0.33]), stars }, per)
    } else {
        let k = ctx.pick("numsources", &[1usize, 0, 2, 5, 20]);
        let strength = rng.range(44.0, 50.0);
        (
            Sources::Explicit((0..k).map(|_| (near(&mut rng), 10f64.powf(strength + rng.range(-1.0, 1.0)))).collect()),
            vec![0; num_files],
        )
    };
    let remap = if with_remap {
        let cosmo = cosmo.unwrap();
        let k = ctx.pick("numold", &[30usize, 1, 2, 5, 100, 200]);
        let a = if rng.chance(0.2) { cosmo.a } else { cosmo.a * rng.range(0.5, 1.0) };
        let corner = rng.chance(0.3);
        let half = rng.chance(0.2);
        let old: Vec<OldPart> = (0..k)
            .map(|i| {
                let p: V = if i < num && rng.chance(0.2) {
                    parts[i].pos
                } else if corner {
                    // everything in a corner of the box
                    std::array::from_fn(|_| length * rng.range(0.0, 0.3))
                } else if half {
                    // half of them beyond the box
                    std::array::from_fn(|_| length * rng.range(-0.1, 1.1))
                } else {
                    std::array::from_fn(|_| length * rng.unit())
                };
                OldPart { pos: p, temp: 10f64.powf(rng.range(1.5, 5.5)), x: if rng.chance(0.3) { rng.unit() } else { 10f64.powf(rng.range(-9.0, -1.0)) } }
            })
            .collect();
        let names: Vec<&[&str]> = vec![&["000", "001", "002"], &["000"], &["9", "10"], &["0", "2", "10", "11"], &["003", "100"], &["000", "999", "1000"], &["0999", "10000"], &["1", "02", "003"]];
        let names = ctx.pick("oldnames", &names);
        let nf = ctx.size("oldfiles", 1, 3, 12);
        let per = split(ctx, k, nf);
        Some(Remap { names: names.iter().map(|s| s.to_string()).collect(), a, parts: old, files: per })
    } else {
        None
    };
    let connections = grid.as_ref().map(|g| make_connections(&mut rng, g, &parts)).unwrap_or_default();
    let x = if ctx.chance("givenx", 0.4) { Some(ctx.pick("x", &[0.1, 1e-6, 0.999, 0.5])) } else { None };
    let max_timestep = ctx.pick("maxdt", &[1e4 * YEAR, 1e5 * YEAR, 1e3 * YEAR]);
    let mut app = App {
        out: ctx.dir.join("out"),
        dir: ctx.dir.clone(),
        comoving_box: cosmo.is_some() && ctx.chance("comoving", 0.5),
        cosmo,
        length,
        parts,
        files,
        stars_per_file,
        in_dir: ctx.chance("indir", 0.4),
        unit_seed: rng.next(),
        sources,
        x,
        remap,
        grid,
        connections,
        directions: ctx.pick("ndirs", &[16usize, 1, 21, 32]),
        levels: ctx.size("levels", 1, 3, 6),
        threshold: 0.0,
        max_timestep,
        final_time: 0.0,
        snapshot_every: 0.0,
        output_files: ctx.size("outfiles", 1, 3, 13),
        overrides: vec![],
        existing: "panic",
        fields: None,
    };
    if app.levels > 1 {
        // Rates far below those of the sources are rounding noise.
        let total: f64 = source_list(&app).iter().map(|s| s.1).sum();
        app.threshold = total * 1e-8 / app.directions as f64 + 1e-30;
    }
    app.final_time = app.max_timestep * ctx.pick("until", &[1.0, 0.1, 2.0, 3.0]);
    app
}

fn make_connections(rng: &mut Rng, cells: &[sw::GCell], parts: &[Part]) -> Vec<Connection> {
    let mut v = vec![];
    for (i, cell) in cells.iter().enumerate() {
        for f in &cell.faces {
            let (j, wrapped) = f.other.unwrap();
            let mut normal = [0.0; 3];
            normal[f.axis] = if f.positive { 1.0 } else { -1.0 };
            // `normal` points out of i.
            let flip = rng.chance(0.5);
            if wrapped {
                // the other side is a periodic image
                v.push(if flip {
                    Connection { id1: parts[i].id, id2: parts[j].id, kind: 4, area: f.area, normal: normal.map(|x| -x) }
                } else {
                    Connection { id1: parts[j].id, id2: parts[i].id, kind: 1, area: f.area, normal }
                });
            } else if i < j {
                v.push(if flip {
                    Connection { id1: parts[i].id, id2: parts[j].id, kind: 0, area: f.area, normal: normal.map(|x| -x) }
                } else {
                    Connection { id1: parts[j].id, id2: parts[i].id, kind: 0, area: f.area, normal }
                });
            }
        }
    }
    // Entries that are to be ignored.
    let junk = if rng.chance(0.5) { rng.below(10) } else { 0 };
    for _ in 0..junk {
        let known = rng.chance(0.7);
        let id = |rng: &mut Rng| if known { parts[rng.below(parts.len() as u64) as usize].id } else { rng.next() >> 1 };
        let kinds = [-1, 2, 8, 10, 5, 3, 6, 9, 12];
        v.push(Connection {
            id1: id(rng),
            id2: id(rng),
            kind: kinds[rng.below(kinds.len() as u64) as usize],
            area: 10f64.powf(rng.range(30.0, 40.0)),
            normal: [rng.range(-1.0, 1.0), rng.range(-1.0, 1.0), rng.range(-1.0, 1.0)],
        });
    }
    rng.shuffle(&mut v);
    v
}

// ------------------------------------------------------------------- writing

fn attr_f(d: &hdf5::Dataset, name: &str, x: f64) {
    d.new_attr::<f64>().shape(()).create(name).unwrap().write_scalar(&x).unwrap();
}
fn attr_i(d: &hdf5::Dataset, name: &str, x: i32) {
    d.new_attr::<i32>().shape(()).create(name).unwrap().write_scalar(&x).unwrap();
}

/// Units of one dataset of a simulation code that writes comoving units.
struct Unit {
    cgs: f64,
    length: i32,
    mass: i32,
    velocity: i32,
    a: i32,
    h: i32,
}

impl Unit {
    fn draw(rng: &mut Rng, cosmo: bool, length: i32, mass: i32, velocity: i32) -> Unit {
        let none = length == 0 && mass == 0 && velocity == 0;
        Unit {
            cgs: if none {
                if rng.chance(0.5) { 0.0 } else { 1.0 }
            } else {
                10f64.powi(rng.below(9) as i32 - 4) * rng.range(0.5, 5.0)
            },
            length,
            mass,
            velocity,
            a: if cosmo && !none { rng.below(7) as i32 - 3 } else { 0 },
            h: if cosmo && !none { rng.below(5) as i32 - 2 } else { 0 },
        }
    }
    fn factor(&self, c: Option<Cosmo>) -> f64 {
        let cgs = if self.cgs == 0.0 { 1.0 } else { self.cgs };
        let si = cgs * 0.01f64.powi(self.length + self.velocity) * 0.001f64.powi(self.mass);
        match c {
            Some(c) => si * c.a.powi(self.a) * c.h.powi(self.h),
            None => si,
        }
    }
    fn put(&self, d: &hdf5::Dataset) {
        attr_f(d, "to_cgs", self.cgs);
        attr_i(d, "length_scaling", self.length);
        attr_i(d, "mass_scaling", self.mass);
        attr_i(d, "velocity_scaling", self.velocity);
        attr_i(d, "a_scaling", self.a);
        attr_i(d, "h_scaling", self.h);
    }
}

fn put(f: &hdf5::File, name: &str, u: &Unit, cosmo: Option<Cosmo>, data: &[f64]) {
    let k = u.factor(cosmo);
    let d = f.new_dataset::<f64>().shape([data.len()]).create(name).unwrap();
    d.write_raw(&data.iter().map(|x| x / k).collect::<Vec<_>>()).unwrap();
    u.put(&d);
}
fn put3(f: &hdf5::File, name: &str, u: &Unit, cosmo: Option<Cosmo>, data: &[V]) {
    let k = u.factor(cosmo);
    let d = f.new_dataset::<f64>().shape([data.len(), 3]).create(name).unwrap();
    d.write_raw(&data.iter().flat_map(|v| v.map(|x| x / k)).collect::<Vec<_>>()).unwrap();
    u.put(&d);
}

fn write_input(app: &App) -> PathBuf {
    let mut rng = Rng::new(app.unit_seed);
    let ics = app.dir.join("ics");
    std::fs::create_dir_all(&ics).unwrap();
    let co = app.cosmo.is_some();
    let mut at = 0;
    let mut star_at = 0;
    for (i, k) in app.files.iter().enumerate() {
        let f = hdf5::File::create(ics.join(format!("snap_099.{i}.hdf5"))).unwrap();
        let p = &app.parts[at..at + k];
        at += k;
        let each = |g: &dyn Fn(&Part) -> f64| p.iter().map(g).collect::<Vec<f64>>();
        if *k > 0 || rng.chance(0.5) {
            put3(&f, "PartType0/Coordinates", &Unit::draw(&mut rng, co, 1, 0, 0), app.cosmo, &p.iter().map(|p| p.pos).collect::<Vec<_>>());
            put(&f, "PartType0/Density", &Unit::draw(&mut rng, co, -3, 1, 0), app.cosmo, &each(&|p| p.density));
            put(&f, "PartType0/InternalEnergy", &Unit::draw(&mut rng, co, 0, 0, 2), app.cosmo, &each(&|p| p.energy));
            if app.x.is_none() || rng.chance(0.5) {
                put(&f, "PartType0/ElectronAbundance", &Unit::draw(&mut rng, co, 0, 0, 0), app.cosmo, &each(&|p| p.electrons));
            }
            put(&f, "PartType0/Masses", &Unit::draw(&mut rng, co, 0, 1, 0), app.cosmo, &each(&|p| p.density * p.volume));
            let d = f.new_dataset::<u64>().shape([p.len()]).create("PartType0/ParticleIDs").unwrap();
            d.write_raw(&p.iter().map(|p| p.id).collect::<Vec<_>>()).unwrap();
        }
        if let Sources::Stars { stars, .. } = &app.sources {
            let k = app.stars_per_file[i];
            let s = &stars[star_at..star_at + k];
            star_at += k;
            // files without stars do not have the group
            if k > 0 {
                put3(&f, "PartType4/Coordinates", &Unit::draw(&mut rng, co, 1, 0, 0), app.cosmo, &s.iter().map(|p| p.pos).collect::<Vec<_>>());
                let each = |g: &dyn Fn(&Star) -> f64| s.iter().map(g).collect::<Vec<f64>>();
                put(&f, "PartType4/GFM_Metallicity", &Unit::draw(&mut rng, co, 0, 0, 0), app.cosmo, &each(&|s| s.metallicity));
                put(&f, "PartType4/GFM_StellarFormationTime", &Unit::draw(&mut rng, co, 0, 0, 0), app.cosmo, &each(&|s| s.formation));
                put(&f, "PartType4/Masses", &Unit::draw(&mut rng, co, 0, 1, 0), app.cosmo, &each(&|s| s.mass));
            }
        }
    }
    if app.grid.is_some() {
        let f = hdf5::File::create(app.dir.join("grid.hdf5")).unwrap();
        let c = &app.connections;
        let ids = |name: &str, v: Vec<u64>| {
            f.new_dataset::<u64>().shape([v.len()]).create(name).unwrap().write_raw(&v).unwrap();
        };
        ids("Id1", c.iter().map(|c| c.id1).collect());
        ids("Id2", c.iter().map(|c| c.id2).collect());
        let v: Vec<i32> = c.iter().map(|c| c.kind).collect();
        f.new_dataset::<i32>().shape([v.len()]).create("ConnectionType").unwrap().write_raw(&v).unwrap();
        put(&f, "Area", &Unit::draw(&mut rng, co, 2, 0, 0), app.cosmo, &c.iter().map(|c| c.area).collect::<Vec<_>>());
        put3(&f, "Normal", &Unit::draw(&mut rng, co, 0, 0, 0), app.cosmo, &c.iter().map(|c| c.normal).collect::<Vec<_>>());
    }
    if let Some(r) = &app.remap {
        write_remap(app, r, &mut rng);
    }
    let params = app.dir.join("params.yml");
    std::fs::write(&params, yaml(app)).unwrap();
    params
}

fn write_remap(app: &App, r: &Remap, rng: &mut Rng) {
    let cosmo = app.cosmo.unwrap();
    let root = app.dir.join("old");
    for (s, name) in r.names.iter().enumerate() {
        let dir = root.join(name);
        std::fs::create_dir_all(&dir).unwrap();
        let (first, last) = (s == 0, s + 1 == r.names.len());
        let mut at = 0;
        for (i, k) in r.files.iter().enumerate() {
            let p = &r.parts[at..at + k];
            at += k;
            let f = hdf5::File::create(dir.join(format!("snapshot.{i}.hdf5"))).unwrap();
            let scale = if first { r.a } else { r.a * 1.01 };
            f.new_attr::<f64>().shape(()).create("scale_factor").unwrap().write_scalar(&scale).unwrap();
            f.new_attr::<f64>().shape(()).create("little_h").unwrap().write_scalar(&cosmo.h).unwrap();
            let dims = |d: &hdf5::Dataset, k: f64, dim: [i32; 4]| {
                attr_f(d, "scale_factor_si", k);
                for (n, x) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dim) {
                    attr_i(d, n, x);
                }
                attr_i(d, "scaling_h", 0);
                attr_i(d, "scaling_a", 0);
            };
            if first {
                let unit = if rng.chance(0.5) { 1.0 } else { 3.0857e19 };
                let d = f.new_dataset::<c::Position>().shape([p.len()]).create("position").unwrap();
                // The box has grown since then.
                let g = r.a / cosmo.a / unit;
                let v: Vec<c::Position> =
                    p.iter().map(|p| c::Position(VecLength::new_unchecked(MVec::new(p.pos[0] * g, p.pos[1] * g, p.pos[2] * g)))).collect();
                d.write_raw(&v).unwrap();
                dims(&d, unit, [1, 0, 0, 0]);
            }
            // Older snapshots are hotter than the last one.
            let t: Vec<f64> = p.iter().map(|p| if last { p.temp } else { 1e7 }).collect();
            let x: Vec<f64> = p.iter().map(|p| if last { p.x } else { 0.9999 }).collect();
            let unit = if rng.chance(0.7) { 1.0 } else { 1000.0 };
            let d = f.new_dataset::<f64>().shape([p.len()]).create("temperature").unwrap();
            d.write_raw(&t.iter().map(|x| x / unit).collect::<Vec<_>>()).unwrap();
            dims(&d, unit, [0, 0, 0, 1]);
            let d = f.new_dataset::<f64>().shape([p.len()]).create("ionized_hydrogen_fraction").unwrap();
            d.write_raw(&x).unwrap();
            dims(&d, 1.0, [0, 0, 0, 0]);
        }
    }
}

fn yaml(app: &App) -> String {
    let mut s = String::new();
    match (app.comoving_box, app.cosmo) {
        (true, Some(c)) => {
            let pc = 3.0857e16;
            let (unit, size) = [
                ("ckpc/h", pc * 1e3 / c.h),
                ("cpc/h", pc / c.h),
                ("cMpc/h", pc * 1e6 / c.h),
            ][(app.unit_seed % 3) as usize];
            s += &format!("box_size: {:e} {unit}\n", app.length / c.a / size)
        }
        _ => s += &format!("box_size: {:e} m\n", app.length),
    }
    match app.cosmo {
        Some(c) => {
            s += &format!("cosmology:\n  a: {}\n  h: {}\n", c.a, c.h);
            s += &format!("  params:\n    omega_0: {}\n    omega_lambda: {}\n", c.omega_0, c.omega_l);
        }
        None => s += "cosmology: null\n",
    }
    let given = |p: PathBuf| crate::w_io::given(&p, app.unit_seed % 4 == 1);
    s += "input:\n  paths:\n";
    if app.in_dir {
        s += &format!("    - {}\n", given(app.dir.join("ics")).display());
    } else {
        for i in 0..app.files.len() {
            s += &format!("    - {}\n", given(app.dir.join("ics").join(format!("snap_099.{i}.hdf5"))).display());
        }
    }
    s += &format!(
        "output:\n  output_dir: {}\n  time_between_snapshots: {:e} s\n  num_output_files: {}\n  handle_existing_output: {}\n",
        given(app.out.clone()).display(),
        app.snapshot_every,
        app.output_files,
        app.existing,
    );
    if let Some(v) = &app.fields {
        s += &format!("  fields: [{}]\n", v.join(", "));
    }
    s += &format!("simulation:\n  final_time: {:e} s\n", app.final_time);
    s += &format!(
        "sweep:\n  directions: {}\n  num_timestep_levels: {}\n  periodic: false\n  max_timestep: {:e} s\n  significant_rate_threshold: {:e} s^-1\n",
        app.directions, app.levels, app.max_timestep, app.threshold
    );
    s += "postprocess:\n";
    if let Some(x) = app.x {
        s += &format!("  initial_fraction_ionized_hydrogen: {x}\n");
    }
    match &app.sources {
        Sources::Explicit(v) => {
            s += "  sources: !explicit";
            s += if v.is_empty() { " []\n" } else { "\n" };
            for (p, r) in v {
                s += &format!("    - pos: ({:e} {:e} {:e}) m\n      rate: {:e} s^-1\n", p[0], p[1], p[2], r);
            }
        }
        Sources::Stars { escape, .. } => s += &format!("  sources: !from_ics\n    escape_fraction: {escape}\n"),
    }
    if app.grid.is_some() {
        s += &format!("  grid: !read {}\n", given(app.dir.join("grid.hdf5")).display());
    } else {
        s += "  grid: construct\n";
    }
    if app.remap.is_some() {
        s += &format!("  remap_from: {}\n", given(app.dir.join("old")).display());
    }
    s
}

// ------------------------------------------------------------------- running

/// Does every simulated rank have a library of its own?
fn separate(ctx: &mut Ctx) -> bool {
    let j = ctx.raw_job(2, Env::default(), |_| {
        let _ = MpiWorld::<usize>::new();
        mpi_sys::initialized_here()
    });
    let ok = j.finished() && j.all().iter().all(|x| *x);
    if !ok {
        ctx.stat("not_separable", 1);
    }
    ok
}

fn start(ctx: &mut Ctx, app: &App, n: usize, env: Env) -> Job<bool> {
    let params = app.dir.join("params.yml");
    let mut args = vec!["subsweep".to_string(), params.display().to_string()];
    args.extend(app.overrides.clone());
    crate::args::set(&args);
    ctx.raw_job(n, env, |_| {
        app::verif::main();
        mpi_sys::finalized_here()
    })
}

fn judge_end(ctx: &mut Ctx, j: &Job<bool>) -> bool {
    ctx.res.evaluations += 1;
    ctx.judge_raw(&j.violations.clone());
    if j.finished() {
        let ok = j.results.iter().all(|x| *x == Some(true));
        return ctx.check("*", ok, "not_finalized", || format!("MPI_Finalize called by the ranks: {:?}", j.results));
    }
    let kind = match &j.outcome {
        Outcome::Panicked(..) => "panic",
        Outcome::Deadlock(_) => "deadlock",
        Outcome::Livelock(_) => "livelock",
        _ => "outcome",
    };
    ctx.fail(kind, describe(&j.outcome));
    false
}

// ------------------------------------------------------------------- reading

/// One snapshot: name of the field to its numbers in the order of the files.
type Snapshot = BTreeMap<String, Vec<f64>>;

/// Fields with their dimension (length, time, mass, temperature) and whether
/// they can change.
const SCALAR: [(&str, [i32; 4], bool); 12] = [
    ("density", [-3, 0, 1, 0], false),
    ("mass", [0, 0, 1, 0], false),
    ("source", [0, -1, 0, 0], false),
    ("temperature", [0, 0, 0, 1], true),
    ("ionized_hydrogen_fraction", [0, 0, 0, 0], true),
    ("photon_rate", [0, -1, 0, 0], true),
    ("timestep", [0, 1, 0, 0], true),
    ("ionization_time", [0, 1, 0, 0], true),
    ("photoionization_rate", [0, -1, 0, 0], true),
    ("heating_rate", [-1, -3, 1, 0], true),
    ("recombination_rate", [0, -1, 0, 0], true),
    ("collisional_ionization_rate", [0, -1, 0, 0], true),
];

fn check_units(d: &hdf5::Dataset, dim: &[i32; 4]) -> Result<(), String> {
    for (name, want) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dim) {
        let x: i32 = d.attr(name).and_then(|x| x.read_scalar()).map_err(|e| format!("{name}: {e:?}"))?;
        if x != *want {
            return Err(format!("{name} is {x} instead of {want}"));
        }
    }
    let f: f64 = d.attr("scale_factor_si").and_then(|x| x.read_scalar()).map_err(|e| format!("factor: {e:?}"))?;
    if f != 1.0 {
        return Err(format!("factor to SI units is {f}"));
    }
    Ok(())
}

fn load(dir: &Path) -> Result<(Vec<V>, Snapshot), String> {
    let mut pos = vec![];
    let mut out = Snapshot::new();
    for name in list(dir) {
        let f = hdf5::File::open(dir.join(&name)).map_err(|e| format!("{name}: {e:?}"))?;
        if let Ok(d) = f.dataset("position") {
            check_units(&d, &[1, 0, 0, 0]).map_err(|e| format!("{name}/position: {e}"))?;
            for p in d.read_raw::<c::Position>().map_err(|e| format!("{name}/position: {e:?}"))?.iter() {
                let p = p.value_unchecked();
                pos.push([p.x, p.y, p.z]);
            }
        }
        for (field, dim, _) in SCALAR {
            if let Ok(d) = f.dataset(field) {
                check_units(&d, &dim).map_err(|e| format!("{name}/{field}: {e}"))?;
                let v = d.read_raw::<f64>().map_err(|e| format!("{name}/{field}: {e:?}"))?;
                out.entry(field.to_string()).or_default().extend(v.iter());
            }
        }
    }
    Ok((pos, out))
}

/// All snapshots, with rows in the order of the particles of the input.
fn results(ctx: &mut Ctx, app: &App) -> Option<Vec<Snapshot>> {
    let dir = app.out.join("snapshots");
    let names = list(&dir);
    let mut order: Vec<usize> = vec![];
    let mut out = vec![];
    for (s, name) in names.iter().enumerate() {
        let (pos, snap) = match load(&dir.join(name)) {
            Ok(x) => x,
            Err(e) => {
                ctx.check("P20,P21,P22,P23,P15,P11", false, "unreadable", || format!("snapshot {name}: {e}"));
                return None;
            }
        };
        if s == 0 {
            let ok = pos.len() == app.parts.len();
            if !ctx.check("P20,P21,P22,P23,P15,P11", ok, "count", || format!("{} particles instead of {}", pos.len(), app.parts.len())) {
                return None;
            }
            let mut taken = vec![false; pos.len()];
            for (row, p) in pos.iter().enumerate() {
                let i = (0..app.parts.len()).min_by(|a, b| {
                    geo::dist2(&app.parts[*a].pos, p).partial_cmp(&geo::dist2(&app.parts[*b].pos, p)).unwrap()
                });
                let i = i.unwrap();
                let d = geo::dist2(&app.parts[i].pos, p).sqrt();
                let ok = d <= 1e-9 * app.length && !taken[i];
                if !ctx.check("P20,P21,P22,P23,P15,P11", ok, "position", || format!("row {row} at {p:?}: the closest particle is {i} at {:?}", app.parts[i].pos)) {
                    return None;
                }
                taken[i] = true;
                order.push(i);
            }
        }
        let mut sorted = Snapshot::new();
        for (k, v) in snap {
            if !ctx.check("P20,P21,P22,P23,P15,P11", v.len() == order.len(), "field_length", || format!("snapshot {name}: {} values of {k}", v.len())) {
                return None;
            }
            let mut w = vec![0.0; v.len()];
            for (row, x) in v.iter().enumerate() {
                w[order[row]] = *x;
            }
            sorted.insert(k, w);
        }
        out.push(sorted);
    }
    if !ctx.check("P20,P21,P22,P23,P15,P11", !out.is_empty(), "no_snapshot", || "no snapshots".into()) {
        return None;
    }
    Some(out)
}

// ------------------------------------------------------------------ judging

fn cosmic_time(c: &Cosmo, a: f64) -> f64 {
    2.0 / (3.0 * c.omega_l.sqrt()) * ((c.omega_l / c.omega_0).sqrt() * a.powf(1.5)).asinh() / (HUBBLE * c.h)
}
fn scale_factor_at(c: &Cosmo, t: f64) -> f64 {
    ((1.5 * c.omega_l.sqrt() * t * HUBBLE * c.h).sinh() / (c.omega_l / c.omega_0).sqrt()).powf(2.0 / 3.0)
}

/// Photons per second of a star.
fn luminosity(c: &Cosmo, s: &Star, escape: f64) -> f64 {
    let age = (cosmic_time(c, c.a) - cosmic_time(c, s.formation)) / YEAR;
    let ages = &table::BPASS_AGE_BINS;
    let mets = &table::BPASS_METALLICITY_BINS;
    let age = age.max(ages[0] * 1.00001).min(ages[ages.len() - 1] / 1.00001);
    let met = s.metallicity.max(mets[0] * 1.00001).min(mets[mets.len() - 1] / 1.00001);
    let place = |bins: &[f64], x: f64| -> (usize, f64) {
        let i = (1..bins.len()).find(|i| bins[*i] > x).unwrap();
        (i - 1, (x - bins[i - 1]) / (bins[i] - bins[i - 1]))
    };
    let (i, u) = place(ages, age);
    let (j, v) = place(mets, met);
    let t = &table::BPASS_TABLE;
    let l = (1.0 - u) * (1.0 - v) * t[i][j] + u * (1.0 - v) * t[i + 1][j] + (1.0 - u) * v * t[i][j + 1] + u * v * t[i + 1][j + 1];
    l * s.mass / SOLAR * escape
}

/// Positions and rates of the sources of the run.
fn source_list(app: &App) -> Vec<(V, f64)> {
    match &app.sources {
        Sources::Explicit(v) => v.clone(),
        Sources::Stars { escape, stars } => {
            let c = app.cosmo.unwrap();
            stars.iter().filter(|s| s.formation > 0.0).map(|s| (s.pos, luminosity(&c, s, *escape))).collect()
        }
    }
}

fn nearest<'a>(p: &V, it: impl Iterator<Item = (usize, &'a V)>) -> (usize, f64, f64) {
    // index, distance, distance to the second
    let (mut i, mut d, mut d2) = (usize::MAX, f64::INFINITY, f64::INFINITY);
    for (k, q) in it {
        let x = geo::dist2(p, q).sqrt();
        if x < d {
            d2 = d;
            d = x;
            i = k;
        } else if x < d2 {
            d2 = x;
        }
    }
    (i, d, d2)
}

/// The state before the first step.
fn judge_initial(ctx: &mut Ctx, app: &App, n: usize, snap: &Snapshot) {
    for k in ["density", "mass", "source", "temperature", "ionized_hydrogen_fraction", "photon_rate"] {
        if !ctx.check("P20,P21,P22,P23", snap.contains_key(k), "field", || format!("no {k} in the first snapshot")) {
            return;
        }
    }
    let old: Vec<V> = app.remap.as_ref().map(|r| r.parts.iter().map(|p| p.pos).collect()).unwrap_or_default();
    for (i, p) in app.parts.iter().enumerate() {
        let x0 = app.x.unwrap_or((0.76 * p.electrons).max(1e-10).min(1.0 - 1e-10));
        let t0 = 2.0 / 3.0 * p.energy * M_P / (K_B * (1.0 + x0));
        let (mut x, mut t, mut sure) = (x0, t0, true);
        let (gx, gt) = (snap["ionized_hydrogen_fraction"][i], snap["temperature"][i]);
        if let Some(r) = &app.remap {
            let (k, d, d2) = nearest(&p.pos, old.iter().enumerate());
            sure = d2 - d > 1e-9 * app.length;
            x = x.max(r.parts[k].x);
            t = t.max(r.parts[k].temp);
            if sure {
                let ok = close(gx, x, 1e-9, 0.0) && close(gt, t, 1e-9, 0.0);
                ctx.check("P21", ok, "remapped", || {
                    format!("particle {i} at {:?}: x {gx:e} T {gt:e}, expected x {x:e} (own {x0:e}) T {t:e} (own {t0:e}) from old particle {k} at distance {d:e}", p.pos)
                });
            }
        }
        if app.remap.is_none() && sure {
            ctx.check("P20", close(gx, x, 1e-9, 0.0), "fraction", || format!("particle {i}: ionized fraction {gx:e}, expected {x:e}"));
            ctx.check("P20", close(gt, t, 1e-8, 0.0), "temperature", || format!("particle {i}: temperature {gt:e}, expected {t:e}"));
        }
        let got = snap["density"][i];
        ctx.check("P20", close(got, p.density, 1e-9, 0.0), "density", || format!("particle {i}: density {got:e}, expected {:e}", p.density));
        let (got, want) = (snap["mass"][i], p.density * p.volume);
        ctx.check("P20,P22", close(got, want, 1e-6, 0.0), "mass", || format!("particle {i}: mass {got:e}, expected {want:e}"));
        let got = snap["photon_rate"][i];
        ctx.check("P20", got == 0.0, "photon_rate", || format!("particle {i}: photon rate {got:e} before the first sweep"));
        if ctx.has_failed() {
            return;
        }
    }
    // Sources
    let sources = source_list(app);
    let total: f64 = sources.iter().map(|s| s.1).sum();
    let got: f64 = snap["source"].iter().sum();
    let props = match app.sources {
        Sources::Explicit(_) => "P20",
        _ => "P23",
    };
    ctx.check(props, close(got, total, 1e-6, 0.0), "luminosity", || format!("the sources of the particles add up to {got:e}, expected {total:e}"));
    if n == 1 {
        let mut want = vec![0.0; app.parts.len()];
        let mut sure = true;
        for (p, r) in &sources {
            let (k, d, d2) = nearest(p, app.parts.iter().map(|p| &p.pos).enumerate());
            sure &= d2 - d > 1e-9 * app.length;
            want[k] += r;
        }
        if sure {
            for (i, w) in want.iter().enumerate() {
                let got = snap["source"][i];
                ctx.check(props, close(got, *w, 1e-6, 0.0), "source", || format!("particle {i}: source {got:e}, expected {w:e}"));
            }
        }
    }
}

/// Photon rates after the first step, against an independent solution on the
/// grid in the file.
fn judge_transport(ctx: &mut Ctx, app: &App, snaps: &[Snapshot]) {
    let Some(grid) = &app.grid else { return };
    if snaps.len() < 2 {
        return;
    }
    let mut cells = grid.clone();
    for (i, cell) in cells.iter_mut().enumerate() {
        for f in &mut cell.faces {
            if f.other.unwrap().1 {
                f.other = None;
            }
        }
        cell.source = snaps[0]["source"][i];
    }
    let total: f64 = cells.iter().map(|c| c.source).sum();
    let mut s = sw::plain_setup(cells, app.length);
    s.threshold = app.threshold;
    let dirs = if app.directions == 1 { vec![[1.0, 0.0, 0.0]] } else { sw::reference_bins(app.directions) };
    let t = sw::transport(&s, &dirs, &snaps[0]["ionized_hydrogen_fraction"]);
    let Some(rates) = snaps[1].get("photon_rate") else {
        ctx.check("P22,P20", false, "field", || "no photon_rate in the second snapshot".into());
        return;
    };
    for i in 0..rates.len() {
        let ok = close(rates[i], t.arriving[i], 1e-5, 1e-9 * total);
        ctx.check("P22", ok, "transport", || {
            format!("particle {i}: photon rate {:e} after the first step, expected {:e} (sources {total:e})", rates[i], t.arriving[i])
        });
    }
}

fn judge_series(ctx: &mut Ctx, app: &App) {
    let path = app.out.join("time_series");
    let Some(name) = list(&path).into_iter().find(|n| n.starts_with("total_luminosity")) else {
        ctx.check("P20,P23", false, "series", || format!("no time series of the luminosity: {:?}", list(&path)));
        return;
    };
    let text = std::fs::read_to_string(path.join(name)).unwrap_or_default();
    let total: f64 = source_list(app).iter().map(|s| s.1).sum();
    let v = parse_series(&text).and_then(|v| v.iter().map(|x| quantity(&x.1)).collect::<Result<Vec<f64>, _>>());
    let ok = matches!(&v, Ok(v) if v.len() == 1 && close(v[0], total, 1e-6, 0.0));
    ctx.check("P20,P23", ok, "series", || format!("time series of the luminosity: {v:?}, expected {total:e}"));
}

/// Every requested field is there, in each snapshot if it can change.
fn judge_fields(ctx: &mut Ctx, app: &App, snaps: &[Snapshot]) {
    for (s, snap) in snaps.iter().enumerate() {
        for (name, _, changes) in SCALAR {
            let wanted = app.fields.as_ref().map_or(true, |v| v.contains(&name));
            let have = snap.contains_key(name);
            let ok = if wanted { have || (s > 0 && !changes) } else { !have };
            ctx.check("P11", ok, "fields", || {
                format!("snapshot {s}: field {name} {}, fields asked for: {:?}", if have { "written" } else { "missing" }, app.fields)
            });
        }
    }
}

/// Times of the snapshots.
fn times(app: &App) -> Vec<f64> {
    let dir = app.out.join("snapshots");
    list(&dir)
        .iter()
        .map(|name| {
            let d = dir.join(name);
            let f = list(&d).first().and_then(|f| hdf5::File::open(d.join(f)).ok());
            f.and_then(|f| f.attr("time").ok()).and_then(|a| a.read_scalar::<f64>().ok()).unwrap_or(f64::NAN)
        })
        .collect()
}

/// From one snapshot to the next (all steps are written).
fn judge_history(ctx: &mut Ctx, app: &App, snaps: &[Snapshot]) {
    let times = times(app);
    let ok = times[0] == 0.0 && times.windows(2).all(|w| w[0] < w[1]);
    ctx.check("P07,P13", ok, "time", || format!("times of the snapshots: {times:?}"));
    for i in 0..app.parts.len() {
        let mut set = f64::INFINITY;
        for (s, snap) in snaps.iter().enumerate() {
            let (Some(x), Some(t)) = (snap.get("ionized_hydrogen_fraction"), snap.get("ionization_time")) else { continue };
            if s > 0 && x[i] > 0.5 && set.is_infinite() {
                set = times[s];
            }
            ctx.check("P19", t[i] == set || close(t[i], set, 1e-12, 0.0), "ionization_time", || {
                format!("snapshot {s}, particle {i}: ionization time {:e} instead of {set:e} (ionized fraction {:e})", t[i], x[i])
            });
        }
    }
}

fn judge_all(ctx: &mut Ctx, app: &App, n: usize) -> Option<Vec<Snapshot>> {
    let snaps = results(ctx, app)?;
    judge_initial(ctx, app, n, &snaps[0]);
    judge_transport(ctx, app, &snaps);
    judge_series(ctx, app);
    judge_fields(ctx, app, &snaps);
    judge_history(ctx, app, &snaps);
    Some(snaps)
}

fn go(ctx: &mut Ctx, w: Want, max_ranks: usize) {
    if !separate(ctx) {
        return;
    }
    let construct = w.construct;
    let mut tries = 0;
    let mut app = make(ctx, w);
    let n = ctx.size("ranks", 1, max_ranks, 14).min(app.parts.len());
    loop {
        ctx.desc(format!("{n} ranks, {}", app.describe()));
        write_input(&app);
        let mut env = ctx.env(n);
        env.permute_readdir = ctx.chance("readdir", 0.3);
        let j = start(ctx, &app, n, env);
        if construct && matches!(j.outcome, Outcome::Panicked(..)) {
            // A set of points may be refused, but not several in a row with all else unchanged.
            ctx.stat("refused", 1);
            tries += 1;
            if !ctx.check("*", tries < 5, "always_refused", || format!("{tries} even sets of points in a row refused, at last: {}", describe(&j.outcome))) {
                return;
            }
            for d in ["ics", "out", "old"] {
                let _ = std::fs::remove_dir_all(ctx.dir.join(d));
            }
            let (pos, vol) = even_points(&mut ctx.rng("again"), app.length);
            for ((part, pos), vol) in app.parts.iter_mut().zip(pos).zip(vol) {
                (part.pos, part.volume) = (pos, vol);
            }
            continue;
        }
        if !judge_end(ctx, &j) {
            return;
        }
        ctx.res.nontrivial = n > 1;
        judge_all(ctx, &app, n);
        return;
    }
}

fn app(ctx: &mut Ctx) {
    go(ctx, Want { construct: false, remap: 0.2, stars: 0.2, max_cells: 50 }, 6);
}
fn app_construct(ctx: &mut Ctx) {
    go(ctx, Want { construct: true, remap: 0.2, stars: 0.2, max_cells: 0 }, 4);
}
fn app_remap(ctx: &mut Ctx) {
    go(ctx, Want { construct: false, remap: 1.0, stars: 0.1, max_cells: 80 }, 6);
}
fn app_stars(ctx: &mut Ctx) {
    go(ctx, Want { construct: false, remap: 0.1, stars: 1.0, max_cells: 30 }, 6);
}

/// The same input on one rank and on several.
fn app_ranks(ctx: &mut Ctx) {
    if !separate(ctx) {
        return;
    }
    let mut app = make(ctx, Want { construct: false, remap: 0.4, stars: 0.4, max_cells: 40 });
    let n = ctx.size("ranks", 2, 6, 14).min(app.parts.len());
    ctx.desc(format!("{n} ranks, {}", app.describe()));
    write_input(&app);
    let j = start(ctx, &app, 1, Env::default());
    if !judge_end(ctx, &j) {
        return;
    }
    let Some(one) = judge_all(ctx, &app, 1) else { return };
    app.out = app.dir.join("out2");
    write_input(&app);
    let mut env = ctx.env(n);
    env.permute_readdir = ctx.chance("readdir", 0.3);
    let j = start(ctx, &app, n, env);
    if !judge_end(ctx, &j) {
        return;
    }
    let Some(many) = judge_all(ctx, &app, n) else { return };
    ctx.res.nontrivial = n > 1;
    compare(ctx, &app, n, &one, &many);
}

/// Are there two old particles at the same distance? Either may be taken.
fn ambiguous(app: &App) -> bool {
    let Some(r) = &app.remap else { return false };
    app.parts.iter().any(|p| {
        let (_, d, d2) = nearest(&p.pos, r.parts.iter().map(|p| &p.pos).enumerate());
        d2 - d <= 1e-9 * app.length
    })
}

fn compare(ctx: &mut Ctx, app: &App, n: usize, one: &[Snapshot], many: &[Snapshot]) {
    if !ctx.check("P05,P20", one.len() == many.len(), "snapshots", || format!("{} snapshots on one rank, {} on {n}", one.len(), many.len())) {
        return;
    }
    if ambiguous(app) {
        ctx.stat("ambiguous", 1);
        return;
    }
    // A source goes to the closest particle of the rank its position belongs to.
    let (a, b) = (one[0].get("source"), many[0].get("source"));
    let (Some(a), Some(b)) = (a, b) else { return };
    if a.iter().zip(b).any(|(x, y)| !close(*x, *y, 1e-9, 0.0)) {
        ctx.stat("sources_moved", 1);
        return;
    }
    let total: f64 = a.iter().sum();
    for (s, (a, b)) in one.iter().zip(many).enumerate() {
        ctx.check("P05,P20", a.keys().eq(b.keys()), "fields", || format!("snapshot {s}: fields {:?} on one rank, {:?} on {n}", a.keys(), b.keys()));
        for (k, rel, abs) in [("photon_rate", 1e-5, 1e-9 * total), ("ionized_hydrogen_fraction", 1e-4, 1e-12), ("temperature", 1e-4, 0.0)] {
            let (Some(x), Some(y)) = (a.get(k), b.get(k)) else { continue };
            for i in 0..app.parts.len() {
                ctx.check("P05,P20,P21", close(x[i], y[i], rel, abs), "rank_count", || {
                    format!("snapshot {s}, particle {i}: {k} {:e} on one rank, {:e} on {n}", x[i], y[i])
                });
            }
            if ctx.has_failed() {
                return;
            }
        }
    }
}

/// The same input with all and with only some fields in the output.
fn app_fields(ctx: &mut Ctx) {
    if !separate(ctx) {
        return;
    }
    let mut app = make(ctx, Want { construct: false, remap: 0.1, stars: 0.2, max_cells: 30 });
    let n = ctx.int("ranks", 1, 5).min(app.parts.len());
    write_input(&app);
    let j = start(ctx, &app, n, Env::default());
    if !judge_end(ctx, &j) {
        return;
    }
    let Some(all) = judge_all(ctx, &app, n) else { return };
    let series = all_series(&app);
    app.out = app.dir.join("out2");
    let mut rng = ctx.rng("fieldseed");
    let share = rng.unit();
    let mut fields: Vec<&str> = SCALAR.iter().map(|f| f.0).filter(|_| rng.chance(share)).collect();
    fields.push("position");
    if !fields.contains(&"source") && rng.chance(0.8) {
        fields.push("source");
    }
    rng.shuffle(&mut fields);
    app.fields = Some(fields);
    app.output_files = ctx.size("outfiles2", 1, 3, 13);
    let m = ctx.int("ranks2", 1, 5).min(app.parts.len());
    ctx.desc(format!("{n} ranks, then {m} with only {:?}; {}", app.fields, app.describe()));
    write_input(&app);
    let env = ctx.env(m);
    let j = start(ctx, &app, m, env);
    if !judge_end(ctx, &j) {
        return;
    }
    ctx.res.nontrivial = m > 1;
    let Some(some) = results(ctx, &app) else { return };
    judge_fields(ctx, &app, &some);
    if !ctx.check("P11", all.len() == some.len(), "snapshots", || format!("{} snapshots with all fields, {} with some", all.len(), some.len())) {
        return;
    }
    let total: f64 = source_list(&app).iter().map(|s| s.1).sum();
    let other = all_series(&app);
    // Ties may be decided otherwise.
    let same = match (all[0].get("source"), some[0].get("source")) {
        (Some(a), Some(b)) => a.iter().zip(b).all(|(x, y)| close(*x, *y, 1e-9, 0.0)),
        _ => false,
    };
    if same && !ambiguous(&app) {
        for (s, (a, b)) in all.iter().zip(&some).enumerate() {
            for (k, y) in b {
                let Some(x) = a.get(k) else { continue };
                if ["timestep", "ionization_time", "heating_rate", "recombination_rate"].contains(&k.as_str()) {
                    continue;
                }
                let abs = if k == "photon_rate" { 1e-9 * total } else { 1e-30 };
                for i in 0..app.parts.len() {
                    ctx.check("P11", close(x[i], y[i], 1e-4, abs) || k.ends_with("rate") && s == 0, "content", || {
                        format!("snapshot {s}, particle {i}: {k} is {:e} with all fields and {:e} with some", x[i], y[i])
                    });
                }
            }
        }
        let ok = series.keys().eq(other.keys());
        ctx.check("P17", ok, "series", || format!("series with all fields {:?}, with some {:?}", series.keys(), other.keys()));
        for (k, a) in &series {
            let Some(b) = other.get(k) else { continue };
            let ok = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(x.0, y.0, 1e-9, 0.0) && close(x.1, y.1, 1e-4, 1e-30));
            ctx.check("P17", ok, "series", || format!("{k}: {a:?} with all fields and {b:?} with some"));
        }
    }
}

/// All series of numbers.
fn all_series(app: &App) -> BTreeMap<String, Vec<(f64, f64)>> {
    let path = app.out.join("time_series");
    let mut out = BTreeMap::new();
    for name in list(&path) {
        let text = std::fs::read_to_string(path.join(&name)).unwrap_or_default();
        if let Ok(v) = parse_series(&text) {
            let v: Result<Vec<(f64, f64)>, String> = v.iter().map(|x| Ok((x.0, quantity(&x.1)?))).collect();
            if let Ok(v) = v {
                out.insert(name, v);
            }
        }
    }
    out
}

fn app_faults(ctx: &mut Ctx) {
    if !separate(ctx) {
        return;
    }
    let mut app = make(ctx, Want { construct: false, remap: 0.3, stars: 0.3, max_cells: 20 });
    let n = ctx.int("ranks", 1, 4).min(app.parts.len());
    ctx.desc(format!("{n} ranks, {}", app.describe()));
    write_input(&app);
    let env = ctx.env(n);
    let calm = env.clone();
    let j = start(ctx, &app, n, env);
    if !judge_end(ctx, &j) {
        return;
    }
    let ops = crate::over::num_ops().max(1);
    let bytes = crate::over::num_bytes();
    let calls = j.calls.clone();
    let Some(good) = judge_all(ctx, &app, n) else { return };
    app.out = app.dir.join("out2");
    write_input(&app);
    let mut env = calm;
    let kind = ctx.int("fault", 0, 4);
    let what = match kind {
        0 => {
            let at = ctx.int("failat", 1, ops as usize) as u64;
            env.fail_write_at = Some(at);
            env.fail_kind = ctx.int("failkind", 0, 4) as u64;
            format!("operation {at} of {ops} on the disk fails")
        }
        1 => {
            let cap = ctx.int("capacity", 0, bytes as usize) as u64;
            env.disk_capacity = Some(cap);
            format!("disk full after {cap} of {bytes} bytes")
        }
        2 => {
            env.p_disk_error = ctx.pick("diskrate", &[0.01, 0.003]);
            "random disk errors".to_string()
        }
        3 => {
            let r = ctx.int("crashrank", 0, n - 1);
            let at = ctx.int("crashat", 1, calls[r].max(2) as usize);
            env.crash = Some((r, at as u64));
            format!("rank {r} dies in call {at}")
        }
        _ => {
            env.p_short = 0.05;
            "short and interrupted reads and writes".to_string()
        }
    };
    ctx.desc(what.clone());
    let j = start(ctx, &app, n, env);
    ctx.res.nontrivial = true;
    ctx.judge_raw(&j.violations.clone());
    match &j.outcome {
        Outcome::Finished => {
            ctx.stat("finished_despite", 1);
            if let Some(r) = results(ctx, &app) {
                judge_same(ctx, &app, &good, &r, &what);
            }
        }
        Outcome::Panicked(..) | Outcome::Aborted(_) if kind <= 2 => ctx.stat("ended_with_error", 1),
        Outcome::Crashed(_) if kind == 3 => ctx.stat("killed", 1),
        o => {
            let m = format!("{what}: {}", describe(o));
            ctx.check("P15", false, "bad_end", || m);
        }
    }
    // Start again over what is left.
    app.existing = "delete";
    write_input(&app);
    let env = ctx.env(n);
    let j = start(ctx, &app, n, env);
    if !judge_end(ctx, &j) {
        return;
    }
    if let Some(r) = results(ctx, &app) {
        judge_same(ctx, &app, &good, &r, "started again");
    }
}

fn judge_same(ctx: &mut Ctx, app: &App, good: &[Snapshot], r: &[Snapshot], what: &str) {
    ctx.check("P15", good.len() == r.len(), "snapshots", || format!("{what}: {} snapshots instead of {}", r.len(), good.len()));
    let total: f64 = good[0].get("source").map_or(0.0, |v| v.iter().sum());
    if let (Some(a), Some(b)) = (good[0].get("source"), r[0].get("source")) {
        let sum: f64 = b.iter().sum();
        ctx.check("P15", close(sum, total, 1e-9, 0.0), "content", || format!("{what}: sources add up to {sum:e} instead of {total:e}"));
        if a.iter().zip(b).any(|(x, y)| !close(*x, *y, 1e-9, 0.0)) {
            // A source at the same distance from two particles of its rank.
            ctx.stat("sources_moved", 1);
            return;
        }
    }
    if ambiguous(app) {
        ctx.stat("ambiguous", 1);
        return;
    }
    for (s, (a, b)) in good.iter().zip(r).enumerate() {
        ctx.check("P15", a.keys().eq(b.keys()), "fields", || format!("{what}: snapshot {s}: fields {:?} instead of {:?}", b.keys(), a.keys()));
        for (k, x) in a {
            let Some(y) = b.get(k) else { continue };
            let abs = if k == "photon_rate" { 1e-9 * total } else { 0.0 };
            for i in 0..app.parts.len() {
                let loose = !["density", "mass", "source", "temperature", "ionized_hydrogen_fraction", "photon_rate"].contains(&k.as_str());
                ctx.check("P15", loose || close(x[i], y[i], 1e-4, abs.max(1e-12)), "content", || {
                    format!("{what}: snapshot {s}, particle {i}: {k} {:e} instead of {:e}", y[i], x[i])
                });
            }
        }
    }
}
