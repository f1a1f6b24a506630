//! Workload on parameters: files, command line overrides, the record of the
//! parameters used, and running again from that record.
use std::cell::RefCell;
use std::rc::Rc;

use bevy_ecs::prelude::*;
use clap::Parser;
use derive_custom::subsweep_parameters;
use derive_traits::SubsweepParameters;
use serde_yaml::Mapping;
use serde_yaml::Value;
use simcore::choice::Rng;
use simcore::sched::Outcome;
use subsweep::components as c;
use subsweep::io::input::NumParticlesTotal;
use subsweep::parameters::Cosmology;
use subsweep::parameters::OutputParameters;
use subsweep::parameters::SimulationBoxParameters;
use subsweep::parameters::SimulationParameters;
use subsweep::parameters::SweepParameters;
use subsweep::prelude::*;
use subsweep::units::*;
use subsweep::verif::command_line_options::CommandLineOptions;

use crate::ctx::describe;
use crate::ctx::Ctx;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![Workload { name: "params", run: params }]
}

#[subsweep_parameters("verif_a")]
struct A {
    x: f64,
    n: usize,
    name: String,
    opt: Option<i64>,
    inner: Inner,
    #[serde(default = "default_size")]
    size: Length,
}

#[subsweep_parameters]
struct Inner {
    u: usize,
    deep: Deep,
    #[serde(default)]
    list: Vec<i64>,
}

#[subsweep_parameters]
struct Deep {
    v: i64,
    #[serde(default)]
    w: bool,
}

fn default_size() -> Length {
    Length::kilometers(2.5)
}

/// Everything may be left out.
#[subsweep_parameters("verif_b")]
struct B {
    #[serde(default)]
    p: usize,
    #[serde(default = "default_q")]
    q: Time,
    #[serde(default)]
    frac: Dimensionless,
    #[serde(default)]
    flag: bool,
    #[serde(default)]
    deep: Option<Deep>,
}

fn default_q() -> Time {
    Time::years(3.0)
}

#[subsweep_parameters("verif_d")]
struct D(i64);

#[derive(Clone, Debug)]
enum Ty {
    Int,
    UInt,
    Float,
    Bool,
    Str,
    /// One of these words.
    Word(&'static [&'static str]),
    Ints,
    /// Symbols and their factors.
    Qty(&'static [(&'static str, f64)]),
    Opt(Box<Ty>),
    Map(Vec<Field>),
}

#[derive(Clone, Debug)]
struct Field {
    name: &'static str,
    ty: Ty,
    /// None: required.
    default: Option<Value>,
}

/// Quantities of all kinds, looked at in SI units.
#[subsweep_parameters("verif_u")]
struct U {
    length: Option<Length>,
    time: Option<Time>,
    mass: Option<Mass>,
    velocity: Option<Velocity>,
    energy: Option<Energy>,
    temperature: Option<Temperature>,
    area: Option<Area>,
    volume: Option<Volume>,
    density: Option<Density>,
    rate: Option<Rate>,
}

impl U {
    fn si(&self) -> Value {
        let mut m = Mapping::new();
        let mut put = |k: &str, v: Option<f64>| m.insert(k.into(), v.map_or(Value::Null, Into::into));
        put("length", self.length.map(|x| x.value_unchecked()));
        put("time", self.time.map(|x| x.value_unchecked()));
        put("mass", self.mass.map(|x| x.value_unchecked()));
        put("velocity", self.velocity.map(|x| x.value_unchecked()));
        put("energy", self.energy.map(|x| x.value_unchecked()));
        put("temperature", self.temperature.map(|x| x.value_unchecked()));
        put("area", self.area.map(|x| x.value_unchecked()));
        put("volume", self.volume.map(|x| x.value_unchecked()));
        put("density", self.density.map(|x| x.value_unchecked()));
        put("rate", self.rate.map(|x| x.value_unchecked()));
        Value::Mapping(m)
    }
}

const TIME: &[(&str, f64)] = &[
    ("s", 1.0),
    ("yr", 3.15576e7),
    ("Myr", 3.15576e13),
    ("ms", 1e-3),
    ("µs", 1e-6),
    ("ns", 1e-9),
    ("kyr", 3.15576e10),
    ("Gyr", 3.15576e16),
];
const LEN: &[(&str, f64)] = &[
    ("m", 1.0),
    ("km", 1e3),
    ("kpc", 3.0857e19),
    ("cm", 1e-2),
    ("pc", 3.0857e16),
    ("Mpc", 3.0857e22),
    ("Gpc", 3.0857e25),
];
const MASS: &[(&str, f64)] = &[("kg", 1.0), ("g", 1e-3), ("Msol", 1.988477e30)];
const VELOCITY: &[(&str, f64)] = &[("m/s", 1.0)];
const ENERGY: &[(&str, f64)] = &[("eV", 1.602176634e-19)];
const TEMPERATURE: &[(&str, f64)] = &[("K", 1.0)];
const AREA: &[(&str, f64)] = &[("cm^2", 1e-4)];
const VOLUME: &[(&str, f64)] = &[("m^3", 1.0), ("cm^3", 1e-6)];
const DENSITY: &[(&str, f64)] = &[("g/cm^3", 1e3)];
const RATE: &[(&str, f64)] = &[("s^-1", 1.0)];

fn f(name: &'static str, ty: Ty) -> Field {
    let default = if matches!(ty, Ty::Opt(_)) { Some(Value::Null) } else { None };
    Field { name, ty, default }
}

fn fd(name: &'static str, ty: Ty, default: impl Into<Value>) -> Field {
    Field { name, ty, default: Some(default.into()) }
}

/// Sections that a run may have, with what they contain.
fn schema() -> Vec<Field> {
    let deep = || Ty::Map(vec![f("v", Ty::Int), fd("w", Ty::Bool, false)]);
    let none = || Value::Sequence(vec![]);
    let inner = Ty::Map(vec![f("u", Ty::UInt), f("deep", deep()), fd("list", Ty::Ints, none())]);
    vec![
        f(
            "verif_a",
            Ty::Map(vec![
                f("x", Ty::Float),
                f("n", Ty::UInt),
                f("name", Ty::Str),
                f("opt", Ty::Opt(Box::new(Ty::Int))),
                f("inner", inner),
                fd("size", Ty::Qty(LEN), "2500.0 m"),
            ]),
        ),
        fd(
            "verif_b",
            Ty::Map(vec![
                fd("p", Ty::UInt, 0),
                fd("q", Ty::Qty(TIME), format!("{:?} s", 3.0 * 3.15576e7)),
                fd("frac", Ty::Float, 0.0),
                fd("flag", Ty::Bool, false),
                f("deep", Ty::Opt(Box::new(deep()))),
            ]),
            Mapping::new(),
        ),
        f("verif_d", Ty::Int),
        fd(
            "verif_u",
            Ty::Map(
                [
                    ("length", LEN),
                    ("time", TIME),
                    ("mass", MASS),
                    ("velocity", VELOCITY),
                    ("energy", ENERGY),
                    ("temperature", TEMPERATURE),
                    ("area", AREA),
                    ("volume", VOLUME),
                    ("density", DENSITY),
                    ("rate", RATE),
                ]
                .map(|(n, u)| f(n, Ty::Opt(Box::new(Ty::Qty(u)))))
                .to_vec(),
            ),
            Mapping::new(),
        ),
        f(
            "sweep",
            Ty::Map(vec![
                f("directions", Ty::UInt),
                f("num_timestep_levels", Ty::UInt),
                f("periodic", Ty::Bool),
                f("max_timestep", Ty::Qty(TIME)),
                fd("rotate_directions", Ty::Bool, false),
                fd("significant_rate_threshold", Ty::Qty(RATE), "0.0 s^-1"),
                fd("timestep_safety_factor", Ty::Float, 0.1),
                fd("chemistry_timestep_safety_factor", Ty::Float, 0.1),
                fd("check_deadlock", Ty::Bool, false),
                fd("prevent_cooling", Ty::Bool, true),
                fd("num_tasks_to_solve_before_send_receive", Ty::UInt, 10000),
            ]),
        ),
        f("cosmology", cosmology()),
        f("box_size", Ty::Qty(LEN)),
        fd(
            "output",
            Ty::Map(vec![
                fd("time_between_snapshots", Ty::Qty(TIME), "0.0 s"),
                f("time_first_snapshot", Ty::Opt(Box::new(Ty::Qty(TIME)))),
                fd("snapshots_dir", Ty::Str, "snapshots"),
                fd("time_series_dir", Ty::Str, "time_series"),
                fd("snapshot_padding", Ty::UInt, 3),
                fd("handle_existing_output", Ty::Word(&["panic", "delete", "overwrite"]), "panic"),
                fd("performance_data_filename", Ty::Str, "performance.yml"),
                fd("num_output_files", Ty::UInt, 1),
                fd("used_parameters_filename", Ty::Str, "parameters.yml"),
                fd("fields", Ty::Opt(Box::new(Ty::Str)), Value::Null),
                f("output_dir", Ty::Str),
            ]),
            Mapping::new(),
        ),
        fd("simulation", Ty::Map(vec![f("final_time", Ty::Opt(Box::new(Ty::Qty(TIME))))]), Mapping::new()),
    ]
}

fn cosmology() -> Ty {
    Ty::Opt(Box::new(Ty::Map(vec![
        f("a", Ty::Float),
        f("h", Ty::Float),
        f("params", Ty::Opt(Box::new(Ty::Map(vec![f("omega_0", Ty::Float), f("omega_lambda", Ty::Float)])))),
    ])))
}

fn number(rng: &mut Rng) -> f64 {
    // Text that reads back as the same number.
    let x = match rng.below(5) {
        0 => rng.below(100) as f64,
        1 => rng.unit(),
        2 => 10f64.powf(rng.range(-12.0, 12.0)),
        3 => -rng.unit() * 100.0,
        _ => 0.1 * rng.below(100) as f64,
    };
    format!("{x:?}").parse().unwrap()
}

fn value(rng: &mut Rng, ty: &Ty) -> Value {
    match ty {
        Ty::Int => (rng.below(2000) as i64 - 1000).into(),
        Ty::UInt => (1 + rng.below(50)).into(),
        // also without a decimal point
        Ty::Float => {
            if rng.chance(0.2) {
                (rng.below(9) as i64).into()
            } else {
                number(rng).into()
            }
        }
        Ty::Bool => rng.chance(0.5).into(),
        Ty::Str => {
            let words = ["alpha", "b_2", "data", "x.yml", "two words", "7up", "Ünïcode", "no-op"];
            format!("{}{}", words[rng.below(words.len() as u64) as usize], rng.below(10)).into()
        }
        Ty::Word(w) => w[rng.below(w.len() as u64) as usize].into(),
        Ty::Ints => Value::Sequence((0..rng.below(4)).map(|_| (rng.below(9) as i64).into()).collect()),
        Ty::Qty(u) => format!("{:?} {}", number(rng), u[rng.below(u.len() as u64) as usize].0).into(),
        Ty::Opt(t) => {
            if rng.chance(0.3) {
                Value::Null
            } else {
                value(rng, t)
            }
        }
        Ty::Map(fields) => {
            let mut m = Mapping::new();
            for x in fields {
                if x.default.is_none() || rng.chance(0.5) {
                    m.insert(x.name.into(), value(rng, &x.ty));
                }
            }
            Value::Mapping(m)
        }
    }
}

/// What the code has to make of a value: defaults filled in, quantities in
/// base units. None: the value has to be refused.
fn normal(v: &Value, ty: &Ty) -> Option<Value> {
    match ty {
        Ty::Int => v.as_i64().map(Into::into),
        Ty::UInt => v.as_u64().map(Into::into),
        Ty::Float => v.as_f64().map(Into::into),
        Ty::Bool => v.as_bool().map(Into::into),
        Ty::Str => v.as_str().map(Into::into),
        Ty::Word(w) => v.as_str().filter(|x| w.contains(x)).map(Into::into),
        Ty::Ints => v.as_sequence().filter(|s| s.iter().all(|x| x.is_i64())).map(|s| Value::Sequence(s.clone())),
        Ty::Qty(units) => {
            let s = v.as_str()?;
            let (x, unit) = s.split_once(' ')?;
            let (_, factor) = units.iter().find(|u| u.0 == unit)?;
            Some((x.parse::<f64>().ok()? * factor).into())
        }
        Ty::Opt(t) => {
            if v.is_null() {
                Some(Value::Null)
            } else {
                normal(v, t)
            }
        }
        Ty::Map(fields) => {
            let m = v.as_mapping()?;
            let mut out = Mapping::new();
            for x in fields {
                let v = match m.get(x.name) {
                    Some(v) => v.clone(),
                    None => x.default.clone()?,
                };
                out.insert(x.name.into(), normal(&v, &x.ty)?);
            }
            if m.keys().any(|k| !fields.iter().any(|x| Some(x.name) == k.as_str())) {
                return None;
            }
            Some(Value::Mapping(out))
        }
    }
}

fn set(v: &mut Value, keys: &[String], to: &Value) -> bool {
    if keys.is_empty() {
        *v = to.clone();
        return true;
    }
    let Some(m) = v.as_mapping_mut() else { return false };
    let k = Value::String(keys[0].clone());
    if !m.contains_key(&k) {
        m.insert(k.clone(), if keys.len() > 1 { Mapping::new().into() } else { Value::Null });
    }
    set(m.get_mut(&k).unwrap(), &keys[1..], to)
}

/// A path into the section and a value for it.
fn place(rng: &mut Rng, ty: &Ty, path: &mut Vec<String>) -> Value {
    if let Ty::Opt(t) = ty {
        if matches!(**t, Ty::Map(_)) {
            return place(rng, t, path);
        }
    }
    if let Ty::Map(fields) = ty {
        if !path.is_empty() || rng.chance(0.9) {
            let x = &fields[rng.below(fields.len() as u64) as usize];
            path.push(x.name.into());
            if !matches!(x.ty, Ty::Map(_) | Ty::Opt(_)) || rng.chance(0.2) {
                return value(rng, &x.ty);
            }
            return place(rng, &x.ty, path);
        }
    }
    value(rng, ty)
}

fn inline(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}

/// The parameters of a rank, section by section.
type Sections = Vec<(String, Value)>;

fn get<T: SubsweepParameters>(sim: &mut Simulation) -> (String, Value) {
    let p = sim.add_parameter_type_and_get_result::<T>();
    (T::section_name().unwrap().to_string(), serde_yaml::to_value(p).unwrap())
}

fn held<T: SubsweepParameters>(sim: &Simulation, name: &str) -> (String, Value) {
    let p = sim.get_resource::<T>().unwrap_or_else(|| panic!("no parameters {name}"));
    (name.to_string(), serde_yaml::to_value(p).unwrap())
}

thread_local! {
    static STARTED: RefCell<Vec<usize>> = RefCell::new(vec![]);
}

fn run(args: &[String], used: &[&str], rank: usize) -> Result<Sections, String> {
    let opts = CommandLineOptions::try_parse_from(args).map_err(|e| e.to_string())?;
    let mut sim = SimulationBuilder::new()
        .with_command_line_options(&opts)
        .read_initial_conditions(false)
        .log(false)
        .build();
    for (i, s) in used.iter().enumerate() {
        match *s {
            "verif_a" => get::<A>(&mut sim),
            "verif_b" => get::<B>(&mut sim),
            "verif_d" => get::<D>(&mut sim),
            "verif_u" => get::<U>(&mut sim),
            "sweep" => get::<SweepParameters>(&mut sim),
            _ => continue,
        };
        let _ = i;
    }
    sim.insert_resource(NumParticlesTotal(sim.get_resource::<WorldSize>().unwrap().0));
    sim.add_startup_system_to_stage(StartupStages::ReadInput, move |mut commands: Commands| {
        let x = 0.1 + 0.1 * rank as f64;
        commands.spawn((LocalParticle, c::Position(VecLength::new_unchecked(MVec::new(x, 0.3, 0.4)))));
    });
    sim.add_system_to_stage(Stages::Final, move || {
        STARTED.with(|s| {
            let mut s = s.borrow_mut();
            s.push(rank);
            // All runs have a final time of zero.
            assert!(s.iter().filter(|r| **r == rank).count() < 200, "the run does not stop at its final time");
        })
    });
    sim.run_without_finalize();
    let mut out = vec![];
    for s in used {
        out.push(match *s {
            "verif_a" => held::<A>(&sim, s),
            "verif_b" => held::<B>(&sim, s),
            "verif_d" => held::<D>(&sim, s),
            "verif_u" => (s.to_string(), sim.get_resource::<U>().unwrap_or_else(|| panic!("no parameters {s}")).si()),
            "sweep" => held::<SweepParameters>(&sim, s),
            "cosmology" => held::<Cosmology>(&sim, s),
            "box_size" => held::<SimulationBoxParameters>(&sim, s),
            "output" => held::<OutputParameters>(&sim, s),
            _ => held::<SimulationParameters>(&sim, s),
        });
    }
    Ok(out)
}
use subsweep::prelude::MVec;
use subsweep::prelude::WorldSize;

/// Number of a quantity as written by the code, in base units.
fn same(have: &Value, want: &Value, ty: &Ty) -> bool {
    match ty {
        Ty::Qty(_) => {
            let a = crate::w_io::quantity(have).unwrap_or(f64::NAN);
            let b = want.as_f64().unwrap_or(f64::NAN);
            a == b || (a - b).abs() <= 1e-12 * b.abs()
        }
        Ty::Float => have.as_f64() == want.as_f64(),
        Ty::Opt(t) => (have.is_null() && want.is_null()) || (!have.is_null() && !want.is_null() && same(have, want, t)),
        Ty::Map(fields) => fields.iter().all(|x| match (have.get(x.name), want.get(x.name)) {
            (Some(a), Some(b)) => same(a, b, &x.ty),
            (a, b) => a.is_none() && b.is_none(),
        }),
        _ => have == want,
    }
}

fn params(ctx: &mut Ctx) {
    let n = ctx.size("ranks", 1, 3, 12);
    let all = schema();
    let mut rng = ctx.rng("paramseed");
    let dir = ctx.dir.clone();
    let damage = ctx.int("damage", 0, 24);
    // Which sections the run uses; the last three always exist.
    let mut used: Vec<&Field> = vec![];
    for s in &all {
        if ["cosmology", "box_size", "output", "simulation"].contains(&s.name) || (s.default.is_some() || damage < 8 || damage > 9) && rng.chance(0.6) {
            used.push(s);
        }
    }
    let out = dir.join("out");
    let mut file = Value::Mapping(Mapping::new());
    for s in &used {
        let may_omit = s.default.is_some();
        if may_omit && rng.chance(0.4) {
            continue;
        }
        let mut v = value(&mut rng, &s.ty);
        if s.name == "box_size" {
            v = "1.0 m".into();
        }
        if s.name == "cosmology" && rng.chance(0.5) {
            continue;
        }
        set(&mut file, &[s.name.into()], &v);
    }
    // What may not be arbitrary for the run to work.
    let must = |file: &Value| -> Vec<(Vec<String>, Value)> {
        let _ = file;
        let k = |s: &str| -> Vec<String> { s.split('/').map(|x| x.to_string()).collect() };
        vec![
            (k("simulation/final_time"), "0.0 s".into()),
            (k("output/output_dir"), out.to_str().unwrap().into()),
            (k("output/fields"), Value::Null),
        ]
    };
    let mut overrides: Vec<(Vec<String>, Value)> = vec![];
    for _ in 0..ctx.int("overrides", 0, 6) {
        let s = used[rng.below(used.len() as u64) as usize];
        if s.name == "box_size" {
            overrides.push((vec!["box_size".into()], ["1.0 m", "100.0 cm", "0.001 km"][rng.below(3) as usize].into()));
            continue;
        }
        // Mappings cannot be given on the command line.
        let (mut path, mut v) = (vec![], Value::Mapping(Mapping::new()));
        for _ in 0..20 {
            path.clear();
            v = place(&mut rng, &s.ty, &mut path);
            if !inline(&v).contains(':') || rng.chance(0.05) {
                break;
            }
        }
        path.insert(0, s.name.into());
        overrides.push((path, v));
    }
    // Damage, to be refused.
    match damage {
        1 => {
            set(&mut file, &["verif_none".into()], &Value::Mapping(Mapping::new()));
        }
        2 => overrides.push((vec!["verif_none".into(), "x".into()], 1.into())),
        3 => {
            let s = used[rng.below(used.len() as u64) as usize];
            if let Ty::Map(_) = s.ty {
                overrides.push((vec![s.name.into(), "surplus".into()], 1.into()));
            }
        }
        4 => {
            let s = used[rng.below(used.len() as u64) as usize];
            if file.get(s.name).map_or(false, |x| x.is_mapping()) {
                set(&mut file, &[s.name.into(), "surplus".into()], &1.into());
            }
        }
        5 => {
            // a value of a wrong type
            if let Some(s) = used.iter().find(|s| s.name == "sweep" || s.name == "verif_a") {
                let k = if s.name == "sweep" { "num_timestep_levels" } else { "n" };
                overrides.push((vec![s.name.into(), k.into()], "many".into()));
            }
        }
        6 => {
            if let Some(s) = used.iter().find(|s| s.name == "sweep" || s.name == "verif_a") {
                let k = if s.name == "sweep" { "max_timestep" } else { "size" };
                overrides.push((vec![s.name.into(), k.into()], "3.0 K".into()));
            }
        }
        7 => overrides.push((vec!["cosmology".into(), "a".into()], 0.5.into())),
        _ => {}
    }
    if damage == 8 || damage == 9 {
        // Nothing of the file is needed.
        overrides.clear();
        file = Value::Mapping(Mapping::new());
        overrides.push((vec!["box_size".into()], "1.0 m".into()));
    }
    for (k, v) in must(&file) {
        if rng.chance(0.5) && k[1] != "output_dir" || !file.get(&k[0]).map_or(true, |x| x.is_mapping()) {
            overrides.push((k, v));
        } else if file.get(&k[0]).is_some() && !overrides.iter().any(|o| o.0[0] == k[0]) {
            set(&mut file, &k, &v);
        } else {
            overrides.push((k, v));
        }
    }
    // The model.
    let mut model = file.clone();
    let mut refuse = false;
    for (k, v) in &overrides {
        refuse |= !set(&mut model, k, v);
    }
    let mut expected: Vec<(String, Value)> = vec![];
    for s in &used {
        let v = match model.get(s.name) {
            Some(v) => normal(v, &s.ty),
            None if s.name == "cosmology" => Some(Value::Null),
            None => s.default.as_ref().and_then(|d| normal(d, &s.ty)),
        };
        match v {
            Some(v) => expected.push((s.name.into(), v)),
            None => refuse = true,
        }
    }
    for k in model.as_mapping().unwrap().keys() {
        refuse |= !used.iter().any(|s| Some(s.name) == k.as_str());
    }
    // Settings that are valid as parameters but stop a run for other reasons.
    if let Some((_, o)) = expected.iter().find(|x| x.0 == "output") {
        let mut names: Vec<&str> = ["snapshots_dir", "time_series_dir", "performance_data_filename", "used_parameters_filename"]
            .iter()
            .filter_map(|k| o.get(k).and_then(|x| x.as_str()))
            .collect();
        names.sort();
        if names.windows(2).any(|w| w[0] == w[1]) {
            return;
        }
    }
    let cosmological = expected.iter().any(|x| x.0 == "cosmology" && !x.1.is_null());
    let mut text = if rng.chance(0.5) { serde_yaml::to_string(&file).unwrap() } else { inline(&file) };
    match damage {
        8 => {
            // cut off in the middle
            text = format!("{{\"simulation\": {{\"final_time\": \"0.0 s\"}}, \"box_size\": \"1.0 m\", {}", "\"output\": {\"output_dir\"");
            refuse = true;
        }
        9 => {
            text = format!("box_size: 1.0 m\n simulation:\n\tfinal_time: [\n{text}");
            refuse = true;
        }
        _ => {}
    }
    let path = dir.join("in.yml");
    std::fs::write(&path, &text).unwrap();
    let mut args: Vec<String> = vec!["subsweep".into(), path.to_str().unwrap().into()];
    let arg = |(k, v): &(Vec<String>, Value)| {
        let text = match v {
            Value::String(s) if !s.is_empty() && rng_free(s) => s.clone(),
            _ => inline(v),
        };
        format!("{}:{}", k.join("/"), text)
    };
    for o in &overrides {
        let a = arg(o);
        // A mapping cannot be written without a second colon.
        if a.matches(':').count() != 1 {
            refuse = true;
        }
        args.push(a);
    }
    if damage == 10 && args.len() > 2 {
        // a surplus part behind a second colon
        let i = rng.below(args.len() as u64 - 2) as usize + 2;
        args[i].push_str([":1", ":", ":x"][rng.below(3) as usize]);
        refuse = true;
    }
    // leading dashes would be read as options
    if args[1..].iter().any(|a| a.starts_with('-')) {
        return;
    }
    ctx.desc(format!("{n} ranks, file {text:?}, arguments {:?}", &args[2..]));
    ctx.res.nontrivial = !overrides.is_empty();
    let names: Vec<&'static str> = used.iter().map(|s| s.name).collect();
    let env = ctx.env(n);
    let got = job(ctx, n, env, &args, &names);
    if refuse {
        ctx.stat("params_refused", 1);
        let started = STARTED.with(|s| s.borrow().len());
        ctx.check("P16", matches!(got, Err(Some(_))) && started == 0, "not_refused", || {
            format!("parameters that are not valid were accepted: {}", match &got {
                Ok(v) => format!("{:?}", v[0]),
                Err(e) => format!("{e:?}, {started} steps run"),
            })
        });
        return;
    }
    let got = match got {
        Ok(v) => v,
        Err(e) => {
            let m = e.unwrap_or_default();
            // Cosmological runs need all of their parameters.
            if cosmological {
                return;
            }
            ctx.check("P16", false, "refused", || format!("valid parameters were refused: {m}"));
            return;
        }
    };
    for (r, v) in got.iter().enumerate() {
        compare(ctx, &used, v, &expected, &format!("rank {r}"));
    }
    if ctx.has_failed() {
        return;
    }
    ctx.stat("params_accepted", 1);
    // The record, and a run with it.
    let name = expected
        .iter()
        .find(|x| x.0 == "output")
        .and_then(|x| x.1.get("used_parameters_filename"))
        .and_then(|x| x.as_str())
        .unwrap_or("")
        .to_string();
    let record = out.join(&name);
    let text = std::fs::read_to_string(&record).unwrap_or_default();
    let v: Value = serde_yaml::from_str(&text).unwrap_or(Value::Null);
    for s in &used {
        ctx.check("P16", v.get(s.name).is_some(), "record", || {
            format!("the record of the parameters has no section {}: {text:?}", s.name)
        });
    }
    let extra: Vec<String> = v
        .as_mapping()
        .map(|m| m.keys().filter_map(|k| k.as_str()).filter(|k| !names.contains(k)).map(String::from).collect())
        .unwrap_or_default();
    ctx.check("P16", extra.is_empty(), "record", || format!("the record has unknown sections {extra:?}"));
    let out2 = dir.join("out2");
    let args2 = vec!["subsweep".into(), record.to_str().unwrap().to_string(), format!("output/output_dir:{}", out2.display())];
    let n2 = ctx.int("ranks2", 1, 3);
    let env = ctx.env(n2);
    match job(ctx, n2, env, &args2, &names) {
        Ok(got) => {
            let mut expected = expected.clone();
            for x in &mut expected {
                if x.0 == "output" {
                    set(&mut x.1, &["output_dir".into()], &out2.to_str().unwrap().into());
                }
            }
            for v in &got {
                compare(ctx, &used, v, &expected, "run from the record");
            }
        }
        Err(e) => {
            ctx.check("P16", false, "record_refused", || {
                format!("a run with the record of the parameters of another failed: {e:?}; record {text:?}")
            });
        }
    }
}

/// Can be written on the command line without quotes.
fn rng_free(s: &str) -> bool {
    matches!(serde_yaml::from_str::<Value>(s), Ok(Value::String(x)) if x == s)
}

fn compare(ctx: &mut Ctx, used: &[&Field], have: &Sections, want: &[(String, Value)], what: &str) {
    for s in used {
        let a = have.iter().find(|x| x.0 == s.name).map_or(&Value::Null, |x| &x.1);
        let b = want.iter().find(|x| x.0 == s.name).map_or(&Value::Null, |x| &x.1);
        ctx.check("P16", same(a, b, &s.ty), "wrong_parameters", || {
            format!("{what}: section {} is {} instead of {}", s.name, inline(a), inline(b))
        });
    }
}

/// Err(None): did not come to a proper end.
fn job(
    ctx: &mut Ctx,
    n: usize,
    env: simcore::sched::Env,
    args: &[String],
    used: &[&'static str],
) -> Result<Vec<Sections>, Option<String>> {
    STARTED.with(|s| s.borrow_mut().clear());
    let (args, used) = (Rc::new(args.to_vec()), Rc::new(used.to_vec()));
    let j = ctx.raw_job(n, env, move |rank| run(&args, &used, rank));
    ctx.res.evaluations += 1;
    match &j.outcome {
        Outcome::Finished => {
            let all = j.all();
            if let Some(Err(e)) = all.iter().find(|x| x.is_err()) {
                return Err(Some(e.clone()));
            }
            Ok(all.into_iter().map(|x| x.unwrap()).collect())
        }
        Outcome::Panicked(_, m) => Err(Some(m.clone())),
        o => {
            ctx.fail("outcome", describe(o));
            Err(None)
        }
    }
}
