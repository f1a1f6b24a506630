//! Which workloads decide which property.
use crate::driver::PropSpec;

const STUB: &str = "MPI (simulated), bevy_ecs/bevy_app (single-threaded stand-in), HDF5 (record-log stand-in), diman (stand-in), lazy_static and simplelog (one instance per rank)";

fn spec(
    id: &'static str,
    quick_runs: u64,
    work: &[(&'static str, u64)],
    rule: &'static str,
    real: &'static str,
) -> PropSpec {
    PropSpec {
        id,
        work: work.to_vec(),
        quick_runs,
        rule,
        real,
        stub: STUB,
    }
}

pub fn specs() -> Vec<PropSpec> {
    vec![
        spec(
            "P01",
            9000,
            &[("exchange", 6), ("chunks", 2), ("databyrank", 1), ("records", 1), ("domain", 1), ("sweep_any", 1)],
            "a run counts if at least two ranks exchanged at least one item",
            "src/communication/*",
        ),
        spec(
            "P02",
            20000,
            &[("collectives", 8), ("chunks", 1), ("records", 1), ("sources", 1), ("sweep_time", 1)],
            "a run counts if at least two ranks took part in a collective",
            "src/communication/*",
        ),
        spec(
            "P03",
            6000,
            &[("typed", 4), ("options", 3), ("exchange", 2), ("records", 3), ("tags", 3), ("sweep_any", 2), ("domain", 1), ("sources", 1)],
            "a run counts if messages of several types were in flight between the same ranks",
            "src/communication/*",
        ),
        spec(
            "P04",
            5000,
            &[("sweep_any", 12), ("sweep_ranks", 3), ("sweep_model", 3), ("sweep_final", 2), ("directions", 1)],
            "a run counts if the cells were spread over at least two ranks",
            "src/sweep/*, src/chemistry/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P05",
            3000,
            &[("sweep_ranks", 14), ("sweep_model", 4), ("sweep_time", 1), ("directions", 1), ("app_ranks", 4)],
            "a run counts if the cells were spread over at least two ranks",
            "src/sweep/*, src/chemistry/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P06",
            5000,
            &[("sweep_transport", 10), ("sweep_model", 6), ("sweep_any", 4), ("sweep_ranks", 1), ("sweep_rotation", 2), ("sweep_rotation_known", 1), ("directions", 2)],
            "a run counts if there was at least one source",
            "src/sweep/*, src/chemistry/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P07",
            4000,
            &[("sweep_model", 6), ("sweep_time", 3), ("sweep_series", 2), ("sweep_chemistry", 2), ("sweep_final", 3), ("sweep_any", 2), ("directions", 1)],
            "a run counts if several levels or several ranks took part",
            "src/sweep/*, src/chemistry/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P08",
            20000,
            &[("domain", 6), ("keys", 4), ("extents", 2), ("sources", 1), ("exchange", 1)],
            "a run counts if at least two ranks took part",
            "src/domain/*, src/peano_hilbert.rs, src/extent.rs, src/communication/*",
        ),
        spec(
            "P09",
            14000,
            &[("domain", 6), ("sources", 1), ("exchange", 2), ("databyrank", 1), ("keys", 1), ("extents", 1)],
            "a run counts if at least two ranks took part",
            "src/domain/*, src/quadtree/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P10",
            4500,
            &[("voronoi", 3), ("math", 4), ("predicates", 4), ("arena", 2), ("extents", 1), ("exchange", 1)],
            "a run counts if at least two ranks took part",
            "src/voronoi/*, src/domain/*, src/quadtree/*, src/simulation_box.rs, src/communication/*",
        ),
        spec(
            "P11",
            8000,
            &[("snapshots", 8), ("shares", 3), ("restart", 1), ("faults", 1), ("collectives", 1), ("app_fields", 2)],
            "a run counts if at least two ranks wrote",
            "src/io/*, src/simulation*, src/communication/*",
        ),
        spec(
            "P12",
            20000,
            &[("input", 8), ("shares", 3), ("restart", 1)],
            "a run counts if at least two ranks read",
            "src/io/*, src/simulation*, src/communication/*",
        ),
        spec(
            "P13",
            14000,
            &[("restart", 6), ("snapshots", 2), ("shares", 1), ("faults", 1)],
            "a run counts if a snapshot was written and read back",
            "src/io/*, src/simulation*, src/communication/*",
        ),
        spec(
            "P14",
            18000,
            &[("snapshots", 6), ("rerun", 1), ("faults", 1), ("shares", 1)],
            "a run counts if at least two ranks wrote",
            "src/io/*, src/simulation*, src/communication/*",
        ),
        spec(
            "P15",
            8000,
            &[("faults", 6), ("rerun", 3), ("input", 1), ("app_faults", 4)],
            "a run counts if a fault was injected or output existed before",
            "src/io/*, src/simulation*, src/communication/*",
        ),
        spec(
            "P16",
            30000,
            &[("params", 1)],
            "a run counts if at least one parameter was overridden",
            "src/parameter_plugin/*, src/command_line_options.rs, src/simulation_builder.rs, src/io/output/*, src/simulation*",
        ),
        spec(
            "P17",
            6000,
            &[("sweep_series", 5), ("sweep_model", 1), ("snapshots", 2), ("collectives", 1), ("app_fields", 1)],
            "a run counts if at least two ranks took part",
            "src/io/*, src/sweep/*, src/chemistry/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P18",
            22000,
            &[("sources", 6), ("keys", 1), ("collectives", 1)],
            "a run counts if at least two ranks took part",
            "src/source_systems.rs, src/domain/*, src/communication/*",
        ),
        spec(
            "P19",
            3000,
            &[("sweep_chemistry", 6), ("sweep_model", 3), ("sweep_time", 1), ("app", 2)],
            "a run counts if at least one cell was compared",
            "src/chemistry/*, src/sweep/*, src/communication/*, src/simulation*",
        ),
        spec(
            "P20",
            3000,
            &[("app", 6), ("app_ranks", 2), ("app_stars", 1), ("app_construct", 1)],
            "a run counts if at least two ranks took part",
            "src/* (whole program), /repo's entry point src/main.rs",
        ),
        spec(
            "P21",
            5000,
            &[("app_remap", 8), ("app_ranks", 2), ("app", 1)],
            "a run counts if at least two ranks took part",
            "src/* (whole program), /repo's entry point src/main.rs",
        ),
        spec(
            "P22",
            4500,
            &[("app", 8), ("app_ranks", 2), ("app_stars", 1)],
            "a run counts if at least two ranks took part",
            "src/* (whole program), /repo's entry point src/main.rs",
        ),
        spec(
            "P23",
            5000,
            &[("app_stars", 8), ("app_ranks", 1), ("app", 1)],
            "a run counts if at least two ranks took part",
            "src/* (whole program), /repo's entry point src/main.rs",
        ),
        spec(
            "P24",
            20000,
            &[("cartesian", 8), ("sweep_ranks", 1)],
            "a run counts if at least two ranks took part",
            "src/sweep/*, src/simulation*, src/communication/*",
        ),
    ]
}
