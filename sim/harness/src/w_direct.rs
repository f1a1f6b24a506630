//! Workloads on the deterministic parts that every rank has to compute alike:
//! curve keys, extents, geometric predicates, arenas, directions. They run on
//! simulated ranks, which compare and exchange what they computed.
use std::collections::BTreeMap;

use glam::DVec2;
use glam::DVec3;
use num::BigRational;
use num::FromPrimitive;
use num::ToPrimitive;
use simcore::choice::Rng;
use subsweep::communication::communicator::Communicator;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::sweep::verif::CountByDir;
use subsweep::sweep::verif::Directions;
use subsweep::sweep::DirectionIndex;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units::*;
use subsweep::verif::extent as ext;
use subsweep::verif::peano_hilbert::PeanoKey2d;
use subsweep::verif::peano_hilbert::PeanoKey3d;
use subsweep::voronoi::math::utils as mu;
use subsweep::voronoi::verif as vv;
use vv::primitives::tetrahedron::TetrahedronData;
use vv::DTetraData;

use crate::ctx::Ctx;
use crate::driver::Workload;

pub fn workloads() -> Vec<Workload> {
    vec![
        Workload { name: "keys", run: keys },
        Workload { name: "extents", run: extents },
        Workload { name: "math", run: math },
        Workload { name: "predicates", run: predicates },
        Workload { name: "arena", run: arena },
        Workload { name: "directions", run: directions },
    ]
}

/// What ranks found wrong.
type Bad = Vec<(&'static str, String)>;

fn settle(ctx: &mut Ctx, props: &str, outs: Vec<Bad>, evals: u64) {
    ctx.res.evaluations += evals;
    for b in outs {
        for (k, m) in b {
            ctx.check(props, false, k, || m);
        }
    }
}

// ---------------------------------------------------------------- keys

fn cell_points<const D: usize>(rng: &mut Rng, depth: u32, m: u32) -> (Vec<[u64; D]>, u32, [u64; D]) {
    let base: [u64; D] = std::array::from_fn(|_| rng.below(1 << depth));
    let side = 1u64 << m;
    let total = side.pow(D as u32);
    let pts = (0..total)
        .map(|i| std::array::from_fn(|a| base[a] * side + (i / side.pow(a as u32)) % side))
        .collect();
    (pts, depth + m, base)
}

fn keys(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 4);
    let seed = ctx.rng("keyseed").next();
    let offset = ctx.pick("offset", &[0.0, -0.5, 13.25, -1e3]);
    let scale = ctx.pick("scale", &[1.0, 1e-3, 77.5, 3.0857e19]);
    let uneven = ctx.chance("uneven", 0.3);
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let mut rng = Rng::new(seed);
        let mut bad: Bad = vec![];
        let side: [f64; 3] =
            std::array::from_fn(|_| if uneven { scale * (0.5 + rng.unit()) } else { scale });
        let off = if scale == 1.0 { offset } else { offset * scale.min(1.0) };
        let lo = DVec3::new(off, off, off);
        let hi = lo + DVec3::new(side[0], side[1], side[2]);
        let (lo2, hi2) = (DVec2::new(lo.x, lo.y), DVec2::new(hi.x, hi.y));
        let key3 = |p: DVec3| PeanoKey3d::from_point_and_min_max(p, lo, hi);
        let key2 = |p: DVec2| PeanoKey2d::from_point_and_min_max(p, lo2, hi2);
        // positions from coordinates in the (padded) unit cube
        let at = |f: [f64; 3]| {
            let d = hi - lo;
            lo - d * 0.001 + DVec3::new(f[0], f[1], f[2]) * d * 1.002
        };
        let at2 = |f: [f64; 2]| {
            let d = hi2 - lo2;
            lo2 - d * 0.001 + DVec2::new(f[0], f[1]) * d * 1.002
        };
        let coarse = off.abs() / scale > 100.0;
        let mut sent3 = vec![];
        for _ in 0..4 {
            // all subcells of a cell of the curve, in order, form a path
            let depth = rng.below(if coarse { 20 } else { 30 }) as u32;
            let m = 1 + rng.below(3) as u32;
            let (pts, level, base) = cell_points::<3>(&mut rng, depth, m);
            let w = (1u64 << level) as f64;
            let mut v: Vec<(PeanoKey3d, [u64; 3])> = pts
                .iter()
                .map(|c| (key3(at(std::array::from_fn(|a| (c[a] as f64 + 0.5) / w))), *c))
                .collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            for p in v.windows(2) {
                if p[0].0 == p[1].0 {
                    bad.push(("key_not_distinct", format!("cells {:?} and {:?} of level {level} have the same key", p[0].1, p[1].1)));
                }
                let d: u64 = (0..3).map(|a| p[0].1[a].abs_diff(p[1].1[a])).sum();
                if d != 1 {
                    bad.push(("curve_jumps", format!("consecutive cells {:?} and {:?} of level {level} do not touch", p[0].1, p[1].1)));
                }
            }
            let (kmin, kmax) = (v[0].0, v[v.len() - 1].0);
            for _ in 0..20 {
                let f: [f64; 3] = std::array::from_fn(|_| 0.001 + 0.998 * rng.unit());
                let s = (1u64 << depth) as f64;
                let c: [u64; 3] = std::array::from_fn(|a| (f[a] * s).floor() as u64);
                let near = (0..3).any(|a| ((f[a] * s) - (f[a] * s).round()).abs() < 1e-4);
                let k = key3(at(f));
                sent3.push(k);
                if c != base && !near && k >= kmin && k <= kmax {
                    bad.push(("cell_not_contiguous", format!("a position outside cell {base:?} of level {depth} has a key inside it")));
                }
            }
            let (pts, level, base) = cell_points::<2>(&mut rng, depth.min(26), m);
            let w = (1u64 << level) as f64;
            let mut v: Vec<(PeanoKey2d, [u64; 2])> = pts
                .iter()
                .map(|c| (key2(at2(std::array::from_fn(|a| (c[a] as f64 + 0.5) / w))), *c))
                .collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            for p in v.windows(2) {
                if p[0].0 == p[1].0 {
                    bad.push(("key_not_distinct", format!("2d cells {:?} and {:?} of level {level} have the same key", p[0].1, p[1].1)));
                }
                let d: u64 = (0..2).map(|a| p[0].1[a].abs_diff(p[1].1[a])).sum();
                if d != 1 {
                    bad.push(("curve_jumps", format!("consecutive 2d cells {:?} and {:?} of level {level} do not touch", p[0].1, p[1].1)));
                }
            }
            let (kmin, kmax) = (v[0].0, v[v.len() - 1].0);
            for _ in 0..20 {
                let f: [f64; 2] = std::array::from_fn(|_| 0.001 + 0.998 * rng.unit());
                let s = (1u64 << depth.min(26)) as f64;
                let c: [u64; 2] = std::array::from_fn(|a| (f[a] * s).floor() as u64);
                let near = (0..2).any(|a| ((f[a] * s) - (f[a] * s).round()).abs() < 1e-4);
                let k = key2(at2(f));
                if c != base && !near && k >= kmin && k <= kmax {
                    bad.push(("cell_not_contiguous", format!("a position outside 2d cell {base:?} of level {depth} has a key inside it")));
                }
            }
        }
        // corners have keys, and close positions distinct ones
        let mut close = vec![];
        for _ in 0..10 {
            let f: [f64; 3] = std::array::from_fn(|_| 0.01 + 0.98 * rng.unit());
            let a = rng.below(3) as usize;
            let mut g = f;
            g[a] += if coarse { 1e-8 } else { 5e-12 } * 2.0;
            close.push((at(f), at(g)));
        }
        for (p, q) in close {
            if key3(p) == key3(q) {
                bad.push(("key_not_distinct", format!("{p:?} and {q:?} have the same key")));
            }
        }
        for m in 0..8 {
            let p = DVec3::new(
                if m & 1 == 0 { lo.x } else { hi.x },
                if m & 2 == 0 { lo.y } else { hi.y },
                if m & 4 == 0 { lo.z } else { hi.z },
            );
            sent3.push(key3(p));
        }
        // keys and extents survive the transport
        let mut c = Communicator::<PeanoKey3d>::new();
        let all = c.all_gather_varcount(&sent3);
        let want: Vec<PeanoKey3d> = (0..n).flat_map(|_| sent3.clone()).collect();
        if all != want {
            bad.push(("keys_sent", format!("rank {rank}: keys differ between ranks or were changed on the way")));
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P08,P09,P18", j.all(), 4 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
}

// ---------------------------------------------------------------- extents

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-12 * scale
}

fn extents(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 4);
    let seed = ctx.rng("extseed").next();
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let mut rng = Rng::new(seed);
        let mut bad: Bad = vec![];
        let mut mine = vec![];
        for _ in 0..10 {
            let num = 1 + rng.below(12) as usize;
            let shift = if rng.chance(0.5) { 0.0 } else { -5.0 };
            let s = [1.0, 1e10, 1e-7][rng.below(3) as usize];
            let pts: Vec<DVec3> = (0..num)
                .map(|_| DVec3::new(rng.unit() * 3.0 + shift, rng.unit() + shift, rng.unit() * 2.0 - 1.0) * s)
                .collect();
            let arr = |v: &DVec3| [v.x, v.y, v.z];
            let lo: [f64; 3] = std::array::from_fn(|a| pts.iter().map(|p| arr(p)[a]).fold(f64::INFINITY, f64::min));
            let hi: [f64; 3] = std::array::from_fn(|a| pts.iter().map(|p| arr(p)[a]).fold(f64::NEG_INFINITY, f64::max));
            let e = ext::Extent::from_points(pts.iter().copied()).unwrap();
            let e2 = ext::Extent::from_points(pts.iter().map(|p| DVec2::new(p.x, p.y))).unwrap();
            let e3 = ext::get_extent_from_min_and_max_reduce(pts.iter().copied(), |a, b| a.min(b), |a, b| a.max(b)).unwrap();
            let sc = 10.0 * s;
            let side: [f64; 3] = std::array::from_fn(|a| hi[a] - lo[a]);
            let inc = e.including_periodic_images();
            for a in 0..3 {
                let ok = arr(&e.min)[a] == lo[a]
                    && arr(&e.max)[a] == hi[a]
                    && arr(&e3.min)[a] == lo[a]
                    && arr(&e3.max)[a] == hi[a]
                    && close(arr(&e.center())[a], 0.5 * (lo[a] + hi[a]), sc)
                    && close(arr(&e.side_lengths())[a], side[a], sc);
                if !ok {
                    bad.push(("extent", format!("extent of {pts:?} is {:?} {:?} {:?}", e.min, e.max, e.center)));
                }
                let ok = close(arr(&inc.min)[a], lo[a] - side[a], sc)
                    && close(arr(&inc.max)[a], hi[a] + side[a], sc)
                    && close(arr(&inc.center())[a], 0.5 * (lo[a] + hi[a]), sc);
                if !ok {
                    bad.push(("extent_images", format!("{:?} {:?} with images is {:?} {:?}", e.min, e.max, inc.min, inc.max)));
                }
            }
            let m = side.iter().fold(0.0f64, |x, y| x.max(*y));
            if !close(e.max_side_length(), m, sc) {
                bad.push(("extent_side", format!("longest side of {:?} {:?} is {}", e.min, e.max, e.max_side_length())));
            }
            let m2 = side[0].max(side[1]);
            if !close(e2.max_side_length(), m2, sc) || e2.min != DVec2::new(lo[0], lo[1]) || e2.max != DVec2::new(hi[0], hi[1]) {
                bad.push(("extent_2d", format!("2d extent of {pts:?} is {:?} {:?}", e2.min, e2.max)));
            }
            let mk = |v: &[f64; 3]| VecLength::meters(v[0], v[1], v[2]);
            mine.push(ext::Extent::<VecLength>::from_min_max(mk(&lo), mk(&hi)));
        }
        if ext::Extent::<DVec3>::from_points(std::iter::empty()).is_some() {
            bad.push(("extent", "extent of nothing".into()));
        }
        // extents survive the transport
        let mut c = Communicator::<ext::Extent<VecLength>>::new();
        let all = c.all_gather(&mine[rank % mine.len()]);
        for (r, e) in all.iter().enumerate() {
            let w = &mine[r % mine.len()];
            if e.min.value_unchecked() != w.min.value_unchecked()
                || e.max.value_unchecked() != w.max.value_unchecked()
                || e.center.value_unchecked() != w.center.value_unchecked()
            {
                bad.push(("extent_sent", format!("rank {rank} got {e:?} from rank {r} instead of {w:?}")));
            }
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P08,P09,P10,P18", j.all(), 60 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
}

// ---------------------------------------------------------------- linear algebra

fn idet(m: &[Vec<i128>]) -> i128 {
    let n = m.len();
    if n == 1 {
        return m[0][0];
    }
    let mut s = 0;
    for i in 0..n {
        if m[i][0] == 0 {
            continue;
        }
        let sub: Vec<Vec<i128>> = (0..n).filter(|k| *k != i).map(|k| m[k][1..].to_vec()).collect();
        let d = m[i][0] * idet(&sub);
        s += if i % 2 == 0 { d } else { -d };
    }
    s
}

fn big(x: f64) -> BigRational {
    BigRational::from_f64(x).unwrap()
}

/// Integer matrices, some of them singular or nearly so.
fn int_matrix(rng: &mut Rng, n: usize, cols: usize, max: i64) -> Vec<Vec<i128>> {
    let mut m: Vec<Vec<i128>> = (0..n)
        .map(|_| (0..cols).map(|_| rng.below(2 * max as u64 + 1) as i128 - max as i128).collect())
        .collect();
    match rng.below(5) {
        0 => {
            let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
            m[a] = m[b].clone();
        }
        1 => {
            let (a, b) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
            m[a] = m[b].clone();
            let c = rng.below(cols as u64) as usize;
            m[a][c] += 1;
        }
        2 => {
            for _ in 0..n {
                let (a, b) = (rng.below(n as u64) as usize, rng.below(cols as u64) as usize);
                m[a][b] = 0;
            }
        }
        _ => {}
    }
    m
}

fn sign_of(d: i128) -> mu::Sign {
    match d.signum() {
        1 => mu::Sign::Positive,
        -1 => mu::Sign::Negative,
        _ => mu::Sign::Zero,
    }
}

macro_rules! det_check {
    ($bad: ident, $rng: ident, $n: literal, $max: expr, $det: path, $sign: path) => {{
        let m = int_matrix(&mut $rng, $n, $n, $max);
        let want = idet(&m);
        let e = $rng.below(81) as i32 - 60;
        let scale = 2f64.powi(e);
        let f: [[f64; $n]; $n] = std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] as f64 * scale));
        let exact = want as f64 * scale.powi($n);
        if $det(f) != exact {
            $bad.push(("determinant", format!("determinant of {f:?} is {} not {exact}", $det(f))));
        }
        let r = $det(mu::lift_matrix(f));
        if r != big(scale).pow($n) * BigRational::from_i128(want).unwrap() {
            $bad.push(("determinant_exact", format!("exact determinant of {f:?} is {r}")));
        }
        let s = $sign(f);
        if s != sign_of(want) {
            $bad.push(("determinant_sign", format!("sign of the determinant of {f:?} is {s:?}, value {exact}")));
        }
    }};
}

macro_rules! solve_check {
    ($bad: ident, $rng: ident, $m: literal, $cols: literal) => {{
        let m = int_matrix(&mut $rng, $m, $cols, 9);
        let sq: Vec<Vec<i128>> = m.iter().map(|r| r[..$m].to_vec()).collect();
        let d = idet(&sq);
        let f: [[f64; $cols]; $m] = std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] as f64));
        if d != 0 {
            let want: [BigRational; $m] = std::array::from_fn(|k| {
                let mut c = sq.clone();
                for i in 0..$m {
                    c[i][k] = m[i][$m];
                }
                BigRational::from_i128(idet(&c)).unwrap() / BigRational::from_i128(d).unwrap()
            });
            let got = mu::solve_system_of_equations::<$m, f64>(f);
            let ok = (0..$m).all(|k| {
                let w = want[k].to_f64().unwrap();
                (got[k] - w).abs() <= 1e-9 * (1.0 + w.abs())
            });
            if !ok {
                $bad.push(("solution", format!("solution of {f:?} is {got:?}, not {want:?}")));
            }
            let lifted: [[BigRational; $cols]; $m] = std::array::from_fn(|i| std::array::from_fn(|j| big(f[i][j])));
            let got = mu::solve_system_of_equations::<$m, BigRational>(lifted);
            if got != want {
                $bad.push(("solution_exact", format!("exact solution of {f:?} is {got:?}, not {want:?}")));
            }
            Some((f, want.map(|x| x.to_f64().unwrap())))
        } else {
            None
        }
    }};
}

fn math(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 3);
    let seed = ctx.rng("mathseed").next();
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let mut rng = Rng::new(seed ^ rank as u64);
        let mut bad: Bad = vec![];
        for _ in 0..15 {
            let (a, b, c) = ([3, 60, 1 << 15][rng.below(3) as usize], [3, 30, 1 << 10][rng.below(3) as usize], [2, 9, 60][rng.below(3) as usize]);
            det_check!(bad, rng, 3, a, mu::determinant3x3, mu::determinant3x3_sign);
            det_check!(bad, rng, 4, b, mu::determinant4x4, mu::determinant4x4_sign);
            det_check!(bad, rng, 5, c, mu::determinant5x5, mu::determinant5x5_sign);
            solve_check!(bad, rng, 2, 3);
            solve_check!(bad, rng, 4, 5);
            if let Some((f, want)) = solve_check!(bad, rng, 3, 4) {
                match mu::solve_3x4_system_of_equations_error(f) {
                    Ok(got) => {
                        if !(0..3).all(|k| (got[k] - want[k]).abs() <= 1e-6 * (1.0 + want[k].abs())) {
                            bad.push(("solution", format!("fast solution of {f:?} is {got:?}, not {want:?}")));
                        }
                    }
                    Err(_) => bad.push(("solution", format!("fast solution of {f:?} not found"))),
                }
            }
        }
        for a in [-1i32, 0, 1] {
            for b in [-1i32, 0, 1] {
                let s = mu::Sign::of(a as f64) * mu::Sign::of(b as f64 * 1e-300);
                if s != sign_of((a * b) as i128) || s.is_positive() != (a * b > 0) || s.is_negative() != (a * b < 0) {
                    bad.push(("sign", format!("sign of {a} times sign of {b} is {s:?}")));
                }
            }
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P10", j.all(), 15 * 6 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
}

// ---------------------------------------------------------------- predicates

type I3 = [i64; 3];
fn orient(a: &I3, b: &I3, c: &I3, d: &I3) -> i128 {
    let r = |p: &I3| (0..3).map(|k| (p[k] - a[k]) as i128).collect::<Vec<_>>();
    idet(&[r(b), r(c), r(d)])
}

/// Positive if e lies within the sphere through the others, for either
/// orientation of the tetrahedron.
fn in_sphere(t: &[I3; 4], e: &I3) -> i128 {
    let rows: Vec<Vec<i128>> = t
        .iter()
        .map(|p| {
            let d: Vec<i128> = (0..3).map(|k| (p[k] - e[k]) as i128).collect();
            let q = d.iter().map(|x| x * x).sum();
            vec![d[0], d[1], d[2], q]
        })
        .collect();
    -idet(&rows) * orient(&t[0], &t[1], &t[2], &t[3]).signum()
}

/// The distance of a point to a triangle, face and edges taken one by one.
fn triangle_distance(t: [DVec3; 3], p: DVec3) -> f64 {
    let segment = |a: DVec3, b: DVec3| {
        let ab = b - a;
        let x = ((p - a).dot(ab) / ab.dot(ab)).clamp(0.0, 1.0);
        (a + ab * x).distance(p)
    };
    let mut best = segment(t[0], t[1]).min(segment(t[1], t[2])).min(segment(t[2], t[0]));
    let n = (t[1] - t[0]).cross(t[2] - t[0]).normalize();
    let h = (p - t[0]).dot(n);
    let foot = p - n * h;
    let inside = (0..3).all(|k| (t[(k + 1) % 3] - t[k]).cross(foot - t[k]).dot(n) >= 0.0);
    if inside {
        best = best.min(h.abs());
    }
    best
}

fn bdet(m: &[Vec<num::BigInt>]) -> num::BigInt {
    if m.len() == 1 {
        return m[0][0].clone();
    }
    let mut s = num::BigInt::from(0);
    for i in 0..m.len() {
        let sub: Vec<Vec<num::BigInt>> = (0..m.len()).filter(|k| *k != i).map(|k| m[k][1..].to_vec()).collect();
        let d = &m[i][0] * bdet(&sub);
        if i % 2 == 0 {
            s += d;
        } else {
            s -= d;
        }
    }
    s
}

/// Five points so close to a common sphere that floating point numbers cannot tell
/// on which side of it the fifth is.
fn almost_cospherical(rng: &mut Rng, bad: &mut Bad) {
    let w = 1i64 << (44 + rng.below(7));
    let spread = w >> (2 + rng.below(8));
    let c: I3 = std::array::from_fn(|_| spread + rng.below((w - 2 * spread) as u64) as i64);
    let r: I3 = std::array::from_fn(|_| 1 + rng.below(spread as u64) as i64);
    let on_sphere = |rng: &mut Rng| -> I3 {
        let mut q = r;
        rng.shuffle(&mut q);
        std::array::from_fn(|a| c[a] + if rng.chance(0.5) { q[a] } else { -q[a] })
    };
    let mut t: [I3; 4] = std::array::from_fn(|_| on_sphere(rng));
    let mut e = on_sphere(rng);
    e[rng.below(3) as usize] += rng.below(5) as i64 - 2;
    let big = |p: &I3, q: &I3| -> Vec<num::BigInt> { (0..3).map(|a| num::BigInt::from(p[a] - q[a])).collect() };
    let zero = num::BigInt::from(0);
    let o = bdet(&[big(&t[1], &t[0]), big(&t[2], &t[0]), big(&t[3], &t[0])]);
    if o == zero {
        return;
    }
    if o < zero {
        t.swap(0, 1);
    }
    let rows: Vec<Vec<num::BigInt>> = t
        .iter()
        .map(|p| {
            let mut d = big(p, &e);
            d.push(d.iter().map(|x| x * x).sum());
            d
        })
        .collect();
    let s = -bdet(&rows);
    if s == zero {
        return;
    }
    let f = |p: &I3| DVec3::new(1.0 + p[0] as f64 / w as f64, 1.0 + p[1] as f64 / w as f64, 1.0 + p[2] as f64 / w as f64);
    let data = TetrahedronData { p1: f(&t[0]), p2: f(&t[1]), p3: f(&t[2]), p4: f(&t[3]) };
    let got = data.circumcircle_contains(f(&e));
    if got != (s > zero) {
        bad.push(("in_sphere", format!("{t:?} / {w}: sphere contains {e:?}: {got}")));
    }
}

/// The centre of a well-shaped tetrahedron that is tiny compared to its coordinates.
fn tiny_tetrahedron(rng: &mut Rng, bad: &mut Bad) {
    let w = 1i64 << 36;
    let spread = 200i64 >> rng.below(4);
    let c: I3 = std::array::from_fn(|_| spread + rng.below((w - 2 * spread) as u64) as i64);
    let t: [I3; 4] =
        std::array::from_fn(|_| std::array::from_fn(|a| c[a] + rng.below(2 * spread as u64 + 1) as i64 - spread));
    let o = orient(&t[0], &t[1], &t[2], &t[3]);
    if (o.abs() as f64) < 0.1 * (spread as f64).powi(3) {
        return;
    }
    let f = |p: &I3| DVec3::new(1.0 + p[0] as f64 / w as f64, 1.0 + p[1] as f64 / w as f64, 1.0 + p[2] as f64 / w as f64);
    let data = TetrahedronData { p1: f(&t[0]), p2: f(&t[1]), p3: f(&t[2]), p4: f(&t[3]) };
    let m = data.get_center_of_circumcircle();
    let d: Vec<f64> = t.iter().map(|p| m.distance(f(p))).collect();
    // coordinates are rounded to about 2e-16
    if !d.iter().all(|x| (x - d[0]).abs() <= 1e-5 * d[0] + 4e-15) {
        bad.push(("circumcentre", format!("{t:?} / {w}: distances of the circumcentre {d:?}")));
    }
}

fn predicates(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 3);
    let seed = ctx.rng("predseed").next();
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let mut rng = Rng::new(seed ^ (rank as u64) << 32);
        let mut bad: Bad = vec![];
        for _ in 0..40 {
            // points on a fine lattice in [1,2]^3, often almost degenerate
            let bits = [4, 8, 14, 17, 20][rng.below(5) as usize];
            let w = 1i64 << bits;
            let pt = |rng: &mut Rng, spread: i64, c: &I3| -> I3 {
                std::array::from_fn(|a| (c[a] + rng.below(2 * spread as u64 + 1) as i64 - spread).clamp(0, w))
            };
            let c: I3 = std::array::from_fn(|_| rng.below(w as u64 + 1) as i64);
            // down to tetrahedra so small that the floating point tests are inconclusive
            let spread = [w, w, (w / 64).max(3), 3, 9, 40][rng.below(6) as usize].min(w);
            let mut t: [I3; 4] = std::array::from_fn(|_| pt(&mut rng, spread, &c));
            if rng.chance(0.3) {
                // nearly flat
                t[3] = std::array::from_fn(|a| (t[0][a] + t[1][a] - t[2][a] + rng.below(3) as i64 - 1).clamp(0, w));
            }
            let o = orient(&t[0], &t[1], &t[2], &t[3]);
            if o == 0 {
                continue;
            }
            if o < 0 {
                t.swap(0, 1);
            }
            let mut e = pt(&mut rng, spread, &c);
            match rng.below(4) {
                0 => {
                    // close to a corner of the parallelepiped, hence near the sphere
                    e = std::array::from_fn(|a| (t[1][a] + t[2][a] - t[0][a] + rng.below(3) as i64 - 1).clamp(0, w));
                }
                1 => {
                    // close to the point opposite to t[0]
                    e = std::array::from_fn(|a| ((t[0][a] + t[1][a] + t[2][a] + t[3][a]) / 2 - t[0][a]).clamp(0, w));
                }
                _ => {}
            }
            let v = |p: &I3| DVec3::new(1.0 + p[0] as f64 / w as f64, 1.0 + p[1] as f64 / w as f64, 1.0 + p[2] as f64 / w as f64);
            let data = TetrahedronData { p1: v(&t[0]), p2: v(&t[1]), p3: v(&t[2]), p4: v(&t[3]) };
            let s = in_sphere(&t, &e);
            if s != 0 {
                let got = data.circumcircle_contains(v(&e));
                if got != (s > 0) {
                    bad.push(("in_sphere", format!("{t:?} / {w}: sphere contains {e:?}: {got}")));
                }
            }
            let os: [i128; 4] = std::array::from_fn(|k| {
                let mut u = t;
                u[k] = e;
                orient(&u[0], &u[1], &u[2], &u[3])
            });
            if os.iter().all(|x| *x != 0) {
                let got = data.contains(v(&e));
                let want = os.iter().all(|x| *x > 0);
                if got != want {
                    bad.push(("in_tetrahedron", format!("{t:?} / {w}: tetrahedron contains {e:?}: {got}")));
                }
            }
            let m = data.get_center_of_circumcircle();
            let d: Vec<f64> = t.iter().map(|p| m.distance(v(p))).collect();
            let edge = v(&t[0]).distance(v(&t[1])).max(v(&t[0]).distance(v(&t[2]))).max(v(&t[0]).distance(v(&t[3])));
            // well shaped ones only: the centre of a sliver is ill-conditioned
            let vol = (o.abs() as f64) / (w as f64).powi(3);
            if vol > 1e-3 * edge.powi(3) && !d.iter().all(|x| (x - d[0]).abs() <= 1e-6 * d[0]) {
                bad.push(("circumcentre", format!("{t:?} / {w}: distances of the circumcentre {d:?}")));
            }
            // where the line from e to another point crosses the plane of a face
            let q = pt(&mut rng, spread, &c);
            let col = |p: &I3, r: &I3| (0..3).map(|k| (p[k] - r[k]) as i128).collect::<Vec<_>>();
            let (ca, cb, ck, cc) = (col(&t[1], &t[0]), col(&t[2], &t[0]), col(&e, &q), col(&e, &t[0]));
            // columns a, b, q1 - q2 and right hand side q1 - p1, with q1 = e and q2 = q
            let den = idet(&[ca.clone(), cb.clone(), ck.clone()]);
            if den != 0 {
                let r = idet(&[cc.clone(), cb.clone(), ck.clone()]) * den.signum();
                let u = idet(&[ca.clone(), cc.clone(), ck.clone()]) * den.signum();
                let rest = den.abs() - r - u;
                if r != 0 && u != 0 && rest != 0 {
                    use vv::primitives::triangle::*;
                    let tri = TriangleData { p1: v(&t[0]), p2: v(&t[1]), p3: v(&t[2]) };
                    let mut out = vec![];
                    for (x, id) in [(r, EdgeIdentifier::Two), (u, EdgeIdentifier::Three), (rest, EdgeIdentifier::One)] {
                        if x < 0 {
                            out.push(id);
                        }
                    }
                    let want = match out.len() {
                        0 => IntersectionType::Inside,
                        1 => IntersectionType::OutsideOneEdge(out[0]),
                        _ => IntersectionType::OutsideTwoEdges(out[0], out[1]),
                    };
                    // the decision is made in floating point: only clear cases, as the
                    // coordinates along the face are known to about 1e-9
                    let margin = [r, u, rest].iter().map(|x| x.abs() as f64 / den.abs() as f64).fold(1e9, f64::min);
                    if margin > 1e-7 {
                        let got = tri.get_line_intersection_type(v(&e), v(&q));
                        let same = match (&got, &want) {
                            (IntersectionType::OutsideTwoEdges(a, b), IntersectionType::OutsideTwoEdges(x, y)) => {
                                (a == x && b == y) || (a == y && b == x)
                            }
                            _ => got == want,
                        };
                        if !same {
                            bad.push(("line_through_triangle", format!("{t:?} / {w}: line {e:?} {q:?}: {got:?}, expected {want:?}")));
                        }
                    }
                    let d = tri.distance_to_point(v(&e));
                    let want = triangle_distance([v(&t[0]), v(&t[1]), v(&t[2])], v(&e));
                    // slivers aside
                    let area = (v(&t[1]) - v(&t[0])).cross(v(&t[2]) - v(&t[0])).length();
                    if area > 1e-3 * edge * edge && (d - want).abs() > 1e-5 * (want + edge) {
                        bad.push(("distance_to_triangle", format!("{t:?} / {w}: distance of {e:?} is {d}, expected {want}")));
                    }
                }
            }
            almost_cospherical(&mut rng, &mut bad);
            tiny_tetrahedron(&mut rng, &mut bad);
            let x = data.extent();
            let ok = (0..3).all(|a| {
                let lo = t.iter().map(|p| p[a]).min().unwrap();
                let hi = t.iter().map(|p| p[a]).max().unwrap();
                let f = |k: i64| 1.0 + k as f64 / w as f64;
                [x.min.x, x.min.y, x.min.z][a] == f(lo) && [x.max.x, x.max.y, x.max.z][a] == f(hi)
            });
            if !ok {
                bad.push(("tetrahedron_extent", format!("{t:?} / {w}: extent {:?} {:?}", x.min, x.max)));
            }
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P10", j.all(), 40 * 4 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
}

// ---------------------------------------------------------------- arena

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct AId(generational_arena::Index);
impl From<AId> for generational_arena::Index {
    fn from(x: AId) -> Self {
        x.0
    }
}
impl From<generational_arena::Index> for AId {
    fn from(x: generational_arena::Index) -> Self {
        AId(x)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct VId(usize);
impl From<VId> for usize {
    fn from(x: VId) -> Self {
        x.0
    }
}
impl From<usize> for VId {
    fn from(x: usize) -> Self {
        VId(x)
    }
}

fn arena(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 2);
    let seed = ctx.rng("arenaseed").next();
    let ops = ctx.int("ops", 5, 300);
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let mut rng = Rng::new(seed ^ (rank as u64) << 32);
        let mut bad: Bad = vec![];
        let mut a: vv::IndexedArena<AId, u64> = Default::default();
        let mut model: Vec<(AId, Option<u64>)> = vec![];
        let mut v: vv::IndexedVec<VId, u64> = Default::default();
        let mut vmodel: Vec<u64> = vec![];
        for k in 0..ops as u64 {
            match rng.below(9) {
                0..=2 => {
                    let id = a.insert(k);
                    if model.iter().any(|m| m.0 == id) {
                        bad.push(("arena_id_reused", format!("identifier {id:?} given out twice")));
                    }
                    model.push((id, Some(k)));
                }
                3 | 4 if !model.is_empty() => {
                    let i = rng.below(model.len() as u64) as usize;
                    let (id, want) = model[i];
                    let got = a.remove(id);
                    if got != want {
                        bad.push(("arena_remove", format!("removed {got:?} instead of {want:?}")));
                    }
                    model[i].1 = None;
                }
                5 if !model.is_empty() => {
                    let i = rng.below(model.len() as u64) as usize;
                    if let (id, Some(_)) = model[i] {
                        a[id] = k + 1000;
                        model[i].1 = Some(k + 1000);
                    }
                }
                6 => a.reserve(1 + rng.below(20) as usize),
                7 => {
                    let id = v.insert(k);
                    vmodel.push(k);
                    if id.0 != vmodel.len() - 1 {
                        bad.push(("vec_id", format!("identifier {id:?} for entry {}", vmodel.len() - 1)));
                    }
                }
                _ if !vmodel.is_empty() => {
                    let i = rng.below(vmodel.len() as u64) as usize;
                    v[VId(i)] = k;
                    vmodel[i] = k;
                }
                _ => {}
            }
            if rng.chance(0.2) {
                for (id, want) in &model {
                    if a.get(*id) != want.as_ref() || a.contains(*id) != want.is_some() {
                        bad.push(("arena_get", format!("entry {id:?} is {:?} instead of {want:?}", a.get(*id))));
                    }
                    if let Some(w) = want {
                        if a[*id] != *w {
                            bad.push(("arena_get", format!("entry {id:?} is {} instead of {w}", a[*id])));
                        }
                    }
                }
                let live = model.iter().filter(|m| m.1.is_some()).count();
                if a.len() != live || a.size() < live {
                    bad.push(("arena_len", format!("arena of length {} instead of {live}", a.len())));
                }
                let mut got: Vec<u64> = vec![];
                for (id, x) in a.iter() {
                    if !model.iter().any(|m| m.0 == id && m.1 == Some(*x)) {
                        bad.push(("arena_iter", format!("entry {id:?} {x} should not exist")));
                    }
                    got.push(*x);
                }
                let mut want: Vec<u64> = model.iter().filter_map(|m| m.1).collect();
                got.sort();
                want.sort();
                if got != want {
                    bad.push(("arena_iter", format!("entries {got:?} instead of {want:?}")));
                }
                let got: Vec<(usize, u64)> = v.iter().map(|(i, x)| (i.0, *x)).collect();
                if got != vmodel.iter().copied().enumerate().collect::<Vec<_>>() {
                    bad.push(("vec_iter", format!("entries {got:?} instead of {vmodel:?}")));
                }
                if (0..vmodel.len()).any(|i| v[VId(i)] != vmodel[i]) {
                    bad.push(("vec_get", "wrong entry".into()));
                }
            }
        }
        let mut got: Vec<u64> = a.into_iter().collect();
        let mut want: Vec<u64> = model.iter().filter_map(|m| m.1).collect();
        got.sort();
        want.sort();
        if got != want || v.into_iter().collect::<Vec<_>>() != vmodel {
            bad.push(("arena_into_iter", format!("entries {got:?} instead of {want:?}")));
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P10", j.all(), ops as u64 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
}

// ---------------------------------------------------------------- directions

fn directions(ctx: &mut Ctx) {
    let n = ctx.int("ranks", 1, 4);
    let seed = ctx.rng("dirseed").next();
    let env = ctx.env(n);
    let j = ctx.job(n, env, move |rank| {
        let _ = SimulationPlugin;
        let mut rng = Rng::new(seed);
        let mut bad: Bad = vec![];
        let arr = |d: &Directions| -> Vec<[f64; 3]> {
            d.enumerate()
                .map(|(_, d)| {
                    let v = d.0.value_unchecked();
                    [v.x, v.y, v.z]
                })
                .collect()
        };
        let len = |v: &[f64; 3]| (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        let num = [1usize, 16, 21, 32, 64, 84][rng.below(6) as usize];
        let d: Directions = (&DirectionsSpecification::Num(num)).into();
        let v = arr(&d);
        if d.len() != num || v.len() != num || d.enumerate().enumerate().any(|(i, (k, _))| *k != i) {
            bad.push(("direction_count", format!("{} directions instead of {num}", v.len())));
        }
        for (i, x) in v.iter().enumerate() {
            if (len(x) - 1.0).abs() > 1e-4 {
                bad.push(("direction_length", format!("direction {i} of {num} has length {}", len(x))));
            }
            let y = d[DirectionIndex(i)].0.value_unchecked();
            if [y.x, y.y, y.z] != *x {
                bad.push(("direction_index", format!("direction {i} of {num}: {y:?} or {x:?}")));
            }
        }
        if num > 1 {
            // spread evenly: no preferred direction, none twice
            let sum: [f64; 3] = std::array::from_fn(|a| v.iter().map(|x| x[a]).sum::<f64>() / num as f64);
            if len(&sum) > 0.02 {
                bad.push(("directions_uneven", format!("{num} directions add up to {sum:?}")));
            }
            let cosmax = (0..num)
                .flat_map(|i| (0..i).map(move |k| (i, k)))
                .map(|(i, k)| (0..3).map(|a| v[i][a] * v[k][a]).sum::<f64>())
                .fold(-1.0, f64::max);
            // angle of at least a third of that of an ideal spread
            let ideal = (4.0 * std::f64::consts::PI / num as f64).sqrt();
            if cosmax > (0.5 * ideal).cos() {
                bad.push(("directions_uneven", format!("two of {num} directions are only {} apart", cosmax.acos())));
            }
        }
        let k = 1 + rng.below(6) as usize;
        let raw: Vec<[f64; 3]> = (0..k)
            .map(|_| std::array::from_fn(|_| (rng.unit() - 0.5) * [1.0, 30.0, 1e-3][rng.below(3) as usize]))
            .collect();
        let spec = DirectionsSpecification::Explicit(raw.iter().map(|v| VecDimensionless::dimensionless(v[0], v[1], v[2])).collect());
        let d: Directions = (&spec).into();
        let v = arr(&d);
        let ok = v.len() == k
            && d.len() == k
            && spec.num() == k
            && (0..k).all(|i| (0..3).all(|a| (v[i][a] - raw[i][a] / len(&raw[i])).abs() < 1e-12));
        if !ok {
            bad.push(("directions_explicit", format!("{raw:?} became {v:?}")));
        }
        // counters per direction
        let num = 1 + rng.below(20) as usize;
        let start = rng.below(5) as usize;
        let mut c = CountByDir::new(num, start);
        let mut model = vec![start; num];
        if CountByDir::empty().total() != 0 {
            bad.push(("count", "counter without directions not zero".into()));
        }
        for _ in 0..100 {
            let i = rng.below(num as u64) as usize;
            if rng.chance(0.5) && model[i] > 0 {
                model[i] -= 1;
                let got = c.reduce(DirectionIndex(i));
                if got != model[i] {
                    bad.push(("count", format!("counter reduced to {got}, not {}", model[i])));
                }
            } else {
                c[DirectionIndex(i)] += 1;
                model[i] += 1;
            }
            if c.total() != model.iter().sum::<usize>() || (0..num).any(|i| c[DirectionIndex(i)] != model[i]) {
                bad.push(("count", format!("counters {c:?} instead of {model:?}")));
            }
        }
        // every rank has the same directions
        let flat: Vec<f64> = v.iter().flatten().copied().collect();
        let mut comm = Communicator::<f64>::new();
        let all = comm.all_gather_varcount(&flat);
        if all != (0..n).flat_map(|_| flat.clone()).collect::<Vec<_>>() {
            bad.push(("directions_differ", format!("rank {rank}: directions differ between ranks")));
        }
        bad
    });
    if j.finished() {
        settle(ctx, "P04,P05,P06,P07", j.all(), 110 * n as u64);
    }
    ctx.res.nontrivial = n > 1;
    let _: BTreeMap<u8, u8> = BTreeMap::new();
}
