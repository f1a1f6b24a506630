//! Reference geometry: periodic Voronoi cells by clipping with half spaces.
pub type V = [f64; 3];

pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &V, b: &V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: &V) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist2(a: &V, b: &V) -> f64 {
    let d = sub(a, b);
    dot(&d, &d)
}
pub fn periodic_distance(a: &V, b: &V, lo: &V, hi: &V) -> f64 {
    let mut s = 0.0;
    for k in 0..3 {
        let l = hi[k] - lo[k];
        let mut d = (a[k] - b[k]).rem_euclid(l);
        d = d.min(l - d);
        s += d * d;
    }
    s.sqrt()
}

#[derive(Clone, Debug)]
pub struct RefFace {
    pub other: usize,
    /// Across the boundary of the box.
    pub wrapped: bool,
    pub shift: [i32; 3],
    pub normal: V,
    pub area: f64,
}

#[derive(Clone, Debug)]
pub struct RefCell {
    pub volume: f64,
    pub faces: Vec<RefFace>,
}

struct Poly {
    /// Which neighbour cut this face, and its corners.
    faces: Vec<(usize, Vec<V>)>,
}

fn cube(h: &V) -> Poly {
    let c = |x: f64, y: f64, z: f64| [x * h[0], y * h[1], z * h[2]];
    let f = |v: Vec<V>| (usize::MAX, v);
    Poly {
        faces: vec![
            f(vec![
                c(-1., -1., -1.),
                c(-1., -1., 1.),
                c(-1., 1., 1.),
                c(-1., 1., -1.),
            ]),
            f(vec![
                c(1., -1., -1.),
                c(1., 1., -1.),
                c(1., 1., 1.),
                c(1., -1., 1.),
            ]),
            f(vec![
                c(-1., -1., -1.),
                c(1., -1., -1.),
                c(1., -1., 1.),
                c(-1., -1., 1.),
            ]),
            f(vec![
                c(-1., 1., -1.),
                c(-1., 1., 1.),
                c(1., 1., 1.),
                c(1., 1., -1.),
            ]),
            f(vec![
                c(-1., -1., -1.),
                c(-1., 1., -1.),
                c(1., 1., -1.),
                c(1., -1., -1.),
            ]),
            f(vec![
                c(-1., -1., 1.),
                c(1., -1., 1.),
                c(1., 1., 1.),
                c(-1., 1., 1.),
            ]),
        ],
    }
}

impl Poly {
    fn radius2(&self) -> f64 {
        self.faces
            .iter()
            .flat_map(|f| f.1.iter())
            .map(|p| dot(p, p))
            .fold(0.0, f64::max)
    }
    /// Keep the side x·n <= d.
    fn clip(&mut self, n: &V, d: f64, id: usize) {
        if self
            .faces
            .iter()
            .all(|f| f.1.iter().all(|p| dot(p, n) <= d))
        {
            return;
        }
        let mut cap: Vec<V> = vec![];
        let mut out = vec![];
        for (fid, pts) in self.faces.drain(..) {
            let mut q: Vec<V> = vec![];
            for i in 0..pts.len() {
                let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
                let (da, db) = (dot(&a, n) - d, dot(&b, n) - d);
                if da <= 0.0 {
                    q.push(a);
                }
                if (da < 0.0 && db > 0.0) || (da > 0.0 && db < 0.0) {
                    let t = da / (da - db);
                    let x = add(&a, &mul(&sub(&b, &a), t));
                    q.push(x);
                    cap.push(x);
                }
                if da == 0.0 {
                    cap.push(a);
                }
            }
            if q.len() >= 3 {
                out.push((fid, q));
            }
        }
        if cap.len() >= 3 {
            let mut m = [0.0; 3];
            for p in &cap {
                m = add(&m, p);
            }
            let m = mul(&m, 1.0 / cap.len() as f64);
            let nn = mul(n, 1.0 / norm(n));
            let t = if nn[0].abs() < 0.7 {
                [1.0, 0.0, 0.0]
            } else {
                [0.0, 1.0, 0.0]
            };
            let e1 = cross(&nn, &t);
            let e1 = mul(&e1, 1.0 / norm(&e1));
            let e2 = cross(&nn, &e1);
            cap.sort_by(|a, b| {
                let (pa, pb) = (sub(a, &m), sub(b, &m));
                let x = dot(&pa, &e2).atan2(dot(&pa, &e1));
                let y = dot(&pb, &e2).atan2(dot(&pb, &e1));
                x.partial_cmp(&y).unwrap()
            });
            out.push((id, cap));
        }
        self.faces = out;
    }
}

fn polygon_area(p: &[V]) -> f64 {
    let mut s = [0.0; 3];
    for i in 1..p.len().saturating_sub(1) {
        s = add(&s, &cross(&sub(&p[i], &p[0]), &sub(&p[i + 1], &p[0])));
    }
    0.5 * norm(&s)
}

/// The cells of the periodic Voronoi grid.
pub fn periodic_voronoi(pos: &[V], lo: &V, hi: &V) -> Vec<RefCell> {
    let l = sub(hi, lo);
    let scale = l[0].max(l[1]).max(l[2]);
    let shifts: Vec<[i32; 3]> = (0..27)
        .map(|k| [k % 3 - 1, (k / 3) % 3 - 1, k / 9 - 1])
        .collect();
    let mut cells = vec![];
    let near = 3.5 * (l[0] * l[1] * l[2] / pos.len() as f64).cbrt() / scale;
    for (i, p) in pos.iter().enumerate() {
        // work in units of the box to keep the arithmetic tame; near ones first,
        // all of them only if those do not decide the cell
        let mut limit = near * near;
        let (poly, others) = loop {
            let mut others: Vec<(f64, usize, [i32; 3], V)> = vec![];
            for (j, q) in pos.iter().enumerate() {
                for s in &shifts {
                    if j == i && *s == [0, 0, 0] {
                        continue;
                    }
                    let d: V = std::array::from_fn(|a| (q[a] - p[a] + s[a] as f64 * l[a]) / scale);
                    let d2 = dot(&d, &d);
                    if d2 <= limit {
                        others.push((d2, j, *s, d));
                    }
                }
            }
            others.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let half = mul(&l, 0.75 / scale);
            let mut poly = cube(&half);
            let mut r2 = poly.radius2();
            for (k, (d2, _, _, d)) in others.iter().enumerate() {
                if *d2 > 4.0 * r2 {
                    break;
                }
                poly.clip(d, 0.5 * d2, k);
                r2 = poly.radius2();
            }
            if 4.0 * r2 <= limit {
                break (poly, others);
            }
            limit = f64::INFINITY;
        };
        let mut volume = 0.0;
        let mut faces = vec![];
        for (id, pts) in &poly.faces {
            let area = polygon_area(pts);
            if *id == usize::MAX {
                // cannot happen: the images of the point itself are closer
                if area > 1e-12 {
                    faces.push(RefFace {
                        other: usize::MAX,
                        wrapped: true,
                        shift: [9, 9, 9],
                        normal: [0.0; 3],
                        area,
                    });
                }
                continue;
            }
            let (d2, j, s, d) = &others[*id];
            let dist = d2.sqrt();
            volume += area * 0.5 * dist / 3.0;
            faces.push(RefFace {
                other: *j,
                wrapped: *s != [0, 0, 0],
                shift: *s,
                normal: mul(d, 1.0 / dist),
                area: area * scale * scale,
            });
        }
        cells.push(RefCell {
            volume: volume * scale.powi(3),
            faces,
        });
    }
    cells
}
