//! Reference fitting searches and the measurement of fitting errors.

use crate::spec;
use crate::src::Src;
use texpresso::Format;

/// The distinct colours a colour block has to represent
#[derive(Clone)]
pub struct Points {
    pub rgb: Vec<[u8; 3]>,
    pub pos: Vec<[f32; 3]>,
    pub weight: Vec<f32>,
    pub map: [Option<usize>; 16],
    pub transparent: bool,
}

impl Points {
    pub fn new(rgba: &spec::Block, mask: u32, bc1: bool, by_alpha: bool) -> Points {
        let mut p = Points {
            rgb: Vec::new(),
            pos: Vec::new(),
            weight: Vec::new(),
            map: [None; 16],
            transparent: false,
        };
        for i in 0..16 {
            if mask >> i & 1 == 0 {
                continue;
            }
            if bc1 && rgba[i][3] < 128 {
                p.transparent = true;
                continue;
            }
            let c = [rgba[i][0], rgba[i][1], rgba[i][2]];
            let w = if by_alpha { (f32::from(rgba[i][3]) + 1.0) / 256.0 } else { 1.0 };
            let at = p.rgb.iter().position(|&o| o == c);
            let at = at.unwrap_or_else(|| {
                p.rgb.push(c);
                p.pos.push([f32::from(c[0]) / 255.0, f32::from(c[1]) / 255.0, f32::from(c[2]) / 255.0]);
                p.weight.push(0.0);
                p.rgb.len() - 1
            });
            p.weight[at] += w;
            p.map[i] = Some(at);
        }
        for w in p.weight.iter_mut() {
            *w = w.sqrt();
        }
        p
    }

    pub fn len(&self) -> usize {
        self.rgb.len()
    }

    /// Sum of the points' weights
    pub fn mass(&self) -> f64 {
        self.weight.iter().map(|&w| f64::from(w)).sum()
    }
}

/// The ideal (unrounded) palette of a colour block in 0..1, without the transparent entry
pub fn ideal_palette(block: &[u8], bc1: bool) -> Vec<[f64; 3]> {
    let (a, b) = (spec::le16(&block[0..2]), spec::le16(&block[2..4]));
    let un = |v: u16| {
        [f64::from(v / 2048) / 31.0, f64::from(v / 32 % 64) / 63.0, f64::from(v % 32) / 31.0]
    };
    let (p, q) = (un(a), un(b));
    let mix = |s: f64| [0, 1, 2].map(|c| p[c] * s + q[c] * (1.0 - s));
    if bc1 && a <= b {
        vec![p, q, mix(0.5)]
    } else {
        vec![p, q, mix(2.0 / 3.0), mix(1.0 / 3.0)]
    }
}

pub fn dist(w: &[f64; 3], x: &[f32; 3], y: &[f64; 3]) -> f64 {
    (0..3).map(|c| w[c] * (f64::from(x[c]) - y[c]).powi(2)).sum()
}

pub fn wide(w: &[f32; 3]) -> [f64; 3] {
    [f64::from(w[0]), f64::from(w[1]), f64::from(w[2])]
}

pub fn squared(w: &[f32; 3]) -> [f64; 3] {
    wide(w).map(|v| v * v)
}

/// Squared distance of each point to the entry its pixels are assigned (the worst one, should
/// pixels of one colour differ). None if a pixel that needs a colour gets the transparent entry.
pub fn assigned(points: &Points, block: &[u8], bc1: bool, w: &[f64; 3]) -> Option<Vec<f64>> {
    let pal = ideal_palette(block, bc1);
    let mut d = vec![0f64; points.len()];
    for i in 0..16 {
        if let Some(p) = points.map[i] {
            let e = pal.get(spec::colour_index(block, i))?;
            d[p] = d[p].max(dist(w, &points.pos[p], e));
        }
    }
    Some(d)
}

/// Cluster fit's figure of merit
pub fn cluster_error(points: &Points, block: &[u8], bc1: bool, w: &[f32; 3]) -> Option<f64> {
    let d = assigned(points, block, bc1, &wide(w))?;
    Some(d.iter().zip(&points.weight).map(|(d, &m)| d * f64::from(m)).sum())
}

/// Range fit's figure of merit
pub fn range_error(points: &Points, block: &[u8], bc1: bool, w: &[f32; 3]) -> Option<f64> {
    Some(assigned(points, block, bc1, &squared(w))?.iter().sum())
}

/// Noise to model the freedom of floating-point evaluation
pub struct Noise<'a, 'b>(pub Option<&'a mut Src<'b>>);

impl Noise<'_, '_> {
    fn add(&mut self, scale: f32) -> f32 {
        match &mut self.0 {
            Some(s) => (s.unit() * 2.0 - 1.0) * scale,
            None => 0.0,
        }
    }
    fn on(&self) -> bool {
        self.0.is_some()
    }
}

fn principal(points: &Points, noise: &mut Noise) -> [f32; 3] {
    let total: f32 = points.weight.iter().sum();
    let mut centre = [0f32; 3];
    for (p, &w) in points.pos.iter().zip(&points.weight) {
        for c in 0..3 {
            centre[c] += p[c] * w;
        }
    }
    if total > f32::EPSILON {
        for c in centre.iter_mut() {
            *c /= total;
        }
    }
    let mut m = [0f32; 6];
    for (p, &w) in points.pos.iter().zip(&points.weight) {
        let a = [p[0] - centre[0], p[1] - centre[1], p[2] - centre[2]];
        let b = a.map(|v| v * w);
        m[0] += a[0] * b[0];
        m[1] += a[0] * b[1];
        m[2] += a[0] * b[2];
        m[3] += a[1] * b[1];
        m[4] += a[1] * b[2];
        m[5] += a[2] * b[2];
    }
    let trace = m[0] + m[3] + m[5];
    if noise.on() {
        for v in m.iter_mut() {
            *v += noise.add(4e-7 * trace);
        }
    }
    let rows = [[m[0], m[1], m[2]], [m[1], m[3], m[4]], [m[2], m[4], m[5]]];
    let mut v = [1f32; 3];
    let sum = [0, 1, 2].map(|c| rows[0][c] + rows[1][c] + rows[2][c]);
    if sum[0].max(sum[1].max(sum[2])) <= f32::EPSILON * trace {
        v = if m[0] >= m[3] && m[0] >= m[5] {
            rows[0]
        } else if m[3] >= m[5] {
            rows[1]
        } else {
            rows[2]
        };
    }
    for _ in 0..8 {
        let w = [0, 1, 2].map(|c| rows[2][c] * v[2] + (rows[1][c] * v[1] + rows[0][c] * v[0]));
        let a = 1.0 / w[0].max(w[1].max(w[2]));
        v = w.map(|x| x * a);
    }
    v
}

fn dot(a: &[f32; 3], b: &[f32; 3]) -> f32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

fn grid(x: f32, c: usize, noise: &mut Noise) -> f32 {
    let n = if c == 1 { 63.0 } else { 31.0 };
    let rcp = if c == 1 { 1.0 / 63.0f32 } else { 1.0 / 31.0f32 };
    let x = 1f32.min(0f32.max(x + noise.add(3e-7)));
    (n * x + 0.5).trunc() * rcp
}

#[derive(Clone)]
struct Best {
    err: f32,
    start: [f32; 3],
    end: [f32; 3],
    /// palette position of each point: 0 start .. steps end
    level: Vec<u8>,
    steps: u8,
    iteration: usize,
}

/// Least-squares endpoints for every ordered partition into `steps`+1 clusters, re-projecting up
/// to `iterations` times. Improves on `best`.
fn cluster_mode(points: &Points, w: &[f32; 3], steps: u8, iterations: usize, best: &mut Best, noise: &mut Noise) {
    let n = points.len();
    let mut axis = principal(points, noise);
    let mut orders: Vec<Vec<usize>> = Vec::new();
    let mut mine = best.clone();
    mine.start = [0.0; 3];
    mine.end = [0.0; 3];
    mine.iteration = 0;
    let start_err = best.err;
    let mut best_level: Vec<u8> = vec![0; n];
    for it in 0..iterations {
        let mut dps: Vec<(usize, f32)> = (0..n)
            .map(|i| (i, dot(&points.pos[i], &axis) + noise.add(4e-7)))
            .collect();
        dps.sort_by(|a, b| {
            match (a.1.is_finite(), b.1.is_finite()) {
                (true, true) => a.1.partial_cmp(&b.1).unwrap(),
                (false, true) => std::cmp::Ordering::Greater,
                (true, false) => std::cmp::Ordering::Less,
                _ => std::cmp::Ordering::Equal,
            }
        });
        let order: Vec<usize> = dps.iter().map(|d| d.0).collect();
        if orders.contains(&order) {
            break;
        }
        let pw: Vec<[f32; 4]> = order
            .iter()
            .map(|&j| {
                let (p, m) = (points.pos[j], points.weight[j]);
                [p[0] * m, p[1] * m, p[2] * m, m]
            })
            .collect();
        orders.push(order.clone());
        let mut total = [0f32; 4];
        for p in &pw {
            for c in 0..4 {
                total[c] += p[c];
            }
        }
        let add = |a: &mut [f32; 4], b: &[f32; 4]| (0..4).for_each(|c| a[c] += b[c]);
        // judge one partition: sums of the clusters at each level
        let judge = |parts: &[[f32; 4]], cuts: &[usize], mine: &mut Best, best_level: &mut Vec<u8>, noise: &mut Noise| {
            let ax;
            let bx;
            let ab;
            if steps == 2 {
                ax = [0, 1, 2, 3].map(|c| parts[1][c] * (if c == 3 { 0.25 } else { 0.5 }) + parts[0][c]);
                bx = [0, 1, 2, 3].map(|c| parts[1][c] * (if c == 3 { 0.25 } else { 0.5 }) + parts[2][c]);
                ab = parts[1][3] * 0.25;
            } else {
                const T1: [f32; 4] = [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 9.0];
                const T2: [f32; 4] = [2.0 / 3.0, 2.0 / 3.0, 2.0 / 3.0, 4.0 / 9.0];
                ax = [0, 1, 2, 3].map(|c| parts[2][c] * T1[c] + (parts[1][c] * T2[c] + parts[0][c]));
                bx = [0, 1, 2, 3].map(|c| parts[1][c] * T1[c] + (parts[2][c] * T2[c] + parts[3][c]));
                ab = (2.0 / 9.0) * (parts[1][3] + parts[2][3]);
            }
            let (a2, b2) = (ax[3], bx[3]);
            let factor = 1.0 / ((a2 * b2) - ab * ab);
            let mut err = 0f32;
            let mut e = [0f32; 3];
            let mut start = [0f32; 3];
            let mut end = [0f32; 3];
            for c in 0..3 {
                let a = grid(((ax[c] * b2) - bx[c] * ab) * factor, c, noise);
                let b = grid(((bx[c] * a2) - ax[c] * ab) * factor, c, noise);
                let e1 = (a * a) * a2 + (b * b * b2);
                let e2 = (a * b * ab) - a * ax[c];
                let e3 = e2 - b * bx[c];
                e[c] = (2.0 * e3 + e1) * w[c];
                start[c] = a;
                end[c] = b;
            }
            err += e[0] + e[1] + e[2];
            if err < mine.err {
                mine.err = err;
                mine.start = start;
                mine.end = end;
                mine.iteration = it;
                best_level.iter_mut().for_each(|l| *l = 0);
                for (k, &cut) in cuts.iter().enumerate() {
                    for m in cut..n {
                        best_level[order[m]] = k as u8 + 1;
                    }
                }
            }
        };
        let zero = [0f32; 4];
        let mut part0 = zero;
        for i in 0..n {
            if steps == 2 {
                let mut part1 = if i == 0 { pw[0] } else { zero };
                for j in i.max(1)..=n {
                    let part2 = [0, 1, 2, 3].map(|c| total[c] - part1[c] - part0[c]);
                    judge(&[part0, part1, part2], &[i, j], &mut mine, &mut best_level, noise);
                    if j < n {
                        add(&mut part1, &pw[j]);
                    }
                }
            } else {
                let mut part1 = zero;
                for j in i..=n {
                    let mut part2 = if j == 0 { pw[0] } else { zero };
                    for k in j.max(1)..=n {
                        let part3 = [0, 1, 2, 3].map(|c| total[c] - part2[c] - part1[c] - part0[c]);
                        judge(&[part0, part1, part2, part3], &[i, j, k], &mut mine, &mut best_level, noise);
                        if k < n {
                            add(&mut part2, &pw[k]);
                        }
                    }
                    if j < n {
                        add(&mut part1, &pw[j]);
                    }
                }
            }
            add(&mut part0, &pw[i]);
        }
        if mine.iteration != it {
            break;
        }
        axis = [0, 1, 2].map(|c| mine.end[c] - mine.start[c]);
    }
    if mine.err < start_err {
        mine.level = best_level;
        mine.steps = steps;
        *best = mine;
    }
}

/// Fitting error reached by the reference cluster-fit search
pub fn reference_cluster(points: &Points, w: &[f32; 3], bc1: bool, iterations: usize, noise: &mut Noise) -> f64 {
    let mut best = Best {
        err: f32::MAX,
        start: [0.0; 3],
        end: [0.0; 3],
        level: vec![0; points.len()],
        steps: 1,
        iteration: 0,
    };
    if bc1 {
        cluster_mode(points, w, 2, iterations, &mut best, noise);
        if !points.transparent {
            cluster_mode(points, w, 3, iterations, &mut best, noise);
        }
    } else {
        cluster_mode(points, w, 3, iterations, &mut best, noise);
    }
    let ww = wide(w);
    (0..points.len())
        .map(|p| {
            let t = f64::from(best.level[p]) / f64::from(best.steps);
            let e = [0, 1, 2].map(|c| {
                f64::from(best.start[c]) * (1.0 - t) + f64::from(best.end[c]) * t
            });
            f64::from(points.weight[p]) * dist(&ww, &points.pos[p], &e)
        })
        .sum()
}

/// Fitting error reached by the reference range fit
pub fn reference_range(points: &Points, w: &[f32; 3], bc1: bool, noise: &mut Noise) -> f64 {
    let axis = principal(points, noise);
    let d: Vec<f32> = points.pos.iter().map(|p| dot(p, &axis) + noise.add(4e-7)).collect();
    let (mut lo, mut hi) = (0, 0);
    for i in 1..d.len() {
        if d[i] < d[lo] {
            lo = i;
        } else if d[i] > d[hi] {
            hi = i;
        }
    }
    let ends = [lo, hi].map(|p| [0, 1, 2].map(|c| f64::from(grid(points.pos[p][c], c, noise))));
    let ww = squared(w);
    let mut best = f64::INFINITY;
    let modes: &[u8] = if !bc1 {
        &[3]
    } else if points.transparent {
        &[2]
    } else {
        &[2, 3]
    };
    for &steps in modes {
        let err: f64 = points
            .pos
            .iter()
            .map(|p| {
                (0..=steps)
                    .map(|l| {
                        let t = f64::from(l) / f64::from(steps);
                        let e = [0, 1, 2].map(|c| ends[0][c] * (1.0 - t) + ends[1][c] * t);
                        dist(&ww, p, &e)
                    })
                    .fold(f64::INFINITY, f64::min)
            })
            .sum();
        best = best.min(err);
    }
    best
}

pub fn is_bc1(f: Format) -> bool {
    f == Format::Bc1
}
