//! Independent numerics: quadrature, shape functions, exact Galerkin integrals, dense symmetric-definite eigensolver.
use crate::model::Model;
use nalgebra::{DMatrix, DVector};

/// n-point Gauss-Legendre rule on [-1,1] (Newton iteration on P_n, independent of the library)
pub fn gauss(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut x = vec![0.0; n];
    let mut w = vec![0.0; n];
    for i in 0..n {
        let mut z = (std::f64::consts::PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut d = 1.0;
        for _ in 0..100 {
            let (p, dp) = legendre(n, z);
            d = dp;
            let s = p / dp;
            z -= s;
            if s.abs() < 1e-16 {
                break;
            }
        }
        let (_, dp) = legendre(n, z);
        let _ = d;
        x[n - 1 - i] = z;
        w[n - 1 - i] = 2.0 / ((1.0 - z * z) * dp * dp);
    }
    if n % 2 == 1 {
        x[n / 2] = 0.0;
    }
    (x, w)
}
/// Legendre polynomial and its derivative
pub fn legendre(n: usize, x: f64) -> (f64, f64) {
    let (mut p0, mut p1) = (1.0, x);
    if n == 0 {
        return (1.0, 0.0);
    }
    for k in 2..=n {
        let p2 = ((2 * k - 1) as f64 * x * p1 - (k - 1) as f64 * p0) / k as f64;
        p0 = p1;
        p1 = p2;
    }
    let d = n as f64 * (x * p1 - p0) / (x * x - 1.0);
    (p1, d)
}

/// shape function along the direction of the field: value, 1st, 2nd derivative
pub fn norm_fn(i: usize, x: f64) -> [f64; 3] {
    let f = |k: i64| if k < 0 { 0.0 } else { x.powi(k as i32) };
    let i = i as i64;
    let n = i as f64;
    [f(i), if i >= 1 { n * f(i - 1) } else { 0.0 }, if i >= 2 { n * (n - 1.0) * f(i - 2) } else { 0.0 }]
}
/// shape function across the direction of the field
pub fn tang_fn(j: usize, x: f64) -> [f64; 3] {
    match j {
        0 => [1.0 - x, -1.0, 0.0],
        1 => [1.0 + x, 1.0, 0.0],
        _ => {
            let p = norm_fn(j, x);
            if j % 2 == 0 {
                [p[0] - 1.0, p[1], p[2]]
            } else {
                [p[0] - x, p[1] - 1.0, p[2]]
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fun {
    /// model cell that owns the function
    pub cell: usize,
    /// false: x-directed
    pub v: bool,
    pub i: usize,
    pub j: usize,
}

/// shape functions: across the field or along it, order, point: value, 1st, 2nd derivative
pub type Shapes = fn(bool, usize, f64) -> [f64; 3];
pub fn hier_poly(across: bool, n: usize, x: f64) -> [f64; 3] {
    if across {
        tang_fn(n, x)
    } else {
        norm_fn(n, x)
    }
}

/// Field of a function at a physical point inside its cell, and its scalar curl
pub fn field_at(m: &Model, f: &Fun, x: f64, y: f64) -> ([f64; 2], f64) {
    field_with(hier_poly, m, f, x, y)
}
pub fn field_with(shapes: Shapes, m: &Model, f: &Fun, x: f64, y: f64) -> ([f64; 2], f64) {
    let r = m.rect(f.cell);
    let (hx, hy) = ((r[1] - r[0]) / 2.0, (r[3] - r[2]) / 2.0);
    let u = (x - r[0]) / hx - 1.0;
    let v = (y - r[2]) / hy - 1.0;
    if !f.v {
        let n = shapes(false, f.i, u);
        let t = shapes(true, f.j, v);
        ([n[0] * t[0] / hx, 0.0], -(n[0] * t[1] / (hx * hy)))
    } else {
        let n = shapes(false, f.j, v);
        let t = shapes(true, f.i, u);
        ([0.0, t[0] * n[0] / hy], t[1] * n[0] / (hx * hy))
    }
}

/// Exact integrals of products of two functions over the overlap of their cells (one contains the other):
/// (integral of f.g, integral of curl f curl g), no material factors
pub struct Exact {
    x: [Vec<f64>; 2],
    w: [Vec<f64>; 2],
    shapes: Shapes,
}
impl Exact {
    /// exact for products of two shape functions of order up to `max_ord`
    pub fn new(max_ord: usize) -> Self {
        Exact::with(hier_poly, [max_ord + 2; 2])
    }
    /// other shape functions, and the rule with so many points along x and y
    pub fn with(shapes: Shapes, n: [usize; 2]) -> Self {
        let r = n.map(gauss);
        Exact { x: [r[0].0.clone(), r[1].0.clone()], w: [r[0].1.clone(), r[1].1.clone()], shapes }
    }
    pub fn pair(&self, m: &Model, f: &Fun, g: &Fun) -> (f64, f64) {
        let (prod, curl) = self.products(m, f, g);
        (if f.v == g.v { prod } else { 0.0 }, curl)
    }
    /// integral of the product of the (only) components, whatever their directions, and of the product of the curls
    pub fn products(&self, m: &Model, f: &Fun, g: &Fun) -> (f64, f64) {
        let (rf, rg) = (m.rect(f.cell), m.rect(g.cell));
        let kf = m.cells[f.cell].k;
        let kg = m.cells[g.cell].k;
        // overlap
        let k = [kf[0].max(kg[0]), kf[1].min(kg[1]), kf[2].max(kg[2]), kf[3].min(kg[3])];
        if k[0] >= k[1] || k[2] >= k[3] {
            return (0.0, 0.0);
        }
        let (x0, x1, y0, y1) = (m.x(k[0]), m.x(k[1]), m.y(k[2]), m.y(k[3]));
        // parametric ranges from the integer keys (no cancellation)
        let par = |k0: i64, k1: i64, lo: i64, hi: i64, t: f64| {
            let a = -1.0 + 2.0 * ((k0 - lo) as f64) / ((hi - lo) as f64);
            let b = -1.0 + 2.0 * ((k1 - lo) as f64) / ((hi - lo) as f64);
            a + (b - a) * (t + 1.0) / 2.0
        };
        let hx = [(rf[1] - rf[0]) / 2.0, (rg[1] - rg[0]) / 2.0];
        let hy = [(rf[3] - rf[2]) / 2.0, (rg[3] - rg[2]) / 2.0];
        // for each function: value and derivative factors along x and y
        let along = |h: &Fun, is_x: bool, t: f64| -> [f64; 2] {
            // the function's factor along this axis
            if h.v != is_x {
                // x-directed function along x, or y-directed along y
                let n = (self.shapes)(false, if is_x { h.i } else { h.j }, t);
                [n[0], n[1]]
            } else {
                let n = (self.shapes)(true, if is_x { h.i } else { h.j }, t);
                [n[0], n[1]]
            }
        };
        // 1-D integrals: value*value, and the combinations needed by the curl
        let mut ix = [[0.0; 2]; 2];
        let mut iy = [[0.0; 2]; 2];
        for (t, w) in self.x[0].iter().zip(self.w[0].iter()) {
            let a = along(f, true, par(k[0], k[1], kf[0], kf[1], *t));
            let b = along(g, true, par(k[0], k[1], kg[0], kg[1], *t));
            for p in 0..2 {
                for q in 0..2 {
                    ix[p][q] += w * a[p] * b[q];
                }
            }
        }
        for (t, w) in self.x[1].iter().zip(self.w[1].iter()) {
            let c = along(f, false, par(k[2], k[3], kf[2], kf[3], *t));
            let d = along(g, false, par(k[2], k[3], kg[2], kg[3], *t));
            for p in 0..2 {
                for q in 0..2 {
                    iy[p][q] += w * c[p] * d[q];
                }
            }
        }
        let (jx, jy) = ((x1 - x0) / 2.0, (y1 - y0) / 2.0);
        for p in 0..2 {
            for q in 0..2 {
                ix[p][q] *= jx;
                iy[p][q] *= jy;
            }
        }
        let scale = |h: &Fun, k: usize| if h.v { hy[k] } else { hx[k] };
        let prod = ix[0][0] * iy[0][0] / (scale(f, 0) * scale(g, 1));
        // curl f: x-directed: -dy; y-directed: +dx
        let (pf, sf) = if f.v { ([1, 0], 1.0) } else { ([0, 1], -1.0) };
        let (pg, sg) = if g.v { ([1, 0], 1.0) } else { ([0, 1], -1.0) };
        let curl = sf * sg * ix[pf[0]][pg[0]] * iy[pf[1]][pg[1]] / (hx[0] * hy[0] * hx[1] * hy[1]);
        (prod, curl)
    }
}

/// eigenvalues (ascending) and vectors of A x = l B x with A symmetric, B symmetric positive definite
pub fn gen_eig(a: &DMatrix<f64>, b: &DMatrix<f64>) -> Option<(Vec<f64>, Vec<DVector<f64>>)> {
    let n = a.nrows();
    // scale to unit diagonal first, hierarchical bases are badly scaled
    let d: Vec<f64> = (0..n).map(|i| 1.0 / b[(i, i)].sqrt()).collect();
    let sa = DMatrix::from_fn(n, n, |i, j| a[(i, j)] * d[i] * d[j]);
    let sb = DMatrix::from_fn(n, n, |i, j| b[(i, j)] * d[i] * d[j]);
    let ch = nalgebra::Cholesky::new(sb)?;
    let l = ch.l();
    let y = l.solve_lower_triangular(&sa)?;
    let c = l.solve_lower_triangular(&y.transpose())?;
    let c = (&c + c.transpose()) * 0.5;
    let e = nalgebra::SymmetricEigen::new(c);
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|p, q| e.eigenvalues[*p].partial_cmp(&e.eigenvalues[*q]).unwrap());
    let mut vals = Vec::new();
    let mut vecs = Vec::new();
    for i in idx {
        vals.push(e.eigenvalues[i]);
        let z = e.eigenvectors.column(i).into_owned();
        let x = l.transpose().solve_upper_triangular(&z)?;
        vecs.push(DVector::from_fn(n, |k, _| x[k] * d[k]));
    }
    Some((vals, vecs))
}
