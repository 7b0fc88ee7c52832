//! C28: assembly and fields with shape functions and integrals of the user.
use super::dof::{dof_functions, make_domain};
use super::fields::{coefficients, sample_with, Reference};
use super::matrix::{compare, pair_sums};
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::refmath::*;
use fem_2d::fem_domain::basis::{HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// value and three derivatives of a Legendre polynomial, by the three term recurrence (no division by 1 - x^2)
pub(super) fn legendre(n: usize, x: f64) -> [f64; 4] {
    let (mut a, mut b) = ([1.0, 0.0, 0.0, 0.0], [x, 1.0, 0.0, 0.0]);
    if n == 0 {
        return a;
    }
    for k in 2..=n {
        let (p, q) = ((2 * k - 1) as f64 / k as f64, (k - 1) as f64 / k as f64);
        let c = [p * x * b[0] - q * a[0], p * (b[0] + x * b[1]) - q * a[1], p * (2.0 * b[1] + x * b[2]) - q * a[2], p * (3.0 * b[2] + x * b[3]) - q * a[3]];
        a = b;
        b = c;
    }
    b
}
/// Legendre polynomials and their integrals
fn legendre_shapes(across: bool, n: usize, x: f64) -> [f64; 3] {
    let leg = |n: usize| -> [f64; 3] {
        let d = legendre(n, x);
        [d[0], d[1], d[2]]
    };
    match (across, n) {
        (false, _) => leg(n),
        (true, 0) => [(1.0 - x) / 2.0, -0.5, 0.0],
        (true, 1) => [(1.0 + x) / 2.0, 0.5, 0.0],
        (true, _) => {
            let (a, b) = (leg(n), leg(n - 2));
            [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
        }
    }
}
/// the library's polynomials in other sizes and with other signs
fn scaled_shapes(across: bool, n: usize, x: f64) -> [f64; 3] {
    let f = match (across, n) {
        // the two functions that are not zero at the ends have to fit each other
        (true, 0) | (true, 1) => -0.125,
        (true, _) => [3.0, -1e3, 1e-4][n % 3],
        (false, _) => [1e-3, -20.0, 0.5][n % 3],
    };
    hier_poly(across, n, x).map(|v| f * v)
}
/// no polynomials
fn trig_shapes(across: bool, n: usize, x: f64) -> [f64; 3] {
    let pi = std::f64::consts::PI;
    match (across, n) {
        (false, _) => {
            let k = 0.8 * n as f64 + 0.1;
            [(k * x).cos(), -k * (k * x).sin(), -k * k * (k * x).cos()]
        }
        (true, 0) => [((1.0 - x) * pi / 4.0).sin(), -pi / 4.0 * ((1.0 - x) * pi / 4.0).cos(), -pi * pi / 16.0 * ((1.0 - x) * pi / 4.0).sin()],
        (true, 1) => [((1.0 + x) * pi / 4.0).sin(), pi / 4.0 * ((1.0 + x) * pi / 4.0).cos(), -pi * pi / 16.0 * ((1.0 + x) * pi / 4.0).sin()],
        (true, _) => {
            let k = (n - 1) as f64 * pi / 2.0;
            [(k * (x + 1.0)).sin(), k * (k * (x + 1.0)).cos(), -k * k * (k * (x + 1.0)).sin()]
        }
    }
}
const SHAPES: [Shapes; 3] = [legendre_shapes, scaled_shapes, trig_shapes];

/// a family of shape functions that insists on what its trait says
#[derive(Clone, Debug)]
struct Family<const K: usize> {
    max: usize,
    d2: bool,
    points: Vec<f64>,
}
impl<const K: usize> Family<K> {
    fn get(&self, across: bool, n: usize, p: usize, d: usize) -> f64 {
        assert!(n <= self.max, "a shape function of order {} was asked for, they were set up to order {}", n, self.max);
        assert!(p < self.points.len(), "a shape function was asked for at point {} of {}", p, self.points.len());
        assert!(d < 2 || self.d2, "a second derivative was asked for, they were not set up");
        SHAPES[K](across, n, self.points[p])[d]
    }
}
impl<const K: usize> HierCurlBasisFnSpace for Family<K> {
    fn with(max_order: usize, points: &[f64], compute_d2: bool) -> Self {
        assert!(points.iter().all(|p| p.abs() <= 1.0 + 1e-12), "shape functions were set up at {:?}", points);
        Family { max: max_order, d2: compute_d2, points: points.to_vec() }
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        self.get(false, n, p, 0)
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        self.get(false, n, p, 1)
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        self.get(false, n, p, 2)
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        self.get(true, n, p, 0)
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        self.get(true, n, p, 1)
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        self.get(true, n, p, 2)
    }
}

/// a symmetric coupling of the fields, also of those in different directions: integral of p.Mq, M = ((1, 1/2), (1/2, 3))
struct Coupled {
    w: [Vec<f64>; 2],
}
fn coupled_material(m: &[f64; 4]) -> f64 {
    m[0] + 0.1 * m[2] + 0.01 * m[1] + 0.001 * m[3]
}
fn array_of(m: &Materials) -> [f64; 4] {
    [m.eps_rel.re, m.eps_rel.im, m.mu_rel.re, m.mu_rel.im]
}
impl HierCurlIntegral for Coupled {
    fn with_weights(u: &[f64], v: &[f64]) -> Self {
        Coupled { w: [u.to_vec(), v.to_vec()] }
    }
    fn integrate<S: HierCurlBasisFnSpace>(
        &self,
        p_dir: BasisDir,
        q_dir: BasisDir,
        p_orders: [usize; 2],
        q_orders: [usize; 2],
        p: &HierCurlBasisFn<S>,
        q: &HierCurlBasisFn<S>,
        materials: &Materials,
    ) -> IntegralResult {
        let field = |b: &HierCurlBasisFn<S>, dir: BasisDir, o: [usize; 2], at: [usize; 2]| match dir {
            BasisDir::U => b.f_u(o, at),
            BasisDir::V => b.f_v(o, at),
            BasisDir::W => panic!("a function in the third direction"),
        };
        let mut s = 0.0;
        for m in 0..self.w[0].len() {
            for n in 0..self.w[1].len() {
                let (f, g) = (field(p, p_dir, p_orders, [m, n]), field(q, q_dir, q_orders, [m, n]));
                let v = f[0] * g[0] + 3.0 * f[1] * g[1] + 0.5 * (f[0] * g[1] + f[1] * g[0]);
                s += self.w[0][m] * self.w[1][n] * v * p.sample_scale([m, n]) * p.glq_scale();
            }
        }
        s *= coupled_material(&array_of(materials));
        // in parts or not
        if (p_orders[0] + q_orders[0]) % 2 == 0 {
            IntegralResult::Full(s)
        } else {
            IntegralResult::ByParts(2.0 * s, [s, -s, -2.0 * s, s])
        }
    }
    fn integrate_by_parts<S: HierCurlBasisFnSpace>(&self, a: BasisDir, b: BasisDir, c: [usize; 2], d: [usize; 2], e: &HierCurlBasisFn<S>, f: &HierCurlBasisFn<S>, g: &Materials) -> IntegralResult {
        self.integrate(a, b, c, d, e, f, g)
    }
}
/// a number that tells the pair of functions, and the weights
struct Count {
    w: f64,
}
fn mark(v: bool, o: [usize; 2]) -> f64 {
    let k = (o[0] * 31 + o[1] * 7 + if v { 501 } else { 0 }) as f64;
    1.0 + (k * 0.7548776662).fract()
}
impl HierCurlIntegral for Count {
    fn with_weights(u: &[f64], v: &[f64]) -> Self {
        Count { w: u.iter().sum::<f64>() * v.iter().sum::<f64>() }
    }
    fn integrate<S: HierCurlBasisFnSpace>(&self, p_dir: BasisDir, q_dir: BasisDir, p: [usize; 2], q: [usize; 2], _: &HierCurlBasisFn<S>, _: &HierCurlBasisFn<S>, m: &Materials) -> IntegralResult {
        let s = self.w * mark(p_dir == BasisDir::V, p) * mark(q_dir == BasisDir::V, q) * coupled_material(&array_of(m));
        if p[1] == q[1] {
            IntegralResult::ByParts(0.5 * s, [0.25 * s, 0.125 * s, 0.0625 * s, 0.0625 * s])
        } else {
            IntegralResult::Full(s)
        }
    }
    fn integrate_by_parts<S: HierCurlBasisFnSpace>(&self, a: BasisDir, b: BasisDir, c: [usize; 2], d: [usize; 2], e: &HierCurlBasisFn<S>, f: &HierCurlBasisFn<S>, g: &Materials) -> IntegralResult {
        self.integrate(a, b, c, d, e, f, g)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    mesh: MeshCase,
    family: u8,
    /// points per direction, added to the least number
    extra: [u8; 2],
    dens: [u8; 2],
    salt: u32,
}
pub(super) fn gen_case(mesh: BoxedStrategy<MeshCase>) -> BoxedStrategy<GenCase> {
    (mesh, 0u8..3, [prop_oneof![Just(0u8), 0u8..7], prop_oneof![Just(0u8), 0u8..7]], [2u8..7, 2u8..7], any::<u32>())
        .prop_map(|(mesh, family, extra, dens, salt)| GenCase { mesh, family, extra, dens, salt })
        .boxed()
}
pub(super) fn with_shapes<S: HierCurlBasisFnSpace>(shapes: Shapes, c: &GenCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.mesh.build(caps)?;
    let d = make_domain(mesh)?;
    if d.dofs.is_empty() {
        obs.label("no-dofs");
        return Ok(());
    }
    describe(&m, obs);
    let funs = dof_functions(&d, &m)?;
    let o = m.cells.iter().fold([1u8, 1], |a, c| [a[0].max(c.ord[0]), a[1].max(c.ord[1])]);
    let n = [0, 1].map(|k| (o[k] as usize + 1).max(4) + c.extra[k] as usize);
    let ex = Exact::with(shapes, n);
    let run = |r: Result<Result<GEP, _>, String>| -> Result<GEP, Fail> {
        match r {
            Ok(Ok(g)) => Ok(g),
            Ok(Err(e)) => {
                let e: fem_2d::fem_problem::galerkin::GalerkinSamplingError = e;
                fail("assembly-refused", e.to_string())
            }
            Err(p) => fail("assembly-panic", p),
        }
    };
    let mat = |f: &Fun| m.mats[m.cells[f.cell].base];
    let part = |e: &BTreeMap<(usize, usize), (f64, f64)>, a: bool| e.iter().map(|(k, v)| (*k, if a { v.0 } else { v.1 })).collect::<BTreeMap<_, _>>();
    // the integrals of the library
    let g = run(guarded(|| galerkin_sample_gep_hcurl::<S, CurlCurl, L2Inner>(&d, Some(n))))?;
    let exp = pair_sums(&m, &funs, &|f, g| {
        let (prod, curl) = ex.products(&m, f, g);
        (curl / mat(f)[2], if f.v == g.v { prod * mat(f)[0] } else { 0.0 })
    });
    compare("stiffness", &g.a, &part(&exp, true), &funs, 1e-10)?;
    compare("mass", &g.b, &part(&exp, false), &funs, 1e-10)?;
    // those of the user, in either place
    let exp = pair_sums(&m, &funs, &|f, g| {
        let (prod, _) = ex.products(&m, f, g);
        let k = match (f.v, g.v) {
            (false, false) => 1.0,
            (true, true) => 3.0,
            _ => 0.5,
        };
        let x = coupled_material(&mat(f));
        (k * prod * x, 4.0 * mark(f.v, [f.i, f.j]) * mark(g.v, [g.i, g.j]) * x)
    });
    let (ca, cb) = (part(&exp, true), part(&exp, false));
    if c.salt % 2 == 0 {
        let g = run(guarded(|| galerkin_sample_gep_hcurl::<S, Coupled, Count>(&d, Some(n))))?;
        compare("coupled (first)", &g.a, &ca, &funs, 1e-10)?;
        compare("count (second)", &g.b, &cb, &funs, 1e-10)?;
    } else {
        let g = run(guarded(|| galerkin_sample_gep_hcurl::<S, Count, Coupled>(&d, Some(n))))?;
        compare("count (first)", &g.a, &cb, &funs, 1e-10)?;
        compare("coupled (second)", &g.b, &ca, &funs, 1e-10)?;
    }
    // fields
    let r = Reference::new(&d, &m)?;
    let sol = coefficients(d.dofs.len(), c.salt);
    let dens = c.dens.map(|x| x as usize);
    let img = sample_with::<S>(&d, dens, sol.clone(), 1.0)?;
    let (v, size) = r.xy_with(shapes, dens, &sol);
    ensure!(img.xy.len() == v.len(), "count", "{} values, {} expected", img.xy.len(), v.len());
    for (k, (real, exp)) in img.xy.iter().zip(v.iter()).enumerate() {
        for q in 0..2 {
            ensure!((real[q] - exp[q]).abs() <= 1e-9 * size + 1e-14, "field", "component {} at sample {} is {}, {} expected", q, k, real[q], exp[q]);
        }
    }
    obs.nontrivial_if(m.cells.len() > 1 && d.dofs.len() > 3);
    Ok(())
}
fn c28_caps(c: &GenCase, obs: &mut Obs, caps: Caps) -> Res {
    obs.label(["legendre", "scaled", "trigonometric"][c.family.min(2) as usize]);
    match c.family {
        0 => with_shapes::<Family<0>>(SHAPES[0], c, obs, caps),
        1 => with_shapes::<Family<1>>(SHAPES[1], c, obs, caps),
        _ => with_shapes::<Family<2>>(SHAPES[2], c, obs, caps),
    }
}

const RULE: &str = "random mesh, numbers of quadrature points and one of three families of shape functions (Legendre polynomials and their integrals, rescaled powers, trigonometric functions) that insist on being asked only for what they were set up for; the matrices of the library's integrals, of a user's symmetric coupling across directions (returned whole or in parts) and of a user's count of pairs, in either place, and the field of a random vector, are compared with the same sums by an independent implementation and quadrature rule; non-trivial: more than one element and more than 3 degrees of freedom";
pub fn c28() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "mesh",
                rule: RULE,
                strat: |t| gen_case(mesh_strategy(3, 2, t.pick(3, 4), 2, 4)),
                check: |c, o| c28_caps(c, o, Caps { leaves: 14, level: 4 }),
                quick: 1500,
                thorough: 30000,
                serial: false,
            }),
            Box::new(Part {
                name: "deep",
                rule: "as 'mesh', with histories that keep refining the newest elements",
                strat: |t| gen_case((base_strategy(2, 1), deep_strategy(t.pick(5, 7)), proptest::collection::vec([1u8..=3, 1u8..=3], 1..6)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed()),
                check: |c, o| c28_caps(c, o, Caps { leaves: 14, level: 7 }),
                quick: 1000,
                thorough: 20000,
                serial: false,
            }),
            Box::new(Part {
                name: "orders",
                rule: "as 'mesh', on at most 5 unrefined elements with orders up to 12",
                strat: |_| gen_case((base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec([1u8..=12, 1u8..=12], 1..4)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed()),
                check: |c, o| c28_caps(c, o, Caps { leaves: 5, level: 1 }),
                quick: 40,
                thorough: 800,
                serial: false,
            }),
            Box::new(Part {
                name: "large",
                rule: "as 'mesh', on up to 8x8 base elements with up to 80 unrefined elements, orders up to 2",
                strat: |t| gen_case(large_strategy(8, t.pick(5, 7), 6, 2)),
                check: |c, o| c28_caps(c, o, Caps { leaves: 80, level: 6 }),
                quick: 60,
                thorough: 2000,
                serial: false,
            }),
        ],
        assumptions: vec!["user-defined integrals are symmetric in their two functions"],
    }
}
