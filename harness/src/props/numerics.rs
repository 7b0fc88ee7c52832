//! C20, C21, C22, C25: quadrature, shape functions, integration by parts, geometric primitives.
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use crate::refmath::*;
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};
use fem_2d::fem_problem::integration::glq::*;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------------------------------
// C20
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RuleCase {
    n: usize,
    /// coefficients of Legendre polynomials, degrees scaled to the exact degree
    coef: Vec<(u16, f64)>,
}
fn rule_strat(t: Tier) -> BoxedStrategy<RuleCase> {
    let hi = t.pick(160usize, 260);
    (prop_oneof![4 => 1usize..24, 2 => 24usize..65, 1 => 65usize..hi], proptest::collection::vec((any::<u16>(), -10.0..10.0f64), 1..8))
        .prop_map(|(n, coef)| RuleCase { n, coef })
        .boxed()
}
fn c20_rule(c: &RuleCase, obs: &mut Obs) -> Res {
    let n = c.n;
    let (p, w) = guarded(|| gauss_quadrature_points(n, false)).or_else(|p| fail("panic", p))?;
    ensure!(p.len() == n && w.len() == n, "count", "{} points and {} weights for n = {}", p.len(), w.len(), n);
    let (rp, rw) = gauss(n);
    for k in 0..n {
        ensure!(p[k] > -1.0 && p[k] < 1.0, "range", "point {} of {} is {}", k, n, p[k]);
        ensure!(k == 0 || p[k] > p[k - 1], "order", "points {} and {} of {} are {} and {}", k - 1, k, n, p[k - 1], p[k]);
        ensure!(w[k] > 0.0, "weight-sign", "weight {} of {} is {}", k, n, w[k]);
        ensure!((p[k] + p[n - 1 - k]).abs() < 1e-12, "point-symmetry", "points {} and {} of {} are {} and {}", k, n - 1 - k, n, p[k], p[n - 1 - k]);
        ensure!((w[k] - w[n - 1 - k]).abs() < 1e-11, "weight-symmetry", "weights {} and {} of {} are {} and {}", k, n - 1 - k, n, w[k], w[n - 1 - k]);
        ensure!((p[k] - rp[k]).abs() < 1e-12, "point", "point {} of {} is {}, {} expected", k, n, p[k], rp[k]);
        ensure!((w[k] - rw[k]).abs() < 1e-11, "weight", "weight {} of {} is {}, {} expected", k, n, w[k], rw[k]);
    }
    // exactness
    let mut exact = 0.0;
    let mut size = 0.0;
    let degs: Vec<(usize, f64)> = c.coef.iter().map(|(d, a)| (*d as usize * 2 * n / 65536, *a)).collect();
    let top = degs.iter().fold(0, |m, d| m.max(d.0));
    let f = |x: f64| degs.iter().map(|(d, a)| a * legendre(*d, x).0).sum::<f64>();
    for (d, a) in degs.iter() {
        size += a.abs();
        if *d == 0 {
            exact += 2.0 * a;
        }
    }
    let s: f64 = p.iter().zip(w.iter()).map(|(x, w)| w * f(*x)).sum();
    ensure!((s - exact).abs() <= 1e-11 * size, "exactness", "a polynomial of degree {} gives {} instead of {} with {} points", top, s, exact, n);
    obs.nontrivial_if(n > 1 && top > 1);
    obs.label(if top == 2 * n - 1 { "highest-degree" } else { "lower-degree" });
    // with the end points
    let (pe, we) = guarded(|| gauss_quadrature_points(n, true)).or_else(|p| fail("panic", p))?;
    ensure!(pe.len() == n + 2 && we.len() == n + 2, "end-count", "{} points with the ends for n = {}", pe.len(), n);
    ensure!(pe[0] == -1.0 && pe[n + 1] == 1.0, "ends", "the ends are {} and {}", pe[0], pe[n + 1]);
    ensure!(pe[1..=n] == p[..] && we[1..=n] == w[..], "end-interior", "the interior points or weights differ from those without ends");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SumCase {
    n: [usize; 2],
    /// sums of coefficient x^a y^b, exponents scaled to the exact degree
    terms: Vec<(u16, u16, f64)>,
    /// range of the rescaled rule
    lo: [f64; 2],
    len: [f64; 2],
}
fn sum_strat(_t: Tier) -> BoxedStrategy<SumCase> {
    let len = || prop_oneof![2 => 0.001..2.0f64, 1 => Just(1.0), 1 => Just(0.25), 1 => 0.001..20.0f64];
    (
        [1usize..14, 1usize..14],
        proptest::collection::vec((any::<u16>(), any::<u16>(), -4.0..4.0f64), 1..6),
        [prop_oneof![-1.0..1.0f64, -8.0..8.0f64, Just(-1.0)], prop_oneof![-1.0..1.0f64, -8.0..8.0f64, Just(-1.0)]],
        [len(), len()],
    )
        .prop_map(|(n, terms, lo, len)| SumCase { n, terms, lo, len })
        .boxed()
}
fn many_sum_strat(t: Tier) -> BoxedStrategy<SumCase> {
    let hi = t.pick(150usize, 260);
    let n = move || prop_oneof![1 => 1usize..14, 3 => 14usize..hi];
    (
        [n(), n()],
        proptest::collection::vec((any::<u16>(), any::<u16>(), -4.0..4.0f64), 1..4),
        [prop_oneof![2 => -1.0..0.0f64, 1 => Just(-1.0)], prop_oneof![2 => -1.0..0.0f64, 1 => Just(-1.0)]],
        [0.001..1.0f64, 0.001..1.0f64],
    )
        .prop_map(|(n, terms, lo, len)| SumCase { n, terms, lo, len })
        .boxed()
}
fn mono(k: usize, a: f64, b: f64) -> f64 {
    // integral of x^k over (a, b), from the factored difference
    let e = k as i32 + 1;
    (b.powi(e) - a.powi(e)) / e as f64
}
fn c20_sums(c: &SumCase, obs: &mut Obs) -> Res {
    let (nu, nv) = (c.n[0], c.n[1]);
    let t: Vec<(usize, usize, f64)> = c.terms.iter().map(|(a, b, k)| (*a as usize * 2 * nu / 65536, *b as usize * 2 * nv / 65536, *k)).collect();
    let f = |x: f64, y: f64| t.iter().map(|(a, b, k)| k * x.powi(*a as i32) * y.powi(*b as i32)).sum::<f64>();
    let (pu, wu) = gauss_quadrature_points(nu, false);
    let (pv, wv) = gauss_quadrature_points(nv, false);
    let size: f64 = 4.0 * t.iter().map(|x| x.2.abs()).sum::<f64>();
    let exact: f64 = t.iter().map(|(a, b, k)| k * mono(*a, -1.0, 1.0) * mono(*b, -1.0, 1.0)).sum();
    let got = guarded(|| real_gauss_quad(&wu, &wv, |m, n| f(pu[m], pv[n]))).or_else(|p| fail("panic", p))?;
    ensure!((got - exact).abs() <= 1e-11 * size, "sum", "the sum over all points is {}, the integral {}", got, exact);
    obs.nontrivial_if(t.iter().any(|x| x.0 + x.1 > 0) && nu != nv);
    // with the ends: the end points must not be used inside, values there are poisoned
    let (eu, ewu) = gauss_quadrature_points(nu, true);
    let (ev, ewv) = gauss_quadrature_points(nv, true);
    let bad = RefCell::new(None);
    let got = guarded(|| {
        real_gauss_quad_inner(&ewu, &ewv, |m, n| {
            if m == 0 || n == 0 || m == nu + 1 || n == nv + 1 {
                *bad.borrow_mut() = Some((m, n));
                return 1e9;
            }
            f(eu[m], ev[n])
        })
    })
    .or_else(|p| fail("panic", p))?;
    ensure!((got - exact).abs() <= 1e-11 * size, "inner", "the sum over the inner points is {}, the integral {} (end point used: {:?})", got, exact, bad.borrow());
    for e in 0..4 {
        // S, N: along u at an end of v; W, E: along v at an end of u
        let exact: f64 = t
            .iter()
            .map(|(a, b, k)| {
                let s = |p: usize, lo: bool| if lo && p % 2 == 1 { -1.0 } else { 1.0 };
                match e {
                    0 | 1 => k * mono(*a, -1.0, 1.0) * s(*b, e == 0),
                    _ => k * mono(*b, -1.0, 1.0) * s(*a, e == 2),
                }
            })
            .sum();
        let got = guarded(|| {
            real_gauss_quad_edge(&ewu, &ewv, e, |m, n| {
                let (along, across, n_along, want) = match e {
                    0 => (m, n, nu, 0),
                    1 => (m, n, nu, nv + 1),
                    2 => (n, m, nv, 0),
                    _ => (n, m, nv, nu + 1),
                };
                if along == 0 || along == n_along + 1 || across != want {
                    *bad.borrow_mut() = Some((m, n));
                    return 1e9;
                }
                f(eu[m], ev[n])
            })
        })
        .or_else(|p| fail("panic", p))?;
        ensure!((got - exact).abs() <= 1e-11 * size, "side", "the sum along side {} is {}, the integral {} (wrong point used: {:?})", e, got, exact, bad.borrow());
    }
    // rescaled
    for ends in [false, true] {
        let mut parts = Vec::new();
        for d in 0..2 {
            let (p, w) = gauss_quadrature_points(c.n[d], ends);
            let (lo, hi) = (c.lo[d], c.lo[d] + c.len[d]);
            let (s, q) = guarded(|| scale_gauss_quad_points(&p, lo, hi)).or_else(|p| fail("panic", p))?;
            ensure!((s - c.len[d] / 2.0).abs() <= 1e-13 * (1.0 + lo.abs() + hi.abs()), "scale", "the scale of ({}, {}) is {}", lo, hi, s);
            ensure!(q.len() == p.len(), "scale-count", "{} points became {}", p.len(), q.len());
            for (a, b) in p.iter().zip(q.iter()) {
                let e = lo + (a + 1.0) * (hi - lo) / 2.0;
                ensure!((b - e).abs() <= 1e-13 * (1.0 + lo.abs() + hi.abs()), "scale-point", "point {} became {} in ({}, {})", a, b, lo, hi);
            }
            parts.push((s, q, w));
        }
        let (lo, hi) = (c.lo, [c.lo[0] + c.len[0], c.lo[1] + c.len[1]]);
        let big = |d: usize, p: usize| lo[d].abs().max(hi[d].abs()).powi(p as i32);
        let exact: f64 = t.iter().map(|(a, b, k)| k * mono(*a, lo[0], hi[0]) * mono(*b, lo[1], hi[1])).sum();
        // rounding of the closed form: differences of powers
        let size: f64 = t.iter().map(|(a, b, k)| k.abs() * (big(0, a + 1) * big(1, b + 1)).max(c.len[0] * c.len[1] * big(0, *a) * big(1, *b)) * (a + b + 2) as f64).sum();
        let q = |m: usize, n: usize| f(parts[0].1[m], parts[1].1[n]);
        let got = if ends { real_gauss_quad_inner(&parts[0].2, &parts[1].2, q) } else { real_gauss_quad(&parts[0].2, &parts[1].2, q) } * parts[0].0 * parts[1].0;
        ensure!((got - exact).abs() <= 1e-11 * size, "rescaled", "over {:?} to {:?} the rule gives {}, the integral is {}", lo, hi, got, exact);
    }
    Ok(())
}
pub fn c20() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "rules", rule: "number of points up to 160 (260 thorough) and a random polynomial of up to the exact degree, against an independent rule (Newton iteration) and the closed form; non-trivial: more than one point and a degree above 1", strat: rule_strat, check: c20_rule, quick: 12000, thorough: 200000, serial: false }),
            Box::new(Part { name: "sums", rule: "random two-dimensional polynomials of up to the exact degree in each direction, summed over all points, inner points, each side (values at points that must not be used are poisoned) and rescaled ranges; non-trivial: not constant, different numbers of points per direction", strat: sum_strat, check: c20_sums, quick: 60000, thorough: 1500000, serial: false }),
            Box::new(Part { name: "many-points", rule: "as 'rules', with 160 to 420 (700 thorough) points", strat: |t| {
                let hi = t.pick(420usize, 700);
                (160usize..hi, proptest::collection::vec((any::<u16>(), -10.0..10.0f64), 1..8)).prop_map(|(n, coef)| RuleCase { n, coef }).boxed()
            }, check: c20_rule, quick: 60, thorough: 400, serial: false }),
            Box::new(Part { name: "many-sums", rule: "as 'sums', with up to 150 (260 thorough) points per direction", strat: many_sum_strat, check: c20_sums, quick: 600, thorough: 6000, serial: false }),
        ],
        assumptions: vec!["points are compared to 1e-12, weights and integrals to 1e-11 of their size"],
    }
}

// ---------------------------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------------------------
fn close(a: f64, e: f64, tol: f64) -> bool {
    (a - e).abs() <= tol
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    max: usize,
    points: Vec<f64>,
    d2: bool,
}
pub(super) fn points_strat() -> BoxedStrategy<Vec<f64>> {
    proptest::collection::vec(prop_oneof![6 => -1.0..=1.0f64, 1 => Just(-1.0), 1 => Just(1.0), 1 => Just(0.0)], 1..6).boxed()
}
fn shape_strat(_t: Tier) -> BoxedStrategy<ShapeCase> {
    (prop_oneof![3 => 1usize..8, 2 => 8usize..=20], points_strat(), any::<bool>()).prop_map(|(max, points, d2)| ShapeCase { max, points, d2 }).boxed()
}
fn c21_shapes(c: &ShapeCase, obs: &mut Obs) -> Res {
    let s = guarded(|| HierPoly::with(c.max, &c.points, c.d2)).or_else(|p| fail("panic", p))?;
    obs.nontrivial_if(c.max >= 4 && c.points.iter().any(|x| *x != 0.0 && x.abs() != 1.0));
    for n in 0..=c.max {
        for (p, x) in c.points.iter().enumerate() {
            let (en, et) = (norm_fn(n, *x), tang_fn(n, *x));
            let got = guarded(|| {
                let mut v = vec![s.norm(n, p), s.norm_d1(n, p), s.tang(n, p), s.tang_d1(n, p)];
                if c.d2 {
                    v.push(s.norm_d2(n, p));
                    v.push(s.tang_d2(n, p));
                }
                v
            })
            .or_else(|p| fail("panic", format!("order {} of {}: {}", n, c.max, p)))?;
            let want = [en[0], en[1], et[0], et[1], en[2], et[2]];
            let name = ["normal", "normal'", "tangential", "tangential'", "normal''", "tangential''"];
            for k in 0..got.len() {
                ensure!(close(got[k], want[k], 1e-12 * (1 + n * n) as f64), "shape", "{} function of order {} (highest {}) at {} is {}, {} expected", name[k], n, c.max, x, got[k], want[k]);
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FnCase {
    mesh: MeshCase,
    /// which element, and which of its descendants (itself included)
    pick: (u16, u16),
    ij: [usize; 2],
    up: Vec<f64>,
    vp: Vec<f64>,
    d2: bool,
    scale: [f64; 2],
}
/// ordinary meshes, and ones with many levels
fn any_mesh(t: Tier) -> BoxedStrategy<MeshCase> {
    let ords = || proptest::collection::vec([1u8..=3, 1u8..=3], 1..4);
    let deep = (base_strategy(2, 2), deep_strategy(t.pick(12, 14)), ords()).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords });
    let ladder = (base_strategy(2, 2), ladder_strategy(t.pick(12, 14)), ords()).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords });
    prop_oneof![4 => mesh_strategy(2, 2, t.pick(4, 6), 2, 3), 1 => deep, 1 => ladder].boxed()
}
fn fn_strat(t: Tier) -> BoxedStrategy<FnCase> {
    (any_mesh(t), any::<(u16, u16)>(), [prop_oneof![4 => 1usize..6, 1 => 6usize..=20], prop_oneof![4 => 1usize..6, 1 => 6usize..=20]], points_strat(), points_strat(), any::<bool>(), [0.05..2.0f64, 0.05..2.0f64])
        .prop_map(|(mesh, pick, ij, up, vp, d2, scale)| FnCase { mesh, pick, ij, up, vp, d2, scale })
        .boxed()
}
/// the element picked, and a descendant of it
fn pick_pair(m: &Model, pick: (u16, u16)) -> (usize, usize) {
    let refined: Vec<usize> = (0..m.cells.len()).filter(|c| !m.is_leaf(*c)).collect();
    // mostly elements with descendants
    let e = if !refined.is_empty() && pick.0 % 4 != 0 { refined[pick.0 as usize / 4 % refined.len()] } else { pick.0 as usize / 4 % m.cells.len() };
    let mut d = m.descendants(e);
    d.retain(|x| *x != e);
    d.insert(0, e);
    // mostly proper descendants
    let k = if d.len() > 1 && pick.1 % 8 != 0 { 1 + pick.1 as usize / 8 % (d.len() - 1) } else { 0 };
    (e, d[k])
}
fn v2(v: V2D, e: [f64; 2], tol: f64) -> bool {
    close(v[0], e[0], tol) && close(v[1], e[1], tol)
}
const CAPS: Caps = Caps { leaves: 60, level: 14 };
fn c21_functions(c: &FnCase, obs: &mut Obs) -> Res {
    let (mesh, m) = c.mesh.build(CAPS)?;
    let (e, d) = pick_pair(&m, c.pick);
    let (ee, de) = (m.cells[e].eid, m.cells[d].eid);
    let b: HierCurlBasisFn<HierPoly> = guarded(|| HierBasisFn::defined_over(&mesh.elems[ee], if e == d && c.pick.1 % 2 == 0 { None } else { Some(&mesh.elems[de]) }, [&c.up, &c.vp], c.ij, c.d2))
        .or_else(|p| fail("panic", p))?;
    obs.nontrivial_if(e != d);
    let (re, rd) = (m.rect(e), m.rect(d));
    let h = [(re[1] - re[0]) / 2.0, (re[3] - re[2]) / 2.0];
    let hd = [(rd[1] - rd[0]) / 2.0, (rd[3] - rd[2]) / 2.0];
    let (ke, kd) = (m.cells[e].k, m.cells[d].k);
    let s = [(kd[1] - kd[0]) as f64 / (ke[1] - ke[0]) as f64, (kd[3] - kd[2]) as f64 / (ke[3] - ke[2]) as f64];
    if hd[0] / h[0] < 0.2 || hd[1] / h[1] < 0.2 {
        obs.label("several-levels-down");
    }
    let rel = 1e-12 + 4.0 * m.tol() / h[0].min(h[1]);
    ensure!(v2(b.para_scale, s, 1e-13) && close(b.u_glq_scale(), s[0], 1e-13) && close(b.v_glq_scale(), s[1], 1e-13), "scale", "parametric scales are {} ({}, {}), {:?} expected", b.para_scale, b.u_glq_scale(), b.v_glq_scale(), s);
    ensure!(close(b.glq_scale(), s[0] * s[1], 1e-13), "glq-scale", "area scale is {}", b.glq_scale());
    ensure!(v2(*b.deriv_scale(), s, 1e-13), "deriv-scale", "derivative scale is {}", b.deriv_scale());
    for k in 0..4 {
        ensure!(close(b.edge_glq_scale(k), s[k / 2], 1e-13), "edge-scale", "scale of side {} is {}, {} expected", k, b.edge_glq_scale(k), s[k / 2]);
    }
    ensure!(b.jac.len() == c.up.len() && b.jac.iter().all(|r| r.len() == c.vp.len()), "jac-size", "Jacobians are not given at all points");
    let ps = V2D::from(c.scale);
    for (mi, u) in c.up.iter().enumerate() {
        for (ni, v) in c.vp.iter().enumerate() {
            let at = [mi, ni];
            let j = &b.jac[mi][ni];
            ensure!(v2(j.u, [h[0], 0.0], rel * h[0]) && v2(j.v, [0.0, h[1]], rel * h[1]), "jacobian", "Jacobian is {}, half sides are {:?}", j, h);
            let ji = &b.jac_inv[mi][ni];
            ensure!(v2(ji.u, [1.0 / h[0], 0.0], rel / h[0]) && v2(ji.v, [0.0, 1.0 / h[1]], rel / h[1]), "jacobian-inverse", "inverse Jacobian is {}, half sides are {:?}", ji, h);
            ensure!(close(b.det_jac[mi][ni], h[0] * h[1], rel * h[0] * h[1]) && close(b.sample_scale(at), h[0] * h[1], rel * h[0] * h[1]), "determinant", "determinant is {}", b.det_jac[mi][ni]);
            let (uv, vu) = (h[0] / h[1], h[1] / h[0]);
            ensure!(close(b.uv_ratio(at), uv, 4.0 * rel * uv) && close(b.vu_ratio(at), vu, 4.0 * rel * vu) && close(b.max_uv_ratio(at), uv.max(vu), 4.0 * rel * uv.max(vu)), "ratios", "side ratios are {}, {}, {} for half sides {:?}", b.uv_ratio(at), b.vu_ratio(at), b.max_uv_ratio(at), h);
            // position within the element, from integer keys
            let par = |t: f64, a: i64, bb: i64, lo: i64, hi: i64| {
                let p = -1.0 + 2.0 * ((a - lo) as f64) / ((hi - lo) as f64);
                let q = -1.0 + 2.0 * ((bb - lo) as f64) / ((hi - lo) as f64);
                p + (q - p) * (t + 1.0) / 2.0
            };
            let (x, y) = (par(*u, kd[0], kd[1], ke[0], ke[1]), par(*v, kd[2], kd[3], ke[2], ke[3]));
            for i in 0..=c.ij[0] {
                for jj in 0..=c.ij[1] {
                    if (i + jj + mi + ni) % 3 != 0 && c.ij[0] * c.ij[1] > 40 {
                        continue;
                    }
                    let (nx, tx, ny, ty) = (norm_fn(i, x), tang_fn(i, x), norm_fn(jj, y), tang_fn(jj, y));
                    let o = [i, jj];
                    let n2 = ((1 + i * i) * (1 + jj * jj)) as f64;
                    let t = |h: f64, k: f64| 4.0 * (rel + 1e-12) * n2 * k / h;
                    let [s0, s1] = c.scale;
                    let chk = |got: V2D, e: [f64; 2], tol: f64, what: &str| -> Res {
                        ensure!(v2(got, e, tol), "function", "{} of orders {:?} at ({}, {}) is {}, {:?} expected", what, o, x, y, got, e);
                        Ok(())
                    };
                    let r: Result<Res, String> = guarded(|| {
                        chk(b.f_u(o, at), [nx[0] * ty[0] / h[0], 0.0], t(h[0], 1.0), "u-function")?;
                        chk(b.f_v(o, at), [0.0, tx[0] * ny[0] / h[1]], t(h[1], 1.0), "v-function")?;
                        chk(b.f_u_d1(o, at, &ps), [nx[0] * ty[1] / h[0] * s0, 0.0], t(h[0], s0), "first derivative of the u-function")?;
                        chk(b.f_v_d1(o, at, &ps), [0.0, tx[1] * ny[0] / h[1] * s1], t(h[1], s1), "first derivative of the v-function")?;
                        chk(b.f_u_dd(o, at, &ps), [nx[1] * ty[1] / h[0] * s0 * s1, 0.0], t(h[0], s0 * s1), "mixed derivative of the u-function")?;
                        chk(b.f_v_dd(o, at, &ps), [0.0, tx[1] * ny[1] / h[1] * s0 * s1], t(h[1], s0 * s1), "mixed derivative of the v-function")?;
                        if c.d2 {
                            chk(b.f_u_d2(o, at, &ps), [nx[0] * ty[2] / h[0] * s0 * s0, 0.0], t(h[0], s0 * s0), "second derivative of the u-function")?;
                            chk(b.f_v_d2(o, at, &ps), [0.0, tx[2] * ny[0] / h[1] * s1 * s1], t(h[1], s1 * s1), "second derivative of the v-function")?;
                        }
                        Ok(())
                    });
                    match r {
                        Ok(r) => r?,
                        Err(p) => return fail("panic", format!("orders {:?}: {}", o, p)),
                    }
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SamplerCase {
    mesh: MeshCase,
    order: [usize; 2],
    n: [Option<usize>; 2],
    d2: bool,
    /// requests per thread
    reqs: Vec<Vec<(u16, u16)>>,
    /// shape functions that panic in one request before all others
    #[serde(default)]
    broken: bool,
}
thread_local! {
    static BREAK: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// the library's shape functions, but making them panics on request
#[derive(Clone, Debug)]
struct Shy(HierPoly);
impl HierCurlBasisFnSpace for Shy {
    fn with(max_order: usize, points: &[f64], compute_d2: bool) -> Self {
        if BREAK.with(|b| b.get()) {
            panic!("no shape functions this time");
        }
        Shy(HierPoly::with(max_order, points, compute_d2))
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        self.0.norm(n, p)
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        self.0.norm_d1(n, p)
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        self.0.norm_d2(n, p)
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        self.0.tang(n, p)
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        self.0.tang_d1(n, p)
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        self.0.tang_d2(n, p)
    }
}
fn sampler_strat(t: Tier) -> BoxedStrategy<SamplerCase> {
    let n = || prop_oneof![Just(None), (1usize..12).prop_map(Some)];
    (
        any_mesh(t),
        [prop_oneof![4 => 1usize..5, 1 => 5usize..=20], prop_oneof![4 => 1usize..5, 1 => 5usize..=20]],
        [n(), n()],
        any::<bool>(),
        proptest::collection::vec(proptest::collection::vec(any::<(u16, u16)>(), 1..t.pick(10, 20)), 1..6),
        proptest::bool::weighted(0.15),
    )
        .prop_map(|(mesh, order, n, d2, reqs, broken)| SamplerCase { mesh, order, n, d2, reqs, broken })
        .boxed()
}
fn values<S: HierCurlBasisFnSpace>(b: &HierCurlBasisFn<S>, o: [usize; 2], n: [usize; 2], d2: bool) -> Vec<f64> {
    let mut v = vec![b.para_scale[0], b.para_scale[1]];
    let ps = V2D::from([1.0, 1.0]);
    for i in [0, 1, o[0]] {
        for j in [0, 1, o[1]] {
            for at in [[0, 0], [n[0] - 1, n[1] - 1], [n[0] / 2, n[1] / 3]] {
                let (i, j) = (i.min(o[0]), j.min(o[1]));
                v.push(b.f_u([i, j], at)[0]);
                v.push(b.f_v([i, j], at)[1]);
                v.push(b.f_u_d1([i, j], at, &ps)[0]);
                if d2 {
                    v.push(b.f_v_d2([i, j], at, &ps)[1]);
                }
                v.push(b.det_jac[at[0]][at[1]]);
            }
        }
    }
    v
}
/// Equal but for rounding: a function computed again may be summed in another order.
fn same_values(a: &[f64], b: &[f64]) -> bool {
    let big = a.iter().chain(b).fold(0.0f64, |x, y| x.max(y.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= 1e-10 * (x.abs() + y.abs()) + 1e-13 * big)
}
fn c21_sampler(c: &SamplerCase, obs: &mut Obs) -> Res {
    let (mesh, m) = c.mesh.build(CAPS)?;
    let (mut s, w): (BasisFnSampler<HierCurlBasisFn<Shy>>, [Vec<f64>; 2]) =
        guarded(|| BasisFnSampler::with(c.order[0], c.order[1], c.n[0], c.n[1], c.d2)).or_else(|p| fail("panic", p))?;
    let mut pts = Vec::new();
    for d in 0..2 {
        let extra = if c.d2 { 2 } else { 0 };
        let n = match c.n[d] {
            Some(n) => {
                ensure!(w[d].len() == n + extra, "asked", "{} weights in direction {} for {} points asked for", w[d].len(), d, n);
                n
            }
            None => {
                ensure!(w[d].len() >= c.order[d] + 1 + extra, "default", "{} points by default for order {}", w[d].len(), c.order[d]);
                w[d].len() - extra
            }
        };
        let (p, ww) = gauss_quadrature_points(n, c.d2);
        ensure!(same_values(&ww, &w[d]), "weights", "the sampler's weights are not those of {} points", n);
        pts.push(p);
    }
    let n = [pts[0].len(), pts[1].len()];
    let fresh = |a: usize, b: usize, none: bool| -> Vec<f64> {
        let f: HierCurlBasisFn<HierPoly> =
            HierBasisFn::defined_over(&mesh.elems[m.cells[a].eid], if none { None } else { Some(&mesh.elems[m.cells[b].eid]) }, [&pts[0], &pts[1]], c.order, c.d2);
        values(&f, c.order, n, c.d2)
    };
    if c.broken {
        // a failure of the shape functions in one request leaves the others alone
        obs.label("after-a-panic");
        let (a, b) = pick_pair(&m, c.reqs[0][0]);
        let mut other = s.clone();
        BREAK.with(|x| x.set(true));
        let r = guarded(|| other.sample_basis_fn(&mesh.elems[m.cells[a].eid], if a == b { None } else { Some(&mesh.elems[m.cells[b].eid]) }));
        BREAK.with(|x| x.set(false));
        ensure!(r.is_err(), "broken", "a function without shape functions");
    }
    // clones share what has been computed: from several threads
    let outs: Vec<Result<Vec<Vec<f64>>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .reqs
            .iter()
            .map(|r| {
                let mut s = s.clone();
                let (mesh, m) = (&mesh, &m);
                sc.spawn(move || {
                    guarded(|| {
                        r.iter()
                            .map(|p| {
                                let (a, b) = pick_pair(m, *p);
                                let over = if a == b && p.1 % 2 == 0 { None } else { Some(&mesh.elems[m.cells[b].eid]) };
                                values(&s.sample_basis_fn(&mesh.elems[m.cells[a].eid], over), c.order, n, c.d2)
                            })
                            .collect::<Vec<_>>()
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread".into()))).collect()
    });
    let mut distinct = std::collections::BTreeSet::new();
    for (r, o) in c.reqs.iter().zip(outs) {
        let o = o.or_else(|p| fail("panic", p))?;
        for (p, got) in r.iter().zip(o) {
            let (a, b) = pick_pair(&m, *p);
            distinct.insert((a, b));
            ensure!(same_values(&got, &fresh(a, b, a == b && p.1 % 2 == 0)), "cached", "the sampler's function of element {} over {} differs from a fresh one", a, b);
        }
    }
    // and once more from the original
    for p in c.reqs.iter().flatten() {
        let (a, b) = pick_pair(&m, *p);
        let over = if a == b { None } else { Some(&mesh.elems[m.cells[b].eid]) };
        let got = guarded(|| values(&s.sample_basis_fn(&mesh.elems[m.cells[a].eid], over), c.order, n, c.d2)).or_else(|p| fail("panic", p))?;
        ensure!(same_values(&got, &fresh(a, b, a == b)), "cached", "the sampler's function of element {} over {} differs from a fresh one when asked again", a, b);
    }
    obs.nontrivial_if(distinct.len() > 2 && c.reqs.len() > 1);
    Ok(())
}
pub fn c21() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "shapes", rule: "random points (ends and centre included) and highest orders up to 20, with and without second derivatives, against the documented polynomials; non-trivial: order 4 or more at a general point", strat: shape_strat, check: c21_shapes, quick: 40000, thorough: 800000, serial: false }),
            Box::new(Part { name: "functions", rule: "random mesh, an element of it and itself or any of its descendants as sampled range, random points, orders and derivative scales; non-trivial: a proper descendant", strat: fn_strat, check: c21_functions, quick: 12000, thorough: 250000, serial: false }),
            Box::new(Part { name: "sampler", rule: "random mesh; 1-5 threads ask clones of one sampler for functions in random order, compared with fresh ones; default and given numbers of points; non-trivial: several threads and more than two different functions", strat: sampler_strat, check: c21_sampler, quick: 6000, thorough: 100000, serial: false }),
        ],
        assumptions: vec!["interleavings of the sampler's threads are those the system produces"],
    }
}

// ---------------------------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartsCase {
    mesh: MeshCase,
    pick: (u16, u16),
    dirs: [bool; 2],
    p: [usize; 2],
    q: [usize; 2],
    extra: [u8; 2],
    mat: [f64; 4],
    factor: f64,
    swap: bool,
}
fn parts_strat(t: Tier) -> BoxedStrategy<PartsCase> {
    let o = || prop_oneof![9 => [0usize..8, 0usize..8], 1 => [0usize..=20, 0usize..=20]];
    (
        any_mesh(t),
        any::<(u16, u16)>(),
        any::<[bool; 2]>(),
        o(),
        o(),
        prop_oneof![19 => [0u8..6, 0u8..6], 1 => [0u8..130, 0u8..6], 1 => [0u8..6, 0u8..130]],
        [0.2..8.0f64, -2.0..2.0f64, 0.2..8.0f64, -2.0..2.0f64],
        prop_oneof![Just(2.0), 0.1..10.0f64],
        any::<bool>(),
    )
        .prop_map(|(mesh, pick, dirs, p, q, extra, mat, factor, swap)| PartsCase { mesh, pick, dirs, p, q, extra, mat, factor, swap })
        .boxed()
}
/// curl of the function and its gradient at a point given in the element's own coordinates
fn curl_and_gradient(h: [f64; 2], v: bool, o: [usize; 2], u: f64, w: f64) -> [f64; 3] {
    if !v {
        let (n, t) = (norm_fn(o[0], u), tang_fn(o[1], w));
        let k = h[0] * h[1];
        [-n[0] * t[1] / k, -n[1] * t[1] / (k * h[0]), -n[0] * t[2] / (k * h[1])]
    } else {
        let (t, n) = (tang_fn(o[0], u), norm_fn(o[1], w));
        let k = h[0] * h[1];
        [t[1] * n[0] / k, t[2] * n[0] / (k * h[0]), t[1] * n[1] / (k * h[1])]
    }
}
fn value(h: [f64; 2], v: bool, o: [usize; 2], u: f64, w: f64) -> [f64; 2] {
    if !v {
        [norm_fn(o[0], u)[0] * tang_fn(o[1], w)[0] / h[0], 0.0]
    } else {
        [0.0, tang_fn(o[0], u)[0] * norm_fn(o[1], w)[0] / h[1]]
    }
}
fn c22_check(c: &PartsCase, obs: &mut Obs) -> Res {
    let (mesh, m) = c.mesh.build(CAPS)?;
    let (e, d) = pick_pair(&m, c.pick);
    // p lives on the (coarser) element e, q on its descendant d
    let top = [0, 1].map(|k| c.p[k].max(c.q[k]).max(1));
    let n = [0, 1].map(|k| top[k] + 2 + c.extra[k] as usize);
    let dir = |b: bool| if b { BasisDir::V } else { BasisDir::U };
    let (dp, dq) = (dir(c.dirs[0]), dir(c.dirs[1]));
    let mat = Materials::from_array(c.mat);
    let (ee, de) = (&mesh.elems[m.cells[e].eid], &mesh.elems[m.cells[d].eid]);
    obs.nontrivial_if(e != d || c.dirs[0] != c.dirs[1]);
    obs.label(if e == d { "same-element" } else { "descendant" });
    let (kp, kq) = (c.p, c.q);
    let run = |ends: bool, mat: &Materials, parts: bool, flip: bool| -> Result<IntegralResult, Fail> {
        guarded(|| {
            let (mut s, [wu, wv]): (BasisFnSampler<HierCurlBasisFn<HierPoly>>, _) = BasisFnSampler::with(top[0], top[1], Some(n[0]), Some(n[1]), ends);
            let bp = s.sample_basis_fn(ee, if e == d { None } else { Some(de) });
            let bq = s.sample_basis_fn(de, None);
            let i = CurlCurl::with_weights(&wu, &wv);
            match (parts, flip) {
                (true, false) => i.integrate_by_parts(dp, dq, kp, kq, &bp, &bq, mat),
                (true, true) => i.integrate_by_parts(dq, dp, kq, kp, &bq, &bp, mat),
                (false, false) => i.integrate(dp, dq, kp, kq, &bp, &bq, mat),
                (false, true) => i.integrate(dq, dp, kq, kp, &bq, &bp, mat),
            }
        })
        .or_else(|p| fail("panic", p))
    };
    // the terms, from closed-form functions and an independent rule
    let (re, rd) = (m.rect(e), m.rect(d));
    let he = [(re[1] - re[0]) / 2.0, (re[3] - re[2]) / 2.0];
    let hd = [(rd[1] - rd[0]) / 2.0, (rd[3] - rd[2]) / 2.0];
    let (ke, kd) = (m.cells[e].k, m.cells[d].k);
    let par = |t: f64, a: i64, b: i64, lo: i64, hi: i64| {
        let p = -1.0 + 2.0 * ((a - lo) as f64) / ((hi - lo) as f64);
        let q = -1.0 + 2.0 * ((b - lo) as f64) / ((hi - lo) as f64);
        p + (q - p) * (t + 1.0) / 2.0
    };
    let pu = |t: f64| par(t, kd[0], kd[1], ke[0], ke[1]);
    let pv = |t: f64| par(t, kd[2], kd[3], ke[2], ke[3]);
    let (gx, gw) = gauss(top[0].max(top[1]) + 3);
    let inv = 1.0 / c.mat[2];
    // the interior and side terms with the derivatives on the first function; the sides are those of the sampled element
    let (mut direct, mut face, mut side) = (0.0, [0.0; 2], [[0.0; 4]; 2]);
    let mut size = 0.0;
    for (a, wa) in gx.iter().zip(gw.iter()) {
        for (b, wb) in gx.iter().zip(gw.iter()) {
            let k = wa * wb * hd[0] * hd[1] * inv;
            let cs = [curl_and_gradient(he, c.dirs[0], kp, pu(*a), pv(*b)), curl_and_gradient(hd, c.dirs[1], kq, *a, *b)];
            let vs = [value(he, c.dirs[0], kp, pu(*a), pv(*b)), value(hd, c.dirs[1], kq, *a, *b)];
            direct += k * cs[0][0] * cs[1][0];
            size += (k * cs[0][0] * cs[1][0]).abs();
            for o in 0..2 {
                let (c, q) = (cs[o], vs[1 - o]);
                face[o] += k * (c[2] * q[0] - c[1] * q[1]);
                size += (k * c[2] * q[0]).abs() + (k * c[1] * q[1]).abs();
            }
        }
        for s in 0..4 {
            let (u, w, h, comp, sign) = match s {
                0 => (*a, -1.0, hd[0], 0, 1.0),
                1 => (*a, 1.0, hd[0], 0, -1.0),
                2 => (-1.0, *a, hd[1], 1, -1.0),
                _ => (1.0, *a, hd[1], 1, 1.0),
            };
            let cs = [curl_and_gradient(he, c.dirs[0], kp, pu(u), pv(w)), curl_and_gradient(hd, c.dirs[1], kq, u, w)];
            let vs = [value(he, c.dirs[0], kp, pu(u), pv(w)), value(hd, c.dirs[1], kq, u, w)];
            for o in 0..2 {
                let t = wa * h * inv * sign * cs[o][0] * vs[1 - o][comp];
                side[o][s] += t;
                size += t.abs();
            }
        }
    }
    // what the difference of two coordinates loses
    let far = m.xs.iter().chain(m.ys.iter()).fold(0f64, |a, b| a.max(b.abs()));
    let rel = 1e-10 + 1e-14 * far / hd[0].min(hd[1]);
    let tol = rel * size + 1e-300;
    let full = run(false, &mat, false, false)?;
    let fv = full.get_face();
    ensure!(matches!(full, IntegralResult::Full(_)) && full.get_edges() == [0.0; 4], "full-kind", "a direct integral has sides {:?}", full.get_edges());
    let fs = full.full_solution();
    ensure!(fs == fv, "full-access", "accessors of a direct integral give {} and {}", fs, fv);
    ensure!(close(fs, direct, tol), "direct", "the direct integral is {}, {} expected (orders {:?} {:?})", fs, direct, kp, kq);
    let flip = run(false, &mat, false, true)?.full_solution();
    ensure!(close(flip, direct, tol), "symmetry", "the direct integral with the functions exchanged is {}, {} expected", flip, direct);
    // the second operand first: the split is of the other function
    let by = run(true, &mat, true, true)?;
    let (f, s) = (by.get_face(), by.get_edges());
    ensure!(close(f, face[1], tol), "face-exchanged", "the interior term with the functions exchanged is {}, {} expected (orders {:?} {:?})", f, face[1], kp, kq);
    for k in 0..4 {
        ensure!(close(s[k], side[1][k], tol), "side-exchanged", "the term of side {} with the functions exchanged is {}, {} expected (orders {:?} {:?})", k, s[k], side[1][k], kp, kq);
    }
    ensure!(close(f + s[0] + s[1] + s[2] + s[3], direct, 2.0 * tol), "sum-exchanged", "the terms with the functions exchanged sum to {}, the direct integral is {}", f + s[0] + s[1] + s[2] + s[3], direct);
    let by = run(true, &mat, true, false)?;
    let (f, s) = (by.get_face(), by.get_edges());
    let sum = f + s[0] + s[1] + s[2] + s[3];
    ensure!(close(f, face[0], tol), "face", "the interior term is {}, {} expected (orders {:?} {:?})", f, face[0], kp, kq);
    for k in 0..4 {
        ensure!(close(s[k], side[0][k], tol), "side", "the term of side {} is {}, {} expected (orders {:?} {:?})", k, s[k], side[0][k], kp, kq);
    }
    ensure!(close(sum, direct, 2.0 * tol), "sum", "the terms sum to {}, the direct integral is {}", sum, direct);
    if c.swap {
        let (f2, s2) = guarded(|| by.unwrap_parts()).or_else(|p| fail("panic", p))?;
        ensure!(f2 == f && s2 == s, "unwrap", "accessors give {:?} and {:?}", (f, s), (f2, s2));
    } else {
        let t = by.full_solution();
        ensure!(close(t, sum, tol * 1e-3), "full-solution", "the full solution is {}, the terms sum to {}", t, sum);
    }
    // linear in the inverse permeability, independent of the rest
    let mat2 = Materials::from_array([c.mat[0] * 3.0, c.mat[1], c.mat[2] * c.factor, c.mat[3]]);
    let a = run(false, &mat2, false, false)?.full_solution();
    let b = run(true, &mat2, true, false)?.full_solution();
    ensure!(close(a * c.factor, fs, tol) && close(b * c.factor, sum, 2.0 * tol), "linear", "permeability times {} changes {} to {} and {} to {}", c.factor, fs, a, sum, b);
    // the mass product: never split
    let mass = |ends: bool, parts: bool, mat: &Materials| -> Result<IntegralResult, Fail> {
        guarded(|| {
            let (mut s, [wu, wv]): (BasisFnSampler<HierCurlBasisFn<HierPoly>>, _) = BasisFnSampler::with(top[0], top[1], Some(n[0]), Some(n[1]), ends);
            let bp = s.sample_basis_fn(ee, if e == d { None } else { Some(de) });
            let bq = s.sample_basis_fn(de, None);
            let i = L2Inner::with_weights(&wu, &wv);
            if parts {
                i.integrate_by_parts(dp, dq, kp, kq, &bp, &bq, mat)
            } else {
                i.integrate(dp, dq, kp, kq, &bp, &bq, mat)
            }
        })
        .or_else(|p| fail("panic", p))
    };
    let mut exact = 0.0;
    let mut msize = 0.0;
    for (a, wa) in gx.iter().zip(gw.iter()) {
        for (b, wb) in gx.iter().zip(gw.iter()) {
            let k = wa * wb * hd[0] * hd[1] * c.mat[0];
            let p = value(he, c.dirs[0], kp, pu(*a), pv(*b));
            let q = value(hd, c.dirs[1], kq, *a, *b);
            exact += k * (p[0] * q[0] + p[1] * q[1]);
            msize += k * (p[0] * q[0] + p[1] * q[1]).abs();
        }
    }
    let mt = rel * msize + 1e-300;
    let (x, y) = (mass(false, false, &mat)?, mass(true, true, &mat)?);
    ensure!(close(x.get_face(), exact, mt) && close(y.get_face(), exact, mt), "mass", "the inner products are {} and {}, {} expected", x.get_face(), y.get_face(), exact);
    ensure!(x.get_edges() == [0.0; 4] && y.get_edges() == [0.0; 4], "mass-sides", "the inner product has sides {:?} and {:?}", x.get_edges(), y.get_edges());
    ensure!(guarded(|| y.unwrap_parts()).is_err(), "unwrap-full", "parts of an integral that was not split");
    Ok(())
}
pub fn c22() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "terms",
            rule: "random mesh, an element and itself or any descendant, directions, orders up to 20 per function and direction, material, number of points; each term against closed-form functions and an independent rule; non-trivial: a proper descendant, or different directions",
            strat: parts_strat,
            check: c22_check,
            quick: 12000,
            thorough: 300000,
            serial: false,
        })],
        assumptions: vec!["the ancestor's function is sampled over the descendant, as assembly does"],
    }
}

// ---------------------------------------------------------------------------------------------
// C25
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PtCase {
    a: [f64; 2],
    b: [f64; 2],
    c: [f64; 2],
    k: f64,
}
fn coord() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => -100.0..100.0f64,
        2 => (-8i32..9).prop_map(|k| k as f64),
        2 => (-40i32..41).prop_map(|k| k as f64 / 8.0),
        1 => Just(0.0),
        1 => Just(-0.0),
        1 => (-1.0..1.0f64).prop_map(|x| x * 1e-9),
        1 => (-5i32..6, -3i32..4).prop_map(|(k, e)| k as f64 + e as f64 * 3e-12),
        1 => (-1.0..1.0f64, 2i32..16).prop_map(|(x, e)| x * 10f64.powi(e)),
        1 => (-9i32..10, 0i32..50).prop_map(|(x, e)| x as f64 * 2f64.powi(e)),
    ]
    .boxed()
}
fn pt_strat(_t: Tier) -> BoxedStrategy<PtCase> {
    let pt = || [coord(), coord()];
    (pt(), pt(), pt(), prop_oneof![0.1..10.0f64, -10.0..-0.1f64, Just(2.0)], 0u8..12)
        .prop_map(|(a, mut b, c, k, how)| {
            match how {
                0 => b = a,
                1 => b = [a[0], b[1]],
                2 => b = [b[0], a[1]],
                // differences far below the resolution, and just above it
                3 => b = [a[0] + 1e-14, a[1]],
                4 => b = [a[0] + 2.5e-12, a[1]],
                5 => b = [a[0], a[1] - 2.5e-12],
                6 => b = [-a[0], a[1]],
                // on the diagonals
                7 => b = [a[0] + c[0], a[1] + c[0]],
                _ => {}
            }
            PtCase { a, b, c, k }
        })
        .boxed()
}
fn hash_of(p: &Point) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}
/// are the coordinates the same, different, or too close to the resolution to say?
fn same_coord(a: f64, b: f64) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    let d = (a - b).abs();
    if d > 1.2e-12 {
        return Some(false);
    }
    // the same if no boundary between two roundings lies near either of them
    let r = |x: f64| (x.abs().fract() / 1e-12).fract();
    let safe = |x: f64| (r(x) - 0.5).abs() > 0.05 + x.abs() * 3e-4;
    if safe(a) && safe(b) && d < 0.05e-12 {
        Some(true)
    } else {
        None
    }
}
fn c25_points(c: &PtCase, obs: &mut Obs) -> Res {
    let (a, b) = (Point::from(c.a), Point::new(c.b[0], c.b[1]));
    obs.nontrivial_if(c.a != c.b);
    ensure!(a.x == c.a[0] && a.y == c.a[1] && b.x == c.b[0] && b.y == c.b[1], "coordinates", "coordinates of {} and {} differ from {:?} and {:?}", a, b, c.a, c.b);
    let (ex, ey) = (same_coord(a.x, b.x), same_coord(a.y, b.y));
    let eq = match (ex, ey) {
        (Some(true), Some(true)) => Some(true),
        (Some(false), _) | (_, Some(false)) => Some(false),
        _ => None,
    };
    if let Some(e) = eq {
        ensure!((a == b) == e && (b == a) == e, "equality", "{:?} == {:?} is {}", c.a, c.b, a == b);
        obs.label(if e { "equal" } else { "different" });
    }
    if a == b {
        ensure!(hash_of(&a) == hash_of(&b), "hash", "{:?} and {:?} are equal with different hashes", c.a, c.b);
    }
    ensure!(a == Point::from(c.a) && hash_of(&a) == hash_of(&Point::new(c.a[0], c.a[1])), "constructors", "the two ways to make {:?} differ", c.a);
    // orders
    let z = Point::from(c.c);
    for (name, ord, pick) in [("x", Point::x_order as fn(&Point, &Point) -> Ordering, 0usize), ("y", Point::y_order as fn(&Point, &Point) -> Ordering, 1)] {
        let all = [(c.a, a), (c.b, b), (c.c, z)];
        for (p, pp) in all.iter() {
            for (q, qq) in all.iter() {
                let o = ord(pp, qq);
                ensure!(o == ord(qq, pp).reverse(), "antisymmetry", "{} order of {:?} and {:?}", name, p, q);
                match same_coord(p[pick], q[pick]) {
                    Some(true) => ensure!(o == Ordering::Equal, "order", "{} order of {:?} and {:?} is {:?}", name, p, q, o),
                    Some(false) => ensure!(o == p[pick].partial_cmp(&q[pick]).unwrap(), "order", "{} order of {:?} and {:?} is {:?}", name, p, q, o),
                    None => {}
                }
                for (_, rr) in all.iter() {
                    if o != Ordering::Greater && ord(qq, rr) != Ordering::Greater {
                        ensure!(ord(pp, rr) != Ordering::Greater, "transitivity", "{} order of {:?}", name, c);
                    }
                }
            }
        }
    }
    if eq == Some(true) {
        ensure!(guarded(|| a.orientation_with(&b)).is_err(), "orientation-same", "two equal points have an orientation");
    }
    if eq == Some(false) {
        let (dx, dy) = ((a.x - b.x).abs(), (a.y - b.y).abs());
        let o = guarded(|| a.orientation_with(&b)).or_else(|p| fail("panic", p))?;
        let o2 = guarded(|| b.orientation_with(&a)).or_else(|p| fail("panic", p))?;
        ensure!(o == o2, "orientation-symmetry", "orientations of {:?} and {:?}", c.a, c.b);
        if dx > dy * (1.0 + 1e-9) {
            ensure!(o == ParaDir::U, "orientation", "{:?} to {:?} is {:?}", c.a, c.b, o);
        } else if dy > dx * (1.0 + 1e-9) {
            ensure!(o == ParaDir::V, "orientation", "{:?} to {:?} is {:?}", c.a, c.b, o);
        }
    }
    let size = 1.0 + c.a[0].abs() + c.a[1].abs() + c.b[0].abs() + c.b[1].abs();
    let t = 1e-13 * size;
    let d = a.dist(&b);
    let e = (c.a[0] - c.b[0]).hypot(c.a[1] - c.b[1]);
    ensure!(close(d, e, t) && close(b.dist(&a), e, t) && a.dist(&a) == 0.0, "distance", "{:?} to {:?} is {}, {} expected", c.a, c.b, d, e);
    let mid = Point::between(&a, &b);
    ensure!(close(mid.x, (a.x + b.x) / 2.0, t) && close(mid.y, (a.y + b.y) / 2.0, t), "between", "between {:?} and {:?} is {}", c.a, c.b, mid);
    ensure!(Point::between(&a, &b) == Point::between(&b, &a), "between-symmetry", "between {:?} and {:?}", c.a, c.b);
    let s = a + b;
    ensure!(close(s.x, a.x + b.x, t) && close(s.y, a.y + b.y, t) && s == Point::new(s.x, s.y), "add", "{:?} + {:?} is {}", c.a, c.b, s);
    let q = a / c.k;
    ensure!(close(q.x, a.x / c.k, 1e-13 * (1.0 + (a.x / c.k).abs())) && close(q.y, a.y / c.k, 1e-13 * (1.0 + (a.y / c.k).abs())) && q == Point::new(q.x, q.y), "divide", "{:?} / {} is {}", c.a, c.k, q);
    ensure!(Point::default() == Point::new(0.0, 0.0) && Point::default().x == 0.0 && Point::default().y == 0.0, "default", "default is {}", Point::default());
    ensure!(format!("{}", a) == format!("(x: {:.10}, y: {:.10})", c.a[0], c.a[1]), "display", "{:?} prints as {}", c.a, a);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatCase {
    a: [f64; 4],
    b: [f64; 4],
    v: [f64; 2],
    w: [f64; 2],
    k: f64,
}
fn m_strat(_t: Tier) -> BoxedStrategy<MatCase> {
    let f = || prop_oneof![4 => -50.0..50.0f64, 2 => (-4i32..5).prop_map(|k| k as f64), 1 => Just(0.0)];
    let far = || prop_oneof![6 => Just(0i32), 2 => -12i32..13, 1 => -40i32..41];
    ([f(), f(), f(), f()], [f(), f(), f(), f()], [f(), f()], [f(), f()], prop_oneof![0.1..10.0f64, -10.0..-0.1f64], [far(), far(), far(), far(), far()])
        .prop_map(|(a, b, v, w, k, s)| {
            let p = s.map(|s| 10f64.powi(s));
            MatCase { a: a.map(|x| x * p[0]), b: b.map(|x| x * p[1]), v: v.map(|x| x * p[2]), w: w.map(|x| x * p[3]), k: k * p[4] }
        })
        .boxed()
}
fn c25_matrices(c: &MatCase, obs: &mut Obs) -> Res {
    let mk = |a: &[f64; 4]| M2D::from([a[0], a[1]], [a[2], a[3]]);
    let flat = |m: &M2D| [m.u[0], m.u[1], m.v[0], m.v[1]];
    let (a, b) = (mk(&c.a), mk(&c.b));
    let (v, w) = (V2D::from(c.v), V2D::from(c.w));
    let n = |x: &[f64]| x.iter().fold(0f64, |s, t| s.max(t.abs()));
    let (na, nb, nv, nw) = (n(&c.a), n(&c.b), n(&c.v), n(&c.w));
    obs.nontrivial_if(c.a[1] != c.a[2] && c.b[1] != c.b[2]);
    let eq4 = |x: [f64; 4], y: [f64; 4], t: f64| (0..4).all(|k| close(x[k], y[k], t));
    let e = 1e-13;
    ensure!(flat(&a) == c.a, "entries", "entries of {} are not {:?}", a, c.a);
    let det = c.a[0] * c.a[3] - c.a[1] * c.a[2];
    ensure!(close(a.det(), det, e * na * na), "det", "det of {:?} is {}, {} expected", c.a, a.det(), det);
    ensure!(flat(&a.transpose()) == [c.a[0], c.a[2], c.a[1], c.a[3]], "transpose", "transpose of {:?} is {}", c.a, a.transpose());
    let ab = [
        c.a[0] * c.b[0] + c.a[1] * c.b[2],
        c.a[0] * c.b[1] + c.a[1] * c.b[3],
        c.a[2] * c.b[0] + c.a[3] * c.b[2],
        c.a[2] * c.b[1] + c.a[3] * c.b[3],
    ];
    ensure!(eq4(flat(&(a * b)), ab, 4.0 * e * na * nb), "product", "{:?} times {:?} is {}, {:?} expected", c.a, c.b, a * b, ab);
    let av = [c.a[0] * c.v[0] + c.a[1] * c.v[1], c.a[2] * c.v[0] + c.a[3] * c.v[1]];
    ensure!(v2(a * v, av, 4.0 * e * na * nv), "matrix-vector", "{:?} times {:?} is {}, {:?} expected", c.a, c.v, a * v, av);
    let d = a / c.k;
    ensure!(eq4(flat(&d), c.a.map(|x| x / c.k), e * na / c.k.abs()), "matrix-scale", "{:?} / {} is {}", c.a, c.k, d);
    if det.abs() > 1e-3 * na * na {
        obs.label("invertible");
        let i = a.inverse();
        let ei = [c.a[3] / det, -c.a[1] / det, -c.a[2] / det, c.a[0] / det];
        ensure!(eq4(flat(&i), ei, 1e-10 * n(&ei)), "inverse", "inverse of {:?} is {}, {:?} expected", c.a, i, ei);
        ensure!(eq4(flat(&(a * i)), [1.0, 0.0, 0.0, 1.0], 1e-9 * na * n(&ei)), "inverse-product", "{:?} times its inverse is {}", c.a, a * i);
    }
    // vectors
    let dot = c.v[0] * c.w[0] + c.v[1] * c.w[1];
    ensure!(close(V2D::dot(v, w), dot, 4.0 * e * nv * nw) && close(v.dot_with(&w), dot, 4.0 * e * nv * nw), "dot", "{:?} . {:?} is {} and {}", c.v, c.w, V2D::dot(v, w), v.dot_with(&w));
    ensure!(v.x() == c.v[0] && v.y() == c.v[1] && v[0] == c.v[0] && v[1] == c.v[1], "components", "components of {:?}", c.v);
    let t = e * (nv + nw) * 2.0;
    ensure!(v2(v + w, [c.v[0] + c.w[0], c.v[1] + c.w[1]], t), "vector-sum", "{:?} + {:?} is {}", c.v, c.w, v + w);
    ensure!(v2(v * c.k, [c.v[0] * c.k, c.v[1] * c.k], e * nv * c.k.abs()) && v2(v / c.k, [c.v[0] / c.k, c.v[1] / c.k], e * nv / c.k.abs()), "vector-scale", "{:?} by {} is {} and {}", c.v, c.k, v * c.k, v / c.k);
    ensure!(v2(v * w, [c.v[0] * c.w[0], c.v[1] * c.w[1]], e * nv * nw) && v2(v * &w, [c.v[0] * c.w[0], c.v[1] * c.w[1]], e * nv * nw), "vector-product", "{:?} * {:?} is {} and {}", c.v, c.w, v * w, v * &w);
    if c.w[0] != 0.0 && c.w[1] != 0.0 {
        let q = [c.v[0] / c.w[0], c.v[1] / c.w[1]];
        ensure!(v2(v / w, q, e * n(&q)), "vector-quotient", "{:?} / {:?} is {}", c.v, c.w, v / w);
    }
    ensure!(V2D::default()[0] == 0.0 && V2D::default()[1] == 0.0, "vector-default", "default is {}", V2D::default());
    Ok(())
}
pub fn c25() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "points", rule: "triples of points with special relations (equal, signed zeros, sharing a coordinate, differing by less or slightly more than the resolution, mirrored, on a diagonal); non-trivial: two different coordinate pairs", strat: pt_strat, check: c25_points, quick: 400000, thorough: 8000000, serial: false }),
            Box::new(Part { name: "matrices", rule: "random 2 by 2 matrices and vectors of sizes from 1e-40 to 1e40 against entry-wise formulas; non-trivial: both matrices not symmetric", strat: m_strat, check: c25_matrices, quick: 400000, thorough: 8000000, serial: false }),
        ],
        assumptions: vec!["coordinates whose difference is within the resolution of 1e-12 but near a rounding boundary may compare either way"],
    }
}
