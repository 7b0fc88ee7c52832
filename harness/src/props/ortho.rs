//! C29: the optional family of shape functions (feature `max_ortho_basis`).
use super::generic::{gen_case, legendre, with_shapes};
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::prelude::HierMaxOrtho;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// highest order the family is defined for
const TOP: usize = 12;
/// P_n - 2 P'_(n-1) / (n (n - 1)), and two derivatives
fn unscaled(n: usize, x: f64) -> [f64; 3] {
    let (a, b) = (legendre(n, x), legendre(n - 1, x));
    let k = 2.0 / (n * (n - 1)) as f64;
    [a[0] - k * b[1], a[1] - k * b[2], a[2] - k * b[3]]
}
/// the multiples of them that the library uses, from one sample
fn factors() -> Result<[f64; TOP + 1], String> {
    static F: OnceLock<Result<[f64; TOP + 1], String>> = OnceLock::new();
    F.get_or_init(|| {
        let x = 0.3;
        let s = guarded(|| HierMaxOrtho::with(TOP, &[x], false))?;
        let mut f = [1.0; TOP + 1];
        for n in 2..=TOP {
            f[n] = guarded(|| s.tang(n, 0))? / unscaled(n, x)[0];
            if !f[n].is_finite() || f[n].abs() < 1e-3 || f[n].abs() > 1e3 {
                return Err(format!("the tangential function of order {} at {} is {} times the expected one", n, x, f[n]));
            }
        }
        Ok(f)
    })
    .clone()
}
fn ortho_shapes(across: bool, n: usize, x: f64) -> [f64; 3] {
    match (across, n) {
        (false, _) => {
            let d = legendre(n, x);
            [d[0], d[1], d[2]]
        }
        (true, 0) => [1.0 - x, -1.0, 0.0],
        (true, 1) => [1.0 + x, 1.0, 0.0],
        (true, _) => {
            let f = factors().map_or(f64::NAN, |f| f[n]);
            unscaled(n, x).map(|v| f * v)
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrthoCase {
    max: usize,
    points: Vec<f64>,
    d2: bool,
}
fn ortho_strat(_t: Tier) -> BoxedStrategy<OrthoCase> {
    (1usize..=TOP, super::numerics::points_strat(), any::<bool>()).prop_map(|(max, points, d2)| OrthoCase { max, points, d2 }).boxed()
}
fn c29_shapes(c: &OrthoCase, obs: &mut Obs) -> Res {
    factors().or_else(|p| fail("sample", p))?;
    let s = guarded(|| HierMaxOrtho::with(c.max, &c.points, c.d2)).or_else(|p| fail("panic", p))?;
    obs.nontrivial_if(c.max >= 4 && c.points.iter().any(|x| *x != 0.0 && x.abs() != 1.0));
    for n in 0..=c.max {
        for (p, x) in c.points.iter().enumerate() {
            let (en, et) = (ortho_shapes(false, n, *x), ortho_shapes(true, n, *x));
            let got = guarded(|| {
                let mut v = vec![s.norm(n, p), s.norm_d1(n, p), s.tang(n, p), s.tang_d1(n, p)];
                if c.d2 {
                    v.push(s.norm_d2(n, p));
                    v.push(s.tang_d2(n, p));
                }
                v
            })
            .or_else(|p| fail("panic", format!("order {} of {}: {}", n, c.max, p)))?;
            let want = [en[0], en[1], et[0], et[1], en[2], et[2]];
            let name = ["normal", "normal'", "tangential", "tangential'", "normal''", "tangential''"];
            for k in 0..got.len() {
                // sizes of the derivatives of a Legendre polynomial
                let size = [1, n * n, 1, n * n, n.pow(4), n.pow(4)][k].max(1) as f64;
                ensure!((got[k] - want[k]).abs() <= 1e-10 * size, "shape", "{} function of order {} (highest {}) at {} is {}, {} expected", name[k], n, c.max, x, got[k], want[k]);
            }
            if n >= 2 && x.abs() == 1.0 {
                obs.label("end");
                ensure!(got[2].abs() <= 1e-10, "end", "the tangential function of order {} is {} at the end {}", n, got[2], x);
            }
        }
    }
    Ok(())
}
fn c29_mesh(c: &super::generic::GenCase, obs: &mut Obs, caps: Caps) -> Res {
    factors().or_else(|p| fail("sample", p))?;
    with_shapes::<HierMaxOrtho>(ortho_shapes, c, obs, caps)
}
pub fn c29() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "shapes",
                rule: "random highest order up to 12, random points (ends and repeated ones included), with and without second derivatives: values and derivatives of all functions against Legendre polynomials by another recurrence and a closed form; non-trivial: order 4 or higher and a point that is neither an end nor the middle",
                strat: ortho_strat,
                check: c29_shapes,
                quick: 400000,
                thorough: 4000000,
                serial: false,
            }),
            Box::new(Part {
                name: "mesh",
                rule: "random mesh and numbers of quadrature points: the matrices of the library's integrals and of two integrals of a user, and the field of a random vector, against an independent implementation and quadrature rule; non-trivial: more than one element and more than 3 degrees of freedom",
                strat: |t| gen_case(mesh_strategy(3, 2, t.pick(3, 4), 2, 4)),
                check: |c, o| c29_mesh(c, o, Caps { leaves: 14, level: 4 }),
                quick: 3000,
                thorough: 20000,
                serial: false,
            }),
            Box::new(Part {
                name: "orders",
                rule: "as 'mesh', on at most 5 unrefined elements with orders up to 12",
                strat: |_| gen_case((base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec([1u8..=12, 1u8..=12], 1..4)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed()),
                check: |c, o| c29_mesh(c, o, Caps { leaves: 5, level: 1 }),
                quick: 200,
                thorough: 1500,
                serial: false,
            }),
        ],
        assumptions: vec!["each tangential function of order 2 and higher may be any fixed multiple of the expected one", "orders above 12 are outside of the family"],
    }
}
