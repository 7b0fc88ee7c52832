//! C11, C26, C27: spectra, invariances and nesting.
use super::dof::{dof_functions, make_domain};
use super::matrix::{assemble, dense, upper};
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use crate::refmath::*;
use fem_2d::prelude::*;
use nalgebra::{DMatrix, DVector};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// refined elements get the lowest order of all, unrefined ones their own
fn set_leaf_orders(mesh: &mut Mesh, m: &mut Model, ords: &[[u8; 2]]) -> Res {
    let lo = ords.iter().fold([20u8; 2], |a, o| [a[0].min(o[0]), a[1].min(o[1])]);
    let mut k = 0;
    for i in 0..m.cells.len() {
        m.cells[i].ord = lo;
        if m.is_leaf(i) {
            m.cells[i].ord = ords[k % ords.len()];
            k += 1;
        }
    }
    let req: Vec<(usize, Orders)> = m.cells.iter().map(|c| (c.eid, Orders::new(c.ord[0], c.ord[1]))).collect();
    match guarded(|| mesh.set_expansion_orders(req)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("orders-refused", e.to_string()),
        Err(p) => fail("orders-panic", p),
    }
}
/// number of parts of the domain that are connected through element sides
fn components(m: &Model) -> usize {
    let mut comp: Vec<usize> = (0..m.n_base).collect();
    for (_, [lo, hi]) in m.segments() {
        for a in lo.iter() {
            for b in hi.iter() {
                let (x, y) = (comp[m.cells[*a].base], comp[m.cells[*b].base]);
                if x != y {
                    for c in comp.iter_mut() {
                        if *c == y {
                            *c = x;
                        }
                    }
                }
            }
        }
    }
    comp.iter().collect::<BTreeSet<_>>().len()
}
/// lowest resonances of each connected part cannot be smaller than this (for the zero threshold)
fn lower_scale(m: &Model) -> f64 {
    let (a, b) = (m.xs[m.xs.len() - 1] - m.xs[0], m.ys[m.ys.len() - 1] - m.ys[0]);
    let em = m.mats.iter().fold(0f64, |s, t| s.max(t[0])) * m.mats.iter().fold(0f64, |s, t| s.max(t[2]));
    std::f64::consts::PI.powi(2) / (a.max(b).powi(2) * em)
}

// ---------------------------------------------------------------------------------------------
// C11
// ---------------------------------------------------------------------------------------------
fn cav_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(3, 2), hops_strategy(t.pick(2, 3), 2), proptest::collection::vec([3u8..=5, 3u8..=5], 1..4))
        .prop_map(|(mut base, ops, ords)| {
            base.mask = 0;
            let m0 = *base.mats.get(0).unwrap_or(&0);
            base.mats = vec![m0; 16];
            MeshCase { base, ops, ords }
        })
        .boxed()
}
fn kernel_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(3, 3), hops_strategy(t.pick(3, 4), 2), proptest::collection::vec([1u8..=3, 1u8..=3], 1..5))
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}
fn spectrum(d: &Domain) -> Result<Vec<f64>, Fail> {
    let g = assemble(d, None)?;
    match gen_eig(&dense(&g.a), &dense(&g.b)) {
        Some((v, _)) => {
            ensure!(v.iter().all(|x| x.is_finite()), "spectrum", "the eigenvalues are not finite");
            Ok(v)
        }
        None => fail("mass-definite", "the mass matrix is not positive definite".into()),
    }
}
fn cav_check(c: &MeshCase, obs: &mut Obs) -> Res {
    let (mut mesh, mut m) = c.build_h(Caps { leaves: 8, level: 2 })?;
    set_leaf_orders(&mut mesh, &mut m, &c.ords)?;
    describe(&m, obs);
    let d = make_domain(mesh)?;
    let vals = spectrum(&d)?;
    let (a, b) = (m.xs[m.xs.len() - 1] - m.xs[0], m.ys[m.ys.len() - 1] - m.ys[0]);
    let em = m.mats[0][0] * m.mats[0][2];
    let pi2 = std::f64::consts::PI.powi(2);
    let hmax = m.leaves().iter().fold([0f64; 2], |s, l| {
        let r = m.rect(*l);
        [s[0].max(r[1] - r[0]), s[1].max(r[3] - r[2])]
    });
    let mut ex = vec![];
    for p in 0..14 {
        for q in 0..14 {
            if p + q > 0 {
                let kh = (p as f64 / a * hmax[0]).max(q as f64 / b * hmax[1]);
                ex.push((pi2 * ((p * p) as f64 / (a * a) + (q * q) as f64 / (b * b)) / em, kh));
            }
        }
    }
    ex.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    let zero = vals.iter().filter(|v| v.abs() < ex[0].0 * 1e-5).count();
    let sum: usize = m.leaves().iter().map(|l| m.cells[*l].ord[0] as usize * m.cells[*l].ord[1] as usize).sum();
    ensure!(d.dofs.len() + 1 == zero + sum, "kernel", "{} eigenvalues are zero, {} expected ({} degrees of freedom, {} curl functions); lowest {:e}", zero, d.dofs.len() as i64 - sum as i64 + 1, d.dofs.len(), sum, vals[0]);
    let p = c.ords.iter().fold(20, |s, o| s.min(o[0]).min(o[1]));
    let tol0 = match p {
        3 => 4e-2,
        4 => 4e-4,
        _ => 1e-4,
    };
    let mut seen = 0;
    for (k, (e, _)) in ex.iter().enumerate() {
        // resolved modes: at least two elements per wavelength, also for all modes below and close to it
        let kh = ex.iter().filter(|x| x.0 <= e * 1.1).fold(0f64, |s, x| s.max(x.1));
        if kh > 1.0 + 1e-9 {
            break;
        }
        let tol = tol0 * kh.max(0.5).powi(2 * (p as i32).min(4)) + 1e-8;
        match vals.get(zero + k) {
            Some(v) => ensure!((v - e).abs() <= tol * e, "resonance", "resonance {} is {:.10}, exact {:.10} (relative error {:e}, {:e} allowed)", k, v, e, (v - e) / e, tol),
            None => return fail("resonance", "resonance missing".into()),
        }
        seen += 1;
    }
    obs.add("resonances", seen);
    obs.nontrivial_if(seen >= 1);
    Ok(())
}
fn kernel_deep_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(2, 2), prop_oneof![ladder_strategy(t.pick(6, 7)), deep_strategy(t.pick(7, 8))], proptest::collection::vec([1u8..=2, 1u8..=2], 1..5))
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}
fn kernel_check(c: &MeshCase, obs: &mut Obs) -> Res {
    kernel_caps(c, obs, Caps { leaves: 16, level: 3 })
}
fn kernel_caps(c: &MeshCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mut mesh, mut m) = c.build_h(caps)?;
    set_leaf_orders(&mut mesh, &mut m, &c.ords)?;
    describe(&m, obs);
    let d = make_domain(mesh)?;
    if d.dofs.is_empty() || d.dofs.len() > 260 {
        return Ok(());
    }
    let vals = spectrum(&d)?;
    let zero = vals.iter().filter(|v| v.abs() < lower_scale(&m) * 1e-5).count();
    let sum: usize = m.leaves().iter().map(|l| m.cells[*l].ord[0] as usize * m.cells[*l].ord[1] as usize).sum();
    let comp = components(&m);
    ensure!(d.dofs.len() + comp == zero + sum, "kernel", "{} eigenvalues are zero, {} expected ({} degrees of freedom, {} curl functions, {} parts)", zero, d.dofs.len() as i64 - sum as i64 + comp as i64, d.dofs.len(), sum, comp);
    ensure!(vals[0] > -1e-6 * lower_scale(&m), "negative", "negative eigenvalue {:e}", vals[0]);
    obs.nontrivial_if(zero > 0 && m.cells.len() > m.n_base);
    Ok(())
}
/// a rectangular cavity with the same orders everywhere, refined by whole columns and rows
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TensorCase {
    base: BaseCase,
    ops: Vec<(u8, u16)>,
    ord: [u8; 2],
    /// orders of the refined elements, at most those of the unrefined ones
    low: [u8; 2],
}
fn tensor_strat(t: Tier) -> BoxedStrategy<TensorCase> {
    (
        base_strategy(4, 3),
        proptest::collection::vec((0u8..6, any::<u16>()), 0..t.pick(5, 7)),
        prop_oneof![3 => [1u8..=3, 1u8..=3], 1 => [1u8..=6, 1u8..=6]],
        [1u8..=6, 1u8..=6],
    )
        .prop_map(|(mut base, ops, ord, low)| {
            base.mask = 0;
            let m0 = *base.mats.get(0).unwrap_or(&0);
            base.mats = vec![m0];
            let low = [low[0].min(ord[0]), low[1].min(ord[1])];
            TensorCase { base, ops, ord, low }
        })
        .boxed()
}
/// eigenvalues of -u'' on the given intervals with order p, u = 0 at both ends
fn line_spectrum(x: &[f64], p: usize) -> Option<Vec<f64>> {
    let ne = x.len() - 1;
    let n = ne * p - 1;
    if n == 0 {
        return Some(vec![]);
    }
    let (gx, gw) = gauss(p + 1);
    // Legendre polynomials and their derivatives up to degree p
    let leg = |t: f64| -> Vec<[f64; 2]> {
        let mut v = vec![[1.0, 0.0], [t, 1.0]];
        for k in 1..p {
            let kf = k as f64;
            let (a, b) = (v[k], v[k - 1]);
            let val = ((2.0 * kf + 1.0) * t * a[0] - kf * b[0]) / (kf + 1.0);
            let der = b[1] + (2.0 * kf + 1.0) * a[0];
            v.push([val, der]);
        }
        v
    };
    let mut a = DMatrix::zeros(n, n);
    let mut b = DMatrix::zeros(n, n);
    for e in 0..ne {
        let h = (x[e + 1] - x[e]) / 2.0;
        // (global index, value, derivative) at each point
        for (t, w) in gx.iter().zip(gw.iter()) {
            let l = leg(*t);
            let mut f: Vec<(usize, f64, f64)> = Vec::new();
            if e > 0 {
                f.push((e - 1, (1.0 - t) / 2.0, -0.5 / h));
            }
            if e + 1 < ne {
                f.push((e, (1.0 + t) / 2.0, 0.5 / h));
            }
            for k in 2..=p {
                f.push((ne - 1 + e * (p - 1) + k - 2, l[k][0] - l[k - 2][0], (l[k][1] - l[k - 2][1]) / h));
            }
            for (i, vi, di) in f.iter() {
                for (j, vj, dj) in f.iter() {
                    a[(*i, *j)] += w * h * di * dj;
                    b[(*i, *j)] += w * h * vi * vj;
                }
            }
        }
    }
    gen_eig(&a, &b).map(|r| r.0)
}
fn tensor_check(c: &TensorCase, obs: &mut Obs) -> Res {
    let (mut mesh, mut m) = c.base.build()?;
    m.sync(&mesh)?;
    let lines = |m: &Model, ax: usize| -> Vec<i64> {
        let s: BTreeSet<i64> = m.leaves().iter().flat_map(|l| [m.cells[*l].k[2 * ax], m.cells[*l].k[2 * ax + 1]]).collect();
        s.into_iter().collect()
    };
    for (op, at) in c.ops.iter() {
        let (nx, ny) = (lines(&m, 0).len() - 1, lines(&m, 1).len() - 1);
        let most = if c.ord[0].max(c.ord[1]) > 3 { 6 } else { 14 };
        let (ax, kind) = if op % 2 == 0 { (0, Kind::U) } else { (1, Kind::V) };
        let plan = match op {
            0 | 1 | 4 | 5 => {
                let l = lines(&m, ax);
                let k = *at as usize % (l.len() - 1);
                if nx * ny + ny.max(nx) > most || m.leaves().iter().any(|c| m.cells[*c].lev[ax] > 6) {
                    continue;
                }
                let v: Vec<usize> = m.leaves().into_iter().filter(|q| m.cells[*q].k[2 * ax] == l[k]).collect();
                if *op < 4 {
                    Plan::Elems(v, kind)
                } else {
                    Plan::Batch(v.into_iter().map(|q| (q, kind)).collect())
                }
            }
            _ => {
                if 4 * nx * ny <= most && at % 2 == 0 {
                    Plan::Global(Kind::T)
                } else if 2 * nx * ny <= most {
                    Plan::Global(kind)
                } else {
                    continue;
                }
            }
        };
        match guarded(|| apply_real(&mut mesh, &m, &plan)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return fail("refused", e),
        }
        apply_model(&mut m, &plan);
        m.sync(&mesh)?;
    }
    for i in 0..m.cells.len() {
        m.cells[i].ord = if m.is_leaf(i) { c.ord } else { c.low };
    }
    let req: Vec<(usize, Orders)> = m.cells.iter().map(|c| (c.eid, Orders::new(c.ord[0], c.ord[1]))).collect();
    match guarded(|| mesh.set_expansion_orders(req)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("orders-refused", e.to_string()),
        Err(p) => return fail("orders-panic", p),
    }
    describe(&m, obs);
    let (lx, ly) = (lines(&m, 0), lines(&m, 1));
    ensure!(m.leaves().len() == (lx.len() - 1) * (ly.len() - 1), "columns", "the refined mesh does not consist of whole columns and rows");
    let xs: Vec<f64> = lx.iter().map(|k| m.x(*k)).collect();
    let ys: Vec<f64> = ly.iter().map(|k| m.y(*k)).collect();
    let (sx, sy) = match (line_spectrum(&xs, c.ord[0] as usize), line_spectrum(&ys, c.ord[1] as usize)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            obs.label("reference-failed");
            return Ok(());
        }
    };
    let em = m.mats[0][0] * m.mats[0][2];
    let mut exp: Vec<f64> = sx.iter().chain(sy.iter()).map(|v| v / em).collect();
    for a in sx.iter() {
        for b in sy.iter() {
            exp.push((a + b) / em);
        }
    }
    exp.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let d = make_domain(mesh)?;
    let zero = sx.len() * sy.len();
    ensure!(d.dofs.len() == zero + exp.len(), "tensor-dofs", "{} degrees of freedom, {} expected", d.dofs.len(), zero + exp.len());
    if exp.is_empty() {
        return Ok(());
    }
    let vals = spectrum(&d)?;
    let top = exp[exp.len() - 1];
    for v in vals[..zero].iter() {
        ensure!(v.abs() <= 1e-10 * top, "tensor-kernel", "eigenvalue {:e} should be zero (largest {:e})", v, top);
    }
    for (v, e) in vals[zero..].iter().zip(exp.iter()) {
        ensure!((v - e).abs() <= 1e-8 * e + 1e-10 * top, "tensor-value", "eigenvalue {:.12e}, {:.12e} expected (relative error {:e})", v, e, (v - e) / e);
    }
    obs.add("eigenvalues", exp.len() as u64);
    obs.nontrivial_if(exp.len() > 2 && zero > 0 && m.cells.len() > 1);
    Ok(())
}
pub fn c11() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "tensor", rule: "rectangular cavity filled with one random material, base grid of random spacings refined by random columns, rows or as a whole (no hanging nodes), the same orders (up to 6 per direction) on all unrefined elements; the complete spectrum must be that of the tensor product of two line problems (solved independently), to rounding, zeros included; non-trivial: more than one element, a zero and more than two other eigenvalues", strat: tensor_strat, check: tensor_check, quick: 1500, thorough: 30000, serial: false }),
            Box::new(Part { name: "cavity", rule: "rectangular cavity filled with one random material, random base grid, up to 8 leaf elements with hanging nodes, orders 3-5 per element; the spectrum of the assembled matrices (independent eigensolver) is compared with the analytic resonances; non-trivial: at least one resolved resonance (two elements per wavelength) compared", strat: cav_strat, check: cav_check, quick: 400, thorough: 6000, serial: false }),
            Box::new(Part { name: "kernel", rule: "random domain (holes, several materials, hanging nodes, orders 1-3); the number of zero eigenvalues against the dimension of the gradient space (degrees of freedom minus curl functions plus connected parts); non-trivial: refined mesh with at least one zero eigenvalue", strat: kernel_strat, check: kernel_check, quick: 500, thorough: 8000, serial: false }),
            Box::new(Part { name: "kernel-deep", rule: "as 'kernel', on up to 2x2 cells refined around one corner or point of a side or in the newest elements (levels up to 6), orders 1-2", strat: kernel_deep_strat, check: |c, o| kernel_caps(c, o, Caps { leaves: 36, level: 6 }), quick: 4000, thorough: 60000, serial: false }),
        ],
        assumptions: vec!["refined elements have at most the orders of their unrefined descendants", "resonance error allowed: 4e-2, 4e-4, 1e-4 at lowest order 3, 4, 5, times (elements per half wavelength)^(-6, -8, -8)"],
    }
}

// ---------------------------------------------------------------------------------------------
// C27
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Nest {
    pub mesh: MeshCase,
    /// refinement after the first domain was built
    pub ops: Vec<HOp>,
    /// order increases of unrefined elements (cyclic), and a global increase
    pub up: Vec<[u8; 2]>,
    pub global: [u8; 2],
    pub p_first: bool,
}
fn nest_strat(t: Tier) -> BoxedStrategy<Nest> {
    (
        (base_strategy(3, 2), hops_strategy(t.pick(3, 4), 2), proptest::collection::vec([1u8..=3, 1u8..=3], 1..5))
            .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }),
        prop_oneof![
            5 => hops_strategy(2, 3),
            1 => Just(vec![]),
            2 => deep_strategy(3),
        ],
        prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec([0u8..2, 0u8..2], 1..4)],
        prop_oneof![2 => Just([0u8, 0u8]), 1 => [0u8..2, 0u8..2]],
        any::<bool>(),
    )
        .prop_map(|(mesh, ops, up, global, p_first)| Nest { mesh, ops, up, global, p_first })
        .boxed()
}
fn nest_ladder_strat(t: Tier) -> BoxedStrategy<Nest> {
    (
        (base_strategy(2, 2), ladder_strategy(t.pick(8, 10)), proptest::collection::vec([1u8..=2, 1u8..=2], 1..5))
            .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }),
        prop_oneof![
            3 => ladder_strategy(3),
            2 => deep_strategy(3),
            2 => hops_strategy(2, 3),
        ],
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec([0u8..2, 0u8..2], 1..4)],
        any::<bool>(),
    )
        .prop_map(|(mesh, ops, up, p_first)| Nest { mesh, ops, up, global: [0, 0], p_first })
        .boxed()
}
/// few elements, higher orders and larger raises
fn nest_orders_strat(_t: Tier) -> BoxedStrategy<Nest> {
    (
        (base_strategy(2, 2), hops_strategy(1, 2), proptest::collection::vec([1u8..=6, 1u8..=6], 1..5)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }),
        prop_oneof![3 => hops_strategy(1, 2), 1 => Just(vec![])],
        prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec([0u8..4, 0u8..4], 1..5)],
        any::<bool>(),
    )
        .prop_map(|(mesh, ops, up, p_first)| Nest { mesh, ops, up, global: [0, 0], p_first })
        .boxed()
}
fn nest_check(c: &Nest, obs: &mut Obs) -> Res {
    nest_caps(c, obs, Caps { leaves: 12, level: 3 }, Caps { leaves: 20, level: 4 })
}
fn nest_caps(c: &Nest, obs: &mut Obs, caps0: Caps, caps: Caps) -> Res {
    let mk = || -> Result<(Mesh, Model), Fail> {
        let (mut mesh, mut m) = c.mesh.build_h(caps0)?;
        set_leaf_orders(&mut mesh, &mut m, &c.mesh.ords)?;
        Ok((mesh, m))
    };
    let (mesh, m0) = mk()?;
    let coarse = dof_functions(&make_domain(mesh)?, &m0)?;
    let (mut mesh, mut m) = mk()?;
    let raise = |mesh: &mut Mesh, m: &mut Model| -> Res {
        let r = guarded(|| {
            if c.global != [0, 0] {
                mesh.global_p_refinement(PRef::from(c.global[0] as i8, c.global[1] as i8));
            }
            for cell in m.cells.iter_mut() {
                cell.ord = [cell.ord[0] + c.global[0], cell.ord[1] + c.global[1]];
            }
            if !c.up.is_empty() {
                let mut v = Vec::new();
                for (k, l) in m.leaves().into_iter().enumerate() {
                    let u = c.up[k % c.up.len()];
                    m.cells[l].ord = [m.cells[l].ord[0] + u[0], m.cells[l].ord[1] + u[1]];
                    v.push((m.cells[l].eid, PRef::from(u[0] as i8, u[1] as i8)));
                }
                mesh.execute_p_refinements(v)?;
            }
            Ok::<(), PRefError>(())
        });
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail("p-refused", e.to_string()),
            Err(p) => fail("p-panic", p),
        }
    };
    if c.p_first {
        raise(&mut mesh, &mut m)?;
    }
    for op in c.ops.iter() {
        step(&mut mesh, &mut m, op, caps)?;
    }
    if !c.p_first {
        raise(&mut mesh, &mut m)?;
    }
    let fine = dof_functions(&make_domain(mesh)?, &m)?;
    describe(&m, obs);
    let (nc, nf) = (coarse.len(), fine.len());
    ensure!(nf >= nc, "smaller", "refinement reduced the number of degrees of freedom from {} to {}", nc, nf);
    if nc == 0 || nf > 800 {
        return Ok(());
    }
    let max_ord = m.cells.iter().fold(1, |a, c| a.max(c.ord[0]).max(c.ord[1])) as usize;
    let ex = Exact::new(max_ord);
    let ip = |f: &[Fun], g: &[Fun]| -> f64 {
        let mut s = 0.0;
        for a in f {
            for b in g {
                if m.cells[a.cell].base == m.cells[b.cell].base {
                    s += ex.pair(&m, a, b).0;
                }
            }
        }
        s
    };
    let dg: Vec<f64> = fine.iter().map(|f| ip(f, f).sqrt()).collect();
    let mut mm = DMatrix::zeros(nf, nf);
    for i in 0..nf {
        for j in i..nf {
            let v = ip(&fine[i], &fine[j]) / (dg[i] * dg[j]);
            mm[(i, j)] = v;
            mm[(j, i)] = v;
        }
    }
    let ch = match nalgebra::Cholesky::new(mm.clone()) {
        Some(c) => c,
        None => return fail("dependent", "the functions of the refined domain are linearly dependent".into()),
    };
    let fine_set: BTreeMap<&Vec<Fun>, usize> = fine.iter().enumerate().map(|(i, f)| (f, i)).collect();
    let mut lost = 0;
    for f in coarse.iter() {
        if fine_set.contains_key(f) {
            continue;
        }
        lost += 1;
        let ff = ip(f, f);
        let b = DVector::from_fn(nf, |i, _| ip(f, &fine[i]) / (dg[i] * ff.sqrt()));
        let mut x = ch.solve(&b);
        // one step of iterative refinement
        let r = &b - &mm * &x;
        x += ch.solve(&r);
        let res = 1.0 - b.dot(&x);
        ensure!(res.abs() <= 1e-8, "lost", "the field of {:?} (before the refinement) cannot be represented after it: relative squared distance {:e}", f, res);
    }
    obs.add("replaced-functions", lost);
    obs.nontrivial_if(lost > 0 || nf > nc);
    Ok(())
}
pub fn c27() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "nesting",
            rule: "random hp-mesh, then further h-refinements and order increases (before or after them); every function of the coarse domain is projected onto the refined domain's space (exact integrals, Cholesky) and must be reproduced; non-trivial: the space grew or some function was replaced",
            strat: nest_strat, check: nest_check, quick: 1200, thorough: 30000, serial: false,
        }),
        Box::new(Part {
            name: "ladder",
            rule: "as 'nesting', from meshes with up to 40 unrefined elements and levels up to 10 around one corner or point of a side to ones with up to 70 and levels up to 12",
            strat: nest_ladder_strat, check: |c, o| nest_caps(c, o, Caps { leaves: 40, level: 10 }, Caps { leaves: 70, level: 12 }), quick: 600, thorough: 30000, serial: false,
        }),
        Box::new(Part {
            name: "orders",
            rule: "as 'nesting', on at most six unrefined elements with orders up to 9, each raised by up to 3 in each direction",
            strat: nest_orders_strat, check: |c, o| nest_caps(c, o, Caps { leaves: 4, level: 1 }, Caps { leaves: 6, level: 2 }), quick: 400, thorough: 10000, serial: false,
        })],
        assumptions: vec!["refined elements have at most the orders of their descendants", "relative squared distance up to 1e-8 counts as rounding"],
    }
}

// ---------------------------------------------------------------------------------------------
// C26
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    pub mesh: MeshCase,
    /// renumbering of the second mesh
    pub salt: u32,
    pub dx: i8,
    pub dy: i8,
    /// log2 of the scale factor
    pub scale: i8,
    pub transpose: bool,
    /// requests of one list one at a time, and in another order
    pub split: bool,
    pub eps: u8,
    pub mu: u8,
}
fn meta_strat(t: Tier) -> BoxedStrategy<Meta> {
    (
        mesh_strategy(3, 3, t.pick(3, 4), 4, 3),
        prop_oneof![1 => Just(0u32), 3 => 1u32..100000],
        prop_oneof![2 => Just((0i8, 0i8)), 1 => (-20i8..20, -20i8..20)],
        prop_oneof![4 => Just(0i8), 2 => -3i8..4, 1 => -30i8..-3, 1 => 4i8..46],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just((0u8, 0u8)), 1 => (0u8..3, 0u8..3)],
    )
        .prop_map(|(mesh, salt, (dx, dy), scale, transpose, split, (eps, mu))| Meta { mesh, salt, dx, dy, scale, transpose, split, eps, mu })
        .boxed()
}
fn tr_kind(k: Kind, t: bool) -> Kind {
    if !t {
        return k;
    }
    match k {
        Kind::T => Kind::T,
        Kind::U => Kind::V,
        Kind::V => Kind::U,
        Kind::Ux(i) => Kind::Vx(i),
        Kind::Vx(i) => Kind::Ux(i),
    }
}
fn meta_more(t: Tier, ladder: bool) -> BoxedStrategy<Meta> {
    let mesh = if ladder {
        (base_strategy(2, 2), ladder_strategy(t.pick(10, 12)), proptest::collection::vec([1u8..=2, 1u8..=2], 1..5))
            .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
            .boxed()
    } else {
        large_strategy(12, t.pick(6, 8), 6, 3)
    };
    (meta_strat(t), mesh).prop_map(|(m, mesh)| Meta { mesh, scale: m.scale.max(-2), ..m }).boxed()
}
fn meta_check(c: &Meta, obs: &mut Obs) -> Res {
    meta_caps(c, obs, Caps { leaves: 18, level: 3 })
}
fn meta_caps(c: &Meta, obs: &mut Obs, caps: Caps) -> Res {
    let mut base = c.mesh.base.clone();
    base.unit = false;
    let (mut mesh1, mut m1) = base.build()?;
    m1.sync(&mesh1)?;
    // the transformed mesh
    let mut b2 = base.clone();
    b2.salt = c.salt;
    let mut m2 = m1.clone();
    let s = (2.0f64).powi(c.scale as i32);
    for (v, d) in [(&mut m2.xs, c.dx), (&mut m2.ys, c.dy)] {
        for x in v.iter_mut() {
            *x = (*x + d as f64 * 0.25) * s;
        }
    }
    let (fe, fm) = ([1.0, 2.5, 0.125][c.eps as usize % 3], [1.0, 3.0, 0.75][c.mu as usize % 3]);
    for t in m2.mats.iter_mut() {
        t[0] *= fe;
        t[2] *= fm;
    }
    if c.transpose {
        std::mem::swap(&mut m2.xs, &mut m2.ys);
        for cell in m2.cells.iter_mut() {
            cell.k = [cell.k[2], cell.k[3], cell.k[0], cell.k[1]];
        }
    }
    m2.base_eid = permutation(m2.n_base, c.salt, 78);
    for b in 0..m2.n_base {
        m2.cells[b].eid = m2.base_eid[b];
    }
    m2.orphans = vec![];
    let f = TmpFile::new("json");
    std::fs::write(&f.0, b2.json(&m2).to_string()).unwrap();
    let mut mesh2 = match guarded(|| Mesh::from_file(f.s())) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return fail("load", e.to_string()),
        Err(e) => return fail("load", e),
    };
    m2.sync(&mesh2)?;
    // corresponding cells, by position
    let key = |m: &Model, i: usize, t: bool| {
        let (k, l) = (m.cells[i].k, m.cells[i].lev);
        if t {
            ([k[2], k[3], k[0], k[1]], [l[1], l[0]])
        } else {
            (k, l)
        }
    };
    let mapping = |m1: &Model, m2: &Model| -> BTreeMap<usize, usize> {
        let by: BTreeMap<_, usize> = (0..m2.cells.len()).map(|i| (key(m2, i, false), i)).collect();
        (0..m1.cells.len()).filter_map(|i| by.get(&key(m1, i, c.transpose)).map(|j| (i, *j))).collect()
    };
    // far below the minimum length nothing can be refined
    let ops: &[_] = if c.scale < -3 { &[] } else { &c.mesh.ops };
    for op in ops.iter() {
        let map = mapping(&m1, &m2);
        let plan = op.plan(&m1, caps);
        let conv = |plan: &Plan| -> Plan {
            match plan {
                Plan::Batch(v) => Plan::Batch(v.iter().map(|(a, k)| (map[a], tr_kind(*k, c.transpose))).collect()),
                Plan::Elems(v, k) => Plan::Elems(v.iter().map(|a| map[a]).collect(), tr_kind(*k, c.transpose)),
                Plan::Global(k) => Plan::Global(tr_kind(*k, c.transpose)),
                Plan::Filter(v) => Plan::Filter(v.iter().map(|(a, k)| (map[a], tr_kind(*k, c.transpose))).collect()),
            }
        };
        let mut plans = vec![conv(&plan)];
        if c.split {
            // the same refinement, one element at a time, last first
            let mut want: BTreeMap<usize, Kind> = BTreeMap::new();
            match &plans[0] {
                Plan::Batch(v) => {
                    for (a, k) in v {
                        let k = want.get(a).map_or(*k, |o| Kind::combine(*o, *k));
                        want.insert(*a, k);
                    }
                }
                Plan::Elems(v, k) => v.iter().for_each(|a| {
                    want.insert(*a, *k);
                }),
                Plan::Global(k) => m2.leaves().iter().for_each(|a| {
                    want.insert(*a, *k);
                }),
                Plan::Filter(v) => want = v.clone(),
            }
            plans = want.into_iter().rev().map(|(a, k)| Plan::Batch(vec![(a, k)])).collect();
        }
        match guarded(|| apply_real(&mut mesh1, &m1, &plan)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return fail("refused", e),
        }
        apply_model(&mut m1, &plan);
        m1.sync(&mesh1)?;
        for p in plans {
            match guarded(|| apply_real(&mut mesh2, &m2, &p)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => return fail("refused", e),
            }
            apply_model(&mut m2, &p);
            m2.sync(&mesh2)?;
        }
    }
    set_orders(&mut mesh1, &mut m1, &c.mesh.ords)?;
    let map = mapping(&m1, &m2);
    ensure!(map.len() == m1.cells.len() && m1.cells.len() == m2.cells.len(), "cells", "the two meshes have different elements");
    let mut req = Vec::new();
    for (a, b) in map.iter() {
        let o = m1.cells[*a].ord;
        m2.cells[*b].ord = if c.transpose { [o[1], o[0]] } else { o };
        req.push((m2.cells[*b].eid, Orders::new(m2.cells[*b].ord[0], m2.cells[*b].ord[1])));
    }
    if let Err(e) = mesh2.set_expansion_orders(req) {
        return fail("orders", e.to_string());
    }
    let (d1, d2) = (make_domain(mesh1)?, make_domain(mesh2)?);
    let (f1, f2) = (dof_functions(&d1, &m1)?, dof_functions(&d2, &m2)?);
    describe(&m1, obs);
    let n = f1.len();
    ensure!(n == f2.len(), "dofs", "{} degrees of freedom, {} on the transformed mesh", n, f2.len());
    if n == 0 {
        return Ok(());
    }
    let by2: BTreeMap<Vec<Fun>, usize> = f2.into_iter().enumerate().map(|(i, f)| (f, i)).collect();
    let mut perm = Vec::new();
    for f in f1.iter() {
        let mut g: Vec<Fun> = f
            .iter()
            .map(|h| {
                let cell = map[&h.cell];
                if c.transpose {
                    Fun { cell, v: !h.v, i: h.j, j: h.i }
                } else {
                    Fun { cell, ..*h }
                }
            })
            .collect();
        g.sort();
        match by2.get(&g) {
            Some(i) => perm.push(*i),
            None => return fail("dofs", format!("degree of freedom {:?} has no counterpart on the transformed mesh", f)),
        }
    }
    let (g1, g2) = (assemble(&d1, None)?, assemble(&d2, None)?);
    for (what, x, y, fac) in [("stiffness", upper(&g1.a), upper(&g2.a), 1.0 / (s * s * fm)), ("mass", upper(&g1.b), upper(&g2.b), fe)] {
        let mut back = vec![0; n];
        perm.iter().enumerate().for_each(|(i, k)| back[*k] = i);
        let sorted = |i: usize, j: usize| (i.min(j), i.max(j));
        let at = |m: &BTreeMap<(usize, usize), f64>, k: (usize, usize)| m.get(&k).copied().unwrap_or(0.0);
        let all: BTreeSet<(usize, usize)> = x.keys().copied().chain(y.keys().map(|(i, j)| sorted(back[*i], back[*j]))).collect();
        for (i, j) in all {
            let sc = (at(&x, (i, i)) * at(&x, (j, j))).abs().sqrt() * fac;
            let (p, q) = (at(&x, (i, j)) * fac, at(&y, sorted(perm[i], perm[j])));
            ensure!((p - q).abs() <= 1e-10 * sc, "differs", "{} of {:?} and {:?}: {:e}, {:e} on the transformed mesh", what, f1[i], f1[j], p, q);
        }
    }
    obs.add("dofs", n as u64);
    if c.transpose {
        obs.label("transposed");
    }
    if c.scale < -3 || c.scale > 3 {
        obs.label("far-scale");
    }
    if c.split {
        obs.label("one-at-a-time");
    }
    obs.nontrivial_if(m1.cells.len() > 1 && n > 3 && (c.transpose || c.split || c.salt != base.salt || c.scale != 0 || c.dx != 0 || c.dy != 0 || c.eps != 0 || c.mu != 0));
    Ok(())
}
pub fn c26() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "transformed",
            rule: "random hp-mesh and a transformed twin (renumbered nodes and elements, moved, scaled, x and y exchanged, materials scaled, refinement requests executed one at a time in reverse order); elements, degrees of freedom and matrix entries must correspond; non-trivial: more than one element, more than 3 degrees of freedom, and some transformation",
            strat: meta_strat, check: meta_check, quick: 1500, thorough: 40000, serial: false,
        }),
        Box::new(Part {
            name: "ladder",
            rule: "as 'transformed', after up to 12 rounds of refining every element around one corner or point of a side (up to 70 unrefined elements, levels up to 12)",
            strat: |t| meta_more(t, true), check: |c, o| meta_caps(c, o, Caps { leaves: 70, level: 12 }), quick: 1500, thorough: 40000, serial: false,
        }),
        Box::new(Part {
            name: "large",
            rule: "as 'transformed', on up to 12x12 base elements with up to 180 unrefined ones",
            strat: |t| meta_more(t, false), check: |c, o| meta_caps(c, o, Caps { leaves: 180, level: 6 }), quick: 600, thorough: 15000, serial: false,
        }),
        Box::new(Part {
            name: "orders",
            rule: "as 'transformed', on at most five unrefined elements with orders up to 12",
            strat: |t| (meta_strat(t), base_strategy(2, 2), hops_strategy(1, 1), proptest::collection::vec(prop_oneof![[1u8..=12, 1u8..=5], [1u8..=5, 1u8..=12], [1u8..=8, 1u8..=8]], 1..5)).prop_map(|(m, base, ops, ords)| Meta { mesh: MeshCase { base, ops, ords }, ..m }).boxed(),
            check: |c, o| meta_caps(c, o, Caps { leaves: 5, level: 1 }), quick: 200, thorough: 4000, serial: false,
        })],
        assumptions: vec!["entries are compared to 1e-10 of the geometric mean of the diagonal entries"],
    }
}
