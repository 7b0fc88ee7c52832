//! C08 - C11, C26, C27: assembled matrices, spectra, invariances.
use super::dof::{dof_functions, make_domain};
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use crate::refmath::*;
use fem_2d::prelude::*;
use nalgebra::DMatrix;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn assemble(d: &Domain, glq: Option<[usize; 2]>) -> Result<GEP, Fail> {
    match guarded(|| galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(d, glq)) {
        Ok(Ok(g)) => Ok(g),
        Ok(Err(e)) => fail("assembly-refused", format!("assembly was refused: {}", e)),
        Err(p) => fail("assembly-panic", format!("assembly panicked: {}", p)),
    }
}
pub fn dense(m: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix) -> DMatrix<f64> {
    let n = m.dimension;
    let mut d = DMatrix::zeros(n, n);
    for ([r, c], v) in m.iter_upper_tri() {
        d[(r, c)] = v;
        d[(c, r)] = v;
    }
    d
}

/// exact (stiffness, mass) entries for given functions per degree of freedom, upper triangle; pairs whose functions do
/// not overlap are absent
pub fn reference_sparse(m: &Model, funs: &[Vec<Fun>]) -> BTreeMap<(usize, usize), (f64, f64)> {
    let max_ord = m.cells.iter().fold(1, |a, c| a.max(c.ord[0]).max(c.ord[1])) as usize;
    let ex = Exact::new(max_ord);
    pair_sums(m, funs, &|f, g| {
        let mat = m.mats[m.cells[f.cell].base];
        let (mass, curl) = ex.pair(m, f, g);
        (curl / mat[2], mass * mat[0])
    })
}
/// sums of a (symmetric) pair of products over the pairs of functions that overlap
pub fn pair_sums(m: &Model, funs: &[Vec<Fun>], product: &dyn Fn(&Fun, &Fun) -> (f64, f64)) -> BTreeMap<(usize, usize), (f64, f64)> {
    let mut by_cell: Vec<Vec<(usize, &Fun)>> = vec![Vec::new(); m.cells.len()];
    for (k, v) in funs.iter().enumerate() {
        for f in v {
            by_cell[f.cell].push((k, f));
        }
    }
    let mut out: BTreeMap<(usize, usize), (f64, f64)> = BTreeMap::new();
    let mut add = |k: usize, l: usize, f: &Fun, g: &Fun| {
        let (a, b) = product(f, g);
        let e = out.entry((k.min(l), k.max(l))).or_insert((0.0, 0.0));
        e.0 += a;
        e.1 += b;
    };
    for c in 0..m.cells.len() {
        for (n, (k, f)) in by_cell[c].iter().enumerate() {
            for (l, g) in by_cell[c][n..].iter() {
                add(*k, *l, f, g);
                if k == l && *f != *g {
                    // two functions of one element in one degree of freedom: both products
                    add(*k, *l, g, f);
                }
            }
            for a in m.ancestors(c) {
                for (l, g) in by_cell[a].iter() {
                    add(*k, *l, f, g);
                    if k == l {
                        add(*k, *l, g, f);
                    }
                }
            }
        }
    }
    out
}
/// the same as full matrices
pub fn reference(m: &Model, funs: &[Vec<Fun>]) -> (DMatrix<f64>, DMatrix<f64>) {
    let n = funs.len();
    let mut a = DMatrix::zeros(n, n);
    let mut b = DMatrix::zeros(n, n);
    for ((k, l), (ea, eb)) in reference_sparse(m, funs) {
        a[(k, l)] = ea;
        a[(l, k)] = ea;
        b[(k, l)] = eb;
        b[(l, k)] = eb;
    }
    (a, b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatCase {
    pub mesh: MeshCase,
    /// None: default number of points; otherwise points added to the smallest exact number, per direction
    pub glq: Option<[u8; 2]>,
}
fn glq_of(c: &Option<[u8; 2]>, m: &Model) -> Option<[usize; 2]> {
    let o = m.cells.iter().fold([1u8, 1], |a, c| [a[0].max(c.ord[0]), a[1].max(c.ord[1])]);
    c.map(|g| [(o[0] as usize + 1).max(4) + g[0] as usize, (o[1] as usize + 1).max(4) + g[1] as usize])
}
fn glq_strat() -> BoxedStrategy<Option<[u8; 2]>> {
    prop_oneof![1 => Just(None), 3 => [prop_oneof![2 => Just(0u8), 3 => 0u8..9], prop_oneof![2 => Just(0u8), 3 => 0u8..9]].prop_map(Some)].boxed()
}
fn mat_strat(t: Tier) -> BoxedStrategy<MatCase> {
    (mesh_strategy(3, 2, t.pick(3, 4), 2, 4), glq_strat()).prop_map(|(mesh, glq)| MatCase { mesh, glq }).boxed()
}
fn deep_strat(t: Tier) -> BoxedStrategy<MatCase> {
    (base_strategy(2, 1), deep_strategy(t.pick(5, 7)), proptest::collection::vec([1u8..=3, 1u8..=3], 1..6), glq_strat())
        .prop_map(|(base, ops, ords, glq)| MatCase { mesh: MeshCase { base, ops, ords }, glq })
        .boxed()
}
fn high_strat(_t: Tier) -> BoxedStrategy<MatCase> {
    (base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec([1u8..=9, 1u8..=9], 1..4), glq_strat())
        .prop_map(|(base, ops, ords, glq)| MatCase { mesh: MeshCase { base, ops, ords }, glq })
        .boxed()
}
/// one or two elements, a high order in at least one direction
fn top_strat(_t: Tier) -> BoxedStrategy<MatCase> {
    let o = || prop_oneof![4 => [10u8..=20, 1u8..=4], 4 => [1u8..=4, 10u8..=20], 1 => [20u8..=20, 2u8..=6], 1 => [2u8..=2, 20u8..=20], 1 => [9u8..=12, 9u8..=12]];
    (base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec(o(), 1..4), glq_strat())
        .prop_map(|(base, ops, ords, glq)| MatCase { mesh: MeshCase { base, ops, ords }, glq })
        .boxed()
}
/// a few elements, one of them with hundreds of functions
fn full_strat(_t: Tier) -> BoxedStrategy<MatCase> {
    (base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec([1u8..=2, 1u8..=2], 2..5), (13u8..=20, 13u8..=18, any::<u16>(), any::<bool>()))
        .prop_map(|(mut base, mut ops, mut ords, (i, j, at, turn))| {
            if at % 4 != 0 {
                // two elements, one of them refined: functions on the refined one, too
                (base.nx, base.ny, base.mask, base.unit) = (2, 1, 0, false);
                ops = vec![HOp { api: 0, sels: vec![(at / 8, (at / 16) as u8)] }];
            }
            let at = at as usize % ords.len();
            ords[at] = if turn { [i, j] } else { [j, i] };
            MatCase { mesh: MeshCase { base, ops, ords }, glq: Some([0, 0]) }
        })
        .boxed()
}
fn wide_strat(_t: Tier) -> BoxedStrategy<MatCase> {
    (wide_base_strategy(3, 2), prop_oneof![hops_strategy(2, 2), deep_strategy(4)], proptest::collection::vec([1u8..=4, 1u8..=4], 1..4), glq_strat())
        .prop_map(|(base, ops, ords, glq)| MatCase { mesh: MeshCase { base, ops, ords }, glq })
        .boxed()
}
fn ladder_strat(t: Tier) -> BoxedStrategy<MatCase> {
    (base_strategy(2, 2), ladder_strategy(t.pick(12, 15)), proptest::collection::vec([1u8..=3, 1u8..=3], 1..5), glq_strat())
        .prop_map(|(base, ops, ords, glq)| MatCase { mesh: MeshCase { base, ops, ords }, glq })
        .boxed()
}
fn large_strat(t: Tier) -> BoxedStrategy<MatCase> {
    (large_strategy(12, t.pick(8, 10), 8, 3), glq_strat())
        .prop_map(|(mesh, glq)| MatCase { mesh, glq })
        .boxed()
}
/// more than a thousand elements, few functions on each
pub fn huge_strat(side: std::ops::Range<u8>) -> BoxedStrategy<MatCase> {
    (huge_mesh(side, 4, 2), glq_strat()).prop_map(|(mesh, glq)| MatCase { mesh, glq }).boxed()
}
const HUGERULE: &str = "as 'mesh', on 24x24 to 59x59 base elements with up to 5000 unrefined elements, mostly of order 1";
pub const LADDER_CAPS: Caps = Caps { leaves: 70, level: 14 };
pub const LARGE_CAPS: Caps = Caps { leaves: 180, level: 6 };
const LADDERRULE: &str = "as 'mesh', after up to 12 rounds of refining every element around one corner or point of a side (up to 70 unrefined elements, levels up to 14)";
const LARGERULE: &str = "as 'mesh', on up to 12x12 base elements with up to 180 unrefined elements and thousands of degrees of freedom";
const CAPS: Caps = Caps { leaves: 14, level: 4 };
const HCAPS: Caps = Caps { leaves: 5, level: 1 };

type Upper = BTreeMap<(usize, usize), f64>;
pub fn upper(m: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix) -> Upper {
    m.iter_upper_tri().map(|([r, c], v)| ((r, c), v)).collect()
}
pub fn compare(what: &str, real: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix, exp: &Upper, funs: &[Vec<Fun>], tol: f64) -> Res {
    let n = funs.len();
    ensure!(real.dimension == n, "dimension", "{} matrix has dimension {}, {} expected", what, real.dimension, n);
    let got = upper(real);
    let diag: Vec<f64> = (0..n).map(|i| exp.get(&(i, i)).copied().unwrap_or(0.0)).collect();
    for (i, j) in got.keys().chain(exp.keys()) {
        let (i, j) = (*i, *j);
        ensure!(i <= j && j < n, "position", "{} matrix stores an entry at ({}, {}), of dimension {}", what, i, j, n);
        let s = (diag[i] * diag[j]).sqrt();
        let (r, e) = (got.get(&(i, j)).copied().unwrap_or(0.0), exp.get(&(i, j)).copied().unwrap_or(0.0));
        // written so that NaN fails
        ensure!(
            (r - e).abs() <= tol * s,
            "entry",
            "{} entry ({}, {}) for {:?} and {:?} is {:e}, the exact integral is {:e} (scale {:e})",
            what, i, j, funs[i], funs[j], r, e, s
        );
    }
    Ok(())
}
fn mat_check(c: &MatCase, obs: &mut Obs, caps: Caps, stiff: bool) -> Res {
    let (mesh, m) = c.mesh.build(caps)?;
    let d = make_domain(mesh)?;
    if d.dofs.is_empty() {
        obs.label("no-dofs");
        return Ok(());
    }
    describe(&m, obs);
    let funs = dof_functions(&d, &m)?;
    let g = assemble(&d, glq_of(&c.glq, &m))?;
    let exact = reference_sparse(&m, &funs);
    if stiff {
        compare("stiffness", &g.a, &exact.into_iter().map(|(k, v)| (k, v.0)).collect(), &funs, 1e-10 + m.rounding())?;
    } else {
        compare("mass", &g.b, &exact.into_iter().map(|(k, v)| (k, v.1)).collect(), &funs, 1e-10 + m.rounding())?;
    }
    if d.dofs.len() > 420 {
        obs.label("more than 420 degrees of freedom");
    }
    obs.add("dofs", d.dofs.len() as u64);
    obs.label(if c.glq.is_none() { "default-quadrature" } else { "given-quadrature" });
    // an ancestor's function met by a descendant's function
    let nested = funs.iter().flatten().any(|f| !m.is_leaf(f.cell));
    if nested {
        obs.label("ancestor-descendant");
    }
    obs.nontrivial_if(m.cells.len() > 1 && d.dofs.len() > 3);
    Ok(())
}

const MATRULE: &str = "random mesh (holes, materials, renumbering, hp-refinement with hanging nodes, mixed orders) and number of quadrature points (default, or any number from the smallest exact one up, per direction); every entry of the assembled matrix is compared with the exact integral from an independent quadrature over the overlap of the two functions; non-trivial: more than one element and more than 3 degrees of freedom";
const WIDERULE: &str = "as 'mesh', with element sizes between 1e-2 and 1e9, aspect ratios up to 3e4 and material constants between 1e-6 and 1e6";
pub fn c08() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "mesh", rule: MATRULE, strat: mat_strat, check: |c, o| mat_check(c, o, CAPS, false), quick: 1200, thorough: 30000, serial: false }),
            Box::new(Part { name: "deep", rule: MATRULE, strat: deep_strat, check: |c, o| mat_check(c, o, CAPS, false), quick: 1200, thorough: 30000, serial: false }),
            Box::new(Part { name: "high-order", rule: MATRULE, strat: high_strat, check: |c, o| mat_check(c, o, HCAPS, false), quick: 400, thorough: 8000, serial: false }),
            Box::new(Part { name: "wide", rule: WIDERULE, strat: wide_strat, check: |c, o| mat_check(c, o, Caps { leaves: 9, level: 3 }, false), quick: 1500, thorough: 30000, serial: false }),
            Box::new(Part { name: "top-order", rule: "as 'mesh', on at most four unrefined elements with orders up to 20", strat: top_strat, check: |c, o| mat_check(c, o, Caps { leaves: 4, level: 1 }, false), quick: 40, thorough: 800, serial: false }),
            Box::new(Part { name: "full", rule: "as 'mesh', on a few elements of which one in each group has orders of 13 to 20 in both directions (300 to 800 functions on one element), with the smallest exact number of points", strat: full_strat, check: |c, o| mat_check(c, o, Caps { leaves: 5, level: 1 }, false), quick: 24, thorough: 400, serial: false }),
            Box::new(Part { name: "ladder", rule: LADDERRULE, strat: ladder_strat, check: |c, o| mat_check(c, o, LADDER_CAPS, false), quick: 500, thorough: 4000, serial: false }),
            Box::new(Part { name: "chain", rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31)", strat: |_| (chain_mesh(2), glq_strat()).prop_map(|(mesh, glq)| MatCase { mesh, glq }).boxed(), check: |c, o| mat_check(c, o, CHAIN_CAPS, false), quick: 200, thorough: 3000, serial: false }),
            Box::new(Part { name: "large", rule: LARGERULE, strat: large_strat, check: |c, o| mat_check(c, o, LARGE_CAPS, false), quick: 250, thorough: 1500, serial: false }),
            Box::new(Part { name: "huge", rule: HUGERULE, strat: |_| huge_strat(24..60), check: |c, o| mat_check(c, o, HUGE_CAPS, false), quick: 64, thorough: 1500, serial: false }),
            Box::new(Part { name: "giant", rule: "as 'huge', on about 190x190 base elements (more than 65536 degrees of freedom)", strat: |_| huge_strat(186..200), check: |c, o| mat_check(c, o, GIANT_CAPS, false), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec!["entries are compared to 1e-10 of the geometric mean of the two diagonal entries"],
    }
}
pub fn c09() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "mesh", rule: MATRULE, strat: mat_strat, check: |c, o| mat_check(c, o, CAPS, true), quick: 1200, thorough: 30000, serial: false }),
            Box::new(Part { name: "deep", rule: MATRULE, strat: deep_strat, check: |c, o| mat_check(c, o, CAPS, true), quick: 1200, thorough: 30000, serial: false }),
            Box::new(Part { name: "high-order", rule: MATRULE, strat: high_strat, check: |c, o| mat_check(c, o, HCAPS, true), quick: 400, thorough: 8000, serial: false }),
            Box::new(Part { name: "wide", rule: WIDERULE, strat: wide_strat, check: |c, o| mat_check(c, o, Caps { leaves: 9, level: 3 }, true), quick: 1500, thorough: 30000, serial: false }),
            Box::new(Part { name: "top-order", rule: "as 'mesh', on at most four unrefined elements with orders up to 20", strat: top_strat, check: |c, o| mat_check(c, o, Caps { leaves: 4, level: 1 }, true), quick: 40, thorough: 800, serial: false }),
            Box::new(Part { name: "full", rule: "as 'mesh', on a few elements of which one in each group has orders of 13 to 20 in both directions (300 to 800 functions on one element), with the smallest exact number of points", strat: full_strat, check: |c, o| mat_check(c, o, Caps { leaves: 5, level: 1 }, true), quick: 24, thorough: 400, serial: false }),
            Box::new(Part { name: "ladder", rule: LADDERRULE, strat: ladder_strat, check: |c, o| mat_check(c, o, LADDER_CAPS, true), quick: 500, thorough: 4000, serial: false }),
            Box::new(Part { name: "chain", rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31)", strat: |_| (chain_mesh(2), glq_strat()).prop_map(|(mesh, glq)| MatCase { mesh, glq }).boxed(), check: |c, o| mat_check(c, o, CHAIN_CAPS, true), quick: 200, thorough: 3000, serial: false }),
            Box::new(Part { name: "large", rule: LARGERULE, strat: large_strat, check: |c, o| mat_check(c, o, LARGE_CAPS, true), quick: 250, thorough: 1500, serial: false }),
            Box::new(Part { name: "huge", rule: HUGERULE, strat: |_| huge_strat(24..60), check: |c, o| mat_check(c, o, HUGE_CAPS, true), quick: 64, thorough: 1500, serial: false }),
            Box::new(Part { name: "giant", rule: "as 'huge', on about 190x190 base elements (more than 65536 degrees of freedom)", strat: |_| huge_strat(186..200), check: |c, o| mat_check(c, o, GIANT_CAPS, true), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec!["entries are compared to 1e-10 of the geometric mean of the two diagonal entries"],
    }
}

// ---------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AsmCase {
    pub mesh: MeshCase,
    pub glq: Option<[u8; 2]>,
    pub glq2: Option<[u8; 2]>,
    pub threads: u8,
}
/// now and then many more points than needed, in one direction or both
fn glq_far() -> BoxedStrategy<Option<[u8; 2]>> {
    prop_oneof![9 => glq_strat(), 1 => [0u8..120, 0u8..9].prop_map(Some), 1 => [0u8..9, 0u8..120].prop_map(Some), 1 => [20u8..70, 20u8..70].prop_map(Some)].boxed()
}
/// few elements, orders up to 20 in either direction
fn asm_orders_strat(t: Tier) -> BoxedStrategy<AsmCase> {
    (prop_oneof![3 => high_strat(t), 2 => top_strat(t)], glq_far(), prop_oneof![9 => 1u8..7, 1 => 7u8..40])
        .prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads })
        .boxed()
}
fn asm_strat(t: Tier) -> BoxedStrategy<AsmCase> {
    (mesh_strategy(3, 3, t.pick(3, 4), 3, 4), glq_strat(), glq_far(), prop_oneof![9 => 1u8..7, 1 => 7u8..40])
        .prop_map(|(mesh, glq, glq2, threads)| AsmCase { mesh, glq, glq2, threads })
        .boxed()
}
fn asm_wide_strat(t: Tier) -> BoxedStrategy<AsmCase> {
    (wide_strat(t), glq_strat(), 1u8..7)
        .prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads })
        .boxed()
}
fn asm_ladder_strat(t: Tier) -> BoxedStrategy<AsmCase> {
    (ladder_strat(t), glq_strat(), 1u8..7)
        .prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads })
        .boxed()
}
fn asm_large_strat(t: Tier) -> BoxedStrategy<AsmCase> {
    (large_strat(t), glq_strat(), 1u8..7)
        .prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads })
        .boxed()
}
fn asm_check(c: &AsmCase, obs: &mut Obs) -> Res {
    asm_caps(c, obs, Caps { leaves: 20, level: 4 })
}
fn asm_caps(c: &AsmCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.mesh.build(caps)?;
    let d = make_domain(mesh)?;
    if d.dofs.is_empty() {
        return Ok(());
    }
    describe(&m, obs);
    let base = assemble(&d, glq_of(&c.glq, &m))?;
    let (a, b) = (upper(&base.a), upper(&base.b));
    let n = d.dofs.len();
    ensure!(base.a.dimension == n && base.b.dimension == n, "dimension", "matrices of dimension {} and {} for {} degrees of freedom", base.a.dimension, base.b.dimension, n);
    let close = |what: &str, x: &Upper, y: &Upper| -> Res {
        let at = |m: &Upper, i, j| m.get(&(i, j)).copied().unwrap_or(0.0);
        for &(i, j) in x.keys().chain(y.keys()) {
            let s = (at(x, i, i) * at(x, j, j)).abs().sqrt();
            ensure!((at(x, i, j) - at(y, i, j)).abs() <= 1e-10 * s, "differs", "{}: entry ({}, {}) is {:e} or {:e}", what, i, j, at(x, i, j), at(y, i, j));
        }
        Ok(())
    };
    let keys = |g: &GEP| -> Vec<[usize; 2]> { g.a.iter_upper_tri().map(|(k, _)| k).collect() };
    for threads in [1usize, 1 + c.threads as usize] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let g = pool.install(|| assemble(&d, glq_of(&c.glq, &m)))?;
        close("number of threads, stiffness", &a, &upper(&g.a))?;
        close("number of threads, mass", &b, &upper(&g.b))?;
        ensure!(keys(&g) == keys(&base), "pattern", "the stored entries depend on the number of threads");
    }
    let g = assemble(&d, glq_of(&c.glq2, &m))?;
    close("number of quadrature points, stiffness", &a, &upper(&g.a))?;
    close("number of quadrature points, mass", &b, &upper(&g.b))?;
    obs.add("dofs", n as u64);
    obs.nontrivial_if(m.cells.len() > 1 && n > 3);
    for i in 0..n {
        let at = |m: &Upper| m.get(&(i, i)).copied().unwrap_or(0.0);
        ensure!(at(&b) > 0.0, "mass-diagonal", "diagonal mass entry {} is {:e}", i, at(&b));
        ensure!(at(&a) > 0.0, "stiffness-diagonal", "diagonal stiffness entry {} is {:e}", i, at(&a));
    }
    let top = m.cells.iter().map(|c| c.ord[0].max(c.ord[1])).max().unwrap_or(1);
    if n > 350 {
        // too large for the eigenvalues; the mass matrix must still have a Cholesky decomposition
        obs.label("more than 350 degrees of freedom");
        if n <= 1500 && top <= 8 {
            let b = dense(&base.b);
            let x = DMatrix::from_fn(n, n, |i, j| b[(i, j)] / (b[(i, i)] * b[(j, j)]).sqrt());
            ensure!(nalgebra::Cholesky::new(x).is_some(), "mass-definite", "the scaled mass matrix of dimension {} is not positive definite", n);
        }
        return Ok(());
    }
    let (a, b) = (dense(&base.a), dense(&base.b));
    // definiteness, after scaling to unit diagonal
    let scaled = |x: &DMatrix<f64>| DMatrix::from_fn(n, n, |i, j| x[(i, j)] / (x[(i, i)] * x[(j, j)]).sqrt());
    let eb = nalgebra::SymmetricEigen::new(scaled(&b)).eigenvalues.min();
    // at high orders the smallest one is below rounding
    let least = if top > 8 { -1e-11 * n as f64 } else { 1e-13 };
    ensure!(eb > least, "mass-definite", "the scaled mass matrix has eigenvalue {:e}", eb);
    let ea = nalgebra::SymmetricEigen::new(scaled(&a)).eigenvalues.min();
    ensure!(ea > -1e-11 * n as f64, "stiffness-semidefinite", "the scaled stiffness matrix has eigenvalue {:e}", ea);
    Ok(())
}
pub fn c10() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "assembly",
            rule: "random mesh with mixed orders; assembly on pools of 1 and 2-40 threads and with two numbers of quadrature points (each large enough to be exact); entries compared, stored positions compared, mass positive definite, stiffness positive semidefinite after scaling; non-trivial: more than one element and more than 3 degrees of freedom",
            strat: asm_strat, check: asm_check, quick: 800, thorough: 16000, serial: false,
        }),
        Box::new(Part {
            name: "orders",
            rule: "as 'assembly', on at most four unrefined elements with orders up to 9, or up to 20 in one direction (there the mass matrix need only be semidefinite, to rounding), with up to 120 quadrature points more than needed",
            strat: asm_orders_strat, check: |c, o| asm_caps(c, o, Caps { leaves: 4, level: 1 }), quick: 250, thorough: 5000, serial: false,
        }),
        Box::new(Part {
            name: "wide",
            rule: "as 'assembly', with element sizes between 1e-2 and 1e9, aspect ratios up to 3e4 and material constants between 1e-6 and 1e6",
            strat: asm_wide_strat, check: asm_check, quick: 300, thorough: 6000, serial: false,
        }),
        Box::new(Part {
            name: "ladder",
            rule: "as 'assembly', after up to 12 rounds of refining every element around one corner or point of a side (up to 70 unrefined elements, levels up to 14)",
            strat: asm_ladder_strat, check: |c, o| asm_caps(c, o, LADDER_CAPS), quick: 800, thorough: 15000, serial: false,
        }),
        Box::new(Part {
            name: "large",
            rule: "as 'assembly', on up to 12x12 base elements with up to 180 unrefined elements and thousands of degrees of freedom (definiteness of the mass matrix up to 1500 of them)",
            strat: asm_large_strat, check: |c, o| asm_caps(c, o, LARGE_CAPS), quick: 400, thorough: 6000, serial: false,
        }),
        Box::new(Part {
            name: "huge",
            rule: "as 'assembly', on 24x24 to 59x59 base elements with up to 5000 unrefined elements, mostly of order 1 (diagonals positive only)",
            strat: |_| (huge_strat(24..60), glq_strat(), 1u8..7).prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads }).boxed(),
            check: |c, o| asm_caps(c, o, HUGE_CAPS), quick: 32, thorough: 800, serial: false,
        }),
        Box::new(Part {
            name: "giant",
            rule: "as 'huge', on about 190x190 base elements (more than 65536 degrees of freedom)",
            strat: |_| (huge_strat(186..200), glq_strat(), 1u8..7).prop_map(|(c, glq2, threads)| AsmCase { mesh: c.mesh, glq: c.glq, glq2, threads }).boxed(),
            check: |c, o| asm_caps(c, o, GIANT_CAPS), quick: 1, thorough: 12, serial: true,
        })],
        assumptions: vec!["schedules are those the thread pool happens to produce on up to 40 threads"],
    }
}
