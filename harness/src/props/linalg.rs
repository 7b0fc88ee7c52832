//! C12, C14, C15: dense eigensolver, exported matrices, sparse matrix algebra.
use super::matrix::{assemble, dense};
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::refmath::gen_eig;
use fem_2d::fem_problem::linalg::nalgebra_solve::NalgebraGEPError;
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::prelude::*;
use nalgebra::{DMatrix, DVector, SymmetricEigen};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------
// C12
// ---------------------------------------------------------------------------------------------
pub fn to_sparse(d: &DMatrix<f64>) -> SparseMatrix {
    let n = d.nrows();
    let mut s = SparseMatrix::new(n);
    for i in 0..n {
        for j in i..n {
            if d[(i, j)] != 0.0 {
                // either side of the diagonal
                s.insert(if (i + j) % 2 == 0 { [i, j] } else { [j, i] }, d[(i, j)]);
            }
        }
    }
    s
}
/// an orthogonal matrix made of plane rotations
fn rotations(n: usize, rot: &[(u8, u8, f64)]) -> DMatrix<f64> {
    let mut q = DMatrix::identity(n, n);
    for (a, b, t) in rot {
        let (a, b) = (*a as usize % n, *b as usize % n);
        if a == b {
            continue;
        }
        let (c, s) = (t.cos(), t.sin());
        for k in 0..n {
            let (x, y) = (q[(k, a)], q[(k, b)]);
            q[(k, a)] = c * x - s * y;
            q[(k, b)] = s * x + c * y;
        }
    }
    q
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BKind {
    Spd,
    /// one value of the second matrix made negative
    Indefinite(u8),
    /// row and column removed
    ZeroRow(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EigCase {
    /// eigenvalues wanted, and eigenvalues of the second matrix
    ab: Vec<(f64, f64)>,
    rot: Vec<(u8, u8, f64)>,
    /// rotations of the second matrix (None: the same ones, so the quotient is symmetric)
    rot_b: Option<Vec<(u8, u8, f64)>>,
    kind: BKind,
    /// multiplies the first matrix by a power of ten
    scale: i8,
    target: f64,
}
fn pairs(t: Tier, lo: usize) -> BoxedStrategy<Vec<(f64, f64)>> {
    let a = prop_oneof![3 => -50.0..50.0f64, 2 => (-4i32..5).prop_map(|k| k as f64), 1 => Just(0.0), 1 => 0.0..1.0f64];
    let b = prop_oneof![2 => 0.2..5.0f64, 1 => Just(1.0), 1 => Just(2.0)];
    proptest::collection::vec((a, b), lo..t.pick(14, 30)).boxed()
}
fn rots() -> BoxedStrategy<Vec<(u8, u8, f64)>> {
    prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec((any::<u8>(), any::<u8>(), -3.0..3.0f64), 1..24)].boxed()
}
fn target_strat() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => -60.0..60.0f64,
        2 => Just(0.0),
        2 => (-4i32..5).prop_map(|k| k as f64),
        // far away from every eigenvalue
        4 => (1.5..12.0f64, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -(10f64.powf(e)) }),
        1 => (12.0..300.0f64, any::<bool>()).prop_map(|(e, s)| if s { 10f64.powf(e) } else { -(10f64.powf(e)) }),
    ]
    .boxed()
}
fn commuting_strat(t: Tier) -> BoxedStrategy<EigCase> {
    let kind = prop_oneof![8 => Just(BKind::Spd), 1 => any::<u8>().prop_map(BKind::Indefinite), 1 => any::<u8>().prop_map(BKind::ZeroRow)];
    let scale = prop_oneof![8 => Just(0i8), 1 => Just(-60i8), 1 => Just(-13), 1 => Just(-8), 1 => Just(5)];
    (pairs(t, 1), rots(), kind, scale, target_strat())
        .prop_map(|(ab, rot, kind, scale, target)| EigCase { ab, rot, rot_b: None, kind, scale, target })
        .boxed()
}
fn general_strat(t: Tier) -> BoxedStrategy<EigCase> {
    (pairs(t, 2), rots(), rots(), target_strat())
        .prop_map(|(ab, rot, rb, target)| EigCase { ab, rot, rot_b: Some(rb), kind: BKind::Spd, scale: 0, target })
        .boxed()
}
pub fn sym(m: DMatrix<f64>) -> DMatrix<f64> {
    (&m + m.transpose()) * 0.5
}
fn matrices(c: &EigCase) -> (DMatrix<f64>, DMatrix<f64>) {
    let n = c.ab.len();
    let s = 10f64.powi(c.scale as i32);
    let q = rotations(n, &c.rot);
    let mut bv: Vec<f64> = c.ab.iter().map(|x| x.1).collect();
    if let BKind::Indefinite(k) = c.kind {
        let k = k as usize % n;
        bv[k] = -bv[k];
    }
    let diag = |v: Vec<f64>| DMatrix::from_diagonal(&DVector::from_vec(v));
    let (a, mut b) = match &c.rot_b {
        None => (
            sym(&q * diag(c.ab.iter().zip(bv.iter()).map(|(x, b)| x.0 * b * s).collect()) * q.transpose()),
            sym(&q * diag(bv) * q.transpose()),
        ),
        Some(rb) => {
            let p = rotations(n, rb);
            (sym(&q * diag(c.ab.iter().map(|x| x.0 * s).collect()) * q.transpose()), sym(&p * diag(bv) * p.transpose()))
        }
    };
    if let BKind::ZeroRow(k) = c.kind {
        let k = k as usize % n;
        for i in 0..n {
            b[(i, k)] = 0.0;
            b[(k, i)] = 0.0;
        }
    }
    (a, b)
}
fn check_vector(sol: &EigenPair, n: usize) -> Res {
    ensure!(sol.vector.len() == n, "vector-length", "the eigenvector has {} entries, the problem has {}", sol.vector.len(), n);
    let norm = sol.vector.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(norm > 0.0 && norm.is_finite(), "vector-zero", "the eigenvector has norm {}", norm);
    let u = sol.normalized_eigenvector();
    ensure!(u.len() == n, "normalized-length", "the normalised eigenvector has {} entries", u.len());
    for (k, (x, y)) in sol.vector.iter().zip(u.iter()).enumerate() {
        ensure!((x / norm - y).abs() < 1e-12, "normalized", "entry {} of the normalised eigenvector is {}, not {}", k, y, x / norm);
    }
    Ok(())
}
/// Err(text): not an eigenpair nearest to the target
fn correct_pair(a: &DMatrix<f64>, b: &DMatrix<f64>, vals: &[f64], target: f64, sol: &EigenPair, tol: f64) -> Result<(), String> {
    let n = a.nrows();
    let size = vals.iter().fold(0f64, |s, v| s.max(v.abs()));
    let best = vals.iter().fold(f64::MAX, |s, v| s.min((v - target).abs()));
    let near = vals.iter().fold(f64::MAX, |s, v| s.min((v - sol.value).abs()));
    if !(near <= tol * size) {
        return Err(format!("{} is not an eigenvalue, they are {:?}", sol.value, vals));
    }
    // (distances to a far target are rounded themselves)
    if !((sol.value - target).abs() <= best + tol * size + 1e-15 * target.abs()) {
        return Err(format!("{} is not the eigenvalue nearest to {}, they are {:?}", sol.value, target, vals));
    }
    let v = DVector::from_vec(sol.vector.clone());
    let r = (a * &v - b * &v * sol.value).norm();
    let s = (a.norm() + b.norm() * sol.value.abs()) * v.norm();
    if !(r <= 1e-6 * s.max(1e-300)) || v.len() != n {
        return Err(format!("A v - {} B v has norm {:e} (size {:e})", sol.value, r, s));
    }
    Ok(())
}
/// Is the result what the library's decomposition routine (which has its own inaccuracies in eigenvectors) gives for
/// the quotient treated as a symmetric matrix? The quotient may be formed in any of the usual ways.
fn decomposition_pair(a: &DMatrix<f64>, b: &DMatrix<f64>, target: f64, sol: &EigenPair) -> bool {
    let ch = match b.clone().cholesky() {
        Some(c) => c,
        None => return false,
    };
    let q = ch.inverse() * a;
    let q2 = ch.solve(a);
    [q.clone(), q2.clone()].into_iter().any(|m| decomposition_of(m, target, sol))
        || [sym(q), sym(q2)].into_iter().any(|m| decomposition_of(m, target, sol))
}
fn decomposition_of(q: DMatrix<f64>, target: f64, sol: &EigenPair) -> bool {
    let n = q.nrows();
    let e = SymmetricEigen::new(q);
    let size = e.eigenvalues.iter().fold(0f64, |s, v| s.max(v.abs()));
    let best = e.eigenvalues.iter().fold(f64::MAX, |s, v| s.min((v - target).abs()));
    (0..n).any(|k| {
        let val = e.eigenvalues[k];
        (val - sol.value).abs() <= 1e-9 * size
            && (val - target).abs() <= best + 1e-9 * size + 1e-15 * target.abs()
            && {
                // the vector may be turned within nearly equal eigenvalues: project on their span
                let mut rest = DVector::from_vec(sol.vector.clone());
                let norm = rest.norm();
                for l in 0..n {
                    if (e.eigenvalues[l] - val).abs() <= 1e-7 * size {
                        let w = e.eigenvectors.column(l);
                        let d = w.dot(&rest);
                        rest -= w * d;
                    }
                }
                rest.norm() <= 1e-6 * norm
            }
    })
}
fn solve(a: &DMatrix<f64>, b: &DMatrix<f64>, target: f64) -> Result<Result<EigenPair, NalgebraGEPError>, Fail> {
    let gep = GEP { a: to_sparse(a), b: to_sparse(b) };
    guarded(|| nalgebra_solve_gep(gep, target)).or_else(|p| fail("panic", format!("the solver panicked: {}", p)))
}
fn c12_commuting(c: &EigCase, obs: &mut Obs) -> Res {
    let n = c.ab.len();
    let (a, b) = matrices(c);
    let r = solve(&a, &b, c.target)?;
    match c.kind {
        BKind::Indefinite(_) | BKind::ZeroRow(_) => {
            obs.label("second-matrix-not-definite");
            obs.nontrivial_if(n > 1);
            ensure!(
                matches!(r, Err(NalgebraGEPError::FailedToInvertB)),
                "not-definite",
                "second matrix is not positive definite, but the result was {:?}",
                r.map(|p| p.value)
            );
            return Ok(());
        }
        BKind::Spd => {}
    }
    let s = 10f64.powi(c.scale as i32);
    let vals: Vec<f64> = c.ab.iter().map(|x| x.0 * s).collect();
    let size = vals.iter().fold(0f64, |m, v| m.max(v.abs()));
    if size < 5e-13 {
        obs.label("all-zero");
        ensure!(
            matches!(r, Err(NalgebraGEPError::SpuriouslyConverged)),
            "spurious",
            "all eigenvalues are zero, but the result was {:?}",
            r.map(|p| p.value)
        );
        return Ok(());
    }
    if size < 2e-12 {
        obs.label("borderline");
        return Ok(());
    }
    match r {
        Ok(sol) => {
            check_vector(&sol, n)?;
            if let Err(t) = correct_pair(&a, &b, &vals, c.target, &sol, 1e-9) {
                let near = vals.iter().fold(f64::MAX, |s, v| s.min((v - c.target).abs()));
                let value_right = vals.iter().any(|v| (v - sol.value).abs() <= 1e-9 * size) && (sol.value - c.target).abs() <= near + 1e-9 * size + 1e-15 * c.target.abs();
                if value_right && decomposition_pair(&a, &b, c.target, &sol) {
                    obs.label("inexact-vector");
                    return fail("dense-inexact-vector", t);
                }
                return fail("wrong-pair", format!("symmetric quotient, target {}: {}", c.target, t));
            }
            obs.nontrivial_if(n > 1 && !c.rot.is_empty());
            obs.label("solved");
            Ok(())
        }
        Err(e) => fail("refused", format!("solvable problem of size {} was refused: {}", n, e)),
    }
}
fn judge(a: &DMatrix<f64>, b: &DMatrix<f64>, target: f64, tol: f64, obs: &mut Obs) -> Res {
    let n = a.nrows();
    let vals = match gen_eig(a, b) {
        Some((v, _)) => v,
        None => {
            obs.label("reference-failed");
            return Ok(());
        }
    };
    if vals.iter().all(|v| v.abs() < 1e-10) {
        obs.label("all-zero");
        return Ok(());
    }
    match solve(a, b, target)? {
        Ok(sol) => {
            check_vector(&sol, n)?;
            obs.nontrivial();
            match correct_pair(a, b, &vals, target, &sol, tol) {
                Ok(()) => {
                    obs.label("right");
                    Ok(())
                }
                Err(t) => {
                    if decomposition_pair(a, b, target, &sol) {
                        obs.label("recorded-defect");
                        fail("dense-nonsymmetric-quotient", t)
                    } else {
                        fail("wrong-pair", format!("target {}: {}; and it is not the outcome of the recorded defect either", target, t))
                    }
                }
            }
        }
        Err(e) => fail("refused", format!("solvable problem of size {} was refused: {}", n, e)),
    }
}
fn c12_general(c: &EigCase, obs: &mut Obs) -> Res {
    let (a, b) = matrices(c);
    judge(&a, &b, c.target, 1e-8, obs)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AsmCase {
    mesh: MeshCase,
    target: f64,
}
fn asm_strat(_t: Tier) -> BoxedStrategy<AsmCase> {
    (mesh_strategy(2, 1, 2, 2, 3), 0.1..60.0f64).prop_map(|(mesh, target)| AsmCase { mesh, target }).boxed()
}
fn c12_assembled(c: &AsmCase, obs: &mut Obs) -> Res {
    let (mesh, _m) = c.mesh.build(Caps { leaves: 6, level: 2 })?;
    let d = super::dof::make_domain(mesh)?;
    if d.dofs.is_empty() || d.dofs.len() > 80 {
        obs.label("skipped-size");
        return Ok(());
    }
    let g = assemble(&d, None)?;
    judge(&dense(&g.a), &dense(&g.b), c.target, 1e-7, obs)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NormCase {
    v: Vec<f64>,
    scale: i8,
    value: f64,
}
fn norm_strat(_t: Tier) -> BoxedStrategy<NormCase> {
    let x = prop_oneof![1 => Just(0.0f64), 1 => Just(1.0f64), 6 => -2.0..2.0f64];
    let long = (-2.0..2.0f64, -2.0..2.0f64, 40usize..5000, any::<u16>()).prop_map(|(a, b, n, k)| (0..n).map(|i| if i == k as usize % n { a } else { b * (((i * 37 + k as usize) % 101) as f64 / 50.0 - 1.0) }).collect::<Vec<f64>>());
    (prop_oneof![40 => proptest::collection::vec(x, 1..40), 1 => long], prop_oneof![2 => Just(0i8), 1 => -100i8..=100], -5.0..5.0f64)
        .prop_map(|(v, scale, value)| NormCase { v, scale, value })
        .boxed()
}
fn c12_norm(c: &NormCase, obs: &mut Obs) -> Res {
    let s = 10f64.powi(c.scale as i32);
    let v: Vec<f64> = c.v.iter().map(|x| x * s).collect();
    // a vector so small that its squares vanish is taken as zero
    if c.v.iter().all(|x| x.abs() < 1e-20) {
        obs.label("zero");
        return Ok(());
    }
    obs.nontrivial_if(c.v.iter().filter(|x| **x != 0.0).count() > 1);
    check_vector(&EigenPair { value: c.value, vector: v.clone() }, v.len())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    n: usize,
    k: u8,
}
fn big_strat(t: Tier) -> BoxedStrategy<BigCase> {
    let small = t.pick(1000usize..=1000, 995usize..=1000);
    (prop_oneof![1 => small, 3 => 1001usize..1004, 1 => 1004usize..3000], any::<u8>()).prop_map(|(n, k)| BigCase { n, k }).boxed()
}
fn c12_big(c: &BigCase, obs: &mut Obs) -> Res {
    let mut g = GEP::new(c.n);
    let val = |i: usize| 1.0 + ((i + 7 * c.k as usize) % c.n) as f64;
    for i in 0..c.n {
        g.b.insert([i, i], 2.0);
        g.a.insert([i, i], 2.0 * val(i));
    }
    let target = 10.3 + c.k as f64;
    let r = guarded(|| nalgebra_solve_gep(g, target)).or_else(|p| fail("panic", p))?;
    if c.n > 1000 {
        obs.nontrivial();
        obs.label("too-large");
        ensure!(matches!(r, Err(NalgebraGEPError::ProblemTooLarge)), "size-limit", "a problem of size {} gave {:?}", c.n, r.map(|p| p.value));
    } else {
        obs.label("at-limit");
        match r {
            Ok(s) => {
                ensure!((s.value - target.round()).abs() < 1e-8, "wrong-pair", "size {}: value {} for target {}", c.n, s.value, target);
                check_vector(&s, c.n)?;
            }
            Err(e) => return fail("size-limit", format!("a problem of size {} was refused: {}", c.n, e)),
        }
    }
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "symmetric-quotient", rule: "pairs with common eigenvectors, so that the quotient is symmetric, of random size, spectrum (repeated, zero and negative values included), rotation, scale and target; second matrices made indefinite or singular; all-zero spectra; the result must be an eigenpair nearest to the target or the specific error; non-trivial: more than one dimension and not diagonal, or a refused second matrix", strat: commuting_strat, check: c12_commuting, quick: 400000, thorough: 8000000, serial: false }),
            Box::new(Part { name: "general", rule: "random symmetric first and positive definite second matrix, independent rotations; the result must be the nearest eigenpair, or exactly the outcome of the recorded defect; non-trivial: an eigenpair was returned", strat: general_strat, check: c12_general, quick: 200000, thorough: 4000000, serial: false }),
            Box::new(Part { name: "assembled", rule: "matrix pairs assembled from random meshes, otherwise as general", strat: asm_strat, check: c12_assembled, quick: 8000, thorough: 160000, serial: false }),
            Box::new(Part { name: "normalise", rule: "random vectors of any scale; the normalised one is parallel and of unit length, and the value plays no part; non-trivial: more than one entry that is not zero", strat: norm_strat, check: c12_norm, quick: 100000, thorough: 2000000, serial: false }),
            Box::new(Part { name: "size-limit", rule: "diagonal problems around the size limit; non-trivial: above the limit", strat: big_strat, check: c12_big, quick: 16, thorough: 96, serial: false }),
        ],
        assumptions: vec!["eigenvalues are compared to 1e-9 (common eigenvectors) and 1e-8 of the largest one, residuals to 1e-6", "eigenvalues between 5e-13 and 2e-12 count as neither zero nor non-zero"],
    }
}

// ---------------------------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    dim: usize,
    /// position (scaled into the matrix) and bits of the value
    a: Vec<(u32, u32, u64)>,
    b: Vec<(u32, u32, u64)>,
    prefix: String,
    /// a full block of this many rows and columns
    #[serde(default)]
    block: u16,
    /// 0: one matrix, 1: one matrix over an existing longer file, 2: the pair, 3: the pair where there is no tmp directory, 4: the other writer, 5 and 6: one matrix or the second of the pair on a full device
    how: u8,
}
pub fn bits() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => (-100.0..100.0f64).prop_map(|x| x.to_bits()),
        2 => any::<u64>(),
        1 => prop_oneof![Just(0f64), Just(-0f64), Just(f64::INFINITY), Just(f64::NAN), Just(5e-324), Just(f64::MAX), Just(1.0), Just(-1.0)].prop_map(|x| x.to_bits()),
    ]
    .boxed()
}
fn file_strat(t: Tier) -> BoxedStrategy<FileCase> {
    let dim = prop_oneof![6 => 1usize..9, 4 => 1usize..60, 1 => Just(0usize), 1 => 60usize..400, 1 => 65530usize..70000];
    let ent = move |n: usize| {
        proptest::collection::vec(
            (prop_oneof![Just(0u32), any::<u32>(), Just(u32::MAX)], prop_oneof![Just(0u32), any::<u32>(), Just(u32::MAX)], bits()),
            0..n,
        )
    };
    let block = prop_oneof![100 => Just(0u16), 6 => 1u16..40, 1 => 40u16..t.pick(340, 600)];
    (dim, ent(t.pick(60, 200)), ent(40), "[a-zA-Z0-9_]{1,12}", 0u8..7, block)
        .prop_map(|(dim, a, b, prefix, how, block)| FileCase { dim, a, b, prefix, how, block })
        .boxed()
}
fn wide_strat(t: Tier) -> BoxedStrategy<FileCase> {
    let top = t.pick(22, 24);
    let pos = || prop_oneof![Just(0u32), any::<u32>(), any::<u32>(), Just(u32::MAX)];
    let ent = move || proptest::collection::vec((pos(), pos(), bits()), 1..24);
    ((16i32..top, 0.0..1.0f64), ent(), ent(), prop_oneof![Just(0u8), Just(2), Just(4)])
        .prop_map(|((e, f), a, b, how)| FileCase { dim: (2f64.powf(e as f64 + f)) as usize, a, b, prefix: "w".into(), how, block: 0 })
        .boxed()
}
pub type Ent = BTreeMap<(usize, usize), u64>;
pub fn file_matrix(dim: usize, v: &[(u32, u32, u64)]) -> (SparseMatrix, Ent) {
    let mut m = SparseMatrix::new(dim);
    let mut e = Ent::new();
    if dim == 0 {
        return (m, e);
    }
    for (r, c, b) in v {
        let at = |x: u32| (x as u64 * dim as u64 / (u32::MAX as u64 + 1)) as usize;
        let (r, c) = (at(*r), at(*c));
        if e.contains_key(&(r, c)) {
            continue;
        }
        m.insert([r, c], f64::from_bits(*b));
        e.insert((r, c), *b);
        e.insert((c, r), *b);
    }
    (m, e)
}
/// independent reader of PETSc binary matrices
pub fn read_petsc(bytes: &[u8]) -> Result<(usize, BTreeMap<(usize, usize), u64>), String> {
    let w = |k: usize| -> Result<u32, String> {
        bytes.get(4 * k..4 * k + 4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).ok_or_else(|| "file ends early".to_string())
    };
    if w(0)? != 1211216 {
        return Err(format!("magic number is {}", w(0)?));
    }
    let (n, m, nnz) = (w(1)? as usize, w(2)? as usize, w(3)? as usize);
    if n != m {
        return Err(format!("{} rows, {} columns", n, m));
    }
    if bytes.len() != 16 + 4 * n + 12 * nnz {
        return Err(format!("{} bytes for {} rows and {} entries, {} expected", bytes.len(), n, nnz, 16 + 4 * n + 12 * nnz));
    }
    let mut total = 0usize;
    let mut out = BTreeMap::new();
    let vals = &bytes[16 + 4 * n + 4 * nnz..];
    for r in 0..n {
        let cnt = w(4 + r)? as usize;
        if total + cnt > nnz {
            return Err(format!("row lengths add up to more than {}", nnz));
        }
        let mut last: Option<usize> = None;
        for k in total..total + cnt {
            let c = w(4 + n + k)? as usize;
            if c >= n || last.map_or(false, |l| l >= c) {
                return Err(format!("row {}: column {} after {:?}", r, c, last));
            }
            last = Some(c);
            let mut b = [0u8; 8];
            b.copy_from_slice(&vals[8 * k..8 * k + 8]);
            out.insert((r, c), u64::from_be_bytes(b));
        }
        total += cnt;
    }
    if total != nnz {
        return Err(format!("row lengths add up to {}, {} entries", total, nnz));
    }
    Ok((n, out))
}
pub fn compare_file(path: &std::path::Path, dim: usize, e: &BTreeMap<(usize, usize), u64>) -> Res {
    let bytes = match std::fs::read(path) {
        Ok(b) => b,
        Err(x) => return fail("no-file", format!("{:?}: {}", path, x)),
    };
    match read_petsc(&bytes) {
        Ok((n, got)) => {
            ensure!(n == dim, "file-dimension", "the file has dimension {}, the matrix {}", n, dim);
            for (k, v) in e.iter() {
                match got.get(k) {
                    None => return fail("file-missing", format!("entry {:?} is not in the file", k)),
                    // a negative zero is as good as a zero, one NaN as another
                    Some(g) => ensure!(g == v || (g | v) << 1 == 0 || (f64::from_bits(*g).is_nan() && f64::from_bits(*v).is_nan()), "file-value", "entry {:?} has bits {:x} in the file, {:x} in the matrix", k, g, v),
                }
            }
            ensure!(got.len() == e.len(), "file-surplus", "{} entries in the file, {} in the matrix", got.len(), e.len());
            Ok(())
        }
        Err(t) => fail("file-format", t),
    }
}
/// a full block in the last rows and columns
fn add_block(dim: usize, k: u16, m: &mut SparseMatrix, e: &mut Ent) {
    for r in dim.saturating_sub(k as usize)..dim {
        for c in r..dim {
            if !e.contains_key(&(r, c)) {
                let v = ((r * 31 + c * 17) % 1009) as f64 - 0.5;
                m.insert([c, r], v);
                e.insert((r, c), v.to_bits());
                e.insert((c, r), v.to_bits());
            }
        }
    }
}
/// a file that can only hold its first bytes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutCase {
    dim: usize,
    a: Vec<(u32, u32, u64)>,
    b: Vec<(u32, u32, u64)>,
    block: u16,
    pair: bool,
    /// how much of the (larger) file can be written, of 65536
    room: u16,
    /// bytes to add to that
    off: i8,
}
fn cut_strat(_t: Tier) -> BoxedStrategy<CutCase> {
    let dim = prop_oneof![4 => 1usize..60, 2 => 60usize..3000];
    let ent = |n: usize| proptest::collection::vec((any::<u32>(), any::<u32>(), bits()), 0..n);
    let block = prop_oneof![2 => Just(0u16), 2 => 1u16..20, 1 => 20u16..120];
    let room = prop_oneof![3 => any::<u16>(), 1 => Just(u16::MAX), 1 => Just(0)];
    (dim, ent(60), ent(60), block, any::<bool>(), room, -16i8..16)
        .prop_map(|(dim, a, b, block, pair, room, off)| CutCase { dim, a, b, block, pair, room, off })
        .boxed()
}
fn c14_cut(c: &CutCase, obs: &mut Obs) -> Res {
    let (mut a, mut ea) = file_matrix(c.dim, &c.a);
    let (b, eb) = file_matrix(c.dim, &c.b);
    add_block(c.dim, c.block, &mut a, &mut ea);
    let len = |e: &Ent| 16 + 4 * c.dim as u64 + 12 * e.len() as u64;
    let need = if c.pair { len(&ea).max(len(&eb)) } else { len(&ea) };
    let limit = (need as i64 * (c.room as i64 + 1) / 65536 + c.off as i64).max(0) as u64;
    let dir = scratch_path("d");
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    let ds = dir.to_str().unwrap().to_string();
    let w = super::slepc::with_file_limit(limit, || {
        guarded(|| {
            if c.pair {
                GEP { a, b }.print_to_petsc_binary_files(&ds, "m")
            } else {
                a.write_to_petsc_binary_format(format!("{}/tmp/m_a.dat", ds))
            }
        })
    });
    obs.label(if limit >= need { "fits" } else { "cut" });
    obs.nontrivial_if(limit < need);
    let r = match w {
        Ok(Ok(())) if limit < need => fail("no-error", format!("success although only {} of {} bytes can be written", limit, need)),
        Ok(Ok(())) => compare_file(&dir.join("tmp").join("m_a.dat"), c.dim, &ea).and_then(|_| if c.pair { compare_file(&dir.join("tmp").join("m_b.dat"), c.dim, &eb) } else { Ok(()) }),
        Ok(Err(e)) if limit >= need => fail("write-error", e.to_string()),
        Ok(Err(_)) => Ok(()),
        Err(p) => fail("panic", p),
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn c14_check(c: &FileCase, obs: &mut Obs) -> Res {
    let (mut a, mut ea) = file_matrix(c.dim, &c.a);
    let (b, eb) = file_matrix(c.dim, &c.b);
    add_block(c.dim, c.block, &mut a, &mut ea);
    if ea.len() > 1 << 16 {
        obs.label("over-65536-entries");
    }
    obs.label(["one", "one-overwrite", "pair", "pair-no-directory", "other-writer", "one-full-device", "pair-full-device"][c.how as usize]);
    let empty_row = (0..c.dim.min(500)).any(|r| !ea.keys().any(|k| k.0 == r));
    obs.nontrivial_if(ea.keys().any(|k| k.0 != k.1));
    if empty_row {
        obs.label("empty-row");
    }
    let dir = scratch_path("d");
    std::fs::create_dir_all(&dir).unwrap();
    let r = (|| {
        if c.how == 5 {
            return match guarded(|| a.write_to_petsc_binary_format("/dev/full")) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(())) if !std::path::Path::new("/dev/full").exists() => Ok(()),
                Ok(Ok(())) => fail("no-error", "success although the device is full".into()),
                Err(p) => fail("panic", p),
            };
        }
        if c.how < 2 || c.how == 4 {
            let p = dir.join(format!("{}.dat", c.prefix));
            if c.how == 1 {
                std::fs::write(&p, vec![7u8; 64 + 16 * c.dim + 16 * ea.len()]).unwrap();
            }
            let s = p.to_str().unwrap().to_string();
            let w = if c.how == 4 {
                guarded(|| a.write_to_petsc_binary_format(&s))
            } else {
                guarded(|| AIJMatrixBinary::from(a).print_to_petsc_binary_file(&s))
            };
            match w {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail("write-error", e.to_string()),
                Err(p) => return fail("panic", p),
            }
            return compare_file(&p, c.dim, &ea);
        }
        let other = dir.join("tmp").join(format!("{}x_a.dat", c.prefix));
        if c.how == 2 || c.how == 6 {
            std::fs::create_dir_all(dir.join("tmp")).unwrap();
            std::fs::write(&other, b"keep").unwrap();
        }
        if c.how == 6 {
            let l = dir.join("tmp").join(format!("{}_{}.dat", c.prefix, if c.a.len() % 2 == 0 { "a" } else { "b" }));
            std::os::unix::fs::symlink("/dev/full", l).unwrap();
        }
        let ds = dir.to_str().unwrap().to_string();
        let g = GEP { a, b };
        match (guarded(|| g.print_to_petsc_binary_files(&ds, &c.prefix)), c.how) {
            (Ok(Ok(())), 2) => {
                compare_file(&dir.join("tmp").join(format!("{}_a.dat", c.prefix)), c.dim, &ea)?;
                compare_file(&dir.join("tmp").join(format!("{}_b.dat", c.prefix)), c.dim, &eb)?;
                ensure!(std::fs::read(&other).map_or(false, |b| b == b"keep"), "other-file", "another file was changed");
                let n = std::fs::read_dir(dir.join("tmp")).unwrap().count();
                ensure!(n == 3, "surplus-file", "{} files instead of 3 in the directory", n);
                Ok(())
            }
            (Ok(Ok(())), _) => fail("no-error", "success although the directory does not exist or the device is full".into()),
            (Ok(Err(e)), 2) => fail("write-error", e.to_string()),
            (Ok(Err(_)), _) => Ok(()),
            (Err(p), _) => fail("panic", p),
        }
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}
pub fn c14() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "files",
            rule: "random dimension (0 to 70000), sparsity pattern (entries on either side of the diagonal, empty rows, corners) and 64-bit value patterns; single files, files over longer old ones, and the pair of an eigenproblem, read back by an independent reader; non-trivial: an entry off the diagonal",
            strat: file_strat,
            check: c14_check,
            quick: 80000,
            thorough: 1500000,
            serial: false,
        }),
        Box::new(Part {
            name: "wide",
            rule: "dimensions up to 2^22 (thorough: 2^24), few entries, some of them in the corners; non-trivial: an entry off the diagonal",
            strat: wide_strat,
            check: c14_check,
            quick: 48,
            thorough: 1200,
            serial: false,
        }),
        Box::new(Part {
            name: "cut-short",
            rule: "random matrix or pair, full blocks included, where files can only grow to a generated size: an error exactly if that is less than the file needs; non-trivial: it is less",
            strat: cut_strat,
            check: c14_cut,
            quick: 3000,
            thorough: 60000,
            serial: true,
        })],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Insert(u16, u16, i8),
    Group(Vec<(u16, u16, i8)>),
    Consume(Vec<(u16, u16, i8)>),
    /// a position outside: which index, how far
    BadInsert(bool, u16),
    BadGroup(bool, u16),
    BadConsume(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpsCase {
    dim: usize,
    ops: Vec<MOp>,
}
fn ent_strat() -> BoxedStrategy<(u16, u16, i8)> {
    (any::<u16>(), any::<u16>(), any::<i8>()).boxed()
}
fn ops_strat(t: Tier) -> BoxedStrategy<OpsCase> {
    let op = prop_oneof![
        8 => ent_strat().prop_map(|(r, c, v)| MOp::Insert(r, c, v)),
        4 => proptest::collection::vec(ent_strat(), 0..12).prop_map(MOp::Group),
        4 => proptest::collection::vec(ent_strat(), 0..12).prop_map(MOp::Consume),
        1 => proptest::collection::vec(ent_strat(), 12..140).prop_map(MOp::Group),
        1 => proptest::collection::vec(ent_strat(), 12..140).prop_map(MOp::Consume),
        1 => (any::<bool>(), prop_oneof![Just(0u16), any::<u16>()]).prop_map(|(a, b)| MOp::BadInsert(a, b)),
        1 => (any::<bool>(), prop_oneof![Just(0u16), any::<u16>()]).prop_map(|(a, b)| MOp::BadGroup(a, b)),
        1 => prop_oneof![Just(1i8), Just(-1), any::<i8>()].prop_map(MOp::BadConsume),
    ];
    (prop_oneof![6 => 1usize..7, 3 => 1usize..40, 1 => 60000usize..140000, 1 => 140000usize..=u32::MAX as usize], proptest::collection::vec(op, 1..t.pick(14, 30)))
        .prop_map(|(dim, ops)| OpsCase { dim, ops })
        .boxed()
}
fn at(x: u16, dim: usize) -> usize {
    (x as u128 * dim as u128 / 65536) as usize + if x == u16::MAX { dim - 1 - 65535 * dim / 65536 } else { 0 }
}
type Tri = BTreeMap<(usize, usize), f64>;
fn add(m: &mut Tri, r: usize, c: usize, v: f64) {
    *m.entry((r.min(c), r.max(c))).or_insert(0.0) += v;
}
fn same(real: &SparseMatrix, m: &Tri, dim: usize, when: &str) -> Res {
    ensure!(real.dimension == dim, "dimension", "{}: dimension {} instead of {}", when, real.dimension, dim);
    let mut got = Tri::new();
    for ([r, c], v) in real.iter_upper_tri() {
        ensure!(r <= c && c < dim, "triangle", "{}: entry at ({}, {}) in the upper triangle", when, r, c);
        ensure!(got.insert((r, c), v).is_none(), "twice", "{}: ({}, {}) listed twice", when, r, c);
    }
    ensure!(got.len() == m.len() && got.iter().zip(m.iter()).all(|(x, y)| x == y), "entries", "{}: entries {:?}, {:?} expected", when, got, m);
    let n = m.keys().map(|(r, c)| if r == c { 1 } else { 2 }).sum::<usize>();
    ensure!(real.num_entries() == n, "count", "{}: {} entries counted, {} expected", when, real.num_entries(), n);
    Ok(())
}
fn same_dense(d: &DMatrix<f64>, m: &Tri, dim: usize, what: &str) -> Res {
    ensure!(d.nrows() == dim && d.ncols() == dim, "dense-size", "{}: dense form is {} by {}", what, d.nrows(), d.ncols());
    for r in 0..dim {
        for c in 0..dim {
            let e = *m.get(&(r.min(c), r.max(c))).unwrap_or(&0.0);
            ensure!(d[(r, c)] == e, "dense-entry", "{}: dense entry ({}, {}) is {}, {} expected", what, r, c, d[(r, c)], e);
        }
    }
    Ok(())
}
fn c15_ops(c: &OpsCase, obs: &mut Obs) -> Res {
    let dim = c.dim;
    let mut real = SparseMatrix::new(dim);
    let mut m = Tri::new();
    let mut hits = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let when = format!("after operation {}", k);
        match op {
            MOp::Insert(r, cc, v) => {
                let (r, cc, v) = (at(*r, dim), at(*cc, dim), *v as f64 / 8.0);
                hits += m.contains_key(&(r.min(cc), r.max(cc))) as usize;
                add(&mut m, r, cc, v);
                guarded(|| real.insert([r, cc], v)).or_else(|p| fail("panic", p))?;
            }
            MOp::Group(g) => {
                let g: Vec<([usize; 2], f64)> = g.iter().map(|(r, c, v)| ([at(*r, dim), at(*c, dim)], *v as f64 / 8.0)).collect();
                for ([r, c], v) in g.iter() {
                    hits += m.contains_key(&((*r).min(*c), (*r).max(*c))) as usize;
                    add(&mut m, *r, *c, *v);
                }
                guarded(|| real.insert_group(g)).or_else(|p| fail("panic", p))?;
            }
            MOp::Consume(g) => {
                let mut o = SparseMatrix::new(dim);
                for (r, c, v) in g.iter() {
                    let (r, c, v) = (at(*r, dim), at(*c, dim), *v as f64 / 8.0);
                    hits += m.contains_key(&(r.min(c), r.max(c))) as usize;
                    o.insert([r, c], v);
                    add(&mut m, r, c, v);
                }
                guarded(|| real.consume_matrix(&mut o)).or_else(|p| fail("panic", p))?;
                ensure!(o.num_entries() == 0 && o.iter_upper_tri().next().is_none() && o.dimension == dim, "consumed", "{}: the consumed matrix is not empty", when);
            }
            MOp::BadInsert(first, far) => {
                let bad = dim + *far as usize;
                let at = if *first { [bad, 0] } else { [dim - 1, bad] };
                obs.label("outside");
                ensure!(guarded(|| real.insert(at, 1.0)).is_err(), "outside", "insertion at {:?} in dimension {} was accepted", at, dim);
            }
            MOp::BadGroup(first, far) => {
                let bad = dim + *far as usize;
                let at = if *first { [bad, 0] } else { [dim - 1, bad] };
                obs.label("outside-group");
                let mut o = real.clone();
                ensure!(guarded(|| o.insert_group(vec![(at, 1.0)])).is_err(), "outside", "group insertion at {:?} in dimension {} was accepted", at, dim);
            }
            MOp::BadConsume(by) => {
                let other = (dim as i64 + *by as i64).max(1) as usize;
                if other != dim {
                    obs.label("other-dimension");
                    let mut o = SparseMatrix::new(other);
                    if by % 2 == 0 {
                        o.insert([0, other - 1], 1.0);
                    }
                    ensure!(guarded(|| real.consume_matrix(&mut o)).is_err(), "other-dimension", "dimension {} was added to dimension {}", other, dim);
                }
            }
        }
        same(&real, &m, dim, &when)?;
    }
    obs.nontrivial_if(hits > 0 && m.len() > 1);
    if dim <= 400 {
        let d: DMatrix<f64> = guarded(|| real.clone().into()).or_else(|p| fail("panic", p))?;
        same_dense(&d, &m, dim, "single")?;
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParCase {
    dim: usize,
    threads: usize,
    seed: u64,
    mats: usize,
    start: bool,
}
fn par_strat(t: Tier) -> BoxedStrategy<ParCase> {
    (1usize..30, prop_oneof![9 => 1usize..9, 1 => 9usize..40], any::<u64>(), prop_oneof![6 => 0usize..t.pick(60, 300), 1 => 0usize..t.pick(3000, 12000)], any::<bool>())
        .prop_map(|(dim, threads, seed, mats, start)| ParCase { dim, threads, seed, mats, start })
        .boxed()
}
fn c15_par(c: &ParCase, obs: &mut Obs) -> Res {
    let mut s = c.seed;
    let mut next = move |n: usize| lcg(&mut s) as usize % n;
    let (mut ma, mut mb) = (Tri::new(), Tri::new());
    let mut items = Vec::new();
    let mut gep = GEP::new(c.dim);
    for k in 0..c.mats {
        let mut p = [SparseMatrix::new(c.dim), SparseMatrix::new(c.dim)];
        for w in 0..2 {
            for _ in 0..next(6) {
                let (r, cc, v) = (next(c.dim), next(c.dim), next(64) as f64 / 8.0 - 4.0);
                p[w].insert([r, cc], v);
                add(if w == 0 { &mut ma } else { &mut mb }, r, cc, v);
            }
        }
        if c.start && k == 0 {
            let [mut a, mut b] = p;
            gep.a.consume_matrix(&mut a);
            gep.b.consume_matrix(&mut b);
        } else {
            items.push(p);
        }
    }
    obs.nontrivial_if(c.mats > 2 && c.threads > 1);
    obs.add("matrices", c.mats as u64);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap();
    guarded(|| pool.install(|| gep.par_extend(items.into_par_iter()))).or_else(|p| fail("panic", p))?;
    same(&gep.a, &ma, c.dim, "first matrix")?;
    same(&gep.b, &mb, c.dim, "second matrix")?;
    let [a, b] = guarded(|| gep.to_nalgebra_dense_mats()).or_else(|p| fail("panic", p))?;
    same_dense(&a, &ma, c.dim, "first")?;
    same_dense(&b, &mb, c.dim, "second")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizeCase {
    over: i64,
}
fn size_strat(_t: Tier) -> BoxedStrategy<SizeCase> {
    prop_oneof![-3i64..4, any::<i32>().prop_map(|x| x as i64)].prop_map(|over| SizeCase { over }).boxed()
}
fn c15_size(c: &SizeCase, obs: &mut Obs) -> Res {
    let n = (u32::MAX as i64 + c.over).max(1) as usize;
    let r = guarded(|| SparseMatrix::new(n));
    obs.nontrivial_if(c.over.abs() < 4);
    if n > u32::MAX as usize {
        ensure!(r.is_err(), "too-large", "a matrix of dimension {} was made", n);
    } else {
        match r {
            Ok(mut m) => {
                let mut t = Tri::new();
                for (r, cc) in [(n - 1, 0), (n - 1, n - 1), (n / 2, n - 1)] {
                    guarded(|| m.insert([r, cc], 0.5)).or_else(|p| fail("panic", p))?;
                    add(&mut t, r, cc, 0.5);
                }
                same(&m, &t, n, "large matrix")?;
            }
            Err(p) => return fail("refused", format!("dimension {} was refused: {}", n, p)),
        }
    }
    Ok(())
}
pub fn c15() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "operations", rule: "random operation sequences (insert, group, consume, positions outside, other dimensions) against a dense model with exact sums, compared after every step; non-trivial: some position was hit twice and there are several positions", strat: ops_strat, check: c15_ops, quick: 400000, thorough: 8000000, serial: false }),
            Box::new(Part { name: "parallel", rule: "random lists of matrix pairs accumulated on a pool of 1 to 39 threads, into an empty or a filled eigenproblem; non-trivial: more than two pairs and more than one thread", strat: par_strat, check: c15_par, quick: 20000, thorough: 400000, serial: false }),
            Box::new(Part { name: "limits", rule: "dimensions around the largest one; non-trivial: within 3 of it", strat: size_strat, check: c15_size, quick: 400, thorough: 4000, serial: false }),
        ],
        assumptions: vec!["values are eighths, so that sums are exact in any order"],
    }
}
