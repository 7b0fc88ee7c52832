//! C23, C24: queries by id, verdicts on ill-posed problems.
use super::dof::make_domain;
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::{MeshAccessError, MIN_EDGE_LENGTH};
use fem_2d::fem_domain::basis::{HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn as_set(what: &str, id: usize, real: &[usize], exp: BTreeSet<usize>) -> Res {
    let s: BTreeSet<usize> = real.iter().copied().collect();
    ensure!(s == exp && s.len() == real.len(), "query-list", "{} {}: {:?}, {:?} expected", what, id, real, exp);
    Ok(())
}

/// element queries against the reference tree
pub fn elem_queries(m: &Model, mesh: &Mesh) -> Res {
    for (ci, c) in m.cells.iter().enumerate() {
        let e = c.eid;
        let anc: Vec<usize> = m.ancestors(ci).iter().map(|a| m.cells[*a].eid).collect();
        let desc: BTreeSet<usize> = m.descendants(ci).iter().map(|a| m.cells[*a].eid).collect();
        for incl in [false, true] {
            let mut ea = anc.clone();
            let mut ed = desc.clone();
            if incl {
                ea.insert(0, e);
                ed.insert(e);
            }
            match mesh.ancestor_elems(e, incl) {
                Ok(r) => ensure!(r == ea, "ancestors", "ancestors of element {} (with itself: {}): {:?}, {:?} expected", e, incl, r, ea),
                Err(x) => return fail("ancestors", format!("ancestors of element {}: {}", e, x)),
            }
            match mesh.descendant_elems(e, incl) {
                Ok(r) => as_set(&format!("descendants (with itself: {}) of element", incl), e, &r, ed)?,
                Err(x) => return fail("descendants", format!("descendants of element {}: {}", e, x)),
            }
        }
    }
    Ok(())
}
/// edge queries against the reference segments
pub fn edge_queries(m: &Model, mesh: &Mesh) -> Res {
    let mut seg_of: BTreeMap<usize, Seg> = BTreeMap::new();
    let mut edge_of: BTreeMap<Seg, usize> = BTreeMap::new();
    for (ci, c) in m.cells.iter().enumerate() {
        for (i, s) in m.sides(ci).iter().enumerate() {
            seg_of.insert(mesh.elems[c.eid].edges[i], *s);
            edge_of.insert(*s, mesh.elems[c.eid].edges[i]);
        }
    }
    let tol = m.tol();
    for e in mesh.edges.iter() {
        let s = match seg_of.get(&e.id) {
            Some(s) => *s,
            None => return fail("edge-orphan", format!("edge {} is no side of an element", e.id)),
        };
        let ends = m.seg_ends(s);
        match mesh.edge_points(e.id) {
            Ok(p) => {
                for i in 0..2 {
                    ensure!((p[i].x - ends[i][0]).abs() <= tol && (p[i].y - ends[i][1]).abs() <= tol, "edge-points", "end {} of edge {} is {}, {:?} expected", i, e.id, p[i], ends[i]);
                }
            }
            Err(x) => return fail("edge-points", format!("points of edge {}: {}", e.id, x)),
        }
        // all edges obtained by halving
        let mut desc = BTreeSet::new();
        let mut stack = vec![s];
        while let Some(t) = stack.pop() {
            if let Some([a, b]) = Model::halves(t) {
                if let (Some(x), Some(y)) = (edge_of.get(&a), edge_of.get(&b)) {
                    desc.insert(*x);
                    desc.insert(*y);
                    stack.push(a);
                    stack.push(b);
                }
            }
        }
        for incl in [false, true] {
            let mut d = desc.clone();
            if incl {
                d.insert(e.id);
            }
            match mesh.descendant_edges(e.id, incl) {
                Ok(r) => as_set(&format!("descendants (with itself: {}) of edge", incl), e.id, &r, d)?,
                Err(x) => return fail("descendants", format!("descendants of edge {}: {}", e.id, x)),
            }
        }
    }
    Ok(())
}

const BEYOND: [usize; 7] = [0, 1, 2, 7, 1000, 1 << 40, usize::MAX];
fn beyond(n: usize) -> Vec<usize> {
    BEYOND.iter().map(|b| b.saturating_add(n)).collect()
}
fn no_elem<T>(what: &str, id: usize, f: impl FnOnce() -> Result<T, MeshAccessError>) -> Res {
    match guarded(f) {
        Ok(Err(MeshAccessError::ElemDoesNotExist(x))) if x == id => Ok(()),
        Ok(Err(e)) => fail("unknown-elem", format!("{} of the missing element {}: {:?}", what, id, e)),
        Ok(Ok(_)) => fail("unknown-elem", format!("{} of the missing element {} is answered", what, id)),
        Err(p) => fail("unknown-elem", format!("{} of the missing element {} panics: {}", what, id, p)),
    }
}
fn no_edge<T>(what: &str, id: usize, f: impl FnOnce() -> Result<T, MeshAccessError>) -> Res {
    match guarded(f) {
        Ok(Err(MeshAccessError::EdgeDoesNotExist(x))) if x == id => Ok(()),
        Ok(Err(e)) => fail("unknown-edge", format!("{} of the missing edge {}: {:?}", what, id, e)),
        Ok(Ok(_)) => fail("unknown-edge", format!("{} of the missing edge {} is answered", what, id)),
        Err(p) => fail("unknown-edge", format!("{} of the missing edge {} panics: {}", what, id, p)),
    }
}
pub fn unknown_mesh(mesh: &Mesh) -> Res {
    for id in beyond(mesh.elems.len()) {
        no_elem("elem_points", id, || mesh.elem_points(id))?;
        no_elem("elem_diag_points", id, || mesh.elem_diag_points(id))?;
        for incl in [false, true] {
            no_elem("descendant_elems", id, || mesh.descendant_elems(id, incl))?;
            no_elem("ancestor_elems", id, || mesh.ancestor_elems(id, incl))?;
        }
        no_elem("elem_is_h_refineable", id, || mesh.elem_is_h_refineable(id))?;
        no_elem("elem_p_refinement_window", id, || mesh.elem_p_refinement_window(id))?;
    }
    for id in beyond(mesh.edges.len()) {
        no_edge("edge_points", id, || mesh.edge_points(id))?;
        for incl in [false, true] {
            no_edge("descendant_edges", id, || mesh.descendant_edges(id, incl))?;
        }
    }
    Ok(())
}

fn c23_check(c: &MeshCase, obs: &mut Obs) -> Res {
    c23_caps(c, obs, Caps { leaves: 24, level: 5 })
}
fn c23_caps(c: &MeshCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mut mesh, mut m) = c.base.build()?;
    m.sync(&mesh)?;
    for k in 0..=c.ops.len() {
        if k > 0 {
            step(&mut mesh, &mut m, &c.ops[k - 1], caps)?;
        }
        elem_queries(&m, &mesh)?;
        edge_queries(&m, &mesh)?;
        m.check_geometry(&mesh)?;
        unknown_mesh(&mesh)?;
    }
    set_orders(&mut mesh, &mut m, &c.ords)?;
    describe(&m, obs);
    for (ci, c) in m.cells.iter().enumerate() {
        // elements with a side at or below the minimum length count as not refineable
        let q = m.rect(ci);
        let short = (q[1] - q[0]).min(q[3] - q[2]) / MIN_EDGE_LENGTH;
        match mesh.elem_is_h_refineable(c.eid) {
            Ok(_) if (short - 1.0).abs() < 1e-6 => (),
            Ok(b) => ensure!(b == (c.kids.is_empty() && short > 1.0), "refineable", "element {} (refined: {}) is refineable: {}", c.eid, !c.kids.is_empty(), b),
            Err(x) => return fail("refineable", format!("element {}: {}", c.eid, x)),
        }
        match mesh.elem_p_refinement_window(c.eid) {
            Ok(w) => {
                let ex = c.ord.map(|o| [1 - o as i8, 20 - o as i8]);
                ensure!(w == ex, "window", "element {} with orders {:?} has window {:?}, {:?} expected", c.eid, c.ord, w, ex);
            }
            Err(x) => return fail("window", format!("element {}: {}", c.eid, x)),
        }
    }
    // activity queries on edges
    let d = make_domain(mesh)?;
    m.check_activation(&d.mesh)?;
    let by_eid = m.by_eid();
    ensure!(d.elems().map(|e| e.id).eq(0..d.mesh.elems.len()), "iter", "the element iterator does not give every element in order");
    ensure!(d.edges().map(|e| e.id).eq(0..d.mesh.edges.len()), "iter", "the edge iterator does not give every edge in order");
    ensure!(d.nodes().map(|e| e.id).eq(0..d.mesh.nodes.len()), "iter", "the node iterator does not give every node in order");
    // functions by element, from the degrees of freedom alone
    let mut by_elem: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (k, dof) in d.dofs.iter().enumerate() {
        for a in dof.get_basis_specs() {
            let bs = match guarded(|| d.get_basis_spec(a)) {
                Ok(Ok(b)) => b,
                Ok(Err(e)) => return fail("basis-spec", format!("basis function {} of degree of freedom {}: {}", a, k, e)),
                Err(p) => return fail("basis-spec", format!("basis function {} of degree of freedom {} panics: {}", a, k, p)),
            };
            ensure!(bs.dof_id == Some(k) && bs.elem_id == a.elem_id && bs.elem_idx == Some(a.elem_idx), "basis-spec", "the basis function at {} says degree of freedom {:?}, element {}, index {:?}", a, bs.dof_id, bs.elem_id, bs.elem_idx);
            let fresh = by_elem.entry(a.elem_id).or_default().insert(a.elem_idx);
            ensure!(fresh, "basis-spec", "two degrees of freedom name the basis function at {}", a);
        }
    }
    for e in 0..d.mesh.elems.len() {
        let n = by_elem.get(&e).map_or(0, |s| s.len());
        let local = match d.local_basis_specs(e) {
            Ok(l) => l,
            Err(x) => return fail("local", format!("functions of element {}: {}", e, x)),
        };
        ensure!(local.len() == n, "local", "element {} lists {} functions, degrees of freedom name {}", e, local.len(), n);
        for (k, bs) in local.iter().enumerate() {
            ensure!(bs.elem_id == e && bs.elem_idx == Some(k), "local", "function {} of element {} is {:?}", k, e, bs);
            ensure!(bs.dir != BasisDir::W, "local", "function {} of element {} points out of the plane", k, e);
            match d.get_basis_spec(BSAddress::new(e, k)) {
                Ok(b) => ensure!(std::ptr::eq(b, bs) || (b.id == bs.id && b.elem_id == e), "basis-spec", "address ({}, {}) gives {:?}", e, k, b),
                Err(x) => return fail("basis-spec", format!("address ({}, {}): {}", e, k, x)),
            }
        }
        for k in beyond(local.len()) {
            match guarded(|| d.get_basis_spec(BSAddress::new(e, k)).is_err()) {
                Ok(true) => {}
                Ok(false) => return fail("unknown-address", format!("the missing address ({}, {}) is answered", e, k)),
                Err(p) => return fail("unknown-address", format!("the missing address ({}, {}) panics: {}", e, k, p)),
            }
        }
        let c = by_eid[&e];
        let anc: BTreeSet<usize> = m.ancestors(c).iter().map(|a| m.cells[*a].eid).collect();
        let desc: BTreeSet<usize> = m.descendants(c).iter().map(|a| m.cells[*a].eid).collect();
        for (what, list, exp) in [("ancestor", d.ancestor_basis_specs(e), anc), ("descendant", d.descendant_basis_specs(e), desc)] {
            let list = match list {
                Ok(l) => l,
                Err(x) => return fail("relatives", format!("{} functions of element {}: {}", what, e, x)),
            };
            let idl: Vec<usize> = list.iter().map(|(i, _)| *i).collect();
            as_set(&format!("{}s with functions of element", what), e, &idl, exp)?;
            for (i, l) in list {
                let own = &d.basis_specs[i];
                ensure!(
                    l.len() == own.len() && l.iter().zip(own.iter()).all(|(a, b)| a.id == b.id && a.elem_id == i),
                    "relatives",
                    "{} functions of element {}: the list for element {} is not that element's own",
                    what, e, i
                );
            }
        }
    }
    for id in beyond(d.mesh.elems.len()) {
        no_elem("local_basis_specs", id, || d.local_basis_specs(id).map(|_| ()))?;
        no_elem("descendant_basis_specs", id, || d.descendant_basis_specs(id).map(|_| ()))?;
        no_elem("ancestor_basis_specs", id, || d.ancestor_basis_specs(id).map(|_| ()))?;
        match guarded(|| d.get_basis_spec(BSAddress::new(id, 0)).err()) {
            Ok(Some(msg)) => ensure!(msg.contains(&id.to_string()), "unknown-address", "the error for missing element {} is {:?}", id, msg),
            Ok(None) => return fail("unknown-address", format!("a function of the missing element {} is answered", id)),
            Err(p) => return fail("unknown-address", format!("a function of the missing element {} panics: {}", id, p)),
        }
    }
    unknown_mesh(&d.mesh)?;
    obs.add("elements", m.cells.len() as u64);
    obs.nontrivial_if(m.cells.len() > m.n_base);
    Ok(())
}
pub fn c23() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "mesh",
                rule: "random mesh and history; after every operation, and on the domain built at the end, every query is asked for every id and for seven ids beyond the end of its list; non-trivial: at least one element was refined",
                strat: |t| mesh_strategy(3, 3, t.pick(4, 5), 3, 4),
                check: c23_check, quick: 1500, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "deep",
                rule: "as 'mesh', on at most 2x2 cells, with histories that keep refining the newest elements",
                strat: |t| (base_strategy(2, 2), deep_strategy(t.pick(7, 9)), proptest::collection::vec([1u8..=4, 1u8..=4], 1..6)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed(),
                check: c23_check, quick: 800, thorough: 20000, serial: false,
            }),
            Box::new(Part {
                name: "ladder",
                rule: "as 'mesh', after up to 13 rounds of refining every element around one corner or point of a side (levels up to 15)",
                strat: |t| (base_strategy(2, 2), ladder_strategy(t.pick(11, 13)), proptest::collection::vec([1u8..=4, 1u8..=4], 1..6)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed(),
                check: |c, o| c23_caps(c, o, Caps { leaves: 70, level: 15 }), quick: 60, thorough: 2000, serial: false,
            }),
            Box::new(Part {
                name: "chain",
                rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31)",
                strat: |_| chain_mesh(3),
                check: |c, o| c23_caps(c, o, CHAIN_CAPS), quick: 20, thorough: 800, serial: false,
            }),
            Box::new(Part {
                name: "orders",
                rule: "as 'mesh', on at most four unrefined elements with orders up to 20",
                strat: |_| (base_strategy(2, 1), hops_strategy(2, 1), proptest::collection::vec(prop_oneof![2 => [1u8..=20, 1u8..=20], 1 => [19u8..=20, 1u8..=3], 1 => [1u8..=3, 19u8..=20]], 1..5)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }).boxed(),
                check: |c, o| c23_caps(c, o, Caps { leaves: 4, level: 2 }), quick: 200, thorough: 5000, serial: false,
            }),
            Box::new(Part {
                name: "huge",
                rule: "as 'mesh', on 24x24 to 59x59 base elements with up to 5000 unrefined elements",
                strat: |_| huge_mesh(24..60, 2, 2),
                check: |c, o| c23_caps(c, o, HUGE_CAPS), quick: 2, thorough: 100, serial: false,
            }),
        ],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------------------------
/// an integral that must never be made
struct Never;
impl HierCurlIntegral for Never {
    fn with_weights(_: &[f64], _: &[f64]) -> Self {
        panic!("work was started")
    }
    fn integrate<BSpace: HierCurlBasisFnSpace>(
        &self,
        _: BasisDir,
        _: BasisDir,
        _: [usize; 2],
        _: [usize; 2],
        _: &HierCurlBasisFn<BSpace>,
        _: &HierCurlBasisFn<BSpace>,
        _: &Materials,
    ) -> IntegralResult {
        panic!("work was started")
    }
    fn integrate_by_parts<BSpace: HierCurlBasisFnSpace>(
        &self,
        _: BasisDir,
        _: BasisDir,
        _: [usize; 2],
        _: [usize; 2],
        _: &HierCurlBasisFn<BSpace>,
        _: &HierCurlBasisFn<BSpace>,
        _: &Materials,
    ) -> IntegralResult {
        panic!("work was started")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PosedCase {
    /// 0-3: generated mesh; 4: blank domain; 5: unit domain; 6: empty mesh
    pub kind: u8,
    pub mesh: MeshCase,
    /// 0-2: H(curl); 3: H(div); 4: none
    pub cc: u8,
    /// quadrature: None = default; values taken as they are
    pub glq: Option<[u8; 2]>,
}
fn posed_strat(t: Tier) -> BoxedStrategy<PosedCase> {
    let g = prop_oneof![3 => 0u8..8, 3 => 4u8..12, 1 => Just(3u8), 1 => Just(4u8), 1 => 12u8..40];
    (
        0u8..8,
        prop_oneof![
            2 => mesh_strategy(2, 2, t.pick(2, 3), 2, 4),
            2 => mesh_strategy(2, 2, 1, 1, 1),
        ],
        0u8..6,
        prop_oneof![1 => Just(None), 5 => [g.clone(), g].prop_map(Some)],
    )
        .prop_map(|(kind, mesh, cc, glq)| PosedCase { kind, mesh, cc, glq })
        .boxed()
}
fn c24_check(c: &PosedCase, obs: &mut Obs) -> Res {
    use ContinuityCondition as CC;
    let cc = match c.cc {
        3 => CC::HDiv,
        4 => CC::Discontinuous,
        _ => CC::HCurl,
    };
    let d = match c.kind {
        4 => match guarded(|| Domain::blank(cc)) {
            Ok(d) => d,
            Err(p) => return fail("blank", format!("making a blank domain panicked: {}", p)),
        },
        5 => {
            let d = match guarded(|| Domain::unit(CC::HCurl)) {
                Ok(d) => d,
                Err(p) => return fail("unit", format!("making the unit domain panicked: {}", p)),
            };
            Domain { cc, ..d }
        }
        6 => Domain { cc, ..make_domain(Mesh::blank())? },
        _ => {
            let (mesh, _) = c.mesh.build(Caps { leaves: 10, level: 3 })?;
            Domain { cc, ..make_domain(mesh)? }
        }
    };
    let n = d.dofs.len();
    if matches!(c.kind, 4 | 6) {
        ensure!(n == 0 && d.mesh.elems.is_empty() && d.basis_specs.is_empty(), "blank", "a blank domain has {} degrees of freedom, {} elements", n, d.mesh.elems.len());
    }
    ensure!(d.cc == cc, "cc", "the domain has another continuity condition than asked for");
    if n > 260 {
        return Ok(());
    }
    let glq = c.glq.map(|g| [g[0] as usize, g[1] as usize]);
    let wrong_cc = cc != CC::HCurl;
    let empty = n == 0;
    let few = glq.map_or(false, |g| g[0] < 4 || g[1] < 4);
    let verdict = |r: &Result<GEP, GalerkinSamplingError>| -> Res {
        match r {
            Ok(g) => {
                ensure!(!wrong_cc && !empty && !few, "accepted", "accepted: wrong continuity: {}, no degrees of freedom: {}, too few points: {} ({:?})", wrong_cc, empty, few, glq);
                ensure!(g.a.dimension == n && g.b.dimension == n, "dimension", "matrices of dimension {} and {} for {} degrees of freedom", g.a.dimension, g.b.dimension, n);
                Ok(())
            }
            Err(GalerkinSamplingError::WrongContinuityCondition(req, got)) => {
                ensure!(wrong_cc, "refused", "refused for its continuity condition, which is right");
                ensure!(*req == CC::HCurl && *got == cc, "cc-args", "the error says required {}, received {}; the domain has {}", req, got, cc);
                Ok(())
            }
            Err(GalerkinSamplingError::EmptyDOFSet) => {
                ensure!(empty, "refused", "refused for having no degrees of freedom, it has {}", n);
                Ok(())
            }
            Err(GalerkinSamplingError::InvalidGLQSettings) => {
                ensure!(few, "refused", "refused for too few quadrature points: {:?}", glq);
                Ok(())
            }
        }
    };
    if wrong_cc || empty || few {
        match guarded(|| galerkin_sample_gep_hcurl::<HierPoly, Never, Never>(&d, glq)) {
            Ok(r) => verdict(&r)?,
            Err(p) => return fail("refusal-panic", format!("an ill-posed problem (wrong continuity: {}, no degrees of freedom: {}, quadrature {:?}) panics: {}", wrong_cc, empty, glq, p)),
        }
    }
    match guarded(|| galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&d, glq)) {
        Ok(r) => {
            verdict(&r)?;
            if let Ok(g) = r {
                // every degree of freedom has energy
                let diag: BTreeMap<usize, f64> = g.b.iter_upper_tri().filter(|([i, j], _)| i == j).map(|([i, _], v)| (i, v)).collect();
                ensure!((0..n).all(|i| diag.get(&i).map_or(false, |v| v.is_finite() && *v > 0.0)), "empty-row", "a degree of freedom has no diagonal entry in the mass matrix");
            }
        }
        Err(p) => return fail("assembly-panic", format!("assembly (wrong continuity: {}, degrees of freedom: {}, quadrature {:?}) panics: {}", wrong_cc, n, glq, p)),
    }
    for (l, b) in [("wrong-continuity", wrong_cc), ("no-dofs", empty), ("few-points", few), ("well-posed", !(wrong_cc || empty || few))] {
        if b {
            obs.label(l);
        }
    }
    obs.nontrivial_if(c.kind != 4);
    Ok(())
}

/// the blank and unit meshes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DefCase {
    pub ops: Vec<HOp>,
    pub ord: [u8; 2],
}
fn c24_defaults(c: &DefCase, obs: &mut Obs) -> Res {
    let b = Mesh::blank();
    ensure!(b.elements.is_empty() && b.elems.is_empty() && b.nodes.is_empty() && b.edges.is_empty(), "blank", "the blank mesh is not empty");
    ensure!(b.max_expansion_orders() == [0, 0], "blank", "the blank mesh has orders {:?}", b.max_expansion_orders());
    unknown_mesh(&b)?;
    let u = Mesh::unit();
    ensure!(u.elements.len() == 1 && u.elems.len() == 1 && u.nodes.len() == 4 && u.edges.len() == 4, "unit", "the unit mesh has {} elements, {} nodes, {} edges", u.elems.len(), u.nodes.len(), u.edges.len());
    let o = &u.elems[0].poly_orders;
    ensure!(o.ni == 1 && o.nj == 1, "unit", "the unit mesh has orders {:?}", o);
    // it behaves as the same mesh loaded from a file
    let base = BaseCase { nx: 1, ny: 1, gx: vec![2], gy: vec![2], ox: 1, oy: 1, scale: 0, mask: 0, mats: vec![], salt: 0, orphans: 0, unit: false, jit: 0 };
    let caps = Caps { leaves: 16, level: 4 };
    let unit = MeshCase { base: BaseCase { unit: true, ..base.clone() }, ops: c.ops.clone(), ords: vec![c.ord] };
    let file = MeshCase { base, ops: c.ops.clone(), ords: vec![c.ord] };
    let (mu, m) = unit.build(caps)?;
    let (mf, _) = file.build(caps)?;
    m.check_geometry(&mu)?;
    m.check_topology(&mu)?;
    m.check_incidence(&mu)?;
    let (mut mu, mut mf) = (mu, mf);
    if c.ops.is_empty() {
        mu.global_h_refinement(HRef::T);
        mf.global_h_refinement(HRef::T);
    }
    let (du, df) = (make_domain(mu)?, make_domain(mf)?);
    ensure!(du.dofs.len() == df.dofs.len(), "unit", "the unit mesh has {} degrees of freedom, the same mesh from a file {}", du.dofs.len(), df.dofs.len());
    ensure!(du.mesh.elems.len() == df.mesh.elems.len() && du.mesh.edges.len() == df.mesh.edges.len() && du.mesh.nodes.len() == df.mesh.nodes.len(), "unit", "the unit mesh refines differently from the same mesh from a file");
    if !du.dofs.is_empty() && du.dofs.len() < 150 {
        let (a, b) = (super::matrix::assemble(&du, None)?, super::matrix::assemble(&df, None)?);
        let (mut p, mut q): (Vec<f64>, Vec<f64>) = ((0..du.dofs.len()).map(|i| super::matrix::dense(&a.a)[(i, i)]).collect(), (0..df.dofs.len()).map(|i| super::matrix::dense(&b.a)[(i, i)]).collect());
        p.sort_by(|x, y| x.partial_cmp(y).unwrap());
        q.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for (x, y) in p.iter().zip(q.iter()) {
            ensure!((x - y).abs() <= 1e-9 * x.abs().max(y.abs()), "unit", "diagonal entries {} and {} of the unit mesh and the same mesh from a file", x, y);
        }
    }
    obs.nontrivial_if(!c.ops.is_empty());
    Ok(())
}
pub fn c24() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "verdict",
                rule: "random domain (refined mesh, blank, unit, empty mesh), each continuity condition, and default or given numbers of quadrature points on both sides of the limit; the error must be one whose cause is present, integration must not have begun, and well-posed problems must be accepted; non-trivial: the domain is not the blank one",
                strat: posed_strat, check: c24_check, quick: 3000, thorough: 80000, serial: false,
            }),
            Box::new(Part {
                name: "defaults",
                rule: "the blank mesh is empty and answers no id; the unit mesh under a random refinement history is compared with the reference and with the same mesh loaded from a file; non-trivial: at least one operation",
                strat: |t| (hops_strategy(t.pick(4, 5), 3), [1u8..=4, 1u8..=4]).prop_map(|(ops, ord)| DefCase { ops, ord }).boxed(),
                check: c24_defaults, quick: 600, thorough: 15000, serial: false,
            }),
        ],
        assumptions: vec!["when several causes are present any of their errors is accepted"],
    }
}
