//! C01 - C05: mesh structure under refinement histories.
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const HIST: &str = "random base grid (1-4 x 1-3 cells, holes, spacings, origins, scales, materials, renumbered nodes and elements, unused nodes, or the built-in unit mesh) and a random history of refinement calls through all four interfaces; non-trivial: at least one refinement was carried out";
pub const DEEP: &str = "as 'history', on at most 2x2 cells, where each call refines one of the newest elements (levels up to 9); non-trivial: level 3 or deeper was reached";

fn hist_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    mesh_strategy(4, 3, t.pick(5, 7), 4, 1)
}
fn deep_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(2, 2), deep_strategy(t.pick(9, 12)))
        .prop_map(|(base, ops)| MeshCase { base, ops, ords: vec![] })
        .boxed()
}
fn ladder_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(2, 2), ladder_strategy(t.pick(14, 18)))
        .prop_map(|(base, ops)| MeshCase { base, ops, ords: vec![] })
        .boxed()
}
pub const LADDER: &str = "as 'history', on at most 2x2 cells, where each call refines every element around one corner or one point of a side (levels up to 15, up to 120 elements); non-trivial: level 3 or deeper was reached";
fn large_strat(t: Tier) -> BoxedStrategy<MeshCase> {
    large_strategy(20, t.pick(8, 10), 8, 1)
}
pub const LARGE: &str = "as 'history', on up to 20x20 base elements, or with up to 500 unrefined ones; non-trivial as 'history'";
pub const CHAIN: &str = "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31, up to 150 elements); non-trivial as 'ladder'";
pub const HUGE: &str = "as 'history', on 24x24 to 59x59 base elements with up to 5000 unrefined elements; non-trivial as 'history'";
pub const GIANT: &str = "as 'huge', on about 190x190 base elements (more than 65536 edges)";
const BCAPS: Caps = Caps { leaves: 500, level: 8 };
const LCAPS: Caps = Caps { leaves: 120, level: 15 };
const HCAPS: Caps = Caps { leaves: 60, level: 6 };
const DCAPS: Caps = Caps { leaves: 60, level: 9 };

/// run the history, with a check after the load and after every call
fn walk(c: &MeshCase, caps: Caps, obs: &mut Obs, chk: &dyn Fn(&Model, &Mesh) -> Res) -> Result<(Mesh, Model), Fail> {
    let (mut mesh, mut m) = c.base.build()?;
    m.sync(&mesh)?;
    chk(&m, &mesh)?;
    for op in c.ops.iter() {
        step(&mut mesh, &mut m, op, caps)?;
        chk(&m, &mesh)?;
    }
    describe(&m, obs);
    Ok((mesh, m))
}
fn geo(m: &Model, mesh: &Mesh) -> Res {
    m.check_geometry(mesh)?;
    super::queries::elem_queries(m, mesh)
}
fn topo(m: &Model, mesh: &Mesh) -> Res {
    m.check_topology(mesh)?;
    m.check_incidence(mesh)?;
    super::queries::edge_queries(m, mesh)
}
fn act(m: &Model, mesh: &Mesh) -> Res {
    m.check_activation(mesh)
}
fn hist_with(c: &MeshCase, obs: &mut Obs, caps: Caps, chk: &dyn Fn(&Model, &Mesh) -> Res, deep: bool) -> Result<(Mesh, Model), Fail> {
    let (mesh, m) = walk(c, caps, obs, chk)?;
    let l = m.max_level();
    obs.nontrivial_if(if deep { l[0].max(l[1]) >= 3 } else { m.cells.len() > m.n_base });
    Ok((mesh, m))
}

pub fn c01() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "history", rule: HIST, strat: hist_strat, check: |c, o| hist_with(c, o, HCAPS, &geo, false).map(|_| ()), quick: 1500, thorough: 40000, serial: false }),
            Box::new(Part { name: "deep", rule: DEEP, strat: deep_strat, check: |c, o| hist_with(c, o, DCAPS, &geo, true).map(|_| ()), quick: 800, thorough: 20000, serial: false }),
            Box::new(Part { name: "ladder", rule: LADDER, strat: ladder_strat, check: |c, o| hist_with(c, o, LCAPS, &geo, true).map(|_| ()), quick: 150, thorough: 4000, serial: false }),
            Box::new(Part { name: "chain", rule: CHAIN, strat: |_| chain_mesh(1), check: |c, o| hist_with(c, o, CHAIN_CAPS, &geo, true).map(|_| ()), quick: 40, thorough: 1000, serial: false }),
            Box::new(Part { name: "large", rule: LARGE, strat: large_strat, check: |c, o| hist_with(c, o, BCAPS, &geo, false).map(|_| ()), quick: 5, thorough: 100, serial: false }),
            Box::new(Part { name: "huge", rule: HUGE, strat: |_| huge_mesh(24..60, 4, 1), check: |c, o| hist_with(c, o, HUGE_CAPS, &geo, false).map(|_| ()), quick: 8, thorough: 200, serial: false }),
            Box::new(Part { name: "giant", rule: GIANT, strat: |_| huge_mesh(186..200, 1, 1), check: |c, o| hist_with(c, o, GIANT_CAPS, &geo, false).map(|_| ()), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec!["coordinates are compared to 8e-13 of the largest coordinate"],
    }
}
pub fn c02() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "history", rule: HIST, strat: hist_strat, check: |c, o| hist_with(c, o, HCAPS, &topo, false).map(|_| ()), quick: 1500, thorough: 40000, serial: false }),
            Box::new(Part { name: "deep", rule: DEEP, strat: deep_strat, check: |c, o| hist_with(c, o, DCAPS, &topo, true).map(|_| ()), quick: 800, thorough: 20000, serial: false }),
            Box::new(Part { name: "ladder", rule: LADDER, strat: ladder_strat, check: |c, o| hist_with(c, o, LCAPS, &topo, true).map(|_| ()), quick: 150, thorough: 4000, serial: false }),
            Box::new(Part { name: "chain", rule: CHAIN, strat: |_| chain_mesh(1), check: |c, o| hist_with(c, o, CHAIN_CAPS, &topo, true).map(|_| ()), quick: 40, thorough: 1000, serial: false }),
            Box::new(Part { name: "large", rule: LARGE, strat: large_strat, check: |c, o| hist_with(c, o, BCAPS, &topo, false).map(|_| ()), quick: 5, thorough: 100, serial: false }),
            Box::new(Part { name: "huge", rule: HUGE, strat: |_| huge_mesh(24..60, 4, 1), check: |c, o| hist_with(c, o, HUGE_CAPS, &topo, false).map(|_| ()), quick: 8, thorough: 200, serial: false }),
            Box::new(Part { name: "giant", rule: GIANT, strat: |_| huge_mesh(186..200, 1, 1), check: |c, o| hist_with(c, o, GIANT_CAPS, &topo, false).map(|_| ()), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec!["coordinates and lengths are compared to 8e-13 of the largest coordinate"],
    }
}
fn act_case(c: &MeshCase, o: &mut Obs, caps: Caps, deep: bool) -> Res {
    let (mesh, m) = hist_with(c, o, caps, &act, deep)?;
    if m.has_hanging() {
        o.nontrivial();
    }
    // building the domain must leave the same pairs
    let d = match guarded(|| Domain::from_mesh(mesh, ContinuityCondition::HCurl)) {
        Ok(d) => d,
        Err(p) => return fail("domain-panic", format!("building the domain panicked: {}", p)),
    };
    m.check_activation(&d.mesh)?;
    // the active pairs cover every interface between leaf elements exactly once
    let bset = m.boundary_base_segs();
    let mut leaf_sides: Vec<Seg> = m.leaves().iter().flat_map(|c| m.sides(*c).to_vec()).collect();
    leaf_sides.sort_unstable();
    leaf_sides.dedup();
    let mut by_eid = BTreeMap::new();
    for (i, c) in m.cells.iter().enumerate() {
        by_eid.insert(c.eid, i);
    }
    let mut active: BTreeMap<(bool, i64), Vec<Seg>> = BTreeMap::new();
    for e in d.mesh.edges.iter() {
        if let Some([lo, hi]) = e.active_elem_pair() {
            let s = m.sides(by_eid[&lo])[if e.dir == ParaDir::V { 3 } else { 1 }];
            let t = m.sides(by_eid[&hi])[if e.dir == ParaDir::V { 2 } else { 0 }];
            ensure!(s == t, "pair-side", "edge {}: its active elements {} and {} do not share it", e.id, lo, hi);
            active.entry((s.0, s.1)).or_default().push(s);
        }
    }
    for s in leaf_sides {
        let on_b = Model::on_boundary(&bset, s);
        let cover: i64 = active
            .get(&(s.0, s.1))
            .map_or(&[][..], |v| v)
            .iter()
            .map(|a| (a.3.min(s.3) - a.2.max(s.2)).max(0))
            .sum();
        let exp = if on_b { 0 } else { s.3 - s.2 };
        ensure!(cover == exp, "interface-cover", "leaf side {:?}: active edges cover {} of {}", s, cover, exp);
    }
    Ok(())
}
pub fn c05() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "history", rule: HIST, strat: hist_strat, check: |c, o| act_case(c, o, HCAPS, false), quick: 1500, thorough: 40000, serial: false }),
            Box::new(Part { name: "deep", rule: DEEP, strat: deep_strat, check: |c, o| act_case(c, o, DCAPS, true), quick: 800, thorough: 20000, serial: false }),
            Box::new(Part { name: "ladder", rule: LADDER, strat: ladder_strat, check: |c, o| act_case(c, o, LCAPS, true), quick: 150, thorough: 4000, serial: false }),
            Box::new(Part { name: "chain", rule: CHAIN, strat: |_| chain_mesh(1), check: |c, o| act_case(c, o, CHAIN_CAPS, true), quick: 40, thorough: 1000, serial: false }),
            Box::new(Part { name: "large", rule: LARGE, strat: large_strat, check: |c, o| act_case(c, o, BCAPS, false), quick: 5, thorough: 100, serial: false }),
            Box::new(Part { name: "huge", rule: HUGE, strat: |_| huge_mesh(24..60, 4, 1), check: |c, o| act_case(c, o, HUGE_CAPS, false), quick: 8, thorough: 200, serial: false }),
            Box::new(Part { name: "giant", rule: GIANT, strat: |_| huge_mesh(186..200, 1, 1), check: |c, o| act_case(c, o, GIANT_CAPS, false), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C03
// ---------------------------------------------------------------------------------------------
const MIN_LEN: f64 = 3.0518e-5;

/// `what`: mostly a current leaf, sometimes any element, sometimes an id that does not exist
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReqH {
    pub what: u8,
    pub sel: u16,
    /// 0..=6 kinds of model::KINDS, 7.. = extended with a wrong index
    pub kind: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpH {
    /// 0,1 execute, 2,3 list, 4 global, 5 filter
    pub api: u8,
    pub reqs: Vec<ReqH>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CaseH {
    pub base: BaseCase,
    /// 0: normal sizes; otherwise the first column/row has this tiny width/height (see TINY)
    pub tiny_x: u8,
    pub tiny_y: u8,
    pub ops: Vec<OpH>,
    /// kinds of refinement of the newest leaf carried out before the history; if not empty, the history keeps to the newest leaves
    #[serde(default)]
    pub deep: Vec<u8>,
}
// away from the limit and its doubles
const TINY: [f64; 6] = [0.0, 2.0e-5, 4.0e-5, 7.0e-5, 1.0e-4, 2.0e-4];
/// the numbers next to the limit and its double (the limit itself counts as too short in one place and not in another)
fn at_limit(k: u8) -> Option<f64> {
    let next = |x: f64, up: bool| f64::from_bits(if up { x.to_bits() + 1 } else { x.to_bits() - 1 });
    match k {
        6 | 7 => Some(next(MIN_LEN, k == 6)),
        8 | 9 => Some(next(2.0 * MIN_LEN, k == 8)),
        _ => None,
    }
}
/// make the first column (or row) this narrow
fn narrow(v: &mut Vec<f64>, k: u8) {
    match at_limit(k) {
        Some(l) => {
            // next to zero, so that lengths are exact
            let o = v[1];
            v.iter_mut().for_each(|x| *x -= o);
            v[0] = -l;
        }
        None => v[0] = v[1] - TINY[k as usize % 6],
    }
}

fn c03_strat(t: Tier) -> BoxedStrategy<CaseH> {
    let req = (prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], any::<u16>(), prop_oneof![30 => 0u8..7, 1 => 7u8..9])
        .prop_map(|(what, sel, kind)| ReqH { what, sel, kind });
    let op = (0u8..6, proptest::collection::vec(req, 1..5)).prop_map(|(api, reqs)| OpH { api, reqs });
    (
        base_strategy(3, 3),
        prop_oneof![4 => Just(0u8), 2 => 1u8..6, 1 => 6u8..10],
        prop_oneof![4 => Just(0u8), 2 => 1u8..6, 1 => 6u8..10],
        proptest::collection::vec(op, 1..=t.pick(5, 7)),
    )
        .prop_map(|(base, tiny_x, tiny_y, ops)| CaseH { base, tiny_x, tiny_y, ops, deep: vec![] })
        .boxed()
}
/// batches of up to 60 requests
fn c03_crowd_strat(_t: Tier) -> BoxedStrategy<CaseH> {
    let many = (any::<u16>(), proptest::collection::vec((any::<u16>(), 0u8..7), 6..60), any::<bool>(), 0u8..6, 0u32..200).prop_map(|(start, v, run, api, odd)| {
        let reqs = v
            .iter()
            .enumerate()
            .map(|(k, (sel, kind))| ReqH {
                // now and then one that is to be refused
                what: if odd as usize == k { 1 } else { 0 },
                sel: if run { start.wrapping_add(k as u16) } else { *sel },
                kind: *kind,
            })
            .collect();
        OpH { api, reqs }
    });
    (base_strategy(5, 5), proptest::collection::vec(many, 1..3)).prop_map(|(base, ops)| CaseH { base, tiny_x: 0, tiny_y: 0, ops, deep: vec![] }).boxed()
}
fn c03_deep_strat(t: Tier) -> BoxedStrategy<CaseH> {
    let req = (prop_oneof![14 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], any::<u16>(), 0u8..7).prop_map(|(what, sel, kind)| ReqH { what, sel, kind });
    let op = (prop_oneof![5 => 0u8..4, 1 => Just(4u8), 3 => Just(5u8)], proptest::collection::vec(req, 1..3)).prop_map(|(api, reqs)| OpH { api, reqs });
    (
        base_strategy(1, 2),
        proptest::collection::vec(prop_oneof![2 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8), 1 => 3u8..7], 1..=26),
        proptest::collection::vec(op, 1..=t.pick(4, 6)),
    )
        .prop_map(|(base, deep, ops)| CaseH { base, tiny_x: 0, tiny_y: 0, ops, deep })
        .boxed()
}

fn href_of(k: u8) -> HRef {
    match k {
        0..=6 => KINDS[k as usize].href(),
        7 => HRef::U(Some(2)),
        _ => HRef::V(Some(7)),
    }
}

/// Would the model accept refining cell c with kind k, given the limit on side lengths?
fn too_short(m: &Model, c: usize, k: Kind) -> bool {
    let r = m.rect(c);
    let (w, h) = (r[1] - r[0], r[3] - r[2]);
    let hw = w / 2.0 < MIN_LEN;
    let hh = h / 2.0 < MIN_LEN;
    match k {
        Kind::U => hw,
        Kind::V => hh,
        _ => hw || hh,
    }
}
fn leaf_ok(m: &Model, c: usize) -> bool {
    let r = m.rect(c);
    m.is_leaf(c) && (r[1] - r[0]) > MIN_LEN && (r[3] - r[2]) > MIN_LEN
}

fn c03_check(c: &CaseH, obs: &mut Obs) -> Res {
    // base mesh, possibly with a tiny column/row
    let mut m = c.base.model();
    let tiny = !c.base.unit && (c.tiny_x > 0 || c.tiny_y > 0);
    let mut mesh = if !tiny {
        c.base.build()?.0
    } else {
        if c.tiny_x > 0 {
            narrow(&mut m.xs, c.tiny_x);
        }
        if c.tiny_y > 0 {
            narrow(&mut m.ys, c.tiny_y);
        }
        let f = TmpFile::new("json");
        std::fs::write(&f.0, c.base.json(&m).to_string()).unwrap();
        match guarded(|| Mesh::from_file(f.s())) {
            Ok(Ok(mesh)) => mesh,
            Ok(Err(e)) => return fail("load", e.to_string()),
            Err(e) => return fail("load", e),
        }
    };
    m.sync(&mesh)?;
    let (mut accepted, mut refused) = (0, 0);
    for k in c.deep.iter() {
        let leaf = *m.leaves().last().unwrap();
        let k = KINDS[*k as usize % 7];
        if too_short(&m, leaf, k) || !leaf_ok(&m, leaf) || m.leaves().len() > 50 {
            continue;
        }
        let e = m.cells[leaf].eid;
        match guarded(|| mesh.execute_h_refinements(vec![(e, k.href())])) {
            Ok(Ok(())) => {}
            r => return fail("refused", format!("refinement {:?} of element {} was refused: {:?}", k, e, r)),
        }
        m.refine(leaf, k);
        m.sync(&mesh)?;
    }
    let deep = !c.deep.is_empty();
    for op in c.ops.iter() {
        let mut leaves = m.leaves();
        if leaves.len() > if deep { 70 } else { 40 } {
            break;
        }
        let n = mesh.elems.len();
        let by_eid = m.by_eid();
        if deep {
            leaves.reverse();
        }
        let near = if deep { leaves.len().min(4) } else { leaves.len() };
        let eid_of = |r: &ReqH| match r.what {
            0 => m.cells[leaves[r.sel as usize % near]].eid,
            1 => r.sel as usize % n,
            _ => n + (r.sel as usize % 3) * (r.sel as usize % 7),
        };
        // refineability query
        for e in 0..n {
            let q = mesh.elem_is_h_refineable(e);
            ensure!(
                matches!(q, Ok(b) if b == leaf_ok(&m, by_eid[&e])),
                "refineable",
                "element {} refineable: {:?}, {} expected",
                e, q.is_ok(), leaf_ok(&m, by_eid[&e])
            );
        }
        // reasons to refuse a list of (element, request)
        #[derive(PartialEq, Debug)]
        enum Why {
            NoElem(usize),
            NotRefineable(usize),
            Short,
            BadIdx,
        }
        let judge = |reqs: &[(usize, HRef)]| -> (Vec<Why>, BTreeMap<usize, Kind>) {
            let mut why = Vec::new();
            let mut want: BTreeMap<usize, Kind> = BTreeMap::new();
            for (e, h) in reqs {
                let cell = match by_eid.get(e) {
                    None => {
                        why.push(Why::NoElem(*e));
                        continue;
                    }
                    Some(c) => *c,
                };
                if !leaf_ok(&m, cell) {
                    why.push(Why::NotRefineable(*e));
                    continue;
                }
                let k = match h {
                    HRef::T => Kind::T,
                    HRef::U(None) => Kind::U,
                    HRef::V(None) => Kind::V,
                    HRef::U(Some(i)) if *i < 2 => Kind::Ux(*i as u8),
                    HRef::V(Some(i)) if *i < 2 => Kind::Vx(*i as u8),
                    _ => {
                        why.push(Why::BadIdx);
                        if too_short(&m, cell, Kind::T) {
                            why.push(Why::Short);
                        }
                        continue;
                    }
                };
                let k = want.get(&cell).map_or(k, |o| Kind::combine(*o, k));
                want.insert(cell, k);
            }
            for (cell, k) in want.iter() {
                if too_short(&m, *cell, *k) {
                    why.push(Why::Short);
                }
            }
            (why, want)
        };
        let before = snapshot(&mesh);
        let mut dup = false;
        let mut panics_ok = false;
        let mut filter_seen: Option<BTreeSet<usize>> = None;
        let kind0 = href_of(op.reqs[0].kind);
        let reqs: Vec<(usize, HRef)>;
        let result: Result<Result<(), HRefError>, String>;
        match op.api {
            0 | 1 => {
                // one element asked twice with a wrong index has no documented meaning: keep wrong indices to single requests
                let mut v: Vec<(usize, HRef)> = Vec::new();
                for r in op.reqs.iter() {
                    let (e, h) = (eid_of(r), href_of(r.kind));
                    if r.kind >= 7 && v.iter().any(|(x, _)| *x == e) {
                        continue;
                    }
                    if v.iter().any(|(x, y)| *x == e && matches!(y, HRef::U(Some(i)) | HRef::V(Some(i)) if *i > 1)) {
                        continue;
                    }
                    v.push((e, h));
                }
                reqs = v.clone();
                result = guarded(|| mesh.execute_h_refinements(v));
            }
            2 | 3 => {
                let v: Vec<usize> = op.reqs.iter().map(|r| eid_of(r)).collect();
                dup = v.iter().collect::<BTreeSet<_>>().len() != v.len();
                reqs = v.iter().map(|e| (*e, kind0)).collect();
                result = guarded(|| mesh.h_refine_elems(v, kind0));
            }
            4 => {
                reqs = leaves.iter().filter(|c| leaf_ok(&m, **c)).map(|c| (m.cells[*c].eid, kind0)).collect();
                panics_ok = true;
                if reqs.len() > 16 {
                    continue;
                }
                result = guarded(|| {
                    mesh.global_h_refinement(kind0);
                    Ok(())
                });
            }
            _ => {
                let mut pick: BTreeMap<usize, HRef> = BTreeMap::new();
                for r in op.reqs.iter() {
                    let e = eid_of(r);
                    if by_eid.get(&e).map_or(false, |c| leaf_ok(&m, *c)) {
                        pick.insert(e, href_of(r.kind));
                    }
                }
                // a filter may also name elements that are not eligible: it is not asked about them
                reqs = pick.iter().map(|(e, h)| (*e, *h)).collect();
                panics_ok = true;
                let seen = std::cell::RefCell::new(BTreeSet::new());
                result = guarded(|| {
                    mesh.h_refine_with_filter(|e| {
                        seen.borrow_mut().insert(e.id);
                        pick.get(&e.id).copied()
                    });
                    Ok(())
                });
                filter_seen = Some(seen.into_inner());
            }
        }
        let (why, want) = judge(&reqs);
        if let Some(s) = filter_seen {
            let exp: BTreeSet<usize> = leaves.iter().filter(|c| leaf_ok(&m, **c)).map(|c| m.cells[*c].eid).collect();
            ensure!(s == exp, "filter-asked", "the filter was asked about {:?}, the eligible elements are {:?}", s, exp);
        }
        let must_refuse = dup || !why.is_empty();
        match result {
            Ok(Ok(())) => {
                ensure!(!must_refuse, "accepted", "{:?} was accepted (duplicate: {}, reasons against it: {:?})", reqs, dup, why);
                for (c, k) in want {
                    m.refine(c, k);
                }
                m.sync(&mesh)?;
                m.check_geometry(&mesh)?;
                m.check_topology(&mesh)?;
                accepted += 1;
            }
            Ok(Err(e)) => {
                ensure!(must_refuse, "refused", "{:?} was refused: {}", reqs, e);
                let named = match &e {
                    HRefError::DuplicateElemIds => dup,
                    HRefError::ElemDoesNotExist(i) => why.contains(&Why::NoElem(*i)),
                    HRefError::ElemNotRefineable(i) => why.contains(&Why::NotRefineable(*i)),
                    HRefError::MinEdgeLength(_) => why.contains(&Why::Short),
                    HRefError::BisectionIdxExceeded => why.contains(&Why::BadIdx),
                    _ => false,
                };
                ensure!(named, "wrong-error", "{:?} (duplicate: {}, reasons {:?}) was refused with {:?}", reqs, dup, why, e);
                ensure!(snapshot(&mesh) == before, "refused-changed", "a refused request {:?} changed the mesh", reqs);
                refused += 1;
            }
            Err(p) => {
                ensure!(panics_ok && must_refuse, "panic", "{:?} panicked: {}", reqs, p);
                ensure!(snapshot(&mesh) == before, "refused-changed", "a refused request {:?} changed the mesh", reqs);
                refused += 1;
            }
        }
    }
    obs.add("accepted", accepted);
    obs.add("refused", refused);
    if tiny && c.tiny_x.max(c.tiny_y) > 5 {
        obs.label("next-to-minimum-length");
    }
    if tiny {
        obs.label("near-minimum-length");
    }
    let l = m.max_level();
    for (b, s) in [(5, "level>=5"), (8, "level>=8"), (11, "level>=11"), (14, "level>=14")] {
        if l[0].max(l[1]) >= b {
            obs.label(s);
        }
    }
    obs.nontrivial_if(accepted > 0 && (refused > 0 || deep));
    Ok(())
}

/// combination of requests for one element, in any grouping, on a fresh unit mesh
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CombCase {
    pub kinds: Vec<u8>,
    pub rot: u8,
}
fn comb_strat(_t: Tier) -> BoxedStrategy<CombCase> {
    (proptest::collection::vec(0u8..7, 1..5), 0u8..4).prop_map(|(kinds, rot)| CombCase { kinds, rot }).boxed()
}
fn comb_check(c: &CombCase, obs: &mut Obs) -> Res {
    let want = c.kinds.iter().map(|k| KINDS[*k as usize]).reduce(Kind::combine).unwrap();
    let shape = |mesh: &Mesh| -> BTreeSet<[i64; 4]> {
        mesh.elems
            .iter()
            .filter(|e| !e.has_children())
            .map(|e| {
                let r = e.parametric_range();
                [r[0][0], r[0][1], r[1][0], r[1][1]].map(|x| (x * 8.0).round() as i64)
            })
            .collect()
    };
    let mut reference = Mesh::unit();
    reference.execute_h_refinements(vec![(0, want.href())]).map_err(|e| Fail { sig: "refused".into(), msg: e.to_string() })?;
    let mut order = c.kinds.clone();
    let n = order.len();
    order.rotate_left(c.rot as usize % n);
    for list in [c.kinds.clone(), order] {
        // as a batch
        let mut mesh = Mesh::unit();
        mesh.execute_h_refinements(list.iter().map(|k| (0, KINDS[*k as usize].href())).collect())
            .map_err(|e| Fail { sig: "refused".into(), msg: format!("batch {:?} on one element was refused: {}", list, e) })?;
        ensure!(shape(&mesh) == shape(&reference), "combine", "requests {:?} on one element give {:?}, the union of their cuts is {:?} ({:?})", list, shape(&mesh), want, shape(&reference));
        // by adding the requests first
        let mut sum = KINDS[list[0] as usize].href();
        for k in &list[1..] {
            sum += KINDS[*k as usize].href();
        }
        let mut mesh = Mesh::unit();
        mesh.execute_h_refinements(vec![(0, sum)]).map_err(|e| Fail { sig: "refused".into(), msg: e.to_string() })?;
        ensure!(shape(&mesh) == shape(&reference), "combine-add", "sum of requests {:?} gives {:?}, {:?} expected", list, shape(&mesh), shape(&reference));
    }
    // constructors
    for i in 0..4u8 {
        ensure!(HRef::u_extened(i).is_ok() == (i < 2) && HRef::v_extened(i).is_ok() == (i < 2), "extended-ctor", "extended request with index {}", i);
    }
    for i in 0..2usize {
        ensure!(HRef::u_extened(i as u8).unwrap() == HRef::U(Some(i)) && HRef::v_extened(i as u8).unwrap() == HRef::V(Some(i)), "extended-ctor", "extended request constructors with {}", i);
    }
    ensure!(HRef::t() == HRef::T && HRef::u() == HRef::U(None) && HRef::v() == HRef::V(None), "ctor", "plain request constructors");
    ensure!(HRef::t() == HRef::T && HRef::u() == HRef::U(None) && HRef::v() == HRef::V(None), "ctor", "request constructors");
    obs.nontrivial_if(c.kinds.len() > 1);
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "requests",
                rule: "random base grid, in a third of the cases with a column or row close to the minimum side length, and a history of refinement requests that may name missing, refined, too small or repeated elements or a wrong extension index; verdict, error kind, resulting mesh and (on refusal) unchanged mesh are compared with the reference model; non-trivial: at least one request accepted and one refused",
                strat: c03_strat, check: c03_check, quick: 1500, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "crowd",
                rule: "random base grid of up to 25 elements and batches of 6 to 60 requests, repeated on few elements or spread over many; otherwise as requests; non-trivial: at least one request accepted and one refused",
                strat: c03_crowd_strat, check: c03_check, quick: 300, thorough: 10000, serial: false,
            }),
            Box::new(Part {
                name: "deep",
                rule: "as 'requests', on 1-2 base cells of normal size whose newest leaf was first refined up to 26 times (levels up to 16, down to the minimum side length); the history then keeps to the newest four leaves through all four interfaces; non-trivial: at least one request accepted after that",
                strat: c03_deep_strat, check: c03_check, quick: 400, thorough: 20000, serial: false,
            }),
            Box::new(Part {
                name: "combine",
                rule: "1-4 requests for one element, as a batch, in rotated order and added together; non-trivial: more than one request",
                strat: comb_strat, check: comb_check, quick: 600, thorough: 6000, serial: false,
            }),
        ],
        assumptions: vec!["side lengths exactly at the minimum are not generated, the numbers next to it are", "global and filtered refinement report a refusal by panicking (the existing tests rely on it)"],
    }
}

// ---------------------------------------------------------------------------------------------
// C04
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpP {
    pub api: u8,
    /// (what, element selector, a, b): what 0 = existing element, otherwise beyond the end
    pub reqs: Vec<(u8, u16, i8, i8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CaseP {
    pub base: BaseCase,
    pub hops: Vec<HOp>,
    pub ops: Vec<OpP>,
    /// an h-refinement after every k-th operation
    pub mix: Vec<HOp>,
}
fn delta() -> BoxedStrategy<i8> {
    prop_oneof![6 => -3i8..=4, 2 => -20i8..=20, 1 => any::<i8>(), 1 => Just(127i8), 1 => Just(-128i8)].boxed()
}
fn c04_strat(t: Tier) -> BoxedStrategy<CaseP> {
    let req = (prop_oneof![14 => Just(0u8), 1 => 1u8..4], any::<u16>(), delta(), delta());
    let op = (0u8..12, proptest::collection::vec(req, 1..5)).prop_map(|(api, reqs)| OpP { api, reqs });
    (
        base_strategy(2, 2),
        hops_strategy(2, 2),
        proptest::collection::vec(op, 1..=t.pick(8, 12)),
        hops_strategy(2, 2),
    )
        .prop_map(|(base, hops, ops, mix)| CaseP { base, hops, ops, mix })
        .boxed()
}
/// batches of up to 80 requests
fn c04_crowd_strat(_t: Tier) -> BoxedStrategy<CaseP> {
    let many = (any::<u16>(), proptest::collection::vec((any::<u16>(), -1i8..=1, -1i8..=1), 6..80), any::<bool>(), 1u8..12, 0u32..400).prop_map(|(start, v, run, api, odd)| {
        let reqs = v
            .iter()
            .enumerate()
            .map(|(k, (sel, a, b))| {
                let d = if odd as usize == k { 11 } else { 0 };
                let base = if api >= 8 { 10 } else { d };
                ((odd as usize == k + 200) as u8, if run { start.wrapping_add(k as u16) } else { *sel }, base + a, base + b)
            })
            .collect();
        OpP { api, reqs }
    });
    (base_strategy(3, 3), hops_strategy(3, 3), proptest::collection::vec(many, 1..4))
        .prop_map(|(base, hops, mut ops)| {
            ops.insert(0, OpP { api: 0, reqs: vec![(0, 0, 9, 9)] });
            CaseP { base, hops, ops, mix: vec![] }
        })
        .boxed()
}
fn win(o: [u8; 2]) -> [[i64; 2]; 2] {
    [[1 - o[0] as i64, 20 - o[0] as i64], [1 - o[1] as i64, 20 - o[1] as i64]]
}
fn c04_check(c: &CaseP, obs: &mut Obs) -> Res {
    let caps = Caps { leaves: 20, level: 4 };
    let (mut mesh, mut m) = c.base.build()?;
    for op in c.hops.iter() {
        step(&mut mesh, &mut m, op, caps)?;
    }
    let (mut acc, mut refu) = (0u64, 0u64);
    let orders_of = |a: i8, b: i8| -> [u8; 2] { [(a as u8) % 22, (b as u8) % 22] };
    for (oi, op) in c.ops.iter().enumerate() {
        let n = mesh.elems.len();
        let by_eid = m.by_eid();
        // queries
        let mut mx = [0u8; 2];
        for cell in m.cells.iter() {
            let e = &mesh.elems[cell.eid];
            ensure!([e.poly_orders.ni, e.poly_orders.nj] == cell.ord, "orders", "element {} has orders {:?}, {:?} expected", cell.eid, e.poly_orders, cell.ord);
            mx = [mx[0].max(cell.ord[0]), mx[1].max(cell.ord[1])];
            let w = mesh.elem_p_refinement_window(cell.eid).map_err(|e| Fail { sig: "window".into(), msg: e.to_string() })?;
            let ex = win(cell.ord);
            ensure!((0..2).all(|i| (0..2).all(|j| w[i][j] as i64 == ex[i][j])), "window", "element {} with orders {:?} has refinement window {:?}, {:?} expected", cell.eid, cell.ord, w, ex);
        }
        ensure!(mesh.max_expansion_orders() == mx, "max-orders", "largest orders {:?}, {:?} expected", mesh.max_expansion_orders(), mx);
        let eid = |r: &(u8, u16, i8, i8)| if r.0 == 0 { r.1 as usize % n } else { n + (r.0 as usize - 1) * 5 };
        let before = snapshot(&mesh);
        let mut new: Vec<[u8; 2]> = m.cells.iter().map(|c| c.ord).collect();
        let (a0, b0) = (op.reqs[0].2, op.reqs[0].3);
        // (missing ids, duplicates, out of window ids)
        let mut missing: Vec<usize> = Vec::new();
        let mut dup = false;
        let mut out: Vec<usize> = Vec::new();
        let result: Result<Result<(), PRefError>, String>;
        let deltas = |list: &[(usize, i64, i64)], new: &mut Vec<[u8; 2]>, out: &mut Vec<usize>, missing: &mut Vec<usize>, clamp: bool| {
            let mut sums: BTreeMap<usize, (i64, i64)> = BTreeMap::new();
            for (e, a, b) in list {
                if *e >= n {
                    missing.push(*e);
                } else {
                    let s = sums.entry(*e).or_insert((0, 0));
                    s.0 += a;
                    s.1 += b;
                }
            }
            for (e, (a, b)) in sums {
                let cell = by_eid[&e];
                let w = win(m.cells[cell].ord);
                let (mut a, mut b) = (a, b);
                if clamp {
                    a = a.clamp(w[0][0], w[0][1]);
                    b = b.clamp(w[1][0], w[1][1]);
                }
                if a < w[0][0] || a > w[0][1] || b < w[1][0] || b > w[1][1] {
                    out.push(e);
                } else {
                    new[cell] = [(m.cells[cell].ord[0] as i64 + a) as u8, (m.cells[cell].ord[1] as i64 + b) as u8];
                }
            }
        };
        match op.api {
            0 => {
                let l: Vec<(usize, i64, i64)> = (0..n).map(|e| (e, a0 as i64, b0 as i64)).collect();
                deltas(&l, &mut new, &mut out, &mut missing, true);
                result = guarded(|| {
                    mesh.global_p_refinement(PRef::from(a0, b0));
                    Ok(())
                });
            }
            1 | 2 => {
                let ids: Vec<usize> = op.reqs.iter().map(eid).collect();
                dup = ids.iter().collect::<BTreeSet<_>>().len() != ids.len();
                let l: Vec<(usize, i64, i64)> = ids.iter().map(|e| (*e, a0 as i64, b0 as i64)).collect();
                deltas(&l, &mut new, &mut out, &mut missing, false);
                result = guarded(|| mesh.p_refine_elems(ids, PRef::from(a0, b0)));
            }
            3 | 4 => {
                // clamped filter / bounded filter
                let mut pick: BTreeMap<usize, (i8, i8)> = BTreeMap::new();
                for r in op.reqs.iter().filter(|r| r.0 == 0) {
                    pick.insert(eid(r), (r.2, r.3));
                }
                let l: Vec<(usize, i64, i64)> = pick.iter().map(|(e, d)| (*e, d.0 as i64, d.1 as i64)).collect();
                deltas(&l, &mut new, &mut out, &mut missing, op.api == 3);
                let asked = std::cell::RefCell::new(BTreeSet::new());
                let bad_win = std::cell::RefCell::new(None);
                if op.api == 3 {
                    result = guarded(|| {
                        mesh.p_refine_with_filter(|e| {
                            asked.borrow_mut().insert(e.id);
                            pick.get(&e.id).map(|d| PRef::from(d.0, d.1))
                        });
                        Ok(())
                    });
                } else {
                    result = guarded(|| {
                        mesh.p_refine_with_filter_bounded(|e, w| {
                            asked.borrow_mut().insert(e.id);
                            let ex = win([e.poly_orders.ni, e.poly_orders.nj]);
                            if !(0..2).all(|i| (0..2).all(|j| w[i][j] as i64 == ex[i][j])) {
                                *bad_win.borrow_mut() = Some((e.id, w));
                            }
                            pick.get(&e.id).map(|d| PRef::from(d.0, d.1))
                        })
                    });
                }
                ensure!(bad_win.borrow().is_none(), "filter-window", "the bounded filter got a wrong window {:?}", bad_win.borrow());
                ensure!(asked.borrow().len() == n, "filter-asked", "the filter was asked about {} of {} elements", asked.borrow().len(), n);
            }
            5 | 6 | 7 => {
                let l: Vec<(usize, i64, i64)> = op.reqs.iter().map(|r| (eid(r), r.2 as i64, r.3 as i64)).collect();
                deltas(&l, &mut new, &mut out, &mut missing, false);
                let v: Vec<(usize, PRef)> = op.reqs.iter().map(|r| (eid(r), PRef::from(r.2, r.3))).collect();
                result = guarded(|| mesh.execute_p_refinements(v));
            }
            _ => {
                // direct orders
                let o0 = orders_of(a0, b0);
                let ok = (1..=20).contains(&o0[0]) && (1..=20).contains(&o0[1]);
                let t = Orders::try_new(o0[0], o0[1]);
                ensure!(t.is_ok() == ok, "orders-ctor", "orders {:?} accepted: {}", o0, t.is_ok());
                if let Err(e) = &t {
                    ensure!(matches!(e, PRefError::InvalidExpansionOrders(i, j) if [*i, *j] == o0), "orders-ctor", "orders {:?} were refused with {:?}", o0, e);
                }
                let np = guarded(|| Orders::new(o0[0], o0[1]));
                ensure!(np.is_ok() == ok, "orders-ctor", "orders {:?} accepted by the panicking constructor: {}", o0, np.is_ok());
                let o = match t {
                    Ok(o) => o,
                    Err(_) => continue,
                };
                ensure!(o.to_array() == o0, "orders-ctor", "orders {:?} read back as {:?}", o0, o.to_array());
                match op.api {
                    8 => {
                        for x in new.iter_mut() {
                            *x = o0;
                        }
                        result = guarded(|| {
                            mesh.set_global_expansion_orders(o);
                            Ok(())
                        });
                    }
                    9 => {
                        let ids: Vec<usize> = op.reqs.iter().map(eid).collect();
                        dup = ids.iter().collect::<BTreeSet<_>>().len() != ids.len();
                        for e in ids.iter() {
                            match by_eid.get(e) {
                                Some(c) => new[*c] = o0,
                                None => missing.push(*e),
                            }
                        }
                        result = guarded(|| mesh.set_expansion_on_elems(ids, o));
                    }
                    10 => {
                        let ids: BTreeSet<usize> = op.reqs.iter().filter(|r| r.0 == 0).map(eid).collect();
                        for e in ids.iter() {
                            new[by_eid[e]] = o0;
                        }
                        let asked = std::cell::RefCell::new(0usize);
                        result = guarded(|| {
                            mesh.set_expansions_with_filter(|e| {
                                *asked.borrow_mut() += 1;
                                if ids.contains(&e.id) {
                                    Some(o)
                                } else {
                                    None
                                }
                            });
                            Ok(())
                        });
                        ensure!(*asked.borrow() == n, "filter-asked", "the filter was asked {} times for {} elements", asked.borrow(), n);
                    }
                    _ => {
                        let mut v: Vec<(usize, Orders)> = Vec::new();
                        for r in op.reqs.iter() {
                            let oo = orders_of(r.2, r.3).map(|x| x.clamp(1, 20));
                            let e = eid(r);
                            dup |= v.iter().any(|(x, _)| *x == e);
                            match by_eid.get(&e) {
                                Some(c) => new[*c] = oo,
                                None => missing.push(e),
                            }
                            v.push((e, Orders::new(oo[0], oo[1])));
                        }
                        result = guarded(|| mesh.set_expansion_orders(v));
                    }
                }
            }
        }
        let must_refuse = dup || !missing.is_empty() || !out.is_empty();
        match result {
            Err(p) => return fail("panic", format!("operation {:?} panicked: {}", op, p)),
            Ok(Ok(())) => {
                ensure!(!must_refuse, "accepted", "operation {:?} was accepted (duplicates: {}, missing: {:?}, out of range: {:?})", op, dup, missing, out);
                for (i, o) in new.iter().enumerate() {
                    m.cells[i].ord = *o;
                }
                acc += 1;
            }
            Ok(Err(e)) => {
                ensure!(must_refuse, "refused", "operation {:?} was refused: {}", op, e);
                let named = match &e {
                    PRefError::DuplicateElemIds => dup,
                    PRefError::ElemDoesNotExist(i) => missing.contains(i),
                    PRefError::RefinementOutOfBounds(i) => out.contains(i),
                    _ => false,
                };
                ensure!(named, "wrong-error", "operation {:?} (duplicates: {}, missing: {:?}, out of range: {:?}) was refused with {:?}", op, dup, missing, out, e);
                ensure!(snapshot(&mesh) == before, "refused-changed", "a refused operation {:?} changed the mesh", op);
                refu += 1;
            }
        }
        for cell in m.cells.iter() {
            let e = &mesh.elems[cell.eid];
            ensure!([e.poly_orders.ni, e.poly_orders.nj] == cell.ord, "orders", "after {:?} element {} has orders {:?}, {:?} expected", op, cell.eid, e.poly_orders, cell.ord);
        }
        // p-operations change nothing but the orders
        ensure!(mesh.elems.len() == n, "elem-count", "a p-operation changed the number of elements");
        if !c.mix.is_empty() && oi % 2 == 1 {
            // new elements take the orders of the element they divide
            step(&mut mesh, &mut m, &c.mix[(oi / 2) % c.mix.len()], caps)?;
        }
    }
    for cell in m.cells.iter() {
        let e = &mesh.elems[cell.eid];
        ensure!([e.poly_orders.ni, e.poly_orders.nj] == cell.ord, "orders", "element {} has orders {:?}, {:?} expected", cell.eid, e.poly_orders, cell.ord);
    }
    m.check_geometry(&mesh)?;
    obs.add("accepted", acc);
    obs.add("refused", refu);
    obs.nontrivial_if(acc > 0 && refu > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AlgP {
    pub d: Vec<(i8, i8)>,
    pub b: [(i8, i8); 2],
    pub start: (u8, u8),
    pub set: (u8, u8),
}
fn alg_strat(_t: Tier) -> BoxedStrategy<AlgP> {
    (
        proptest::collection::vec((delta(), delta()), 1..5),
        [(delta(), delta()), (delta(), delta())],
        (1u8..=20, 1u8..=20),
        (prop_oneof![0u8..25, any::<u8>()], prop_oneof![0u8..25, any::<u8>()]),
    )
        .prop_map(|(d, b, start, set)| AlgP { d, b, start, set })
        .boxed()
}
fn alg_check(c: &AlgP, obs: &mut Obs) -> Res {
    let mut p = PRef::from(c.d[0].0, c.d[0].1);
    ensure!(p.as_array() == [c.d[0].0, c.d[0].1], "pref-array", "({:?}) reads back as {:?}", c.d[0], p.as_array());
    for dir in [ParaDir::U, ParaDir::V] {
        let q = PRef::on_dir(dir, c.d[0].0).as_array();
        let e = if dir == ParaDir::U { [c.d[0].0, 0] } else { [0, c.d[0].0] };
        ensure!(q == e, "pref-dir", "directional refinement {:?} {} is {:?}", dir, c.d[0].0, q);
    }
    let mut s = (c.d[0].0 as i64, c.d[0].1 as i64);
    for d in &c.d[1..] {
        p += PRef::from(d.0, d.1);
        s.0 += d.0 as i64;
        s.1 += d.1 as i64;
    }
    let fit = |x: i64| x >= -128 && x <= 127;
    if fit(s.0) && fit(s.1) {
        ensure!(p.as_array() == [s.0 as i8, s.1 as i8], "pref-sum", "sum of {:?} is {:?}", c.d, p.as_array());
    } else {
        obs.label("sum-beyond-i8");
    }
    let bnd: Vec<[i8; 2]> = c.b.iter().map(|(a, b)| [*a.min(b), *a.max(b)]).collect();
    let inside = s.0 >= bnd[0][0] as i64 && s.0 <= bnd[0][1] as i64 && s.1 >= bnd[1][0] as i64 && s.1 <= bnd[1][1] as i64;
    ensure!(p.falls_within([bnd[0], bnd[1]]) == inside, "pref-within", "{:?} within {:?}: {}", s, bnd, !inside);
    let k = p.constrained_to([bnd[0], bnd[1]]).as_array();
    let e = [s.0.clamp(bnd[0][0] as i64, bnd[0][1] as i64) as i8, s.1.clamp(bnd[1][0] as i64, bnd[1][1] as i64) as i8];
    ensure!(k == e, "pref-constrain", "{:?} constrained to {:?} is {:?}, {:?} expected", s, bnd, k, e);
    // orders of one element
    let mut o = PolyOrders { ni: c.start.0, nj: c.start.1 };
    let (a, b) = (c.start.0 as i64 + s.0, c.start.1 as i64 + s.1);
    let ok = a >= 1 && a <= 20 && b >= 1 && b <= 20;
    let r = o.refine(p);
    ensure!(r.is_ok() == ok, "orders-refine", "{:?} refined by {:?}: accepted {}", c.start, s, r.is_ok());
    if ok {
        ensure!(o.ni as i64 == a && o.nj as i64 == b, "orders-refine", "{:?} refined by {:?} gives {:?}", c.start, s, o);
    } else {
        ensure!((o.ni, o.nj) == c.start, "orders-refused-changed", "{:?} refused {:?} but became {:?}", c.start, s, o);
        match r.unwrap_err() {
            PRefError::NegExpansion => ensure!(a < 1 || b < 1, "orders-error", "wrong error kind"),
            PRefError::ExceededMaxExpansion => ensure!(a > 20 || b > 20, "orders-error", "wrong error kind"),
            e => return fail("orders-error", format!("{:?}", e)),
        }
    }
    let mut o = PolyOrders { ni: c.start.0, nj: c.start.1 };
    let ok = (1..=20).contains(&c.set.0) && (1..=20).contains(&c.set.1);
    let r = o.set([c.set.0, c.set.1]);
    ensure!(r.is_ok() == ok, "orders-set", "orders set to {:?}: accepted {}", c.set, r.is_ok());
    ensure!((o.ni, o.nj) == if ok { c.set } else { c.start }, "orders-set", "orders set to {:?} became {:?}", c.set, o);
    let t = Orders::try_new(c.set.0, c.set.1);
    ensure!(t.is_ok() == ok, "orders-ctor", "orders {:?} accepted: {}", c.set, t.is_ok());
    // index sets
    let o = PolyOrders { ni: c.start.0, nj: c.start.1 };
    ensure!(o.as_array() == [c.start.0 as usize, c.start.1 as usize], "orders-array", "{:?}", o);
    ensure!(o.max_with([7, 3]) == [c.start.0.max(7), c.start.1.max(3)], "orders-max", "{:?}", o);
    for (dir, di, dj) in [(BasisDir::U, 0, 1), (BasisDir::V, 1, 0), (BasisDir::W, 1, 1)] {
        let mut real: Vec<[u8; 2]> = o.permutations(dir).collect();
        real.sort_unstable();
        let mut ex = Vec::new();
        for i in 0..c.start.0 + di {
            for j in 0..c.start.1 + dj {
                ex.push([i, j]);
            }
        }
        ensure!(real == ex, "orders-permutations", "index set of {:?} for {:?}", o, dir);
    }
    obs.nontrivial_if(c.d.len() > 1 || !ok);
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "requests",
                rule: "random mesh and a history of order changes through all nine interfaces (deltas over the whole 8-bit range, repeated and missing elements, out-of-range results), mixed with h-refinements; verdict, error kind, orders of all elements, windows and (on refusal) unchanged mesh are compared with the reference model; non-trivial: at least one request accepted and one refused",
                strat: c04_strat, check: c04_check, quick: 1500, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "crowd",
                rule: "random mesh with orders of 10 and batches of 6 to 80 requests, repeated on few elements or spread over many; otherwise as requests; non-trivial: as there",
                strat: c04_crowd_strat, check: c04_check, quick: 300, thorough: 10000, serial: false,
            }),
            Box::new(Part {
                name: "algebra",
                rule: "sums of 1-4 refinements, windows, clamping, orders of one element against integer arithmetic; non-trivial: a sum of several refinements, or orders out of range",
                strat: alg_strat, check: alg_check, quick: 4000, thorough: 200000, serial: false,
            }),
        ],
        assumptions: vec![],
    }
}
