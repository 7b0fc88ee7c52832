//! C06, C07: degrees of freedom and tangential continuity.
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use crate::refmath::*;
use fem_2d::fem_domain::domain::dof::basis_spec::{BasisDir, BasisLoc};
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};

pub fn make_domain(mesh: Mesh) -> Result<Domain, Fail> {
    match guarded(|| Domain::from_mesh(mesh, ContinuityCondition::HCurl)) {
        Ok(d) => Ok(d),
        Err(p) => fail("domain-panic", format!("building the domain panicked: {}", p)),
    }
}

/// the functions that make up each degree of freedom, as the domain reports them
pub fn dof_functions(d: &Domain, m: &Model) -> Result<Vec<Vec<Fun>>, Fail> {
    let by_eid = m.by_eid();
    let mut out = Vec::new();
    for (k, dof) in d.dofs.iter().enumerate() {
        ensure!(dof.id == k, "dof-id", "degree of freedom {} has id {}", k, dof.id);
        let mut v = Vec::new();
        for a in dof.get_basis_specs().iter() {
            let bs = match d.get_basis_spec(*a) {
                Ok(b) => b,
                Err(e) => return fail("dof-address", format!("degree of freedom {}: {}", k, e)),
            };
            ensure!(bs.dof_id == Some(k), "dof-backref", "basis function {} of degree of freedom {} names {:?}", a, k, bs.dof_id);
            ensure!(bs.elem_id == a.elem_id && bs.elem_idx == Some(a.elem_idx), "dof-address", "basis function at {} says element {} index {:?}", a, bs.elem_id, bs.elem_idx);
            ensure!(bs.dir == BasisDir::U || bs.dir == BasisDir::V, "dof-dir", "degree of freedom {} has direction {:?}", k, bs.dir);
            let cell = match by_eid.get(&bs.elem_id) {
                Some(c) => *c,
                None => return fail("dof-elem", format!("degree of freedom {} names element {}", k, bs.elem_id)),
            };
            v.push(Fun { cell, v: bs.dir == BasisDir::V, i: bs.i as usize, j: bs.j as usize });
        }
        v.sort();
        out.push(v);
    }
    Ok(out)
}

/// what the degrees of freedom have to be
pub fn expected_dofs(m: &Model) -> BTreeSet<Vec<Fun>> {
    let mut out = BTreeSet::new();
    for c in m.leaves() {
        let [ni, nj] = m.cells[c].ord.map(|x| x as usize);
        for i in 0..ni {
            for j in 2..=nj {
                out.insert(vec![Fun { cell: c, v: false, i, j }]);
            }
        }
        for i in 2..=ni {
            for j in 0..nj {
                out.insert(vec![Fun { cell: c, v: true, i, j }]);
            }
        }
    }
    for (s, [lo, hi]) in m.active() {
        let d = if s.0 { 1 } else { 0 };
        let n = m.cells[lo].ord[d].min(m.cells[hi].ord[d]) as usize;
        for k in 0..n {
            let mut v = if s.0 {
                vec![Fun { cell: lo, v: true, i: 1, j: k }, Fun { cell: hi, v: true, i: 0, j: k }]
            } else {
                vec![Fun { cell: lo, v: false, i: k, j: 1 }, Fun { cell: hi, v: false, i: k, j: 0 }]
            };
            v.sort();
            out.insert(v);
        }
    }
    out
}

const CAPS: Caps = Caps { leaves: 24, level: 4 };
fn strat(t: Tier) -> BoxedStrategy<MeshCase> {
    mesh_strategy(3, 3, t.pick(4, 5), 3, 5)
}
fn deep(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(2, 2), deep_strategy(t.pick(7, 9)), proptest::collection::vec([1u8..=7, 1u8..=7], 1..6))
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}

/// a few elements with orders up to the largest one
fn high(_t: Tier) -> BoxedStrategy<MeshCase> {
    let o = || prop_oneof![1 => 1u8..=20, 1 => 10u8..=20, 1 => Just(20u8)];
    (base_strategy(2, 2), hops_strategy(2, 1), proptest::collection::vec([o(), o()], 1..5))
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}
fn ladder(t: Tier) -> BoxedStrategy<MeshCase> {
    (base_strategy(2, 2), ladder_strategy(t.pick(13, 16)), proptest::collection::vec([1u8..=3, 1u8..=3], 1..5))
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}
pub const LCAPS: Caps = Caps { leaves: 120, level: 15 };

fn c06_check(c: &MeshCase, obs: &mut Obs) -> Res {
    c06_caps(c, obs, CAPS)
}
fn c06_caps(c: &MeshCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.build(caps)?;
    describe(&m, obs);
    let d = make_domain(mesh)?;
    ensure!(d.cc == ContinuityCondition::HCurl, "cc", "the domain reports another continuity condition");
    let funs = dof_functions(&d, &m)?;
    let real: BTreeSet<Vec<Fun>> = funs.iter().cloned().collect();
    ensure!(real.len() == funs.len(), "dof-twice", "a degree of freedom occurs twice");
    let exp = expected_dofs(&m);
    if real != exp {
        let extra: Vec<_> = real.difference(&exp).take(3).collect();
        let missing: Vec<_> = exp.difference(&real).take(3).collect();
        return fail("dof-set", format!("{} degrees of freedom, {} expected; not expected: {:?}; missing: {:?}", real.len(), exp.len(), extra, missing));
    }
    // every listed basis function belongs to exactly one degree of freedom, and says where it lives
    let mut listed = 0;
    ensure!(d.basis_specs.len() == m.cells.len(), "spec-lists", "{} lists for {} elements", d.basis_specs.len(), m.cells.len());
    let mut ids = BTreeSet::new();
    for (e, list) in d.basis_specs.iter().enumerate() {
        for (k, bs) in list.iter().enumerate() {
            listed += 1;
            ids.insert(bs.id);
            ensure!(bs.elem_id == e && bs.elem_idx == Some(k), "spec-address", "basis function {} of element {} says {}({:?})", k, e, bs.elem_id, bs.elem_idx);
            ensure!(bs.dof_id.map_or(false, |i| i < d.dofs.len()), "spec-dof", "basis function {} of element {} belongs to {:?}", k, e, bs.dof_id);
            let dof = bs.dof_id.unwrap();
            let n = d.dofs[dof].get_basis_specs().iter().filter(|a| a.elem_id == e && a.elem_idx == k).count();
            ensure!(n == 1, "spec-dof", "basis function {}({}) is listed {} times by its degree of freedom", e, k, n);
            let el = &d.mesh.elems[e];
            let loc = match bs.dir {
                BasisDir::U if bs.j < 2 => BasisLoc::EdgeBs(bs.j, el.edges[bs.j as usize]),
                BasisDir::V if bs.i < 2 => BasisLoc::EdgeBs(bs.i + 2, el.edges[bs.i as usize + 2]),
                _ => BasisLoc::ElemBs,
            };
            ensure!(bs.loc == loc, "spec-loc", "basis function {:?} is located at {:?}, {:?} expected", bs, bs.loc, loc);
        }
    }
    let total: usize = funs.iter().map(|v| v.len()).sum();
    ensure!(listed == total, "spec-count", "{} basis functions are listed, the degrees of freedom have {}", listed, total);
    ensure!(ids.len() == listed, "spec-id", "two basis functions have one id");
    // equality and the matching rule of basis functions
    let all: Vec<&BasisSpec> = d.basis_specs.iter().flatten().collect();
    if all.len() > 1 {
        let mut s = all.len() as u64 * 31 + funs.len() as u64;
        for _ in 0..40 {
            let a = all[lcg(&mut s) as usize % all.len()];
            let near = &d.basis_specs[a.elem_id];
            let b = if lcg(&mut s) % 2 == 0 { all[lcg(&mut s) as usize % all.len()] } else { &near[lcg(&mut s) as usize % near.len()] };
            let same = a.i == b.i && a.j == b.j && a.dir == b.dir && a.loc == b.loc;
            ensure!((a == b) == same && (b == a) == same, "spec-equal", "{:?} == {:?} is {}", a, b, a == b);
        }
    }
    // a degree of freedom of one, two or four functions lists them in order
    {
        let all: Vec<BSAddress> = d.basis_specs.iter().flatten().map(|b| BSAddress::new(b.elem_id, b.elem_idx.unwrap_or(0))).collect();
        let mut s = 5 + m.cells.len() as u64;
        for n in [1usize, 2, 4, 0, 3, 5] {
            if all.is_empty() {
                break;
            }
            let v: Vec<BSAddress> = (0..n).map(|_| all[lcg(&mut s) as usize % all.len()]).collect();
            let r = guarded(|| {
                let x = DoF::new(n + 7, v.iter().copied().collect());
                (x.id, x.get_basis_specs().to_vec())
            });
            match r {
                Ok((id, l)) => ensure!([1, 2, 4].contains(&n) && id == n + 7 && l.len() == n && l.iter().zip(v.iter()).all(|(a, b)| (a.elem_id, a.elem_idx) == (b.elem_id, b.elem_idx)), "dof-group", "a degree of freedom made of {:?} lists {:?}", v, l),
                Err(p) => ensure!(![1, 2, 4].contains(&n), "dof-group", "making a degree of freedom of {} functions panics: {}", n, p),
            }
        }
    }
    for dof in d.dofs.iter() {
        let v = dof.get_basis_specs();
        if v.len() == 2 {
            let a = &d.basis_specs[v[0].elem_id][v[0].elem_idx];
            let b = &d.basis_specs[v[1].elem_id][v[1].elem_idx];
            let r = guarded(|| (a.matches_with_edge(b), b.matches_with_edge(a), a.matches_with_edge(a)));
            ensure!(r == Ok((true, true, false)), "spec-match", "{:?} and {:?} make up a degree of freedom; matching says {:?}", a, b, r);
        }
    }
    obs.add("dofs", funs.len() as u64);
    obs.nontrivial_if(funs.iter().any(|v| v.len() == 2 && {
        let (a, b) = (&m.cells[v[0].cell], &m.cells[v[1].cell]);
        a.ord != b.ord || a.lev != b.lev
    }));
    Ok(())
}

pub fn c06() -> Prop {
    let rule = "random mesh with up to 24 leaf elements, up to 5 levels, and different orders on every element, refined ones included; the degrees of freedom are compared, as a set of sets of functions, with the reference; non-trivial: some degree of freedom joins elements of different order or level";
    Prop {
        parts: vec![
            Box::new(Part { name: "mesh", rule, strat, check: c06_check, quick: 6000, thorough: 120000, serial: false }),
            Box::new(Part { name: "deep", rule, strat: deep, check: c06_check, quick: 3000, thorough: 60000, serial: false }),
            Box::new(Part { name: "high-order", rule: "as 'mesh', on a few elements with orders up to 20", strat: high, check: |c, o| c06_caps(c, o, Caps { leaves: 8, level: 2 }), quick: 400, thorough: 12000, serial: false }),
            Box::new(Part { name: "ladder", rule: "as 'mesh', after up to 13 rounds of refining every element around one corner or point of a side (levels up to 13, up to 120 elements)", strat: ladder, check: |c, o| c06_caps(c, o, LCAPS), quick: 600, thorough: 12000, serial: false }),
            Box::new(Part { name: "chain", rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31, up to 150 elements)", strat: |_| chain_mesh(3), check: |c, o| c06_caps(c, o, CHAIN_CAPS), quick: 400, thorough: 8000, serial: false }),
            Box::new(Part { name: "large", rule: "as 'mesh', on up to 16x16 base elements, or with up to 400 unrefined ones", strat: |t| large_strategy(16, t.pick(8, 10), 8, 3), check: |c, o| c06_caps(c, o, Caps { leaves: 400, level: 8 }), quick: 20, thorough: 2000, serial: false }),
            Box::new(Part { name: "huge", rule: "as 'mesh', on 24x24 to 59x59 base elements with up to 5000 unrefined elements", strat: |_| huge_mesh(24..60, 4, 3), check: |c, o| c06_caps(c, o, HUGE_CAPS), quick: 24, thorough: 600, serial: false }),
            Box::new(Part { name: "giant", rule: "as 'mesh', on about 190x190 base elements (more than 65536 degrees of freedom)", strat: |_| huge_mesh(186..200, 4, 2), check: |c, o| c06_caps(c, o, GIANT_CAPS), quick: 1, thorough: 16, serial: true }),
        ],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// C07
// ---------------------------------------------------------------------------------------------

/// which leaf is at an interior point; both neighbours for points on a side
fn c07_check(c: &MeshCase, obs: &mut Obs) -> Res {
    c07_caps(c, obs, Caps { leaves: 20, level: 4 })
}
fn c07_caps(c: &MeshCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.build(caps)?;
    describe(&m, obs);
    let d = make_domain(mesh)?;
    let funs = dof_functions(&d, &m)?;
    if funs.is_empty() {
        return Ok(());
    }
    // functions by cell
    let mut by_cell: BTreeMap<usize, Vec<(usize, Fun)>> = BTreeMap::new();
    for (k, v) in funs.iter().enumerate() {
        for f in v {
            by_cell.entry(f.cell).or_default().push((k, *f));
        }
    }
    // one-sided traces of all degrees of freedom at a point of a leaf
    let trace = |leaf: usize, x: f64, y: f64, comp: usize| -> BTreeMap<usize, f64> {
        let mut out = BTreeMap::new();
        let mut cells = m.ancestors(leaf);
        cells.push(leaf);
        for cl in cells {
            if let Some(l) = by_cell.get(&cl) {
                for (k, f) in l {
                    *out.entry(*k).or_insert(0.0) += field_at(&m, f, x, y).0[comp];
                }
            }
        }
        out
    };
    let bset = m.boundary_base_segs();
    let leaves = m.leaves();
    let mut lo_sides: Vec<(Seg, usize)> = Vec::new();
    let mut hi_sides: Vec<(Seg, usize)> = Vec::new();
    for l in leaves.iter() {
        let s = m.sides(*l);
        hi_sides.push((s[0], *l));
        lo_sides.push((s[1], *l));
        hi_sides.push((s[2], *l));
        lo_sides.push((s[3], *l));
    }
    let pts = [-0.83, -0.31, 0.12, 0.57, 0.91];
    let mut pairs = 0u64;
    let smax = {
        // size of the functions, for the tolerance: 1/half-size
        let mut s: f64 = 0.0;
        for l in leaves.iter() {
            let r = m.rect(*l);
            s = s.max(2.0 / (r[1] - r[0])).max(2.0 / (r[3] - r[2]));
        }
        s * 4.0
    };
    for (sides, others) in [(&lo_sides, &hi_sides), (&hi_sides, &lo_sides)] {
        for (s, l) in sides.iter() {
            let comp = if s.0 { 1 } else { 0 };
            if Model::on_boundary(&bset, *s) {
                let e = m.seg_ends(*s);
                for t in pts {
                    let x = e[0][0] + (e[1][0] - e[0][0]) * (t + 1.0) / 2.0;
                    let y = e[0][1] + (e[1][1] - e[0][1]) * (t + 1.0) / 2.0;
                    for (k, v) in trace(*l, x, y, comp) {
                        ensure!(v.abs() <= 1e-11 * smax, "boundary-trace", "degree of freedom {} ({:?}) has tangential value {} on the outer boundary at ({}, {})", k, funs[k], v, x, y);
                    }
                }
                continue;
            }
            for (o, k2) in others.iter() {
                if o.0 != s.0 || o.1 != s.1 {
                    continue;
                }
                let (a, b) = (s.2.max(o.2), s.3.min(o.3));
                if a >= b {
                    continue;
                }
                pairs += 1;
                let e = m.seg_ends((s.0, s.1, a, b));
                for t in pts {
                    let x = e[0][0] + (e[1][0] - e[0][0]) * (t + 1.0) / 2.0;
                    let y = e[0][1] + (e[1][1] - e[0][1]) * (t + 1.0) / 2.0;
                    let p = trace(*l, x, y, comp);
                    let q = trace(*k2, x, y, comp);
                    let keys: BTreeSet<usize> = p.keys().chain(q.keys()).copied().collect();
                    for k in keys {
                        let (v, w) = (p.get(&k).unwrap_or(&0.0), q.get(&k).unwrap_or(&0.0));
                        ensure!(
                            (v - w).abs() <= 1e-11 * smax,
                            "jump",
                            "degree of freedom {} ({:?}) has tangential values {} and {} on the two sides of the interface at ({}, {})",
                            k, funs[k], v, w, x, y
                        );
                    }
                }
            }
        }
    }
    obs.add("interfaces", pairs / 2);
    obs.nontrivial_if(pairs > 0 && (m.has_hanging() || m.leaves().iter().any(|l| m.cells[*l].ord != m.cells[leaves[0]].ord)));
    Ok(())
}

/// the same on the library's own field evaluation
fn c07_field(c: &MeshCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.build(caps)?;
    describe(&m, obs);
    let d = make_domain(mesh)?;
    let n = d.dofs.len();
    if n == 0 {
        return Ok(());
    }
    let mut s = 12345u64 + n as u64;
    let sol: Vec<f64> = (0..n).map(|_| (lcg(&mut s) % 2001) as f64 / 1000.0 - 1.0).collect();
    // with 2^k+1 samples per side, samples of differently refined neighbours coincide
    let dens = 9;
    let widest = m.leaves().iter().fold(0f64, |a, l| {
        let r = m.rect(*l);
        a.max(r[1] - r[0]).max(r[3] - r[2])
    });
    let img = super::fields::sample_scaled(&d, [dens, dens], sol, widest)?;
    // the largest value in each element; values are printed with 15 decimals
    let size: BTreeMap<usize, f64> = img
        .leaf_eids
        .iter()
        .enumerate()
        .map(|(li, e)| (*e, img.xy[li * dens * dens..(li + 1) * dens * dens].iter().fold(1e-4f64, |a, v| a.max(v[0].abs()).max(v[1].abs()))))
        .collect();
    let by_eid = m.by_eid();
    // values by (integer position, direction of the interface)
    let mut seen: BTreeMap<(i64, i64, bool), Vec<(usize, f64)>> = BTreeMap::new();
    let bset = m.boundary_base_segs();
    for (li, eid) in img.leaf_eids.iter().enumerate() {
        let cell = by_eid[eid];
        let k = m.cells[cell].k;
        for a in 0..dens {
            for b in 0..dens {
                let px = k[0] + (k[1] - k[0]) / 8 * a as i64;
                let py = k[2] + (k[3] - k[2]) / 8 * b as i64;
                let v = img.xy[(li * dens + a) * dens + b];
                for (on, vert, fixed, along) in [(a == 0 || a == 8, true, px, py), (b == 0 || b == 8, false, py, px)] {
                    if !on {
                        continue;
                    }
                    // strictly inside the leaf's side
                    let inner = if vert { b != 0 && b != 8 } else { a != 0 && a != 8 };
                    if !inner {
                        continue;
                    }
                    let t = v[if vert { 1 } else { 0 }];
                    let seg = (vert, fixed, along, along);
                    if Model::on_boundary(&bset, seg) {
                        ensure!(t.abs() <= 1e-10 * size[eid], "field-boundary", "element {}: tangential field {} on the outer boundary", eid, t);
                    } else {
                        seen.entry((px, py, vert)).or_default().push((*eid, t));
                    }
                }
            }
        }
    }
    let mut cmp = 0u64;
    for ((px, py, vert), l) in seen {
        for w in l.windows(2) {
            cmp += 1;
            ensure!((w[0].1 - w[1].1).abs() <= 1e-10 * (size[&w[0].0] + size[&w[1].0]), "field-jump", "tangential field at ({}, {}) (vertical: {}) is {} in element {} and {} in element {}", m.x(px), m.y(py), vert, w[0].1, w[0].0, w[1].1, w[1].0);
        }
    }
    obs.add("compared", cmp);
    obs.nontrivial_if(cmp > 0);
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part { name: "traces", rule: "random mesh with mixed orders and levels; tangential traces of every degree of freedom at 5 points of every leaf interface and boundary side, from both sides; non-trivial: hanging nodes or different orders", strat, check: c07_check, quick: 1500, thorough: 40000, serial: false }),
            Box::new(Part { name: "traces-high", rule: "as 'traces', on a few elements with orders up to 20", strat: high, check: |c, o| c07_caps(c, o, Caps { leaves: 8, level: 2 }), quick: 100, thorough: 4000, serial: false }),
            Box::new(Part { name: "traces-ladder", rule: "as 'traces', after up to 13 rounds of refining every element around one corner or point of a side (levels up to 13)", strat: ladder, check: |c, o| c07_caps(c, o, LCAPS), quick: 150, thorough: 4000, serial: false }),
            Box::new(Part { name: "traces-chain", rule: "as 'traces-ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31)", strat: |_| chain_mesh(3), check: |c, o| c07_caps(c, o, CHAIN_CAPS), quick: 100, thorough: 3000, serial: false }),
            Box::new(Part { name: "field", rule: "random mesh; the library's evaluation of a random coefficient vector is compared across all leaf interfaces at coinciding sample points and with zero on the boundary; non-trivial: at least one coinciding pair of samples", strat, check: |c, o| c07_field(c, o, Caps { leaves: 14, level: 3 }), quick: 800, thorough: 20000, serial: false }),
            Box::new(Part { name: "field-high", rule: "as 'field', on a few elements with orders up to 20", strat: high, check: |c, o| c07_field(c, o, Caps { leaves: 8, level: 2 }), quick: 100, thorough: 4000, serial: false }),
            Box::new(Part { name: "field-ladder", rule: "as 'field', after up to 13 rounds of refining every element around one corner or point of a side", strat: ladder, check: |c, o| c07_field(c, o, LCAPS), quick: 100, thorough: 3000, serial: false }),
            Box::new(Part { name: "field-chain", rule: "as 'field', after 8 to 34 rounds of refining at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9", strat: |_| chain_mesh(3), check: |c, o| c07_field(c, o, CHAIN_CAPS), quick: 60, thorough: 2000, serial: false }),
        ],
        assumptions: vec!["tangential jumps up to 1e-11 of the size of the functions count as rounding"],
    }
}
