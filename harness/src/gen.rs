//! Generated meshes: a rectilinear base grid with holes, materials and permuted ids, then a refinement history.
use crate::framework::*;
use crate::model::*;
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

// the first 8 (4, 5, 4) are the ordinary ones; the rest appear in `wide` meshes
const GAPS: [f64; 12] = [1.0, 0.5, 2.0, 0.3, 1.7, 0.25, 3.0, 0.7, 0.01, 40.0, 0.05, 300.0];
const ORIGINS: [f64; 6] = [0.0, -1.0, 0.5, -2.3, 10.0, 1.0 / 3.0];
const SCALES: [f64; 12] = [1.0, 1.0, 0.1, 10.0, 0.01, 1e3, 1e5, 1e7, 1e9, 1e12, 1e-3, 1e-5];
const EPS: [f64; 5] = [1.0, 2.0, 4.3, 0.5, 9.8];
const WIDE_EPS: [f64; 4] = [1e-6, 1e-3, 300.0, 1e6];
const WIDE_MU: [f64; 4] = [1e6, 1e-3, 5000.0, 1e-6];
const MU: [f64; 4] = [1.0, 2.0, 0.9999, 0.5];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BaseCase {
    pub nx: u8,
    pub ny: u8,
    pub gx: Vec<u8>,
    pub gy: Vec<u8>,
    pub ox: u8,
    pub oy: u8,
    pub scale: u8,
    /// bit set = cell left out
    pub mask: u16,
    /// one selector per cell
    pub mats: Vec<u8>,
    /// 0: row-major numbering; otherwise nodes and elements are renumbered
    pub salt: u32,
    pub orphans: u8,
    /// the built-in unit mesh instead of a file
    #[serde(default)]
    pub unit: bool,
    /// other than 0: the spacings are stretched by up to 15 % each
    #[serde(default)]
    pub jit: u32,
}

pub fn lcg(s: &mut u64) -> u64 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *s >> 33
}
pub fn permutation(n: usize, salt: u32, tag: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if salt == 0 {
        return v;
    }
    let mut s = (salt as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ tag;
    for i in (1..n).rev() {
        let j = (lcg(&mut s) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
    v
}
pub fn material(sel: u8) -> [f64; 4] {
    // sel 0 is vacuum; one in four has imaginary parts (documented as part of the material, not used by the forms)
    if sel >= 80 {
        return [WIDE_EPS[sel as usize % 4], 0.0, WIDE_MU[(sel as usize / 4) % 4], 0.0];
    }
    let e = EPS[(sel as usize) % 5];
    let m = MU[(sel as usize / 5) % 4];
    let im = (sel as usize / 20) % 4;
    match im {
        1 => [e, 0.25, m, 0.0],
        2 => [e, -0.1, m, 0.05],
        3 => [e, 0.0, m, -0.3],
        _ => [e, 0.0, m, 0.0],
    }
}

impl BaseCase {
    pub fn model(&self) -> Model {
        if self.unit {
            return Model {
                xs: vec![-1.0, 1.0],
                ys: vec![-1.0, 1.0],
                cells: vec![Cell {
                    k: [0, UNIT, 0, UNIT],
                    lev: [0, 0],
                    kids: vec![],
                    parent: None,
                    base: 0,
                    ord: [1, 1],
                    eid: 0,
                }],
                n_base: 1,
                mats: vec![[1.0, 0.0, 1.0, 0.0]],
                base_eid: vec![0],
                orphans: vec![],
            };
        }
        let nx = self.nx.max(1) as usize;
        let ny = self.ny.max(1) as usize;
        let sc = SCALES[self.scale as usize % SCALES.len()];
        let mut js = self.jit as u64;
        let mut axis = |n: usize, g: &Vec<u8>, o: u8| {
            let mut v = vec![ORIGINS[o as usize % ORIGINS.len()] * sc];
            for i in 0..n {
                let mut gap = GAPS[*g.get(i % g.len().max(1)).unwrap_or(&0) as usize % GAPS.len()] * sc;
                if self.jit != 0 {
                    gap *= 0.85 + 0.3 * (lcg(&mut js) % 1_000_003) as f64 / 1_000_003.0;
                }
                v.push(v[i] + gap);
            }
            v
        };
        let xs = axis(nx, &self.gx, self.ox);
        let ys = axis(ny, &self.gy, self.oy);
        let mut picked: Vec<(usize, usize)> = Vec::new();
        for j in 0..ny {
            for i in 0..nx {
                if (self.mask >> ((j * nx + i) % 16)) & 1 == 0 {
                    picked.push((i, j));
                }
            }
        }
        if picked.is_empty() {
            picked.push((0, 0));
        }
        let n = picked.len();
        let base_eid = permutation(n, self.salt, 77);
        let mut cells = Vec::new();
        let mut mats = Vec::new();
        for (b, (i, j)) in picked.iter().enumerate() {
            let (i, j) = (*i as i64, *j as i64);
            cells.push(Cell {
                k: [i * UNIT, (i + 1) * UNIT, j * UNIT, (j + 1) * UNIT],
                lev: [0, 0],
                kids: vec![],
                parent: None,
                base: b,
                ord: [1, 1],
                eid: base_eid[b],
            });
            mats.push(material(*self.mats.get(b % self.mats.len().max(1)).unwrap_or(&0)));
        }
        let orphans = (0..self.orphans % 3)
            .map(|k| [xs[nx] + 1.0 + k as f64, ys[ny] + 2.0])
            .collect();
        Model {
            xs,
            ys,
            cells,
            n_base: n,
            mats,
            base_eid,
            orphans,
        }
    }

    /// element corner node ids and node points, as they go into the mesh file
    pub fn tables(&self, m: &Model) -> (Vec<[usize; 4]>, Vec<[f64; 2]>) {
        let mut pts: Vec<[i64; 2]> = Vec::new();
        for c in m.cells[..m.n_base].iter() {
            let k = c.k;
            pts.extend([[k[0], k[2]], [k[1], k[2]], [k[0], k[3]], [k[1], k[3]]]);
        }
        pts.sort_unstable();
        pts.dedup();
        pts.sort_by_key(|p| (p[1], p[0]));
        let total = pts.len() + m.orphans.len();
        let perm = permutation(total, self.salt, 11);
        let mut coords = vec![[0.0; 2]; total];
        let mut id_of = BTreeMap::new();
        for (i, p) in pts.iter().enumerate() {
            coords[perm[i]] = [m.x(p[0]), m.y(p[1])];
            id_of.insert(*p, perm[i]);
        }
        for (i, o) in m.orphans.iter().enumerate() {
            coords[perm[pts.len() + i]] = *o;
        }
        let mut elems = vec![[0; 4]; m.n_base];
        for b in 0..m.n_base {
            let k = m.cells[b].k;
            elems[m.base_eid[b]] =
                [[k[0], k[2]], [k[1], k[2]], [k[0], k[3]], [k[1], k[3]]].map(|p| id_of[&p]);
        }
        (elems, coords)
    }
    pub fn json(&self, m: &Model) -> serde_json::Value {
        let (elems, coords) = self.tables(m);
        let mut mats = vec![[0.0; 4]; m.n_base];
        for b in 0..m.n_base {
            mats[m.base_eid[b]] = m.mats[b];
        }
        json!({
            "Elements": elems.iter().zip(mats.iter()).map(|(n, t)| json!({"materials": t, "node_ids": n})).collect::<Vec<_>>(),
            "Nodes": coords,
        })
    }
    pub fn build(&self) -> Result<(Mesh, Model), Fail> {
        let m = self.model();
        if self.unit {
            return Ok((Mesh::unit(), m));
        }
        let f = TmpFile::new("json");
        std::fs::write(&f.0, self.json(&m).to_string()).unwrap();
        let mesh = match guarded(|| Mesh::from_file(f.s())) {
            Ok(Ok(mesh)) => mesh,
            Ok(Err(e)) => return fail("load", format!("a well-formed mesh file was refused: {}", e)),
            Err(p) => return fail("load", format!("loading a well-formed mesh file panicked: {}", p)),
        };
        Ok((mesh, m))
    }
}

pub fn base_strategy(max_nx: u8, max_ny: u8) -> BoxedStrategy<BaseCase> {
    (
        (1..=max_nx, 1..=max_ny),
        proptest::collection::vec(0u8..8, max_nx as usize),
        proptest::collection::vec(0u8..8, max_ny as usize),
        (0u8..6, 0u8..6, 0u8..4),
        prop_oneof![3 => Just(0u16), 2 => any::<u16>().prop_map(|a| a & (a >> 3)), 1 => any::<u16>()],
        prop_oneof![
            2 => Just(vec![]),
            3 => proptest::collection::vec(0u8..80, (max_nx as usize * max_ny as usize).min(23))
        ],
        prop_oneof![2 => Just(0u32), 3 => 1u32..100000],
        prop_oneof![5 => Just(0u8), 1 => 0u8..3],
        (prop_oneof![19 => Just(false), 1 => Just(true)], prop_oneof![1 => Just(0u32), 1 => 1u32..1_000_000]),
    )
        .prop_map(|((nx, ny), gx, gy, (ox, oy, scale), mask, mats, salt, orphans, (unit, jit))| BaseCase {
            nx,
            ny,
            gx,
            gy,
            ox,
            oy,
            scale,
            mask,
            mats,
            salt,
            orphans,
            unit,
            jit,
        })
        .boxed()
}

/// base grids whose sizes, aspect ratios and materials differ by many orders of magnitude
pub fn wide_base_strategy(max_nx: u8, max_ny: u8) -> BoxedStrategy<BaseCase> {
    (
        base_strategy(max_nx, max_ny),
        prop_oneof![4 => 0u8..8, 1 => 8u8..12],
        proptest::collection::vec(prop_oneof![0u8..8, 8u8..12], max_nx as usize),
        proptest::collection::vec(prop_oneof![0u8..8, 8u8..12], max_ny as usize),
        proptest::collection::vec(prop_oneof![2 => 0u8..80, 3 => 80u8..96], (max_nx * max_ny) as usize),
    )
        .prop_map(|(mut b, scale, gx, gy, mats)| {
            b.scale = scale;
            b.gx = gx;
            b.gy = gy;
            b.mats = mats;
            b.ox = 0;
            b.oy = 0;
            b
        })
        .boxed()
}

/// One refinement operation; `sels` are (leaf selector, kind selector).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HOp {
    pub api: u8,
    pub sels: Vec<(u16, u8)>,
}

pub fn hops_strategy(max_ops: usize, max_sels: usize) -> BoxedStrategy<Vec<HOp>> {
    proptest::collection::vec(
        (0u8..8, proptest::collection::vec((any::<u16>(), 0u8..24), 1..=max_sels))
            .prop_map(|(api, sels)| HOp { api, sels }),
        0..=max_ops,
    )
    .boxed()
}

/// histories that keep refining the newest elements
pub fn deep_strategy(max_ops: usize) -> BoxedStrategy<Vec<HOp>> {
    proptest::collection::vec(
        (8u8..14, proptest::collection::vec((any::<u16>(), 0u8..24), 1..=2))
            .prop_map(|(api, sels)| HOp { api, sels }),
        1..=max_ops,
    )
    .boxed()
}

/// histories that keep refining every element around one point (a corner, or somewhere on a side), so that the
/// elements on both sides of an interface become small together; a few ordinary requests at the end
pub fn ladder_strategy(max_ops: usize) -> BoxedStrategy<Vec<HOp>> {
    (
        any::<u16>(),
        proptest::collection::vec((prop_oneof![9 => Just(20u8), 1 => 8u8..14], 0u8..24), 1..=max_ops),
        hops_strategy(1, 2),
    )
        .prop_map(|(at, v, tail)| {
            v.into_iter()
                .map(|(api, k)| HOp { api, sels: vec![(at, k)] })
                .chain(tail)
                .collect()
        })
        .boxed()
}

/// very deep ladders on wide grids: levels above 16, up to 31
pub fn chain_mesh(max_ord: u8) -> BoxedStrategy<MeshCase> {
    (
        wide_base_strategy(2, 2),
        any::<u16>(),
        proptest::collection::vec(prop_oneof![4 => Just(0u8), 2 => 0u8..24], 8..=34),
        prop_oneof![Just(20u8), Just(8u8), Just(11u8)],
        proptest::collection::vec([1..=max_ord, 1..=max_ord], 1..5),
    )
        .prop_map(|(base, at, v, api, ords)| {
            let ops = v.into_iter().map(|k| HOp { api, sels: vec![(at, k)] }).collect();
            MeshCase { base, ops, ords }
        })
        .boxed()
}
pub const CHAIN_CAPS: Caps = Caps { leaves: 150, level: 31 };

#[derive(Clone, Copy, Debug)]
pub struct Caps {
    pub leaves: usize,
    pub level: u8,
}

/// What one operation asks for, after mapping selectors to current leaves (cell indices) and applying the caps.
#[derive(Clone, Debug)]
pub enum Plan {
    Batch(Vec<(usize, Kind)>),
    Elems(Vec<usize>, Kind),
    Global(Kind),
    Filter(BTreeMap<usize, Kind>),
}

/// a corner of a base cell, or a point on one of its sides (never inside)
fn ladder_point(m: &Model, s: u16) -> [i64; 2] {
    let s = s as i64;
    let k = m.cells[(s % m.n_base as i64) as usize].k;
    let t = UNIT / 64 * ((s / 16) % 63 + 1) + (s % 5) * (UNIT / 4096);
    match (s / 4) % 6 {
        0 => [k[0], k[2]],
        1 => [k[1], k[3]],
        2 => [k[0], k[2] + t],
        3 => [k[1], k[2] + t],
        4 => [k[0] + t, k[2]],
        _ => [k[0] + t, k[3]],
    }
}

fn fits(m: &Model, c: usize, k: Kind, caps: Caps) -> bool {
    let l = m.cells[c].lev;
    let (du, dv) = match k {
        Kind::T => (1, 1),
        Kind::U => (1, 0),
        Kind::V => (0, 1),
        _ => (1, 1),
    };
    let r = m.rect(c);
    // stay clear of the minimum edge length
    let min = 4.0 * 3.0518e-5;
    l[0] + du <= caps.level
        && l[1] + dv <= caps.level
        && (r[1] - r[0]) > 2.0 * min
        && (r[3] - r[2]) > 2.0 * min
}

impl HOp {
    pub fn plan(&self, m: &Model, caps: Caps) -> Plan {
        let leaves = m.leaves();
        let mut room = caps.leaves.saturating_sub(leaves.len());
        let n = leaves.len();
        // api 8 and up: one of the newest leaves, so that histories go deep
        let tail = self.api >= 8;
        let pick = |s: u16| {
            if tail {
                leaves[n - 1 - (s as usize % n.min(4))]
            } else {
                leaves[s as usize % n]
            }
        };
        let k0 = Kind::from_sel(self.sels[0].1);
        match self.api {
            20 => {
                let p = ladder_point(m, self.sels[0].0);
                let mut v = Vec::new();
                for c in leaves.iter() {
                    let k = m.cells[*c].k;
                    if k[0] <= p[0] && p[0] <= k[1] && k[2] <= p[1] && p[1] <= k[3] && room >= 3 && fits(m, *c, Kind::T, caps) {
                        room -= 3;
                        v.push((*c, k0));
                    }
                }
                Plan::Batch(v)
            }
            0..=2 | 8..=10 | 14.. => {
                let mut v = Vec::new();
                for (s, k) in self.sels.iter() {
                    let (c, k) = (pick(*s), Kind::from_sel(*k));
                    // a repeated request may turn into T, which needs room for three more cells
                    if room >= 3 && fits(m, c, Kind::T, caps) {
                        room -= 3;
                        v.push((c, k));
                    }
                }
                Plan::Batch(v)
            }
            3 | 4 | 11 => {
                let mut v: Vec<usize> = Vec::new();
                for (s, _) in self.sels.iter() {
                    let c = pick(*s);
                    if !v.contains(&c) && room >= 3 && fits(m, c, k0, caps) {
                        room -= 3;
                        v.push(c);
                    }
                }
                Plan::Elems(v, k0)
            }
            5 => {
                let per = match k0 {
                    Kind::T => 3,
                    Kind::U | Kind::V => 1,
                    _ => 2,
                };
                if per * n <= room && leaves.iter().all(|c| fits(m, *c, k0, caps)) {
                    Plan::Global(k0)
                } else {
                    Plan::Batch(vec![])
                }
            }
            _ => {
                let mut f = BTreeMap::new();
                for (s, k) in self.sels.iter() {
                    let (c, k) = (pick(*s), Kind::from_sel(*k));
                    if !f.contains_key(&c) && room >= 3 && fits(m, c, k, caps) {
                        room -= 3;
                        f.insert(c, k);
                    }
                }
                Plan::Filter(f)
            }
        }
    }
}

/// Apply a plan to the real mesh; any refusal of an acceptable request is a failure.
pub fn apply_real(mesh: &mut Mesh, m: &Model, plan: &Plan) -> Result<(), String> {
    match plan {
        Plan::Batch(v) => {
            let req: Vec<(usize, HRef)> = v.iter().map(|(c, k)| (m.cells[*c].eid, k.href())).collect();
            mesh.execute_h_refinements(req).map_err(|e| e.to_string())
        }
        Plan::Elems(v, k) => mesh
            .h_refine_elems(v.iter().map(|c| m.cells[*c].eid).collect(), k.href())
            .map_err(|e| e.to_string()),
        Plan::Global(k) => {
            mesh.global_h_refinement(k.href());
            Ok(())
        }
        Plan::Filter(f) => {
            let by: BTreeMap<usize, Kind> = f.iter().map(|(c, k)| (m.cells[*c].eid, *k)).collect();
            mesh.h_refine_with_filter(|e| by.get(&e.id).map(|k| k.href()));
            Ok(())
        }
    }
}
pub fn apply_model(m: &mut Model, plan: &Plan) {
    match plan {
        Plan::Batch(v) => {
            let mut req: BTreeMap<usize, Kind> = BTreeMap::new();
            for (c, k) in v {
                let e = req.get(c).map_or(*k, |o| Kind::combine(*o, *k));
                req.insert(*c, e);
            }
            for (c, k) in req {
                m.refine(c, k);
            }
        }
        Plan::Elems(v, k) => {
            for c in v {
                m.refine(*c, *k);
            }
        }
        Plan::Global(k) => {
            for c in m.leaves() {
                m.refine(c, *k);
            }
        }
        Plan::Filter(f) => {
            for (c, k) in f {
                m.refine(*c, *k);
            }
        }
    }
}
pub fn step(mesh: &mut Mesh, m: &mut Model, op: &HOp, caps: Caps) -> Res {
    let plan = op.plan(m, caps);
    let r = guarded(|| apply_real(mesh, m, &plan));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("refused", format!("acceptable refinement {:?} was refused: {}", plan, e)),
        Err(p) => return fail("refine-panic", format!("refinement {:?} panicked: {}", plan, p)),
    }
    apply_model(m, &plan);
    m.sync(mesh)
}

/// A mesh with a refinement history and expansion orders
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MeshCase {
    pub base: BaseCase,
    pub ops: Vec<HOp>,
    /// orders given to the cells cyclically; empty = [1,1] everywhere
    pub ords: Vec<[u8; 2]>,
}

pub fn mesh_strategy(nx: u8, ny: u8, max_ops: usize, max_sels: usize, max_ord: u8) -> BoxedStrategy<MeshCase> {
    (
        base_strategy(nx, ny),
        hops_strategy(max_ops, max_sels),
        prop_oneof![
            1 => proptest::collection::vec([1..=max_ord, 1..=max_ord], 1..=1),
            4 => proptest::collection::vec([1..=max_ord, 1..=max_ord], 2..=7),
        ],
    )
        .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
        .boxed()
}

/// up to side x side base elements, or fewer ones that are refined more often
pub fn large_strategy(side: u8, ops: usize, sels: usize, max_ord: u8) -> BoxedStrategy<MeshCase> {
    let ords = || proptest::collection::vec([1..=max_ord, 1..=max_ord], 1..=7);
    let few = (base_strategy(4, 4), hops_strategy(ops, sels), ords()).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords });
    let many = (base_strategy(side, side), hops_strategy(3, sels), ords()).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords });
    prop_oneof![few, many].boxed()
}

/// a base grid of the given side: more than a thousand elements, few functions on each
pub fn huge_mesh(side: std::ops::Range<u8>, ops: usize, high: u8) -> BoxedStrategy<MeshCase> {
    (base_strategy(12, 12), (side.clone(), side), hops_strategy(ops, 4), proptest::collection::vec(prop_oneof![6 => Just([1u8, 1]), 1 => [1..=high, 1..=high]], 1..=9))
        .prop_map(|(mut base, (nx, ny), ops, ords)| {
            base.nx = nx;
            base.ny = ny;
            MeshCase { base, ops, ords }
        })
        .boxed()
}
/// for `huge_mesh(24..60, ..)`
pub const HUGE_CAPS: Caps = Caps { leaves: 5000, level: 3 };
/// for `huge_mesh(186..200, ..)`
pub const GIANT_CAPS: Caps = Caps { leaves: 41000, level: 2 };

impl MeshCase {
    pub fn build_h(&self, caps: Caps) -> Result<(Mesh, Model), Fail> {
        let (mut mesh, mut m) = self.base.build()?;
        for op in self.ops.iter() {
            step(&mut mesh, &mut m, op, caps)?;
        }
        Ok((mesh, m))
    }
    /// orders on every element, refined ones included
    pub fn build(&self, caps: Caps) -> Result<(Mesh, Model), Fail> {
        let (mut mesh, mut m) = self.build_h(caps)?;
        set_orders(&mut mesh, &mut m, &self.ords)?;
        Ok((mesh, m))
    }
}
pub fn set_orders(mesh: &mut Mesh, m: &mut Model, ords: &[[u8; 2]]) -> Res {
    if ords.is_empty() {
        return Ok(());
    }
    for (i, c) in m.cells.iter_mut().enumerate() {
        c.ord = ords[i % ords.len()];
    }
    let req: Vec<(usize, Orders)> = m.cells.iter().map(|c| (c.eid, Orders::new(c.ord[0], c.ord[1]))).collect();
    match guarded(|| mesh.set_expansion_orders(req)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("orders-refused", format!("valid expansion orders were refused: {}", e)),
        Err(p) => fail("orders-panic", format!("setting valid expansion orders panicked: {}", p)),
    }
}

pub fn describe(m: &Model, obs: &mut Obs) {
    if m.has_hanging() {
        obs.label("hanging-node");
    }
    if m.has_aniso() {
        obs.label("anisotropic");
    }
    let l = m.max_level();
    if l[0].max(l[1]) >= 3 {
        obs.label("level>=3");
    }
    if l[0].max(l[1]) >= 16 {
        obs.label("level>=16");
    }
    if l[0].max(l[1]) >= 24 {
        obs.label("level>=24");
    }
    if l[0].max(l[1]) >= 8 {
        obs.label("level>=8");
    }
    if m.cells.len() >= 100 {
        obs.label("100 elements or more");
    }
    if m.n_base > 1 {
        obs.label("several-base-cells");
    }
}

/// Everything a user can read about a mesh, as text: two equal texts mean an unchanged mesh.
pub fn snapshot(mesh: &Mesh) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for e in mesh.elems.iter() {
        let _ = writeln!(
            s,
            "E {} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            e.id,
            e.nodes,
            e.edges,
            e.poly_orders,
            e.h_levels,
            e.child_ids(),
            e.loc_stack(),
            e.get_materials()
        );
    }
    for e in mesh.edges.iter() {
        let _ = writeln!(
            s,
            "G {} {:?} {} {:?} {:?} {:?} {:?} {:?} {:?} {}",
            e.id,
            e.nodes,
            e.boundary,
            e.dir,
            e.length,
            e.parent_id(),
            e.child_ids(),
            e.child_node_id(),
            e.active_elem_pair(),
            e.to_json()
        );
    }
    for n in mesh.nodes.iter() {
        let _ = writeln!(s, "N {} {:?} {:?} {}", n.id, n.coords.x, n.coords.y, n.boundary);
        let _ = writeln!(s, "{}", n.to_json());
    }
    s
}
