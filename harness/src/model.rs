//! Reference model of a rectangular mesh under h-refinement: a forest of cells with integer (dyadic) corners.
use crate::ensure;
use crate::framework::{fail, Fail, Res};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// one base interval is 2^FINE key units
pub const FINE: u32 = 36;
pub const UNIT: i64 = 1 << FINE;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    T,
    U,
    V,
    Ux(u8),
    Vx(u8),
}
pub const KINDS: [Kind; 7] = [
    Kind::T,
    Kind::U,
    Kind::V,
    Kind::Ux(0),
    Kind::Ux(1),
    Kind::Vx(0),
    Kind::Vx(1),
];
impl Kind {
    pub fn from_sel(s: u8) -> Kind {
        // T, U, V are drawn more often than the extended kinds
        match s % 12 {
            0..=2 => Kind::T,
            3..=5 => Kind::U,
            6..=8 => Kind::V,
            9 => Kind::Ux((s / 12) % 2),
            10 => Kind::Vx((s / 12) % 2),
            _ => Kind::T,
        }
    }
    pub fn href(self) -> HRef {
        match self {
            Kind::T => HRef::T,
            Kind::U => HRef::U(None),
            Kind::V => HRef::V(None),
            Kind::Ux(i) => HRef::U(Some(i as usize)),
            Kind::Vx(i) => HRef::V(Some(i as usize)),
        }
    }
    /// the refinement asked for by two requests on one cell: the union of their cuts (T when both directions or both halves are cut)
    pub fn combine(a: Kind, b: Kind) -> Kind {
        use Kind::*;
        match (a, b) {
            (T, _) | (_, T) => T,
            (U, U) => U,
            (V, V) => V,
            (U, Ux(i)) | (Ux(i), U) => Ux(i),
            (V, Vx(i)) | (Vx(i), V) => Vx(i),
            (Ux(i), Ux(j)) => {
                if i == j {
                    Ux(i)
                } else {
                    T
                }
            }
            (Vx(i), Vx(j)) => {
                if i == j {
                    Vx(i)
                } else {
                    T
                }
            }
            _ => T,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cell {
    /// x0, x1, y0, y1 in key units
    pub k: [i64; 4],
    pub lev: [u8; 2],
    pub kids: Vec<usize>,
    pub parent: Option<usize>,
    /// -1..1 range of the base cell covered, as [u0,u1,v0,v1]
    pub base: usize,
    pub ord: [u8; 2],
    /// id of the element in the real mesh
    pub eid: usize,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub xs: Vec<f64>,
    pub ys: Vec<f64>,
    pub cells: Vec<Cell>,
    pub n_base: usize,
    /// materials of the base cells
    pub mats: Vec<[f64; 4]>,
    /// base cell index -> element id in the file
    pub base_eid: Vec<usize>,
    /// nodes that no element uses
    pub orphans: Vec<[f64; 2]>,
}

/// a side of a cell: (vertical?, fixed coordinate key, low key, high key)
pub type Seg = (bool, i64, i64, i64);

fn coord(v: &[f64], k: i64) -> f64 {
    let i = k.div_euclid(UNIT) as usize;
    let r = k.rem_euclid(UNIT);
    if r == 0 {
        v[i]
    } else {
        v[i] + (v[i + 1] - v[i]) * (r as f64 / UNIT as f64)
    }
}

impl Model {
    pub fn x(&self, k: i64) -> f64 {
        coord(&self.xs, k)
    }
    pub fn y(&self, k: i64) -> f64 {
        coord(&self.ys, k)
    }
    /// largest coordinate magnitude, for tolerances
    pub fn scale(&self) -> f64 {
        self.xs
            .iter()
            .chain(self.ys.iter())
            .fold(1e-300, |a: f64, b| a.max(b.abs()))
    }
    pub fn tol(&self) -> f64 {
        self.scale() * 1e-13 * 8.0
    }
    /// relative rounding error of the sizes of the smallest elements, which are differences of coordinates
    pub fn rounding(&self) -> f64 {
        (0..self.cells.len()).map(|c| {
            let r = self.rect(c);
            (r[0].abs().max(r[1].abs()) / (r[1] - r[0])).max(r[2].abs().max(r[3].abs()) / (r[3] - r[2]))
        }).fold(0.0, f64::max) * f64::EPSILON * 8.0
    }
    pub fn rect(&self, c: usize) -> [f64; 4] {
        let k = self.cells[c].k;
        [self.x(k[0]), self.x(k[1]), self.y(k[2]), self.y(k[3])]
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.cells.len())
            .filter(|c| self.cells[*c].kids.is_empty())
            .collect()
    }
    pub fn is_leaf(&self, c: usize) -> bool {
        self.cells[c].kids.is_empty()
    }
    pub fn by_eid(&self) -> BTreeMap<usize, usize> {
        self.cells.iter().enumerate().map(|(i, c)| (c.eid, i)).collect()
    }
    pub fn ancestors(&self, c: usize) -> Vec<usize> {
        let mut v = Vec::new();
        let mut p = self.cells[c].parent;
        while let Some(q) = p {
            v.push(q);
            p = self.cells[q].parent;
        }
        v
    }
    pub fn descendants(&self, c: usize) -> Vec<usize> {
        let mut v = Vec::new();
        let mut stack = self.cells[c].kids.clone();
        while let Some(q) = stack.pop() {
            v.push(q);
            stack.extend(self.cells[q].kids.iter().copied());
        }
        v
    }
    /// sides in the library's order: S, N, W, E
    pub fn sides(&self, c: usize) -> [Seg; 4] {
        let k = self.cells[c].k;
        [
            (false, k[2], k[0], k[1]),
            (false, k[3], k[0], k[1]),
            (true, k[0], k[2], k[3]),
            (true, k[1], k[2], k[3]),
        ]
    }
    pub fn seg_len(&self, s: Seg) -> f64 {
        if s.0 {
            self.y(s.3) - self.y(s.2)
        } else {
            self.x(s.3) - self.x(s.2)
        }
    }
    pub fn seg_ends(&self, s: Seg) -> [[f64; 2]; 2] {
        if s.0 {
            [
                [self.x(s.1), self.y(s.2)],
                [self.x(s.1), self.y(s.3)],
            ]
        } else {
            [
                [self.x(s.2), self.y(s.1)],
                [self.x(s.3), self.y(s.1)],
            ]
        }
    }

    fn push_kid(&mut self, p: usize, k: [i64; 4], du: u8, dv: u8) -> usize {
        let (lev, base, ord) = {
            let c = &self.cells[p];
            (c.lev, c.base, c.ord)
        };
        let id = self.cells.len();
        self.cells.push(Cell {
            k,
            lev: [lev[0] + du, lev[1] + dv],
            kids: vec![],
            parent: Some(p),
            base,
            ord,
            eid: usize::MAX,
        });
        self.cells[p].kids.push(id);
        id
    }
    pub fn refine(&mut self, c: usize, kind: Kind) {
        assert!(self.cells[c].kids.is_empty());
        let [x0, x1, y0, y1] = self.cells[c].k;
        assert!(x1 - x0 >= 2 && y1 - y0 >= 2);
        let (mx, my) = ((x0 + x1) / 2, (y0 + y1) / 2);
        match kind {
            Kind::T => {
                self.push_kid(c, [x0, mx, y0, my], 1, 1);
                self.push_kid(c, [mx, x1, y0, my], 1, 1);
                self.push_kid(c, [x0, mx, my, y1], 1, 1);
                self.push_kid(c, [mx, x1, my, y1], 1, 1);
            }
            Kind::U => {
                self.push_kid(c, [x0, mx, y0, y1], 1, 0);
                self.push_kid(c, [mx, x1, y0, y1], 1, 0);
            }
            Kind::V => {
                self.push_kid(c, [x0, x1, y0, my], 0, 1);
                self.push_kid(c, [x0, x1, my, y1], 0, 1);
            }
            Kind::Ux(i) => {
                self.refine(c, Kind::U);
                let k = self.cells[c].kids[i as usize];
                self.refine(k, Kind::V);
            }
            Kind::Vx(i) => {
                self.refine(c, Kind::V);
                let k = self.cells[c].kids[i as usize];
                self.refine(k, Kind::U);
            }
        }
    }

    /// Learn the element ids of the real mesh by following child lists (documented order) from the base cells.
    pub fn sync(&mut self, mesh: &Mesh) -> Res {
        ensure!(
            mesh.elems.len() == self.cells.len(),
            "elem-count",
            "the mesh has {} elements, {} expected",
            mesh.elems.len(),
            self.cells.len()
        );
        let mut stack: Vec<usize> = (0..self.n_base).collect();
        for b in 0..self.n_base {
            self.cells[b].eid = self.base_eid[b];
        }
        let mut seen = BTreeSet::new();
        while let Some(c) = stack.pop() {
            let eid = self.cells[c].eid;
            ensure!(eid < mesh.elems.len(), "elem-id", "child id {} does not exist", eid);
            ensure!(seen.insert(eid), "elem-id", "element {} has two parents", eid);
            ensure!(mesh.elems[eid].id == eid, "elem-id", "element at {} has id {}", eid, mesh.elems[eid].id);
            let real: Vec<usize> = mesh.elems[eid].child_ids().map(|v| v.to_vec()).unwrap_or_default();
            ensure!(
                real.len() == self.cells[c].kids.len(),
                "child-count",
                "element {} has {} children, {} expected",
                eid,
                real.len(),
                self.cells[c].kids.len()
            );
            for (i, k) in self.cells[c].kids.clone().into_iter().enumerate() {
                self.cells[k].eid = real[i];
                stack.push(k);
            }
        }
        Ok(())
    }

    /// All distinct cell sides, with the cells that have them on the low (below/left) and the high side.
    pub fn segments(&self) -> BTreeMap<Seg, [Vec<usize>; 2]> {
        let mut m: BTreeMap<Seg, [Vec<usize>; 2]> = BTreeMap::new();
        for c in 0..self.cells.len() {
            let s = self.sides(c);
            // the S side of a cell has the cell above it
            m.entry(s[0]).or_default()[1].push(c);
            m.entry(s[1]).or_default()[0].push(c);
            m.entry(s[2]).or_default()[1].push(c);
            m.entry(s[3]).or_default()[0].push(c);
        }
        m
    }
    pub fn halves(s: Seg) -> Option<[Seg; 2]> {
        let m = s.2 + s.3;
        if m % 2 != 0 {
            return None;
        }
        Some([(s.0, s.1, s.2, m / 2), (s.0, s.1, m / 2, s.3)])
    }
    /// Base-level sides that have no cell on one side
    pub fn boundary_base_segs(&self) -> BTreeSet<Seg> {
        let mut cnt: BTreeMap<Seg, usize> = BTreeMap::new();
        for c in 0..self.n_base {
            for s in self.sides(c) {
                *cnt.entry(s).or_insert(0) += 1;
            }
        }
        cnt.into_iter().filter(|(_, n)| *n == 1).map(|(s, _)| s).collect()
    }
    /// is the segment part of the outer boundary of the domain?
    pub fn on_boundary(bset: &BTreeSet<Seg>, s: Seg) -> bool {
        // base sides on one line do not overlap, so the last that begins early enough decides
        bset.range(..=(s.0, s.1, s.2, i64::MAX))
            .next_back()
            .map_or(false, |b| b.0 == s.0 && b.1 == s.1 && b.2 <= s.2 && b.3 >= s.3)
    }
    /// Which sides carry matched functions: the finest side pair that all of the segment supports.
    /// Returns segment -> [cell below/left, cell above/right].
    pub fn active(&self) -> BTreeMap<Seg, [usize; 2]> {
        let segs = self.segments();
        let mut out = BTreeMap::new();
        fn supported(segs: &BTreeMap<Seg, [Vec<usize>; 2]>, s: Seg) -> bool {
            segs.get(&s).map_or(false, |v| !v[0].is_empty() && !v[1].is_empty())
        }
        fn rec(m: &Model, segs: &BTreeMap<Seg, [Vec<usize>; 2]>, s: Seg, out: &mut BTreeMap<Seg, [usize; 2]>) {
            if let Some([a, b]) = Model::halves(s) {
                if supported(segs, a) && supported(segs, b) {
                    rec(m, segs, a, out);
                    rec(m, segs, b, out);
                    return;
                }
            }
            let v = &segs[&s];
            // the smallest cell (perpendicular to the side) on each side
            let thin = |c: &&usize| {
                let k = m.cells[**c].k;
                if s.0 {
                    k[1] - k[0]
                } else {
                    k[3] - k[2]
                }
            };
            let lo = *v[0].iter().min_by_key(thin).unwrap();
            let hi = *v[1].iter().min_by_key(thin).unwrap();
            out.insert(s, [lo, hi]);
        }
        let mut done = BTreeSet::new();
        for c in 0..self.n_base {
            for s in self.sides(c) {
                if done.insert(s) && supported(&segs, s) {
                    rec(self, &segs, s, &mut out);
                }
            }
        }
        // interior sides created by refinement, that are not part of a base side
        let mut roots: Vec<Seg> = Vec::new();
        for c in 0..self.cells.len() {
            let kids = &self.cells[c].kids;
            if kids.is_empty() {
                continue;
            }
            let [x0, x1, y0, y1] = self.cells[c].k;
            let (mx, my) = ((x0 + x1) / 2, (y0 + y1) / 2);
            if kids.len() == 4 {
                roots.push((true, mx, y0, my));
                roots.push((true, mx, my, y1));
                roots.push((false, my, x0, mx));
                roots.push((false, my, mx, x1));
            } else if self.cells[kids[0]].k[1] == mx && self.cells[kids[0]].k[3] == y1 {
                roots.push((true, mx, y0, y1));
            } else {
                roots.push((false, my, x0, x1));
            }
        }
        for s in roots {
            rec(self, &segs, s, &mut out);
        }
        out
    }

    /// numbers of leaves/levels for non-triviality rules
    pub fn max_level(&self) -> [u8; 2] {
        self.cells
            .iter()
            .fold([0, 0], |a, c| [a[0].max(c.lev[0]), a[1].max(c.lev[1])])
    }
    pub fn has_aniso(&self) -> bool {
        self.cells.iter().any(|c| c.kids.len() == 2)
    }
    /// is there a side with leaves of different size on the two sides (a hanging node)?
    pub fn has_hanging(&self) -> bool {
        let mut nodes: BTreeSet<[i64; 2]> = BTreeSet::new();
        let leaves = self.leaves();
        for c in &leaves {
            let k = self.cells[*c].k;
            for p in [[k[0], k[2]], [k[1], k[2]], [k[0], k[3]], [k[1], k[3]]] {
                nodes.insert(p);
            }
        }
        leaves.iter().any(|c| {
            let k = self.cells[*c].k;
            nodes.iter().any(|p| {
                ((p[0] == k[0] || p[0] == k[1]) && p[1] > k[2] && p[1] < k[3])
                    || ((p[1] == k[2] || p[1] == k[3]) && p[0] > k[0] && p[0] < k[1])
            })
        })
    }

    // -----------------------------------------------------------------------------------------
    // comparisons with the real mesh (after sync)
    // -----------------------------------------------------------------------------------------

    /// C01: geometry, links, levels, parametric ranges and materials of every element
    pub fn check_geometry(&self, mesh: &Mesh) -> Res {
        let tol = self.tol();
        let close = |a: f64, b: f64| (a - b).abs() <= tol;
        for (ci, c) in self.cells.iter().enumerate() {
            let e = &mesh.elems[c.eid];
            let [x0, x1, y0, y1] = self.rect(ci);
            let pts = mesh.elem_points(c.eid).map_err(|e| Fail { sig: "elem-points".into(), msg: e.to_string() })?;
            for (i, (ex, ey)) in [(x0, y0), (x1, y0), (x0, y1), (x1, y1)].iter().enumerate() {
                ensure!(
                    close(pts[i].x, *ex) && close(pts[i].y, *ey),
                    "corner",
                    "element {} corner {} is at ({}, {}), ({}, {}) expected",
                    c.eid, i, pts[i].x, pts[i].y, ex, ey
                );
            }
            let d = mesh.elem_diag_points(c.eid).map_err(|e| Fail { sig: "diag".into(), msg: e.to_string() })?;
            ensure!(
                close(d[0].x, x0) && close(d[0].y, y0) && close(d[1].x, x1) && close(d[1].y, y1),
                "diag",
                "diagonal points of element {} are wrong",
                c.eid
            );
            ensure!(
                [e.h_levels.u, e.h_levels.v] == c.lev,
                "levels",
                "element {} has levels {:?}, {:?} expected",
                c.eid, e.h_levels, c.lev
            );
            let parent = c.parent.map(|p| self.cells[p].eid);
            ensure!(e.parent_id() == parent, "parent", "element {} has parent {:?}, {:?} expected", c.eid, e.parent_id(), parent);
            ensure!(e.has_children() == !c.kids.is_empty(), "has-children", "element {} has_children is {}", c.eid, e.has_children());
            let m = e.get_materials();
            let em = self.mats[c.base];
            ensure!(
                m.eps_rel.re == em[0] && m.eps_rel.im == em[1] && m.mu_rel.re == em[2] && m.mu_rel.im == em[3],
                "materials",
                "element {} has materials {:?}, {:?} expected",
                c.eid, m, em
            );
            // parametric ranges against the base cell and every ancestor
            let rel = |anc: usize| -> [[f64; 2]; 2] {
                let a = self.cells[anc].k;
                let k = c.k;
                let f = |v: i64, lo: i64, hi: i64| -1.0 + 2.0 * ((v - lo) as f64) / ((hi - lo) as f64);
                [
                    [f(k[0], a[0], a[1]), f(k[1], a[0], a[1])],
                    [f(k[2], a[2], a[3]), f(k[3], a[2], a[3])],
                ]
            };
            let cmp = |a: [[f64; 2]; 2], b: [[f64; 2]; 2]| {
                (0..2).all(|i| (0..2).all(|j| (a[i][j] - b[i][j]).abs() < 1e-12))
            };
            let pr = e.parametric_range();
            ensure!(cmp(pr, rel(c.base)), "param-range", "element {} covers {:?} of its base cell, {:?} expected", c.eid, pr, rel(c.base));
            let anc = self.ancestors(ci);
            let stack: Vec<usize> = e.loc_stack().iter().map(|(id, _)| *id).collect();
            let exp: Vec<usize> = anc.iter().rev().map(|a| self.cells[*a].eid).collect();
            ensure!(stack == exp, "ancestor-stack", "element {} has ancestors {:?}, {:?} expected", c.eid, stack, exp);
            // where the path from the base element to this one turns
            let mut path: Vec<usize> = anc.iter().rev().copied().collect();
            path.push(ci);
            for ((_, loc), w) in e.loc_stack().iter().zip(path.windows(2)) {
                let (a, k) = (self.cells[w[0]].k, self.cells[w[1]].k);
                let idx = self.cells[w[0]].kids.iter().position(|q| *q == w[1]).unwrap();
                let f = |v: i64, lo: i64, hi: i64| -1.0 + 2.0 * ((v - lo) as f64) / ((hi - lo) as f64);
                let ex = [[f(k[0], a[0], a[1]), f(k[1], a[0], a[1])], [f(k[2], a[2], a[3]), f(k[3], a[2], a[3])]];
                let got = loc.sub_range([[-1.0, 1.0], [-1.0, 1.0]]);
                ensure!(loc.index() == idx && got == ex, "location", "element {} names {:?} (child {}, range {:?}) within its ancestor {}, child {} and {:?} expected", c.eid, loc, loc.index(), got, self.cells[w[0]].eid, idx, ex);
            }
            for a in anc {
                let r = e.relative_parametric_range(self.cells[a].eid);
                ensure!(cmp(r, rel(a)), "param-range", "element {} covers {:?} of its ancestor {}, {:?} expected", c.eid, r, self.cells[a].eid, rel(a));
            }
        }
        // direct statement of tiling on the real mesh alone
        let (mut area, mut unsure) = (0.0, 0.0);
        for e in mesh.elems.iter().filter(|e| !e.has_children()) {
            let d = mesh.elem_diag_points(e.id).unwrap();
            let (w, h) = (d[1].x - d[0].x, d[1].y - d[0].y);
            area += w * h;
            // what rounding of the coordinates may make of this element's area
            unsure += d[0].x.abs().max(d[1].x.abs()) * h.abs() + d[0].y.abs().max(d[1].y.abs()) * w.abs();
        }
        let base: f64 = (0..self.n_base)
            .map(|b| {
                let r = self.rect(b);
                (r[1] - r[0]) * (r[3] - r[2])
            })
            .sum();
        ensure!((area - base).abs() <= 1e-9 * base + 16.0 * f64::EPSILON * unsure, "area", "leaf elements cover area {}, the domain has {}", area, base);
        Ok(())
    }

    /// C02: nodes and edges
    pub fn check_topology(&self, mesh: &Mesh) -> Res {
        let tol = self.tol();
        let bset = self.boundary_base_segs();
        // nodes <-> points
        let mut node_of: BTreeMap<[i64; 2], usize> = BTreeMap::new();
        for c in self.cells.iter() {
            let e = &mesh.elems[c.eid];
            let k = c.k;
            for (i, p) in [[k[0], k[2]], [k[1], k[2]], [k[0], k[3]], [k[1], k[3]]].iter().enumerate() {
                let n = e.nodes[i];
                ensure!(n < mesh.nodes.len(), "node-id", "element {} names node {}", c.eid, n);
                match node_of.get(p) {
                    Some(m) => ensure!(*m == n, "node-shared", "two nodes ({} and {}) at one corner of element {}", m, n, c.eid),
                    None => {
                        node_of.insert(*p, n);
                    }
                }
            }
        }
        let used: BTreeSet<usize> = node_of.values().copied().collect();
        ensure!(used.len() == node_of.len(), "node-shared", "one node is used at two places");
        ensure!(
            mesh.nodes.len() == used.len() + self.orphans.len(),
            "node-count",
            "the mesh has {} nodes, {} expected",
            mesh.nodes.len(),
            used.len() + self.orphans.len()
        );
        for (p, n) in node_of.iter() {
            let nd = &mesh.nodes[*n];
            ensure!(nd.id == *n, "node-id", "node at {} has id {}", n, nd.id);
            ensure!(
                (nd.coords.x - self.x(p[0])).abs() <= tol && (nd.coords.y - self.y(p[1])).abs() <= tol,
                "node-coords",
                "node {} is at {}",
                n,
                nd.coords
            );
            let on_b = Model::on_boundary(&bset, (true, p[0], p[1], p[1])) || Model::on_boundary(&bset, (false, p[1], p[0], p[0]));
            ensure!(nd.boundary == on_b, "node-boundary", "node {} at {} has boundary flag {}, {} expected", n, nd.coords, nd.boundary, on_b);
        }
        // edges <-> cell sides
        let segs = self.segments();
        let mut edge_of: BTreeMap<Seg, usize> = BTreeMap::new();
        for (ci, c) in self.cells.iter().enumerate() {
            let e = &mesh.elems[c.eid];
            for (i, s) in self.sides(ci).iter().enumerate() {
                let id = e.edges[i];
                ensure!(id < mesh.edges.len(), "edge-id", "element {} names edge {}", c.eid, id);
                match edge_of.get(s) {
                    Some(m) => ensure!(*m == id, "edge-shared", "two edges ({} and {}) on one segment of element {}", m, id, c.eid),
                    None => {
                        edge_of.insert(*s, id);
                    }
                }
            }
        }
        let used: BTreeSet<usize> = edge_of.values().copied().collect();
        ensure!(used.len() == edge_of.len(), "edge-shared", "one edge is used at two places");
        ensure!(mesh.edges.len() == used.len(), "edge-count", "the mesh has {} edges, {} expected", mesh.edges.len(), used.len());
        for (s, id) in edge_of.iter() {
            let ed = &mesh.edges[*id];
            ensure!(ed.id == *id, "edge-id", "edge at {} has id {}", id, ed.id);
            let ends: [usize; 2] = if s.0 {
                [node_of[&[s.1, s.2]], node_of[&[s.1, s.3]]]
            } else {
                [node_of[&[s.2, s.1]], node_of[&[s.3, s.1]]]
            };
            ensure!(ed.nodes == ends, "edge-nodes", "edge {} has nodes {:?}, {:?} expected", id, ed.nodes, ends);
            ensure!((ed.dir == ParaDir::V) == s.0, "edge-dir", "edge {} has direction {:?}", id, ed.dir);
            let len = self.seg_len(*s);
            ensure!((ed.length - len).abs() <= tol.max(1e-12 * len), "edge-length", "edge {} has length {}, {} expected", id, ed.length, len);
            let on_b = Model::on_boundary(&bset, *s);
            ensure!(ed.boundary == on_b, "edge-boundary", "edge {} has boundary flag {}, {} expected", id, ed.boundary, on_b);
            let sides = &segs[s];
            ensure!(
                ed.is_boundary() == (sides[0].is_empty() || sides[1].is_empty()),
                "edge-one-sided",
                "edge {}: elements on one side only is reported as {}",
                id,
                ed.is_boundary()
            );
            // the halves exist exactly when the edge was split
            let halves = Model::halves(*s).and_then(|[p, q]| match (edge_of.get(&p), edge_of.get(&q)) {
                (Some(a), Some(b)) => Some([*a, *b]),
                _ => None,
            });
            let kids: Option<Vec<usize>> = ed.child_ids().map(|v| v.to_vec());
            match (&halves, &kids) {
                (None, None) => {
                    ensure!(!ed.has_children() && ed.child_node_id().is_none(), "edge-children", "edge {} is not split but has a child node", id);
                }
                (Some(h), Some(k)) => {
                    let exp = vec![h[0], h[1]];
                    ensure!(*k == exp, "edge-children", "edge {} has children {:?}, {:?} expected", id, k, exp);
                    ensure!(ed.has_children(), "edge-children", "edge {} has_children is false", id);
                    let mid = (s.2 + s.3) / 2;
                    let mn = if s.0 { node_of[&[s.1, mid]] } else { node_of[&[mid, s.1]] };
                    ensure!(ed.child_node_id() == Some(mn), "edge-mid-node", "edge {} has middle node {:?}, {} expected", id, ed.child_node_id(), mn);
                    for kid in k {
                        ensure!(mesh.edges[*kid].parent_id() == Some(*id), "edge-parent", "edge {} has parent {:?}, {} expected", kid, mesh.edges[*kid].parent_id(), id);
                    }
                }
                _ => return fail("edge-children", format!("edge {} has children {:?}, {:?} expected", id, kids, halves)),
            }
        }
        // roots of the edge tree
        let with_parent: BTreeSet<usize> = mesh.edges.iter().filter_map(|e| e.child_ids()).flat_map(|v| v.to_vec()).collect();
        for e in mesh.edges.iter() {
            ensure!(e.parent_id().is_some() == with_parent.contains(&e.id), "edge-parent", "edge {} has parent {:?} but is nobody's child", e.id, e.parent_id());
        }
        Ok(())
    }

    /// C02: the elements that every edge and node knows of
    pub fn check_incidence(&self, mesh: &Mesh) -> Res {
        let mut at_node: BTreeMap<usize, [BTreeSet<usize>; 4]> = BTreeMap::new();
        let mut at_edge: BTreeMap<usize, [BTreeSet<usize>; 2]> = BTreeMap::new();
        for c in self.cells.iter() {
            let e = &mesh.elems[c.eid];
            for i in 0..4 {
                at_node.entry(e.nodes[i]).or_default()[i].insert(c.eid);
                at_edge.entry(e.edges[i]).or_default()[if i % 2 == 0 { 1 } else { 0 }].insert(c.eid);
            }
        }
        for n in mesh.nodes.iter() {
            let v: serde_json::Value = match serde_json::from_str(&n.to_json().dump()) {
                Ok(v) => v,
                Err(e) => return fail("node-json", format!("node {}: {}", n.id, e)),
            };
            check_node_json(&v, at_node.get(&n.id), n.id)?;
        }
        for e in mesh.edges.iter() {
            let v: serde_json::Value = match serde_json::from_str(&e.to_json().dump()) {
                Ok(v) => v,
                Err(x) => return fail("edge-json", format!("edge {}: {}", e.id, x)),
            };
            check_edge_json(&v, at_edge.get(&e.id), e.id, mesh)?;
        }
        Ok(())
    }

    /// C05: the active pair of every edge
    pub fn check_activation(&self, mesh: &Mesh) -> Res {
        let act = self.active();
        let mut by_seg: BTreeMap<usize, (Seg, [usize; 2])> = BTreeMap::new();
        for (s, p) in act {
            let e = &mesh.elems[self.cells[p[0]].eid];
            let idx = if s.0 { 3 } else { 1 };
            by_seg.insert(e.edges[idx], (s, p));
        }
        for ed in mesh.edges.iter() {
            let real = ed.active_elem_pair();
            let exp = by_seg.get(&ed.id).map(|(_, p)| [self.cells[p[0]].eid, self.cells[p[1]].eid]);
            ensure!(real == exp, "active-pair", "edge {} has active pair {:?}, {:?} expected", ed.id, real, exp);
            if let Some([a, b]) = exp {
                ensure!(
                    ed.other_active_elem_id(a) == Some(b) && ed.other_active_elem_id(b) == Some(a),
                    "active-other",
                    "edge {}: the other active element is wrong",
                    ed.id
                );
            } else {
                ensure!(ed.other_active_elem_id(mesh.elems[0].id) == None, "active-other", "edge {} is not active", ed.id);
            }
        }
        Ok(())
    }
}

fn ids(v: &serde_json::Value) -> Option<Vec<usize>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|x| x as usize)).collect()
}
pub fn check_node_json(v: &serde_json::Value, exp: Option<&[BTreeSet<usize>; 4]>, id: usize) -> Res {
    let empty: [BTreeSet<usize>; 4] = Default::default();
    let exp = exp.unwrap_or(&empty);
    for i in 0..4 {
        let l = match ids(&v["elems"][i]) {
            Some(l) => l,
            None => return fail("node-elems", format!("node {} has no list of elements {}", id, i)),
        };
        let set: BTreeSet<usize> = l.iter().copied().collect();
        ensure!(set == exp[i] && set.len() == l.len(), "node-elems", "node {} is corner {} of elements {:?}, {:?} expected", id, i, l, exp[i]);
    }
    Ok(())
}
pub fn check_edge_json(v: &serde_json::Value, exp: Option<&[BTreeSet<usize>; 2]>, id: usize, mesh: &Mesh) -> Res {
    let empty: [BTreeSet<usize>; 2] = Default::default();
    let exp = exp.unwrap_or(&empty);
    for i in 0..2 {
        let l = match v["elems"][i].as_array() {
            Some(l) => l,
            None => return fail("edge-elems", format!("edge {} has no list of elements {}", id, i)),
        };
        let mut set = BTreeSet::new();
        for x in l {
            let (c, k) = match (x["cell_id"].as_u64(), ids(&x["level_key"])) {
                (Some(c), Some(k)) => (c as usize, k),
                _ => return fail("edge-elems", format!("edge {}: malformed list of elements {}", id, x)),
            };
            ensure!(set.insert(c), "edge-elems", "edge {} lists element {} twice", id, c);
            ensure!(c < mesh.elems.len(), "edge-elems", "edge {} lists element {}", id, c);
            let r = mesh.elems[c].h_levels.edge_ranking(mesh.edges[id].dir);
            ensure!(k == vec![r[0] as usize, r[1] as usize], "edge-level", "edge {}: element {} is listed at level {:?}, {:?} expected", id, c, k, r);
        }
        ensure!(set == exp[i], "edge-elems", "edge {} has elements {:?} on side {}, {:?} expected", id, set, i, exp[i]);
    }
    Ok(())
}
