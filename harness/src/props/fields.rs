//! C16, C17: field evaluation and VTK output.
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use crate::refmath::*;
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_domain::domain::fields::UniformFieldError;
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct Vtk {
    pub points: Vec<[f64; 2]>,
    pub z: Vec<f64>,
    pub cells: Vec<Vec<usize>>,
    pub cells_size: usize,
    pub types: Vec<usize>,
    pub n_data: usize,
    pub fields: BTreeMap<String, Vec<f64>>,
    pub order: Vec<String>,
}
/// strict reader for the legacy ASCII format
pub fn parse_vtk(text: &str) -> Result<Vtk, String> {
    let mut lines = text.lines();
    let l0 = lines.next().unwrap_or("");
    if !l0.starts_with("# vtk DataFile Version") {
        return Err(format!("first line {:?}", l0));
    }
    let _title = lines.next().ok_or("no title")?;
    let rest: String = lines.collect::<Vec<_>>().join("\n");
    let mut t = rest.split_whitespace().peekable();
    let want = |w: &str, t: &mut std::iter::Peekable<std::str::SplitWhitespace>| -> Result<(), String> {
        match t.next() {
            Some(x) if x == w => Ok(()),
            o => Err(format!("{:?} expected, found {:?}", w, o)),
        }
    };
    fn num<T: std::str::FromStr>(t: &mut std::iter::Peekable<std::str::SplitWhitespace>) -> Result<T, String> {
        let s = t.next().ok_or("end of file")?;
        s.parse::<T>().map_err(|_| format!("number expected, found {:?}", s))
    }
    want("ASCII", &mut t)?;
    want("DATASET", &mut t)?;
    want("UNSTRUCTURED_GRID", &mut t)?;
    want("POINTS", &mut t)?;
    let np: usize = num(&mut t)?;
    want("double", &mut t)?;
    let mut v = Vtk { points: vec![], z: vec![], cells: vec![], cells_size: 0, types: vec![], n_data: 0, fields: BTreeMap::new(), order: vec![] };
    for _ in 0..np {
        v.points.push([num(&mut t)?, num(&mut t)?]);
        v.z.push(num(&mut t)?);
    }
    want("CELLS", &mut t)?;
    let nc: usize = num(&mut t)?;
    v.cells_size = num(&mut t)?;
    for _ in 0..nc {
        let k: usize = num(&mut t)?;
        let mut c = Vec::new();
        for _ in 0..k {
            c.push(num(&mut t)?);
        }
        v.cells.push(c);
    }
    want("CELL_TYPES", &mut t)?;
    let nt: usize = num(&mut t)?;
    for _ in 0..nt {
        v.types.push(num(&mut t)?);
    }
    want("POINT_DATA", &mut t)?;
    v.n_data = num(&mut t)?;
    while t.peek().is_some() {
        want("SCALARS", &mut t)?;
        let name = t.next().ok_or("no name")?.to_string();
        want("double", &mut t)?;
        want("1", &mut t)?;
        want("LOOKUP_TABLE", &mut t)?;
        want("default", &mut t)?;
        let mut vals = Vec::new();
        for _ in 0..v.n_data {
            vals.push(num(&mut t)?);
        }
        v.order.push(name.clone());
        if v.fields.insert(name.clone(), vals).is_some() {
            return Err(format!("{} occurs twice", name));
        }
    }
    Ok(v)
}

pub struct Img {
    pub leaf_eids: Vec<usize>,
    pub points: Vec<[f64; 2]>,
    /// [leaf][x index][y index] flattened
    pub xy: Vec<[f64; 2]>,
}
pub fn leaf_eids(d: &Domain) -> Vec<usize> {
    d.mesh.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect()
}
/// evaluate a coefficient vector with the library and read the values back from the VTK file
pub fn sample_xy(d: &Domain, dens: [usize; 2], sol: Vec<f64>) -> Result<Img, Fail> {
    sample_scaled(d, dens, sol, 1.0)
}
/// the values are multiplied by `by` before they are written (the file has a fixed number of decimals)
pub fn sample_scaled(d: &Domain, dens: [usize; 2], sol: Vec<f64>, by: f64) -> Result<Img, Fail> {
    sample_with::<HierPoly>(d, dens, sol, by)
}
pub fn sample_with<S: HierCurlBasisFnSpace>(d: &Domain, dens: [usize; 2], sol: Vec<f64>, by: f64) -> Result<Img, Fail> {
    let r = guarded(|| -> Result<Vtk, Fail> {
        let mut fs = UniformFieldSpace::new(d, dens);
        let names = fs.xy_fields::<S>("E", sol).map_err(|e| Fail { sig: "fields-refused".into(), msg: e.to_string() })?;
        ensure!(names[0] == "E_x" && names[1] == "E_y", "names", "field names {:?}", names);
        if by != 1.0 {
            for n in names.iter() {
                fs.map_to_quantity(n, n, |x| x * by).map_err(|e| Fail { sig: "fields-refused".into(), msg: e.to_string() })?;
            }
        }
        let f = TmpFile::new("vtk");
        fs.print_all_to_vtk(f.s()).map_err(|e| Fail { sig: "vtk-io".into(), msg: e.to_string() })?;
        let text = std::fs::read_to_string(&f.0).map_err(|e| Fail { sig: "vtk-io".into(), msg: e.to_string() })?;
        parse_vtk(&text).map_err(|e| Fail { sig: "vtk-format".into(), msg: e })
    });
    let v = match r {
        Ok(v) => v?,
        Err(p) => return fail("fields-panic", format!("field evaluation panicked: {}", p)),
    };
    let leaf_eids = leaf_eids(d);
    let n = leaf_eids.len() * dens[0] * dens[1];
    let (fx, fy) = match (v.fields.get("E_x"), v.fields.get("E_y")) {
        (Some(a), Some(b)) => (a, b),
        _ => return fail("vtk-fields", format!("fields in file: {:?}", v.order)),
    };
    ensure!(v.points.len() == n && fx.len() == n && fy.len() == n, "vtk-count", "{} points and {} values, {} expected", v.points.len(), fx.len(), n);
    Ok(Img { leaf_eids, points: v.points.clone(), xy: fx.iter().zip(fy.iter()).map(|(a, b)| [*a, *b]).collect() })
}

// ---------------------------------------------------------------------------------------------
// shared pieces
// ---------------------------------------------------------------------------------------------
pub fn coefficients(n: usize, salt: u32) -> Vec<f64> {
    let mut s = (salt as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x55;
    (0..n)
        .map(|_| {
            let r = lcg(&mut s);
            // some zeros, some ones, the rest in -1..1
            match r % 10 {
                0 => 0.0,
                1 => 1.0,
                _ => (lcg(&mut s) % 200001) as f64 / 100000.0 - 1.0,
            }
        })
        .collect()
}

/// the grid of one unrefined element
fn grid(lo: f64, hi: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| lo + (hi - lo) * (i as f64) / ((n - 1) as f64)).collect()
}

pub struct Reference<'a> {
    m: &'a Model,
    funs: Vec<Vec<Fun>>,
    by_cell: BTreeMap<usize, Vec<(usize, Fun)>>,
    leaves: Vec<usize>,
}
impl<'a> Reference<'a> {
    pub fn new(d: &Domain, m: &'a Model) -> Result<Self, Fail> {
        let funs = super::dof::dof_functions(d, m)?;
        let mut by_cell: BTreeMap<usize, Vec<(usize, Fun)>> = BTreeMap::new();
        for (k, v) in funs.iter().enumerate() {
            for f in v {
                by_cell.entry(f.cell).or_default().push((k, *f));
            }
        }
        let by_eid = m.by_eid();
        Ok(Reference { m, funs, by_cell, leaves: leaf_eids(d).iter().map(|e| by_eid[e]).collect() })
    }
    /// field values on the grid of every leaf, [leaf][ix][iy] flattened, and the size of the terms that were added
    fn xy(&self, dens: [usize; 2], sol: &[f64]) -> (Vec<[f64; 2]>, f64) {
        self.xy_with(hier_poly, dens, sol)
    }
    pub fn xy_with(&self, shapes: Shapes, dens: [usize; 2], sol: &[f64]) -> (Vec<[f64; 2]>, f64) {
        let mut out = Vec::new();
        let mut size: f64 = 0.0;
        // (all points of the grid can be zeros of a function)
        for (c, list) in self.by_cell.iter() {
            let r = self.m.rect(*c);
            for (k, f) in list {
                let (val, _) = field_with(shapes, self.m, f, r[0] + 0.377 * (r[1] - r[0]), r[2] + 0.291 * (r[3] - r[2]));
                size = size.max((sol[*k] * val[0]).abs()).max((sol[*k] * val[1]).abs());
            }
        }
        for l in self.leaves.iter() {
            let r = self.m.rect(*l);
            let mut cells = self.m.ancestors(*l);
            cells.push(*l);
            for x in grid(r[0], r[1], dens[0]) {
                for y in grid(r[2], r[3], dens[1]) {
                    let mut v = [0.0, 0.0];
                    for c in cells.iter() {
                        if let Some(list) = self.by_cell.get(c) {
                            for (k, f) in list {
                                let (val, _) = field_with(shapes, self.m, f, x, y);
                                for q in 0..2 {
                                    v[q] += sol[*k] * val[q];
                                    size = size.max((sol[*k] * val[q]).abs());
                                }
                            }
                        }
                    }
                    out.push(v);
                }
            }
        }
        (out, size)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldCase {
    pub mesh: MeshCase,
    pub dens: [u8; 2],
    pub salts: [u32; 2],
    /// factors of the linear combination, in tenths
    pub ab: [i8; 2],
    /// how far a wrong vector is from the right length
    pub off: i8,
    /// the vectors are multiplied by this power of two
    #[serde(default)]
    pub scale: i16,
}
fn scales() -> BoxedStrategy<i16> {
    prop_oneof![3 => Just(0i16), 1 => -40i16..40, 1 => prop_oneof![-300i16..-40, 40i16..300]].boxed()
}
fn field_strat(t: Tier) -> BoxedStrategy<FieldCase> {
    (
        prop_oneof![
            3 => mesh_strategy(3, 2, t.pick(4, 5), 2, 5),
            2 => (base_strategy(2, 1), deep_strategy(t.pick(5, 7)), proptest::collection::vec([1u8..=4, 1u8..=4], 1..5)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }),
            1 => (base_strategy(1, 2), hops_strategy(1, 1), proptest::collection::vec([1u8..=10, 1u8..=10], 1..4)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords }),
        ],
        [2u8..10, 2u8..10],
        [any::<u32>(), any::<u32>()],
        [-20i8..20, -20i8..20],
        prop_oneof![Just(1i8), Just(-1), -9i8..30],
        scales(),
    )
        .prop_map(|(mesh, dens, salts, ab, off, scale)| FieldCase { mesh, dens, salts, ab, off, scale })
        .boxed()
}
fn field_case(mesh: BoxedStrategy<MeshCase>, dens: std::ops::Range<u8>) -> BoxedStrategy<FieldCase> {
    (mesh, [dens.clone(), dens], [any::<u32>(), any::<u32>()], [-20i8..20, -20i8..20], prop_oneof![Just(1i8), Just(-1), -9i8..30], scales())
        .prop_map(|(mesh, dens, salts, ab, off, scale)| FieldCase { mesh, dens, salts, ab, off, scale })
        .boxed()
}
fn field_ladder(t: Tier) -> BoxedStrategy<FieldCase> {
    field_case(
        (base_strategy(2, 2), ladder_strategy(t.pick(12, 14)), proptest::collection::vec([1u8..=2, 1u8..=2], 1..4))
            .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
            .boxed(),
        2..4,
    )
}
fn field_grid(t: Tier) -> BoxedStrategy<FieldCase> {
    field_case(
        (base_strategy(2, 1), hops_strategy(1, 1), proptest::collection::vec(prop_oneof![3 => [1u8..=4, 1u8..=4], 1 => [1u8..=20, 1u8..=20]], 1..3))
            .prop_map(|(base, ops, ords)| MeshCase { base, ops, ords })
            .boxed(),
        2..t.pick(48, 90),
    )
}
const FCAPS: Caps = Caps { leaves: 12, level: 4 };

fn c16_check(c: &FieldCase, obs: &mut Obs) -> Res {
    c16_caps(c, obs, FCAPS)
}
fn c16_caps(c: &FieldCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.mesh.build(caps)?;
    describe(&m, obs);
    let d = super::dof::make_domain(mesh)?;
    let n = d.dofs.len();
    let dens = c.dens.map(|x| x as usize);
    let r = Reference::new(&d, &m)?;
    let s = [coefficients(n, c.salts[0]), coefficients(n, c.salts[1])];
    let ab = c.ab.map(|x| x as f64 / 10.0);
    let comb: Vec<f64> = (0..n).map(|k| ab[0] * s[0][k] + ab[1] * s[1][k]).collect();
    let (exp, size) = r.xy(dens, &s[0]);
    let up = 2f64.powi(c.scale as i32);
    let sample = |v: &[f64]| sample_scaled(&d, dens, v.iter().map(|x| x * up).collect(), 1.0 / up);
    if c.scale != 0 {
        obs.label(if c.scale < 0 { "small-coefficients" } else { "large-coefficients" });
    }
    let img = sample(&s[0])?;
    let rounding = m.rounding();
    let tol = |size: f64| (1e-9 + rounding) * size + 1e-14;
    // the points are those of the unrefined elements
    for (li, l) in r.leaves.iter().enumerate() {
        let q = m.rect(*l);
        let (gx, gy) = (grid(q[0], q[1], dens[0]), grid(q[2], q[3], dens[1]));
        for a in 0..dens[0] {
            for b in 0..dens[1] {
                let at = (li * dens[0] + a) * dens[1] + b;
                let (p, v) = (img.points[at], img.xy[at]);
                ensure!((p[0] - gx[a]).abs() <= 2e-10 + m.tol() && (p[1] - gy[b]).abs() <= 2e-10 + m.tol(), "point", "sample {} of element {} is at {:?}, ({}, {}) expected", at, m.cells[*l].eid, p, gx[a], gy[b]);
                for k in 0..2 {
                    ensure!(
                        (v[k] - exp[at][k]).abs() <= tol(size),
                        "field-value",
                        "{} component in element {} at {:?} is {}, the expansion gives {}",
                        ["x", "y"][k], m.cells[*l].eid, p, v[k], exp[at][k]
                    );
                }
            }
        }
    }
    // linearity
    let i1 = sample(&s[1])?;
    let i2 = sample(&comb)?;
    let (_, size1) = r.xy(dens, &s[1]);
    let t = tol(4.0 * (size + size1)) + 1e-13;
    for at in 0..exp.len() {
        for k in 0..2 {
            let e = ab[0] * img.xy[at][k] + ab[1] * i1.xy[at][k];
            ensure!((i2.xy[at][k] - e).abs() <= t, "linear", "sample {}: the field of the combination is {}, the combination of the fields is {}", at, i2.xy[at][k], e);
        }
    }
    // wrong lengths
    let wrong = if c.off == 0 { n + 1 } else { (n as i64 + c.off as i64).max(0) as usize };
    if wrong != n {
        let bad = vec![0.5; wrong];
        let res = guarded(|| {
            let mut fs = UniformFieldSpace::new(&d, dens);
            let r = fs.xy_fields::<HierPoly>("E", bad);
            (r, fs.map_to_quantity("E_x", "q", |x| *x).is_ok() || fs.map_to_quantity("E_y", "q", |x| *x).is_ok())
        });
        match res {
            Ok((Err(UniformFieldError::MismatchedSolutionSize(a, b)), left)) => {
                ensure!(a == n && b == wrong, "wrong-length", "a vector of {} for {} degrees of freedom is refused with ({}, {})", wrong, n, a, b);
                ensure!(!left, "wrong-length", "a refused vector left a field behind");
            }
            Ok((Err(e), _)) => return fail("wrong-length", format!("a vector of {} for {} degrees of freedom is refused with {:?}", wrong, n, e)),
            Ok((Ok(_), _)) => return fail("wrong-length", format!("a vector of {} for {} degrees of freedom is accepted", wrong, n)),
            Err(p) => return fail("wrong-length", format!("a vector of {} for {} degrees of freedom panics: {}", wrong, n, p)),
        }
        obs.label(if wrong > n { "too-long" } else { "too-short" });
    }
    if r.funs.iter().flatten().any(|f| !m.is_leaf(f.cell)) {
        obs.label("function-of-coarser-element");
    }
    if dens[0] != dens[1] {
        obs.label("unequal-densities");
    }
    obs.add("samples", exp.len() as u64);
    obs.nontrivial_if(m.cells.len() > 1 && n > 2);
    Ok(())
}
pub fn c16() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "values",
                rule: "random hp-refined mesh (mixed orders, hanging nodes, functions of coarser elements), densities 2-9 per direction, random coefficients; the values printed to the VTK file are compared with the expansion evaluated independently at every sample, with the combination of two such fields, and a vector of wrong length is tried; non-trivial: more than one element and more than 2 degrees of freedom",
                strat: field_strat, check: c16_check, quick: 1200, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "ladder",
                rule: "as 'values', after up to 12 rounds of refining every element around one point (levels up to 12), densities 2-3; non-trivial as 'values'",
                strat: field_ladder, check: |c, o| c16_caps(c, o, Caps { leaves: 70, level: 14 }), quick: 1000, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "large",
                rule: "as 'values', on up to 10x10 base elements, or with up to 150 unrefined ones; densities 2-3; non-trivial as 'values'",
                strat: |_t| field_case(large_strategy(10, 5, 6, 2), 2..4), check: |c, o| c16_caps(c, o, Caps { leaves: 150, level: 6 }), quick: 600, thorough: 20000, serial: false,
            }),
            Box::new(Part {
                name: "chain",
                rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31); non-trivial as 'values'",
                strat: |_t| field_case(chain_mesh(2), 2..4), check: |c, o| c16_caps(c, o, CHAIN_CAPS), quick: 100, thorough: 4000, serial: false,
            }),
            Box::new(Part {
                name: "huge",
                rule: "as 'values', on 24x24 to 59x59 base elements with up to 5000 unrefined elements; densities 2-3; non-trivial as 'values'",
                strat: |_t| field_case(huge_mesh(24..60, 3, 2), 2..4), check: |c, o| c16_caps(c, o, HUGE_CAPS), quick: 16, thorough: 400, serial: false,
            }),
            Box::new(Part {
                name: "giant",
                rule: "as 'values', on about 190x190 base elements (more than 65536 degrees of freedom); densities 2-3; non-trivial as 'values'",
                strat: |_t| field_case(huge_mesh(186..200, 2, 2), 2..4), check: |c, o| c16_caps(c, o, GIANT_CAPS), quick: 1, thorough: 8, serial: true,
            }),
            Box::new(Part {
                name: "grids",
                rule: "as 'values', on up to 4 elements with orders up to 20 and densities 2-47 (89 thorough) per direction; non-trivial as 'values'",
                strat: field_grid, check: |c, o| c16_caps(c, o, Caps { leaves: 4, level: 2 }), quick: 40, thorough: 1500, serial: false,
            }),
        ],
        assumptions: vec!["values are read back from files that carry 15 decimals"],
    }
}

// ---------------------------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------------------------
const VECS: [&str; 3] = ["A", "B", "A_x"];
const NAMES: [&str; 9] = ["A_x", "A_y", "B_x", "B_y", "A_x_x", "Q1", "Q2", "Q3", "nowhere"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Xy { name: u8, salt: u32 },
    Map { from: u8, to: u8, f: u8 },
    Expr { a: u8, b: u8, to: u8, f: u8 },
    Print { which: Vec<u8>, existing: bool },
    PrintAll,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VtkCase {
    pub mesh: MeshCase,
    pub dens: [u8; 2],
    pub ops: Vec<FOp>,
}
fn density() -> BoxedStrategy<u8> {
    prop_oneof![12 => 2u8..8, 1 => 8u8..30].boxed()
}
fn vtk_strat(t: Tier) -> BoxedStrategy<VtkCase> {
    let op = prop_oneof![
        3 => (0u8..3, any::<u32>()).prop_map(|(name, salt)| FOp::Xy { name, salt }),
        4 => (0u8..9, 0u8..9, prop_oneof![9 => 0u8..9, 2 => 9u8..12]).prop_map(|(from, to, f)| FOp::Map { from, to, f }),
        4 => (0u8..9, 0u8..9, 0u8..9, 0u8..6).prop_map(|(a, b, to, f)| FOp::Expr { a, b, to, f }),
        2 => (proptest::collection::vec(0u8..9, 0..4), any::<bool>()).prop_map(|(which, existing)| FOp::Print { which, existing }),
        1 => Just(FOp::PrintAll),
    ];
    (mesh_strategy(3, 2, t.pick(3, 5), 2, 3), [density(), density()], any::<u32>(), proptest::collection::vec(op, 1..12))
        .prop_map(|(mesh, dens, salt, mut ops)| {
            if salt % 8 != 0 {
                ops.insert(0, FOp::Xy { name: (salt % 2) as u8, salt });
            }
            VtkCase { mesh, dens, ops }
        })
        .boxed()
}
/// the few names of the short sequences, and many more for long ones
fn name_of(i: u8) -> &'static str {
    static MORE: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let i = i as usize;
    if i < NAMES.len() {
        return NAMES[i];
    }
    MORE.get_or_init(|| (NAMES.len()..256).map(|k| &*Box::leak(format!("{}{}", ["q", "field_", "E", "long_name_of_a_quantity_with_number_"][k % 4], k).into_boxed_str())).collect())[i - NAMES.len()]
}
fn crowd_strat(t: Tier) -> BoxedStrategy<VtkCase> {
    // a known start, then quantity after quantity made of the known ones, then prints of many of them
    (mesh_strategy(2, 2, 2, 2, 2), [2u8..4, 2u8..4], any::<u32>(), proptest::collection::vec((any::<u8>(), any::<u8>(), 0u8..6, any::<bool>()), 12..t.pick(60, 200)), proptest::collection::vec(proptest::collection::vec(any::<u8>(), 8..120), 1..4))
        .prop_map(|(mesh, dens, salt, steps, prints)| {
            let mut known = vec![0u8, 1];
            let mut ops = vec![FOp::Xy { name: 0, salt }];
            for (k, (a, b, f, map)) in steps.iter().enumerate() {
                let (from, b, to) = (known[*a as usize % known.len()], known[*b as usize % known.len()], 20 + k as u8);
                ops.push(if *map { FOp::Map { from, to, f: *f } } else { FOp::Expr { a: from, b, to, f: *f } });
                known.push(to);
            }
            for p in prints {
                ops.push(FOp::Print { which: p.iter().map(|x| known[*x as usize % known.len()]).collect(), existing: p[0] % 2 == 0 });
            }
            VtkCase { mesh, dens, ops }
        })
        .boxed()
}
fn fn1(f: u8, x: f64) -> f64 {
    match f {
        0 => x.abs(),
        1 => 2.0 * x + 1.0,
        2 => -x,
        3 => x.min(0.3),
        4 => x.sin(),
        6 => 1e-9 * x,
        7 => 1e-13 * x,
        8 => 1e9 * x,
        9 => f64::NAN,
        10 => f64::NEG_INFINITY,
        11 => 1e100 * x,
        _ => 0.25,
    }
}
/// how much a difference of the operand can grow
fn gain(f: u8) -> f64 {
    match f {
        1 => 2.0,
        5 | 9 | 10 => 0.0,
        11 => 1e100,
        6 => 1e-9,
        7 => 1e-13,
        8 => 1e9,
        _ => 1.0,
    }
}
fn fn2(f: u8, a: f64, b: f64) -> f64 {
    match f {
        0 => a - 2.0 * b,
        1 => (a * a + b * b).sqrt(),
        2 => a.max(b + 0.1),
        3 => a.sin() * b.cos(),
        4 => b,
        _ => 0.5 * a + b,
    }
}

/// Everything about the file but the values; returns for each printed point (leaf, ix, iy)
fn check_vtk_shape(v: &Vtk, m: &Model, leaves: &[usize], dens: [usize; 2]) -> Result<Vec<(usize, usize, usize)>, Fail> {
    let per = dens[0] * dens[1];
    let n = leaves.len() * per;
    ensure!(v.points.len() == n && v.n_data == n, "vtk-count", "{} points, {} data, {} expected", v.points.len(), v.n_data, n);
    let mut at = Vec::new();
    for (li, l) in leaves.iter().enumerate() {
        let q = m.rect(*l);
        let (gx, gy) = (grid(q[0], q[1], dens[0]), grid(q[2], q[3], dens[1]));
        let mut seen = vec![false; per];
        for k in 0..per {
            let p = v.points[li * per + k];
            ensure!(v.z[li * per + k] == 0.0, "vtk-z", "point {} is not in the plane", li * per + k);
            let near = |g: &Vec<f64>, x: f64| (0..g.len()).min_by(|a, b| (g[*a] - x).abs().partial_cmp(&(g[*b] - x).abs()).unwrap()).unwrap();
            let (a, b) = (near(&gx, p[0]), near(&gy, p[1]));
            let tol = 2e-10 + m.tol();
            ensure!((gx[a] - p[0]).abs() <= tol && (gy[b] - p[1]).abs() <= tol, "vtk-point", "point {} of element {} is at {:?}", k, m.cells[*l].eid, p);
            ensure!(!seen[a * dens[1] + b], "vtk-point", "point ({}, {}) of element {} is printed twice", a, b, m.cells[*l].eid);
            seen[a * dens[1] + b] = true;
            at.push((li, a, b));
        }
    }
    let nc = leaves.len() * (dens[0] - 1) * (dens[1] - 1);
    ensure!(v.cells.len() == nc && v.types.len() == nc && v.cells_size == 5 * nc, "vtk-cells", "{} cells, {} types, size {}; {} cells expected", v.cells.len(), v.types.len(), v.cells_size, nc);
    ensure!(v.types.iter().all(|t| *t == 9), "vtk-types", "a cell is not a quadrilateral");
    let mut seen = vec![false; nc];
    let mut orient = 0i64;
    for (k, c) in v.cells.iter().enumerate() {
        ensure!(c.len() == 4 && c.iter().all(|i| *i < n), "vtk-cell", "cell {} is {:?}", k, c);
        let g: Vec<(usize, usize, usize)> = c.iter().map(|i| at[*i]).collect();
        let li = g[0].0;
        let a = g.iter().map(|p| p.1).min().unwrap();
        let b = g.iter().map(|p| p.2).min().unwrap();
        let ok = g.iter().all(|p| p.0 == li && p.1 <= a + 1 && p.2 <= b + 1)
            // neighbours in the list share a side
            && (0..4).all(|i| {
                let (p, q) = (g[i], g[(i + 1) % 4]);
                p.1.abs_diff(q.1) + p.2.abs_diff(q.2) == 1
            })
            && g[0] != g[2]
            && g[1] != g[3];
        ensure!(ok, "vtk-cell", "cell {} joins the points {:?} (element, x index, y index)", k, g);
        let idx = (li * (dens[0] - 1) + a) * (dens[1] - 1) + b;
        ensure!(!seen[idx], "vtk-cell", "cell {} is a repetition", k);
        seen[idx] = true;
        let area: i64 = (0..4)
            .map(|i| {
                let (p, q) = (g[i], g[(i + 1) % 4]);
                p.1 as i64 * q.2 as i64 - q.1 as i64 * p.2 as i64
            })
            .sum();
        ensure!(orient == 0 || orient == area.signum(), "vtk-orientation", "cell {} runs the other way round", k);
        orient = area.signum();
    }
    Ok(at)
}

fn c17_check(c: &VtkCase, obs: &mut Obs) -> Res {
    c17_caps(c, obs, Caps { leaves: 10, level: 4 })
}
fn c17_caps(c: &VtkCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mesh, m) = c.mesh.build(caps)?;
    describe(&m, obs);
    let d = super::dof::make_domain(mesh)?;
    let n = d.dofs.len();
    let dens = c.dens.map(|x| x as usize);
    let r = Reference::new(&d, &m)?;
    // values, and how far from them rounding can have taken the real ones
    let mut model: BTreeMap<String, (Vec<f64>, f64)> = BTreeMap::new();
    let mut fs = match guarded(|| UniformFieldSpace::new(&d, dens)) {
        Ok(f) => f,
        Err(p) => return fail("fields-panic", format!("making a field space panicked: {}", p)),
    };
    let mut printed = 0;
    let mut refused = 0;
    let missing = |r: Result<(), UniformFieldError>, names: &[&str], model: &BTreeMap<String, (Vec<f64>, f64)>, what: &str| -> Result<bool, Fail> {
        let lacking: Vec<&&str> = names.iter().filter(|n| !model.contains_key(**n)).collect();
        match r {
            Ok(()) => {
                ensure!(lacking.is_empty(), "missing-accepted", "{} with missing quantity {:?} was accepted", what, lacking);
                Ok(true)
            }
            Err(UniformFieldError::MissingQuantity(q)) => {
                ensure!(lacking.iter().any(|l| **l == q), "missing-name", "{} with missing {:?} is refused naming {:?}", what, lacking, q);
                Ok(false)
            }
            Err(e) => fail("missing-error", format!("{} with missing {:?} is refused with {:?}", what, lacking, e)),
        }
    };
    let nm = |i: u8| name_of(i);
    let check_file = |path: &std::path::Path, want: &[String], model: &BTreeMap<String, (Vec<f64>, f64)>| -> Res {
        let text = std::fs::read_to_string(path).map_err(|e| Fail { sig: "vtk-io".into(), msg: e.to_string() })?;
        let v = parse_vtk(&text).map_err(|e| Fail { sig: "vtk-format".into(), msg: e })?;
        let at = check_vtk_shape(&v, &m, &r.leaves, dens)?;
        let mut a = v.order.clone();
        let mut b = want.to_vec();
        a.sort();
        b.sort();
        ensure!(a == b, "vtk-quantities", "the file holds {:?}, {:?} asked for", v.order, want);
        for name in want {
            let (real, (exp, err)) = (&v.fields[name], &model[name]);
            for (k, (li, ix, iy)) in at.iter().enumerate() {
                let e = exp[(li * dens[0] + ix) * dens[1] + iy];
                let same = if e.is_nan() {
                    real[k].is_nan()
                } else if e.is_infinite() {
                    real[k] == e
                } else {
                    (real[k] - e).abs() <= err + 1e-14 * e.abs() + 1e-15
                };
                ensure!(same, "vtk-value", "{} at point {} {:?} is {}, {} expected", name, k, v.points[k], real[k], e);
            }
        }
        Ok(())
    };
    for op in c.ops.iter().chain([FOp::PrintAll].iter()) {
        match op {
            FOp::Xy { name, salt } => {
                let name = VECS[*name as usize % 3];
                let sol = coefficients(n, *salt);
                let (v, s) = r.xy(dens, &sol);
                match guarded(|| fs.xy_fields::<HierPoly>(name, sol)) {
                    Ok(Ok(names)) => {
                        ensure!(names == [format!("{}_x", name), format!("{}_y", name)], "names", "field names {:?}", names);
                    }
                    Ok(Err(e)) => return fail("fields-refused", e.to_string()),
                    Err(p) => return fail("fields-panic", p),
                }
                model.insert(format!("{}_x", name), (v.iter().map(|p| p[0]).collect(), 1e-11 * s));
                model.insert(format!("{}_y", name), (v.iter().map(|p| p[1]).collect(), 1e-11 * s));
            }
            FOp::Map { from, to, f } => {
                let (a, t, f) = (nm(*from), nm(*to), *f);
                if t == "nowhere" {
                    continue;
                }
                let res = match guarded(|| fs.map_to_quantity(a, t, move |x| fn1(f, *x))) {
                    Ok(x) => x,
                    Err(p) => return fail("fields-panic", p),
                };
                if missing(res, &[a], &model, "map_to_quantity")? {
                    let v: Vec<f64> = model[a].0.iter().map(|x| fn1(f, *x)).collect();
                    let e = gain(f) * model[a].1;
                    model.insert(t.to_string(), (v, e));
                } else {
                    refused += 1;
                }
            }
            FOp::Expr { a, b, to, f } => {
                let (a, b, t, f) = (nm(*a), nm(*b), nm(*to), *f);
                if t == "nowhere" {
                    continue;
                }
                let res = match guarded(|| fs.expression_2arg([a, b], t, |x, y| fn2(f, x, y))) {
                    Ok(x) => x,
                    Err(p) => return fail("fields-panic", p),
                };
                if missing(res, &[a, b], &model, "expression_2arg")? {
                    let (p, q) = (&model[a], &model[b]);
                    let v: Vec<f64> = p.0.iter().zip(q.0.iter()).map(|(x, y)| fn2(f, *x, *y)).collect();
                    let e = p.1 + 2.0 * q.1 + 1e-14 * p.0.iter().chain(q.0.iter()).filter(|x| x.is_finite()).fold(0f64, |s, x| s.max(x.abs()));
                    model.insert(t.to_string(), (v, e));
                } else {
                    refused += 1;
                }
            }
            FOp::Print { which, existing } => {
                let mut names: Vec<String> = Vec::new();
                for w in which {
                    if !names.contains(&nm(*w).to_string()) {
                        names.push(nm(*w).to_string());
                    }
                }
                let f = TmpFile::new("vtk");
                if *existing {
                    std::fs::write(&f.0, "something else that is longer than nothing").unwrap();
                }
                let lacking: Vec<&String> = names.iter().filter(|n| !model.contains_key(*n)).collect();
                let res = match guarded(|| fs.print_quantities_to_vkt(f.s(), names.clone())) {
                    Ok(x) => x,
                    Err(p) => return fail("fields-panic", p),
                };
                match res {
                    Ok(()) => {
                        ensure!(lacking.is_empty(), "missing-accepted", "printing missing quantity {:?} was accepted", lacking);
                        check_file(&f.0, &names, &model)?;
                        printed += 1;
                    }
                    Err(e) => match e.downcast_ref::<UniformFieldError>() {
                        Some(UniformFieldError::MissingQuantity(q)) => {
                            ensure!(lacking.iter().any(|l| *l == q), "missing-name", "printing missing {:?} is refused naming {:?}", lacking, q);
                            refused += 1;
                            let now = std::fs::read_to_string(&f.0).ok();
                            let before = if *existing { Some("something else that is longer than nothing".to_string()) } else { None };
                            ensure!(now == before, "refused-print-wrote", "a refused print changed the file");
                        }
                        _ => return fail("missing-error", format!("printing {:?} (missing {:?}) is refused with {}", names, lacking, e)),
                    },
                }
            }
            FOp::PrintAll => {
                let f = TmpFile::new("vtk");
                match guarded(|| fs.print_all_to_vtk(f.s())) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return fail("vtk-io", e.to_string()),
                    Err(p) => return fail("fields-panic", p),
                }
                let all: Vec<String> = model.keys().cloned().collect();
                check_file(&f.0, &all, &model)?;
                printed += 1;
            }
        }
    }
    // paths that cannot be written
    for bad in [scratch_root().join("no_such_dir").join("x.vtk").to_str().unwrap().to_string(), "/dev/full".to_string()] {
        if bad == "/dev/full" && !std::path::Path::new(&bad).exists() {
            continue;
        }
        match guarded(|| fs.print_all_to_vtk(&bad)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return fail("vtk-io", format!("printing to {}, which cannot be written, succeeds", bad)),
            Err(p) => return fail("fields-panic", format!("printing to {}, which cannot be written, panics: {}", bad, p)),
        }
    }
    obs.add("files", printed);
    obs.add("refused", refused);
    if dens[0] != dens[1] {
        obs.label("unequal-densities");
    }
    obs.nontrivial_if(model.len() > 2 && r.leaves.len() > 1);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutVtk {
    mesh: MeshCase,
    dens: [u8; 2],
    salt: u32,
    /// how much of the file can be written, of 65536
    room: u16,
}
fn c17_cut(c: &CutVtk, obs: &mut Obs) -> Res {
    let (mesh, _) = c.mesh.build(Caps { leaves: 40, level: 5 })?;
    let d = super::dof::make_domain(mesh)?;
    let sol = coefficients(d.dofs.len(), c.salt);
    let f = TmpFile::new("vtk");
    let print = |mute: Option<u64>| {
        let mut fs = UniformFieldSpace::new(&d, c.dens.map(|x| x as usize));
        let names = match guarded(|| fs.xy_fields::<HierPoly>("E", sol.clone())) {
            Ok(Ok(n)) => n,
            Ok(Err(e)) => return fail("fields-refused", e.to_string()),
            Err(p) => return fail("fields-panic", p),
        };
        let _ = std::fs::remove_file(&f.0);
        let go = || guarded(|| if c.salt % 2 == 0 { fs.print_all_to_vtk(f.s()).is_ok() } else { fs.print_quantities_to_vkt(f.s(), names.to_vec()).is_ok() });
        match mute {
            None => go(),
            Some(b) => super::slepc::with_file_limit(b, go),
        }
        .map_err(|p| Fail { sig: "fields-panic".into(), msg: p })
    };
    ensure!(print(None)?, "vtk-io", "the file cannot be written");
    let need = std::fs::metadata(&f.0).map(|m| m.len()).unwrap_or(0);
    // (a remark or date in the header may differ in length)
    let cut = need.saturating_sub(40) * c.room as u64 / 65536;
    ensure!(!print(Some(cut))?, "no-error", "success although only {} of {} bytes can be written", cut, need);
    ensure!(print(Some(need + 40))?, "vtk-io", "an error although all {} bytes can be written", need);
    obs.nontrivial();
    if cut > 8192 {
        obs.label("over-8192-bytes");
    }
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        parts: vec![Box::new(Part {
            name: "quantities",
            rule: "random hp-refined mesh, densities 2-7 per direction, and a sequence of up to 12 operations (evaluate a vector, map, combine two quantities, print some, print all), with names that may be missing or taken; every printed file is read by an independent reader and compared in points, cells, names and values with a model; non-trivial: more than two quantities at the end and more than one unrefined element",
            strat: vtk_strat, check: c17_check, quick: 2500, thorough: 60000, serial: false,
        }),
        Box::new(Part {
            name: "large",
            rule: "as 'quantities', on up to 10x10 base elements, with up to 150 unrefined ones, or around one point to level 12; densities 2-3",
            strat: |t| {
                let ladder = (base_strategy(2, 2), ladder_strategy(t.pick(12, 14)), proptest::collection::vec([1u8..=2, 1u8..=2], 1..4)).prop_map(|(base, ops, ords)| MeshCase { base, ops, ords });
                (vtk_strat(t), prop_oneof![large_strategy(10, 5, 6, 2), ladder.boxed()]).prop_map(|(c, mesh)| VtkCase { mesh, dens: c.dens.map(|d| 2 + d % 2), ..c }).boxed()
            },
            check: |c, o| c17_caps(c, o, Caps { leaves: 150, level: 12 }), quick: 1000, thorough: 30000, serial: false,
        }),
        Box::new(Part {
            name: "crowd",
            rule: "as 'quantities', with 14 to 60 (200 thorough) quantities made one of another, and prints of up to 120 of them in any order",
            strat: crowd_strat, check: c17_check, quick: 300, thorough: 3000, serial: false,
        }),
        Box::new(Part {
            name: "cut-short",
            rule: "random hp-refined mesh and densities 2-9; a file that can only grow to a part of its size: an error; one that can grow 40 bytes further than needed: none; all cases non-trivial",
            strat: |t| (mesh_strategy(3, 3, t.pick(3, 4), 2, 3), [2u8..10, 2u8..10], any::<u32>(), prop_oneof![4 => any::<u16>(), 1 => Just(u16::MAX), 1 => 60000u16..])
                .prop_map(|(mesh, dens, salt, room)| CutVtk { mesh, dens, salt, room }).boxed(),
            check: c17_cut, quick: 500, thorough: 10000, serial: true,
        })],
        assumptions: vec!["points carry 10 decimals and values 15 in the file"],
    }
}
