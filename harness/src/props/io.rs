//! C18, C19: mesh files.
use crate::ensure;
use crate::framework::*;
use crate::gen::*;
use crate::model::*;
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// C18: faithful loading
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoadCase {
    base: BaseCase,
    /// stretches the gaps of the base grid
    gaps: Vec<f64>,
    shift: [f64; 2],
    /// materials by cell, replacing those of the base
    mats: Vec<[f64; 4]>,
    /// how the text is written
    style: u32,
}
fn load_strat(_t: Tier) -> BoxedStrategy<LoadCase> {
    let c = prop_oneof![3 => Just(0.0f64), 2 => -3.0..3.0f64, 1 => -1e3..1e3f64];
    let im = prop_oneof![Just(0.0), -5.0..5.0f64];
    let mat = (0.1..20.0f64, im.clone(), 0.1..5.0f64, im).prop_map(|(a, b, c, d)| [a, b, c, d]);
    (
        prop_oneof![60 => base_strategy(4, 4), 1 => base_strategy(20, 20)],
        prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(0.05..3.0f64, 8)],
        [c.clone(), c],
        prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(mat, 1..16)],
        prop_oneof![1 => Just(0u32), 4 => any::<u32>()],
    )
        .prop_map(|(base, gaps, shift, mats, style)| LoadCase { base: BaseCase { unit: false, ..base }, gaps, shift, mats, style })
        .boxed()
}
impl LoadCase {
    fn model(&self) -> Model {
        let mut m = self.base.model();
        for (ax, (v, off)) in [(&mut m.xs, 0usize), (&mut m.ys, 4usize)].into_iter().enumerate() {
            let old = v.clone();
            v[0] += self.shift[ax];
            for i in 1..v.len() {
                let g = if self.gaps.is_empty() { 1.0 } else { self.gaps[(off + i - 1) % self.gaps.len()] };
                v[i] = v[i - 1] + (old[i] - old[i - 1]) * g;
            }
        }
        let (x1, y1) = (*m.xs.last().unwrap(), *m.ys.last().unwrap());
        for (k, o) in m.orphans.iter_mut().enumerate() {
            *o = [x1 + 1.0 + k as f64, y1 + 2.0];
        }
        if !self.mats.is_empty() {
            for b in 0..m.n_base {
                m.mats[b] = self.mats[b % self.mats.len()];
            }
        }
        m
    }
}
/// a number as text; whole numbers that are ids stay as they are
fn number(x: &serde_json::Number, s: &mut u64) -> String {
    if x.is_u64() {
        return x.to_string();
    }
    let f = x.as_f64().unwrap();
    match lcg(s) % 5 {
        0 => format!("{:e}", f),
        1 => format!("{:E}", f),
        2 if f.fract() == 0.0 && f.abs() < 1e15 && f != 0.0 => format!("{}", f as i64),
        3 => format!("{:.1}", f).parse::<f64>().ok().filter(|g| *g == f).map(|_| format!("{:.3}", f)).unwrap_or_else(|| format!("{:?}", f)),
        4 if f != 0.0 => {
            let t = format!("{:e}", f);
            t.replace("e", "e+").replace("e+-", "e-")
        }
        _ => format!("{:?}", f),
    }
}
fn text(v: &Value, s: &mut u64, plain: bool) -> String {
    if plain {
        return v.to_string();
    }
    let sp = |s: &mut u64| ["", "", " ", "\n", "\t", "\r\n  "][(lcg(s) % 6) as usize].to_string();
    match v {
        Value::Number(x) => number(x, s),
        Value::Array(a) => {
            let mut o = String::from("[");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o += ",";
                }
                o += &sp(s);
                o += &text(x, s, false);
                o += &sp(s);
            }
            o + "]"
        }
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            if lcg(s) % 2 == 0 {
                keys.reverse();
            }
            let mut o = String::from("{");
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    o += ",";
                }
                o += &sp(s);
                o += &format!("{:?}", k);
                o += &sp(s);
                o += ":";
                o += &sp(s);
                o += &text(&m[*k], s, false);
                o += &sp(s);
            }
            o + "}"
        }
        _ => v.to_string(),
    }
}
fn load(t: &str) -> Result<std::io::Result<Mesh>, String> {
    let f = TmpFile::new("json");
    std::fs::write(&f.0, t).unwrap();
    guarded(|| Mesh::from_file(f.s()))
}
fn c18_load(c: &LoadCase, obs: &mut Obs) -> Res {
    let mut m = c.model();
    let v = c.base.json(&m);
    let mut s = c.style as u64;
    let t = text(&v, &mut s, c.style == 0);
    let mesh = match load(&t) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return fail("load", format!("a well-formed mesh file was refused: {}", e)),
        Err(p) => return fail("load", format!("loading a well-formed mesh file panicked: {}", p)),
    };
    ensure!(mesh.elements.len() == m.n_base && mesh.elems.len() == m.n_base, "elements", "{} elements, {} unrefined elements, {} in the file", mesh.elements.len(), mesh.elems.len(), m.n_base);
    // node positions by the ids of the file; the text carries 17 digits, the reader may be off by a rounding
    let (elems, pts) = c.base.tables(&m);
    ensure!(mesh.nodes.len() == pts.len(), "nodes", "{} nodes, {} in the file", mesh.nodes.len(), pts.len());
    let tol = 1e-14 * m.scale();
    for (i, p) in pts.iter().enumerate() {
        let n = &mesh.nodes[i];
        ensure!(n.id == i && (n.coords.x - p[0]).abs() <= tol && (n.coords.y - p[1]).abs() <= tol, "node", "node {} is {} at {}, {:?} in the file", i, n.id, n.coords, p);
    }
    for (i, ids) in elems.iter().enumerate() {
        ensure!(mesh.elems[i].nodes == *ids, "corners", "element {} has nodes {:?}, {:?} in the file", i, mesh.elems[i].nodes, ids);
        let e = &mesh.elements[i];
        ensure!(e.id == i && mesh.elems[i].element.id == i, "order", "element {} is {}", i, e.id);
        for k in 0..4 {
            let p = pts[ids[k]];
            ensure!((e.points[k].x - p[0]).abs() <= tol && (e.points[k].y - p[1]).abs() <= tol, "element-points", "corner {} of element {} is at {}, {:?} in the file", k, i, e.points[k], p);
        }
        ensure!(mesh.elems[i].poly_orders.ni == 1 && mesh.elems[i].poly_orders.nj == 1, "orders", "element {} has orders {:?}", i, mesh.elems[i].poly_orders);
        ensure!(!mesh.elems[i].has_children() && mesh.elems[i].parent_id().is_none(), "refined", "element {} is refined", i);
    }
    for b in 0..m.n_base {
        let e = m.base_eid[b];
        for mt in [&mesh.elements[e].materials, mesh.elems[e].get_materials()] {
            let r = [mt.eps_rel.re, mt.eps_rel.im, mt.mu_rel.re, mt.mu_rel.im];
            for k in 0..4 {
                ensure!((r[k] - m.mats[b][k]).abs() <= 1e-14 * m.mats[b][k].abs(), "materials", "element {} has materials {:?}, {:?} in the file", e, r, m.mats[b]);
            }
        }
        let mt = mesh.elems[e].get_materials();
        m.mats[b] = [mt.eps_rel.re, mt.eps_rel.im, mt.mu_rel.re, mt.mu_rel.im];
    }
    m.sync(&mesh)?;
    m.check_geometry(&mesh)?;
    m.check_topology(&mesh)?;
    m.check_incidence(&mesh)?;
    for e in mesh.edges.iter() {
        ensure!(!e.has_children() && e.parent_id().is_none(), "refined", "edge {} is refined", e.id);
    }
    obs.nontrivial_if(m.n_base > 1);
    for (l, b) in [("orphan-nodes", !m.orphans.is_empty()), ("permuted-ids", c.base.salt != 0), ("complex-materials", m.mats.iter().any(|x| x[1] != 0.0 || x[3] != 0.0)), ("styled-text", c.style != 0), ("holes", m.n_base < (c.base.nx as usize) * (c.base.ny as usize))] {
        if b {
            obs.label(l);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18: refusal
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    base: BaseCase,
    what: u8,
    /// selectors
    i: u16,
    j: u16,
    k: u16,
    style: u32,
}
const N_BAD: u8 = 24;
fn bad_strat(_t: Tier) -> BoxedStrategy<BadCase> {
    (base_strategy(3, 3), 0u8..N_BAD, any::<u16>(), any::<u16>(), any::<u16>(), prop_oneof![1 => Just(0u32), 1 => any::<u32>()])
        .prop_map(|(base, what, i, j, k, style)| BadCase { base: BaseCase { unit: false, ..base }, what, i, j, k, style })
        .boxed()
}
enum Bad {
    Text(String),
    Bytes(Vec<u8>),
    Path(String),
    /// not a violation whatever happens
    Free(String),
    Skip,
}
fn pick(k: u16, v: &[Value]) -> Value {
    v[k as usize % v.len()].clone()
}
fn wrong_types() -> Vec<Value> {
    vec![Value::Null, json!(3), json!("x"), json!(true), json!({}), json!(1.5)]
}
fn wrong_numbers() -> Vec<Value> {
    vec![Value::Null, json!("1"), json!("1.0"), json!(true), json!([]), json!([1]), json!({}), json!("")]
}
/// do these elements, with sides and corners by id, break one of the listed rules?
fn broken(elems: &[Vec<i64>], n: usize) -> bool {
    let mut sides: BTreeSet<(i64, i64, usize)> = BTreeSet::new();
    let mut corners: BTreeSet<(i64, usize)> = BTreeSet::new();
    for e in elems {
        let s: BTreeSet<i64> = e.iter().copied().collect();
        if s.len() < 4 || e.iter().any(|x| *x < 0 || *x >= n as i64) {
            return true;
        }
        for (i, (a, b)) in [(0, 1), (2, 3), (0, 2), (1, 3)].into_iter().enumerate() {
            if !sides.insert((e[a], e[b], i)) {
                return true;
            }
        }
        for i in 0..4 {
            if !corners.insert((e[i], i)) {
                return true;
            }
        }
    }
    false
}
fn mutate(c: &BadCase) -> (Bad, &'static str) {
    let m = c.base.model();
    let (elems, pts) = c.base.tables(&m);
    let mut v = c.base.json(&m);
    let ne = elems.len();
    let e = c.i as usize % ne;
    let slot = c.j as usize % 4;
    let nd = c.i as usize % pts.len();
    let mut s = c.style as u64;
    let label;
    let node_lists = |v: &Value| -> Vec<Vec<i64>> { v["Elements"].as_array().unwrap().iter().map(|x| x["node_ids"].as_array().unwrap().iter().map(|y| y.as_i64().unwrap()).collect()).collect() };
    // a new element on four node ids, with new nodes appended
    let add = |v: &mut Value, corners: [Result<usize, [f64; 2]>; 4]| {
        let ids: Vec<usize> = corners
            .iter()
            .map(|q| match q {
                Ok(i) => *i,
                Err(p) => {
                    let a = v["Nodes"].as_array_mut().unwrap();
                    a.push(json!(p));
                    a.len() - 1
                }
            })
            .collect();
        v["Elements"].as_array_mut().unwrap().push(json!({"materials": [1.0, 0.0, 1.0, 0.0], "node_ids": ids}));
    };
    let p = elems[e].map(|i| pts[i]);
    let (w, h) = (p[3][0] - p[0][0], p[3][1] - p[0][1]);
    let f = 0.31 + 0.3 * (c.k as f64 / 65536.0);
    match c.what {
        0 => {
            let t = text(&v, &mut s, c.style == 0);
            let n = 1 + (c.i as usize * 65536 + c.j as usize) % (t.len() - 1);
            return (Bad::Text(t[..n].to_string()), "cut-short");
        }
        1 => {
            let t = text(&v, &mut s, c.style == 0);
            let n = (c.i as usize * 65536 + c.j as usize) % (t.len() + 1);
            let g = ["@", "NaN", "}", "]", ":", "/"][c.k as usize % 6];
            return (Bad::Text(format!("{}{}{}", &t[..n], g, &t[n..])), "foreign-text");
        }
        2 => {
            label = "part-missing";
            match c.j % 4 {
                0 => drop(v.as_object_mut().unwrap().remove("Elements")),
                1 => drop(v.as_object_mut().unwrap().remove("Nodes")),
                2 => drop(v["Elements"][e].as_object_mut().unwrap().remove("materials")),
                _ => drop(v["Elements"][e].as_object_mut().unwrap().remove("node_ids")),
            }
        }
        3 => {
            label = "part-of-wrong-type";
            let x = pick(c.k, &wrong_types());
            match c.j % 4 {
                0 => v["Elements"] = x,
                1 => v["Nodes"] = x,
                2 => v["Elements"][e]["materials"] = x,
                _ => v["Elements"][e]["node_ids"] = x,
            }
        }
        4 => {
            label = "materials-length";
            let a = v["Elements"][e]["materials"].as_array_mut().unwrap();
            match c.k % 4 {
                0 => drop(a.pop()),
                1 => a.push(json!(0.5)),
                2 => a.clear(),
                _ => drop(a.remove(0)),
            }
        }
        5 => {
            label = "ids-length";
            let extra = (elems[e][0] + 1) % pts.len().max(1);
            let a = v["Elements"][e]["node_ids"].as_array_mut().unwrap();
            match c.k % 4 {
                0 => drop(a.pop()),
                1 => a.push(json!(extra)),
                2 => a.clear(),
                _ => drop(a.remove(0)),
            }
        }
        6 => {
            label = "point-length";
            let a = v["Nodes"][nd].as_array_mut().unwrap();
            match c.k % 3 {
                0 => drop(a.pop()),
                1 => a.push(json!(0.0)),
                _ => a.clear(),
            }
        }
        7 => {
            label = "element-of-wrong-type";
            let mut t = wrong_types();
            t.push(json!([]));
            t.push(json!([1.0, 0.0, 1.0, 0.0]));
            v["Elements"][e] = pick(c.k, &t);
        }
        8 => {
            label = "point-of-wrong-type";
            let mut t = wrong_types();
            t.push(json!({"x": 0.0, "y": 0.0}));
            v["Nodes"][nd] = pick(c.k, &t);
        }
        9 => {
            label = "material-not-a-number";
            v["Elements"][e]["materials"][slot] = pick(c.k, &wrong_numbers());
        }
        10 => {
            label = "coordinate-not-a-number";
            v["Nodes"][nd][slot % 2] = pick(c.k, &wrong_numbers());
        }
        11 => {
            label = "id-not-a-number";
            v["Elements"][e]["node_ids"][slot] = pick(c.k, &wrong_numbers());
        }
        12 => {
            label = "id-too-large";
            let n = pts.len() as u64;
            v["Elements"][e]["node_ids"][slot] = json!([n, n + 1, n + 2, 2 * n, 1 << 32, (1 << 32) + elems[e][slot] as u64, u64::MAX][c.k as usize % 7]);
        }
        13 => {
            label = "id-negative-or-fractional";
            v["Elements"][e]["node_ids"][slot] = if c.k % 2 == 0 { json!([-1, -2, -(pts.len() as i64), i64::MIN][c.k as usize / 2 % 4]) } else { json!(elems[e][slot] as f64 + 0.5) };
        }
        14 => {
            label = "id-twice";
            let o = (slot + 1 + c.k as usize % 3) % 4;
            v["Elements"][e]["node_ids"][slot] = json!(elems[e][o]);
        }
        15 => {
            label = "point-twice";
            let q = v["Nodes"][nd].clone();
            let a = v["Nodes"].as_array_mut().unwrap();
            if c.k % 2 == 0 {
                a.push(q);
            } else {
                let o = c.j as usize % a.len();
                if o == nd {
                    a.push(q);
                } else {
                    a[o] = q;
                }
            }
        }
        16 => {
            label = "element-twice";
            let q = v["Elements"][e].clone();
            v["Elements"].as_array_mut().unwrap().push(q);
        }
        17 => {
            label = "shared-side";
            let [a, b, g, d] = elems[e];
            match slot {
                0 => add(&mut v, [Ok(a), Ok(b), Err([p[0][0], p[0][1] + f * h]), Err([p[1][0], p[0][1] + f * h])]),
                1 => add(&mut v, [Err([p[0][0], p[0][1] + f * h]), Err([p[1][0], p[0][1] + f * h]), Ok(g), Ok(d)]),
                2 => add(&mut v, [Ok(a), Err([p[0][0] + f * w, p[0][1]]), Ok(g), Err([p[0][0] + f * w, p[3][1]])]),
                _ => add(&mut v, [Err([p[0][0] + f * w, p[0][1]]), Ok(b), Err([p[0][0] + f * w, p[3][1]]), Ok(d)]),
            }
        }
        18 => {
            label = "shared-corner";
            let (x, y) = (p[0][0] + f * w, p[0][1] + (0.9 - f) * h);
            let mut q = match slot {
                0 => [Err(p[0]), Err([x, p[0][1]]), Err([p[0][0], y]), Err([x, y])],
                1 => [Err([x, p[0][1]]), Err(p[1]), Err([x, y]), Err([p[1][0], y])],
                2 => [Err([p[0][0], y]), Err([x, y]), Err(p[2]), Err([x, p[2][1]])],
                _ => [Err([x, y]), Err([p[3][0], y]), Err([x, p[3][1]]), Err(p[3])],
            };
            q[slot] = Ok(elems[e][slot]);
            add(&mut v, q);
        }
        19 => {
            label = "spanning-two";
            // an element over this one and its right or upper neighbour
            let other = elems.iter().find(|o| if c.j % 2 == 0 { o[0] == elems[e][1] && o[2] == elems[e][3] } else { o[0] == elems[e][2] && o[1] == elems[e][3] });
            match other {
                Some(o) => {
                    let q = if c.j % 2 == 0 { [elems[e][0], o[1], elems[e][2], o[3]] } else { [elems[e][0], elems[e][1], o[2], o[3]] };
                    add(&mut v, q.map(Ok));
                }
                None => return (Bad::Skip, "skipped"),
            }
        }
        20 => {
            let d = scratch_root();
            return match c.k % 3 {
                0 => (Bad::Path(d.join("no_such_file.json").to_str().unwrap().into()), "no-file"),
                1 => (Bad::Path(d.to_str().unwrap().into()), "directory"),
                _ => (Bad::Path(String::new()), "no-path"),
            };
        }
        21 => {
            let mut b = text(&v, &mut s, c.style == 0).into_bytes();
            let n = (c.i as usize * 65536 + c.j as usize) % b.len();
            b.insert(n, 0xff);
            return (Bad::Bytes(b), "not-text");
        }
        22 => {
            let t = ["", " ", "\n", "null", "[]", "3", "\"Elements\"", "{}", "{\"Elements\": []}", "{\"Nodes\": []}", "true", "[[],[]]"][c.k as usize % 12];
            return (Bad::Text(t.to_string()), "no-object");
        }
        _ => {
            // one id replaced by another: refused when a listed rule is broken, otherwise anything goes
            v["Elements"][e]["node_ids"][slot] = json!(c.k as usize % pts.len());
            let b = broken(&node_lists(&v), pts.len());
            let t = text(&v, &mut s, c.style == 0);
            return if b { (Bad::Text(t), "id-replaced") } else { (Bad::Free(t), "id-replaced-unjudged") };
        }
    }
    (Bad::Text(text(&v, &mut s, c.style == 0)), label)
}
fn c18_bad(c: &BadCase, obs: &mut Obs) -> Res {
    let (b, label) = mutate(c);
    obs.label(label);
    let (r, shown) = match b {
        Bad::Skip => return Ok(()),
        Bad::Free(t) => {
            let _ = load(&t);
            return Ok(());
        }
        Bad::Text(t) => (load(&t), t),
        Bad::Path(p) => (guarded(|| Mesh::from_file(p.clone())), p),
        Bad::Bytes(t) => {
            let f = TmpFile::new("json");
            std::fs::write(&f.0, &t).unwrap();
            (guarded(|| Mesh::from_file(f.s())), String::from_utf8_lossy(&t).into_owned())
        }
    };
    obs.nontrivial();
    if let Ok(Ok(m)) = r {
        return fail(&format!("accepted-{}", label), format!("loaded as {} elements, {} nodes: {}", m.elems.len(), m.nodes.len(), shown));
    }
    Ok(())
}
pub fn c18() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "load",
                rule: "random rectilinear mesh up to 4x4 with holes, any gaps and shifts, permuted ids, unused nodes, complex materials, written as JSON text in varied style (whitespace, key order, number formats); everything in the loaded mesh is compared with the file; non-trivial: more than one element",
                strat: load_strat, check: c18_load, quick: 6000, thorough: 200000, serial: false,
            }),
            Box::new(Part {
                name: "refuse",
                rule: "a well-formed file with one generated fault of 24 kinds (cut or foreign text, missing parts, wrong types and lengths, bad ids, repeated nodes, points or elements, overlaps by side, corner or span, bad files); loading it must not succeed; non-trivial: a fault whose refusal is demanded",
                strat: bad_strat, check: c18_bad, quick: 8000, thorough: 300000, serial: false,
            }),
        ],
        assumptions: vec!["a refusal may be an error or a panic", "an id replaced by another is judged only if it breaks a listed rule"],
    }
}

// ---------------------------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------------------------
fn near(v: &Value, x: f64) -> bool {
    v.as_f64().map_or(false, |y| (x - y).abs() <= 1e-14 * x.abs() || x == y)
}
fn id_list(v: &Value) -> Option<Vec<usize>> {
    v.as_array()?.iter().map(|x| x.as_u64().map(|x| x as usize)).collect()
}
fn check_export(t: &str, mesh: &Mesh, m: &Model) -> Res {
    let v: Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(e) => return fail("json", format!("the export is not valid JSON: {}", e)),
    };
    let list = |k: &str, n: usize| -> Result<Vec<Value>, Fail> {
        match v[k].as_array() {
            Some(a) => {
                ensure!(a.len() == n, "length", "{} entries under {}, {} expected", a.len(), k, n);
                Ok(a.clone())
            }
            None => fail("part", format!("{} is missing", k)),
        }
    };
    let is = |v: &Value, x: Option<usize>| match x {
        None => v.is_null(),
        Some(x) => v.as_u64() == Some(x as u64),
    };
    for (i, x) in list("Elements", m.n_base)?.iter().enumerate() {
        let b = m.base_eid.iter().position(|e| *e == i).unwrap();
        let t = m.mats[b];
        ensure!(
            is(&x["id"], Some(i)) && near(&x["eps_rel"], t[0]) && near(&x["eps_rel_im"], t[1]) && near(&x["mu_rel"], t[2]) && near(&x["mu_rel_im"], t[3]),
            "element", "base element {} is exported as {}, materials {:?}", i, x, t
        );
    }
    let by = m.by_eid();
    for (i, x) in list("Elems", m.cells.len())?.iter().enumerate() {
        let c = &m.cells[by[&i]];
        let kids: Vec<usize> = c.kids.iter().map(|k| m.cells[*k].eid).collect();
        let e = &mesh.elems[i];
        ensure!(is(&x["id"], Some(i)), "elem-id", "entry {} of Elems has id {}", i, x["id"]);
        ensure!(is(&x["element_id"], Some(m.base_eid[c.base])), "elem-base", "element {} has base element {}, {} expected", i, x["element_id"], m.base_eid[c.base]);
        ensure!(is(&x["parent"], c.parent.map(|p| m.cells[p].eid)), "elem-parent", "element {} has parent {}", i, x["parent"]);
        ensure!(x["active"].as_bool() == Some(c.kids.is_empty()), "elem-active", "element {} has active {}", i, x["active"]);
        ensure!(id_list(&x["nodes"]) == Some(e.nodes.to_vec()), "elem-nodes", "element {} has nodes {}, {:?} expected", i, x["nodes"], e.nodes);
        ensure!(id_list(&x["edges"]) == Some(e.edges.to_vec()), "elem-edges", "element {} has edges {}, {:?} expected", i, x["edges"], e.edges);
        ensure!(is(&x["expansion"]["u"], Some(c.ord[0] as usize)) && is(&x["expansion"]["v"], Some(c.ord[1] as usize)), "elem-orders", "element {} has orders {}, {:?} expected", i, x["expansion"], c.ord);
        ensure!(is(&x["h_levels"]["u"], Some(c.lev[0] as usize)) && is(&x["h_levels"]["v"], Some(c.lev[1] as usize)), "elem-levels", "element {} has levels {}, {:?} expected", i, x["h_levels"], c.lev);
        ensure!(id_list(&x["children"]) == Some(kids.clone()), "elem-children", "element {} has children {}, {:?} expected", i, x["children"], kids);
    }
    let mut at_node: BTreeMap<usize, [BTreeSet<usize>; 4]> = BTreeMap::new();
    let mut at_edge: BTreeMap<usize, [BTreeSet<usize>; 2]> = BTreeMap::new();
    for e in mesh.elems.iter() {
        for i in 0..4 {
            at_node.entry(e.nodes[i]).or_default()[i].insert(e.id);
            at_edge.entry(e.edges[i]).or_default()[if i % 2 == 0 { 1 } else { 0 }].insert(e.id);
        }
    }
    for (i, x) in list("Nodes", mesh.nodes.len())?.iter().enumerate() {
        let n = &mesh.nodes[i];
        ensure!(is(&x["id"], Some(i)), "node-id", "entry {} of Nodes has id {}", i, x["id"]);
        ensure!(x["boundary"].as_bool() == Some(n.boundary), "node-boundary", "node {} has boundary {}", i, x["boundary"]);
        ensure!(near(&x["point"]["x"], n.coords.x) && near(&x["point"]["y"], n.coords.y), "node-point", "node {} is at {}, {} expected", i, x["point"], n.coords);
        check_node_json(x, at_node.get(&i), i)?;
    }
    for (i, x) in list("Edges", mesh.edges.len())?.iter().enumerate() {
        let e = &mesh.edges[i];
        ensure!(is(&x["id"], Some(i)), "edge-id", "entry {} of Edges has id {}", i, x["id"]);
        ensure!(x["boundary"].as_bool() == Some(e.boundary), "edge-boundary", "edge {} has boundary {}", i, x["boundary"]);
        let [p, q] = e.nodes.map(|n| &mesh.nodes[n].coords);
        let dir = if (p.x - q.x).abs() > (p.y - q.y).abs() { "U-Dir" } else { "V-Dir" };
        ensure!(x["direction"].as_str() == Some(dir), "edge-direction", "edge {} has direction {}, {} expected", i, x["direction"], dir);
        ensure!(id_list(&x["nodes"]) == Some(e.nodes.to_vec()), "edge-nodes", "edge {} has nodes {}, {:?} expected", i, x["nodes"], e.nodes);
        ensure!(is(&x["parent"], e.parent_id()), "edge-parent", "edge {} has parent {}, {:?} expected", i, x["parent"], e.parent_id());
        ensure!(id_list(&x["children"]) == Some(e.child_ids().map_or(vec![], |c| c.to_vec())), "edge-children", "edge {} has children {}, {:?} expected", i, x["children"], e.child_ids());
        ensure!(id_list(&x["active_elems"]) == Some(e.active_elem_pair().map_or(vec![], |c| c.to_vec())), "edge-active", "edge {} has active elements {}, {:?} expected", i, x["active_elems"], e.active_elem_pair());
        check_edge_json(x, at_edge.get(&i), i, mesh)?;
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExportCase {
    mesh: MeshCase,
    /// bit i: export after operation i as well
    when: u8,
    bad_path: u8,
    over: bool,
}
fn export_strat(t: Tier) -> BoxedStrategy<ExportCase> {
    (mesh_strategy(3, 3, t.pick(4, 6), 3, 6), any::<u8>(), 0u8..4, any::<bool>()).prop_map(|(mesh, when, bad_path, over)| ExportCase { mesh, when, bad_path, over }).boxed()
}
fn export(mesh: &mut Mesh, m: &Model, over: bool) -> Res {
    let f = TmpFile::new("json");
    if over {
        std::fs::write(&f.0, vec![b'x'; 200_000]).unwrap();
    }
    let before = snapshot(mesh);
    match guarded(|| mesh.export_to_json(f.s())) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("export-error", e.to_string()),
        Err(p) => return fail("export-panic", p),
    }
    ensure!(snapshot(mesh) == before, "changed", "exporting changed the mesh");
    m.check_activation(mesh)?;
    let t = match std::fs::read_to_string(&f.0) {
        Ok(t) => t,
        Err(e) => return fail("export-file", e.to_string()),
    };
    check_export(&t, mesh, m)
}
fn c19_check(c: &ExportCase, obs: &mut Obs) -> Res {
    c19_caps(c, obs, Caps { leaves: 24, level: 5 })
}
fn c19_caps(c: &ExportCase, obs: &mut Obs, caps: Caps) -> Res {
    let (mut mesh, mut m) = c.mesh.base.build()?;
    m.sync(&mesh)?;
    let mut n = 1;
    for (k, op) in c.mesh.ops.iter().enumerate() {
        if (c.when >> (k % 8)) & 1 == 1 {
            export(&mut mesh, &m, c.over)?;
            n += 1;
        }
        step(&mut mesh, &mut m, op, caps)?;
    }
    set_orders(&mut mesh, &mut m, &c.mesh.ords)?;
    export(&mut mesh, &m, c.over)?;
    // paths that cannot be written
    let before = snapshot(&mesh);
    let bad = match c.bad_path {
        0 => scratch_root().join("no_such_dir").join("x.json").to_str().unwrap().to_string(),
        1 => scratch_root().to_str().unwrap().to_string(),
        2 => String::new(),
        _ => "/dev/full".to_string(),
    };
    if c.bad_path < 3 || std::path::Path::new(&bad).exists() {
        match guarded(|| mesh.export_to_json(&bad)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return fail("no-error", format!("exporting to {:?} succeeds", bad)),
            Err(p) => return fail("export-panic", p),
        }
        ensure!(snapshot(&mesh) == before, "changed", "a failed export changed the mesh");
    }
    describe(&m, obs);
    obs.add("exports", n);
    obs.nontrivial_if(m.cells.len() > m.n_base);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutExport {
    mesh: MeshCase,
    /// how much of the file can be written, of 65536
    room: u16,
}
fn c19_cut(c: &CutExport, obs: &mut Obs) -> Res {
    let (mut mesh, _) = c.mesh.build(Caps { leaves: 60, level: 5 })?;
    let f = TmpFile::new("json");
    let mut write = |room: Option<u64>| {
        let _ = std::fs::remove_file(&f.0);
        let mut go = || guarded(|| mesh.export_to_json(f.s()).is_ok());
        match room {
            None => go(),
            Some(b) => super::slepc::with_file_limit(b, go),
        }
        .map_err(|p| Fail { sig: "export-panic".into(), msg: p })
    };
    ensure!(write(None)?, "export-error", "the file cannot be written");
    let need = std::fs::metadata(&f.0).map(|m| m.len()).unwrap_or(0);
    let cut = need * c.room as u64 / 65536;
    ensure!(!write(Some(cut))?, "no-error", "success although only {} of {} bytes can be written", cut, need);
    ensure!(write(Some(need))?, "export-error", "an error although all {} bytes can be written", need);
    obs.nontrivial();
    if cut > 8192 {
        obs.label("over-8192-bytes");
    }
    Ok(())
}
pub fn c19() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "export",
                rule: "random mesh and history, exported at random points of the history and at the end, over longer files or none; the text is read by an independent JSON reader and every field is compared with the mesh and the reference model; then an export to a path that cannot be written (missing directory, a directory, no path, a full device); non-trivial: at least one element was refined",
                strat: export_strat, check: c19_check, quick: 3000, thorough: 80000, serial: false,
            }),
            Box::new(Part {
                name: "deep",
                rule: "as 'export', on at most 2x2 cells, with histories that keep refining the newest elements",
                strat: |t| (base_strategy(2, 2), deep_strategy(t.pick(7, 9)), proptest::collection::vec([1u8..=20, 1u8..=20], 1..6), any::<u8>(), 0u8..4)
                    .prop_map(|(base, ops, ords, when, bad_path)| ExportCase { mesh: MeshCase { base, ops, ords }, when, bad_path, over: false }).boxed(),
                check: c19_check, quick: 1500, thorough: 40000, serial: false,
            }),
            Box::new(Part {
                name: "ladder",
                rule: "as 'export', after up to 13 rounds of refining every element around one corner or point of a side (levels up to 15, up to 120 elements)",
                strat: |t| (base_strategy(2, 2), ladder_strategy(t.pick(11, 13)), proptest::collection::vec([1u8..=20, 1u8..=20], 1..6), any::<u8>(), 0u8..4)
                    .prop_map(|(base, ops, ords, when, bad_path)| ExportCase { mesh: MeshCase { base, ops, ords }, when, bad_path, over: false }).boxed(),
                check: |c, o| c19_caps(c, o, super::dof::LCAPS), quick: 300, thorough: 8000, serial: false,
            }),
            Box::new(Part {
                name: "large",
                rule: "as 'export', on up to 16x16 base elements, or with up to 400 unrefined ones",
                strat: |t| (large_strategy(16, t.pick(8, 10), 8, 6), 0u8..4).prop_map(|(mesh, bad_path)| ExportCase { mesh, when: 0, bad_path, over: false }).boxed(),
                check: |c, o| c19_caps(c, o, Caps { leaves: 400, level: 8 }), quick: 60, thorough: 4000, serial: false,
            }),
            Box::new(Part {
                name: "chain",
                rule: "as 'ladder', with 8 to 34 rounds at one point or in the newest elements, on grids of sizes between 1e-2 and 1e9 (levels up to 31)",
                strat: |_| (chain_mesh(20), any::<u8>(), 0u8..4).prop_map(|(mesh, when, bad_path)| ExportCase { mesh, when, bad_path, over: false }).boxed(),
                check: |c, o| c19_caps(c, o, CHAIN_CAPS), quick: 100, thorough: 4000, serial: false,
            }),
            Box::new(Part {
                name: "huge",
                rule: "as 'export', on 24x24 to 59x59 base elements with up to 5000 unrefined elements",
                strat: |_| (huge_mesh(24..60, 3, 20), 0u8..4).prop_map(|(mesh, bad_path)| ExportCase { mesh, when: 0, bad_path, over: false }).boxed(),
                check: |c, o| c19_caps(c, o, HUGE_CAPS), quick: 8, thorough: 200, serial: false,
            }),
            Box::new(Part {
                name: "giant",
                rule: "as 'export', on about 190x190 base elements (more than 65536 edges)",
                strat: |_| (huge_mesh(186..200, 2, 20), 0u8..4).prop_map(|(mesh, bad_path)| ExportCase { mesh, when: 0, bad_path, over: false }).boxed(),
                check: |c, o| c19_caps(c, o, GIANT_CAPS), quick: 1, thorough: 8, serial: true,
            }),
            Box::new(Part {
                name: "cut-short",
                rule: "random hp-refined mesh; a file that can only grow to a part of its size: an error; one that can grow to exactly its size: none; all cases non-trivial",
                strat: |t| (mesh_strategy(3, 3, t.pick(4, 6), 3, 6), prop_oneof![4 => any::<u16>(), 1 => Just(u16::MAX), 1 => 60000u16..]).prop_map(|(mesh, room)| CutExport { mesh, room }).boxed(),
                check: c19_cut, quick: 500, thorough: 10000, serial: true,
            }),
        ],
        assumptions: vec!["numbers are compared to 1e-14, the precision that JSON text carries through two readers"],
    }
}
