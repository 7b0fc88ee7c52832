use crate::framework::Prop;

pub mod dof;
pub mod fields;
pub mod generic;
pub mod io;
pub mod linalg;
pub mod matrix;
pub mod mesh;
pub mod numerics;
#[cfg(feature = "ortho")]
pub mod ortho;
pub mod queries;
pub mod slepc;
pub mod spectrum;

type Maker = fn() -> Prop;
/// property, its parts, and what their case counts are multiplied by in the quick and the thorough run
const ALL: &[(&str, Maker, u32, u32)] = &[
    ("C01", mesh::c01, 60, 80),
    ("C02", mesh::c02, 12, 12),
    ("C03", mesh::c03, 60, 40),
    ("C04", mesh::c04, 40, 40),
    ("C05", mesh::c05, 60, 60),
    ("C06", dof::c06, 15, 1),
    ("C07", dof::c07, 15, 1),
    ("C08", matrix::c08, 1, 1),
    ("C09", matrix::c09, 1, 1),
    ("C10", matrix::c10, 1, 1),
    ("C11", spectrum::c11, 1, 1),
    ("C12", linalg::c12, 1, 1),
    ("C13", slepc::c13, 4, 1),
    ("C14", linalg::c14, 1, 1),
    ("C15", linalg::c15, 1, 1),
    ("C16", fields::c16, 12, 1),
    ("C17", fields::c17, 12, 1),
    ("C18", io::c18, 6, 1),
    ("C19", io::c19, 4, 1),
    ("C20", numerics::c20, 3, 1),
    ("C21", numerics::c21, 3, 1),
    ("C22", numerics::c22, 8, 1),
    ("C23", queries::c23, 30, 1),
    ("C24", queries::c24, 6, 1),
    ("C25", numerics::c25, 2, 1),
    ("C26", spectrum::c26, 3, 1),
    ("C27", spectrum::c27, 30, 1),
    ("C28", generic::c28, 1, 1),
    #[cfg(feature = "ortho")]
    ("C29", ortho::c29, 1, 1),
];
pub fn get(id: &str) -> Option<Prop> {
    ALL.iter().find(|e| e.0 == id).map(|e| e.1())
}
pub fn ids() -> Vec<&'static str> {
    ALL.iter().map(|e| e.0).collect()
}
pub fn factor(id: &str, tier: crate::framework::Tier) -> u32 {
    ALL.iter().find(|e| e.0 == id).map_or(1, |e| tier.pick(e.2, e.3))
}
