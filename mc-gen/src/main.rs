//! C25, C26: the code-table generator (/repo/gen), driven through its public interface with
//! table files written to a scratch directory.
use grib_build::{cct_csv, grib2_codeflag_csv as g2};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};
use std::path::{Path, PathBuf};

#[global_allocator]
static A: mccore::alloc::Watch = mccore::alloc::Watch;

mod c25;
mod c26;
pub mod lit;

fn main() {
    mccore::main_with(&[("C25", c25::run), ("C26", c26::run)]);
}

/// A scratch directory in memory if possible; one file per thread and name.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = Path::new("/dev/shm");
        let mk = |b: &Path| {
            let d = b.join(format!("mc-{tag}-{}", std::process::id()));
            std::fs::create_dir_all(&d).ok().map(|_| d)
        };
        let d = mk(base)
            .or_else(|| mk(&std::env::temp_dir()))
            .expect("no scratch directory");
        Scratch(d)
    }
    /// A path for `name` in a directory of the calling thread.
    pub fn path(&self, name: &str) -> PathBuf {
        let t = format!("{:?}", std::thread::current().id());
        let t: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
        let d = self.0.join(t);
        if !d.exists() {
            std::fs::create_dir_all(&d).unwrap();
        }
        d.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn csv_field(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}
/// Quotes only the fields that need it.
pub fn unquoted(fields: &[&str]) -> String {
    let f = |s: &&str| if s.contains(['"', ',', '\n', '\r']) { csv_field(s) } else { s.to_string() };
    fields.iter().map(f).collect::<Vec<_>>().join(",") + "\n"
}
pub fn csv_line(fields: &[&str]) -> String {
    let mut l = fields.iter().map(|f| csv_field(f)).collect::<Vec<_>>().join(",");
    l.push('\n');
    l
}
pub const G2_HEADER: [&str; 8] = [
    "Title_en",
    "SubTitle_en",
    "CodeFlag",
    "Value",
    "MeaningParameterDescription_en",
    "Note_en",
    "UnitComments_en",
    "Status",
];
/// A table file of the "GRIB2 code flag" kind; rows are (subtitle, code, description).
pub fn g2_file(title: &str, rows: &[(String, String, String)]) -> String {
    let mut s = csv_line(&G2_HEADER);
    for (k, (sub, code, desc)) in rows.iter().enumerate() {
        s += &g2_row(title, sub, code, desc, k);
    }
    s
}
/// The columns that carry nothing into the tables vary from row to row.
pub fn g2_row(title: &str, sub: &str, code: &str, desc: &str, k: usize) -> String {
    let value = ["v", "", "7", "Reserved"][k % 4];
    let note = ["n", "", "Reserved", "(see Note 3)", ")"][k % 5];
    let unit = ["", "K", "Missing"][k % 3];
    csv_line(&[title, sub, code, value, desc, note, unit, STATUS[k % STATUS.len()]])
}
const STATUS: [&str; 6] = ["Deprecated", "Operational", "Pre-operational", "", "Validation", "Reserved"];
pub fn c00_file(rows: &[(String, String)]) -> String {
    let mut s = csv_line(&[
        "GRIB version number",
        "BUFR version number",
        "CREX version number",
        "Effective date",
        "Status",
    ]);
    for (k, (code, desc)) in rows.iter().enumerate() {
        s += &csv_line(&[code, ["99", "0", ""][k % 3], ["98", ""][k % 2], desc, STATUS[k % STATUS.len()]]);
    }
    s
}
pub fn c11_file(rows: &[(String, String)]) -> String {
    let mut s = csv_line(&["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"]);
    for (k, (code, desc)) in rows.iter().enumerate() {
        s += &csv_line(&[["97", "1", ""][k % 3], code, desc, STATUS[k % STATUS.len()]]);
    }
    s
}

#[allow(unused)]
pub(crate) use {cct_csv as cct, ensure as ens, fail as failing, guard as guarded, hash_of as hash};
pub(crate) type Dbg2 = g2::CodeDB;
pub(crate) type Cx<'a> = &'a mut Ctx;
pub(crate) type L = Leaf;
pub(crate) type R<'a> = &'a mut Report;
