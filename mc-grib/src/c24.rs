//! C24: code lookups.
use crate::{c21, msg::*, obs};
use grib::{codetables::*, *};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Entry {
    Text(String),
    /// Reserved, missing or without a meaning.
    Gap,
}
type Table = BTreeMap<usize, Entry>;
/// (file key, discipline, category)
type Key = (&'static str, Option<u8>, Option<u8>);
/// Each with whether its codes are contiguous.
pub struct Tables(BTreeMap<Key, (Table, bool)>);

/// A small CSV reader of the harness's own.
fn csv(text: &str) -> Vec<Vec<String>> {
    let (mut rows, mut row, mut cell, mut quoted) = (vec![], vec![], String::new(), false);
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match (c, quoted) {
            ('"', true) if it.peek() == Some(&'"') => {
                cell.push('"');
                it.next();
            }
            ('"', q) => quoted = !q,
            (',', false) => row.push(std::mem::take(&mut cell)),
            ('\r', false) => {}
            ('\n', false) => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
            }
            (c, _) => cell.push(c),
        }
    }
    rows
}

fn number_after(s: &str, word: &str) -> Option<u8> {
    let s = &s[s.find(word)? + word.len()..];
    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn add(t: &mut Table, code: &str, desc: &str) {
    let (a, b) = match code.split_once('-') {
        Some((a, b)) => (a.parse::<usize>(), b.parse::<usize>()),
        None => (code.parse(), code.parse()),
    };
    if let (Ok(a), Ok(b)) = (a, b) {
        let gap = desc == ")" || desc.starts_with("Reserved") || desc.starts_with("Missing") || desc == "Future versions";
        for c in a..=b {
            t.insert(c, if gap { Entry::Gap } else { Entry::Text(desc.to_string()) });
        }
    }
}

const FILES: [&str; 13] = ["0_0", "1_1", "1_2", "1_3", "1_4", "3_1", "4_0", "4_1", "4_2", "4_3", "4_4", "4_5", "5_0"];

fn tables() -> Tables {
    let def = mccore::verif_dir().join("shadow/grib/def");
    let mut all = BTreeMap::new();
    for f in FILES {
        let text = std::fs::read_to_string(def.join(format!("GRIB2/GRIB2_CodeFlag_{f}_CodeTable_en.csv"))).expect("a table file");
        for r in csv(&text).iter().skip(1) {
            let key = (f, number_after(&r[1], "Product discipline "), number_after(&r[1], "parameter category "));
            add(all.entry(key).or_insert_with(Table::new), &r[2], &r[4]);
        }
    }
    for (f, code, desc) in [("C00", 0, 3), ("C11", 1, 2)] {
        let text = std::fs::read_to_string(def.join(format!("CCT/{f}.csv"))).expect("a table file");
        for r in csv(&text).iter().skip(1) {
            add(all.entry((f, None, None)).or_insert_with(Table::new), &r[code], &r[desc]);
        }
    }
    let dense = |t: &Table| (0..*t.keys().last().unwrap()).all(|c| t.contains_key(&c));
    Tables(all.into_iter().map(|(k, t)| {
        let d = dense(&t);
        (k, (t, d))
    }).collect())
}

impl Tables {
    /// The texts a lookup may give: (description, display).
    fn allowed(&self, key: Key, code: usize) -> Vec<(Option<String>, String)> {
        let none = (None, format!("code '{code}' is not implemented"));
        let Some((t, dense)) = self.0.get(&key) else { return vec![none] };
        // Tables whose codes are not contiguous are not supplied.
        if !*dense {
            return vec![none];
        }
        match t.get(&code) {
            Some(Entry::Text(s)) => vec![(Some(s.clone()), s.clone())],
            Some(Entry::Gap) => vec![(Some(String::new()), String::new()), none],
            None => vec![none],
        }
    }
    fn shows(&self, key: Key, code: usize, text: &str) -> bool {
        self.allowed(key, code).iter().any(|a| a.1 == text)
    }
}

fn check(t: &Tables, key: Key, table: &dyn Lookup, codes: impl Iterator<Item = usize>) -> Leaf {
    let mut h = 0;
    for code in codes {
        let got = guard("a lookup", || {
            let r = table.lookup(code);
            (r.description(), r.to_string())
        })?;
        let want = t.allowed(key, code);
        ensure!(want.contains(&got), "wrong lookup", "table {key:?}, code {code}: {got:?}, not {want:?}");
        h = hash_of(&(h, got));
    }
    Ok(h)
}

const LARGE: [usize; 9] = [65_535, 65_536, 65_537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX];

fn plain(cx: &mut Ctx, t: &Tables) -> Leaf {
    let list: [(&str, &(dyn Lookup + Sync)); 13] = [
        ("0_0", &CodeTable0_0),
        ("1_1", &CodeTable1_1),
        ("1_2", &CodeTable1_2),
        ("1_3", &CodeTable1_3),
        ("1_4", &CodeTable1_4),
        ("3_1", &CodeTable3_1),
        ("4_0", &CodeTable4_0),
        ("4_3", &CodeTable4_3),
        ("4_4", &CodeTable4_4),
        ("4_5", &CodeTable4_5),
        ("5_0", &CodeTable5_0),
        ("C00", &CommonCodeTable00),
        ("C11", &CommonCodeTable11),
    ];
    let (name, table) = list[cx.choose(list.len())];
    let block = cx.choose(257);
    let key = (name, None, None);
    if block == 256 {
        check(t, key, table, LARGE.into_iter())
    } else {
        check(t, key, table, block * 256..(block + 1) * 256)
    }
}

fn by_discipline(cx: &mut Ctx, t: &Tables) -> Leaf {
    let d = cx.choose(256) as u8;
    check(t, ("4_1", Some(d), None), &CodeTable4_1::new(d), (0..1024).chain(LARGE))
}

fn by_category(cx: &mut Ctx, t: &Tables, codes: usize) -> Leaf {
    let d = cx.choose(256) as u8;
    let c = cx.choose(256) as u8;
    check(t, ("4_2", Some(d), Some(c)), &CodeTable4_2::new(d, c), (0..codes).chain(LARGE))
}

fn parameters(cx: &mut Ctx, t: &Tables) -> Leaf {
    let d = cx.choose(256) as u8;
    let c = cx.choose(256) as u8;
    let other = cx.flag();
    for num in 0..=255u8 {
        let p = Parameter { discipline: d, centre: if other { 34 } else { 7 }, master_ver: num, local_ver: other as u8, category: c, num };
        let got = guard("a parameter's description", || p.description())?;
        let want = t.allowed(("4_2", Some(d), Some(c)), num as usize);
        ensure!(want.iter().any(|w| w.0 == got), "wrong parameter description", "{d} {c} {num}: {got:?}, not {want:?}");
    }
    Ok(0)
}

fn templates(cx: &mut Ctx, t: &Tables) -> Leaf {
    let sect = cx.choose(256) as u8;
    let file = match sect {
        3 => "3_1",
        4 => "4_0",
        5 => "5_0",
        _ => "",
    };
    let mut h = 0;
    let step = if file.is_empty() { 257 } else { 1 };
    for num in (0..=65535u16).step_by(step) {
        let (d, s) = guard("a template's name", || (TemplateInfo(sect, num).describe(), TemplateInfo(sect, num).to_string()))?;
        ensure!(s == format!("{sect}.{num}"), "wrong template number", "{sect}.{num}: {s}");
        match (&d, file) {
            (None, "") => {}
            (Some(d), f) if !f.is_empty() => ensure!(t.shows((f, None, None), num as usize, d), "wrong template name", "{sect}.{num}: {d}"),
            _ => return fail("wrong template name", format!("{sect}.{num}: {d:?}")),
        }
        h = hash_of(&(h, d));
    }
    Ok(h)
}

/// What a line of the description says.
fn says(text: &str, label: &str, nth: usize) -> Option<String> {
    let l = text.lines().filter(|l| l.trim_start().starts_with(label)).nth(nth)?;
    Some(l.split_once(':')?.1.trim().to_string())
}

/// A one-submessage file's whole description.
fn check_description(t: &Tables, discipline: u8, s3: Vec<u8>, s4: Vec<u8>, s5: Vec<u8>) -> Leaf {
    let a = c21::model(&s4);
    let gt = u16::from_be_bytes([s3[7], s3[8]]) as usize;
    let rt = u16::from_be_bytes([s5[4], s5[5]]) as usize;
    let np = u32::from_be_bytes(s3[1..5].try_into().unwrap());
    let nr = u32::from_be_bytes(s5[0..4].try_into().unwrap());
    let what = format!("discipline {discipline}, grid template {gt}, product {:?}, representation {rt}", s4);
    let file = Msg { discipline, s1: ident(), subs: vec![Sub { s2: None, s3: Some(s3), s4, s5, s6: no_bitmap(), s7: vec![0; 9] }] }.bytes();
    let got = guard("a description", || {
        let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
        let (_, s) = g.iter().next().ok_or("no submessage")?;
        Ok::<_, String>(s.describe())
    })?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("no description", format!("{what}: {e}")),
    };
    let opt = |key: Option<(Key, usize)>, label: &str, nth: usize| -> Result<(), mccore::Fail> {
        let s = says(&got, label, nth);
        let ok = match (key, &s) {
            (_, None) => false,
            (None, Some(s)) => s.is_empty(),
            (Some((k, c)), Some(s)) => t.shows(k, c, s),
        };
        if ok {
            return Ok(());
        }
        fail(format!("wrong line {label}"), format!("{what}: {s:?} for {key:?}"))
    };
    opt(Some((("3_1", None, None), gt)), "Grid:", 0)?;
    opt(Some((("4_0", None, None), a.tmpl as usize)), "Product:", 0)?;
    opt(Some((("5_0", None, None), rt)), "Data Representation:", 0)?;
    opt(a.category.map(|c| (("4_1", Some(discipline), None), c as usize)), "Parameter Category:", 0)?;
    opt(a.number.zip(a.category).map(|(n, c)| (("4_2", Some(discipline), Some(c)), n as usize)), "Parameter:", 0)?;
    opt(a.process.map(|p| (("4_3", None, None), p as usize)), "Generating Proc", 0)?;
    opt(a.surfaces.map(|s| (("4_5", None, None), s.0 .0 as usize)), "1st Fixed Surface Type:", 0)?;
    opt(a.surfaces.map(|s| (("4_5", None, None), s.1 .0 as usize)), "2nd Fixed Surface Type:", 0)?;
    let num = |missing: bool, v: i64| if missing { "Missing".to_string() } else { v.to_string() };
    let mut exact: Vec<(&str, String)> = vec![
        ("Number of points:", np.to_string()),
        ("Number of represented values:", nr.to_string()),
        ("Forecast Time:", a.time.map(|t| t.1.to_string()).unwrap_or_default()),
    ];
    let e = String::new;
    let s = a.surfaces;
    exact.push(("1st Scale Factor:", s.map_or_else(e, |s| num(s.0 .1 == -127, s.0 .1))));
    exact.push(("1st Scaled Value:", s.map_or_else(e, |s| num(s.0 .2 == -0x7fff_ffff, s.0 .2))));
    exact.push(("2nd Scale Factor:", s.map_or_else(e, |s| num(s.1 .1 == -127, s.1 .1))));
    exact.push(("2nd Scaled Value:", s.map_or_else(e, |s| num(s.1 .2 == -0x7fff_ffff, s.1 .2))));
    let units = ["Minute", "Hour", "Day", "Month", "Year", "Decade", "Normal", "Century"];
    exact.push((
        "Forecast Time Unit:",
        a.time.map_or_else(e, |t| match t.0 {
            u @ 0..=7 => units[u as usize].to_string(),
            10 => "ThreeHours".into(),
            11 => "SixHours".into(),
            12 => "TwelveHours".into(),
            13 => "Second".into(),
            255 => "Missing".into(),
            u => format!("code {u}"),
        }),
    ));
    for (label, want) in exact {
        let s = says(&got, label, 0);
        ensure!(s.as_ref() == Some(&want), format!("wrong line {label}"), "{what}: {s:?}, not {want:?}");
    }
    Ok(hash_of(&got))
}

fn descriptions(cx: &mut Ctx, t: &Tables, ds: &[u8], nums: &[u8]) -> Leaf {
    let d = cx.pick(ds);
    let c = cx.choose(256) as u8;
    for n in nums {
        check_description(t, d, small_grid(1, 1), prod(c, *n, 6, (100, 0, 1), (255, 0, 0)), repr(1, 0, 0.0, 0, 0, 0))?;
    }
    Ok(0)
}

/// Each octet of the product section in turn; product templates.
fn products(cx: &mut Ctx, t: &Tables) -> Leaf {
    let tmpl = cx.choose(1200) as u16;
    let fill = cx.choose(6);
    let len = cx.pick(&[4usize, 5, 6, 29, 50, 80]);
    let p: Vec<u8> = (0..len)
        .map(|k| match k {
            2 => (tmpl >> 8) as u8,
            3 => tmpl as u8,
            _ => match fill {
                0 => k as u8,
                1 => (k * 7) as u8,
                2 => 255,
                3 => 0,
                4 => 100 + k as u8,
                _ => [1, 0x81, 100, 3, 10, 13][k % 6],
            },
        })
        .collect();
    check_description(t, 0, small_grid(1, 1), p, repr(1, 0, 0.0, 0, 0, 0))
}

fn octets(cx: &mut Ctx, t: &Tables) -> Leaf {
    let pos = 4 + cx.choose(25);
    let disc = cx.pick(&[0u8, 1, 2, 10]);
    let mut p = prod(3, 1, 6, (100, -2, 850), (103, 1, -77));
    for v in 0..=255 {
        p[pos] = v;
        check_description(t, disc, small_grid(1, 1), p.clone(), repr(1, 0, 0.0, 0, 0, 0))?;
    }
    Ok(0)
}

fn grids_and_data(cx: &mut Ctx, t: &Tables) -> Leaf {
    let which = cx.choose(2);
    let hi = cx.choose(256) as u8;
    for lo in 0..=255 {
        let num = u16::from_be_bytes([hi, lo]);
        let (mut s3, mut s5) = (grid_unsupported(0x0102_0304, 101), repr(0x0506_0708, 0, 0.0, 0, 0, 0));
        if which == 0 {
            s3[7..9].copy_from_slice(&num.to_be_bytes());
        } else {
            s5[4..6].copy_from_slice(&num.to_be_bytes());
        }
        check_description(t, 0, s3, prod_default(), s5)?;
    }
    Ok(0)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every supplied table with codes 0 to 65535 and huge ones; Code Tables 4.1 and 4.2 for every discipline and category; every parameter triple; every template number of every section; whole submessage descriptions for every category, every product template, every octet of the product section and every grid and representation template number; against the harness's own reading of the table files".into();
    rep.note_assumption("the table files are stand-ins (the published ones are submodules that are absent in the sandbox); every description names its table and code");
    let t = tables();
    let t = &t;
    rep.explore("plain", 0, |cx| plain(cx, t));
    rep.explore("by discipline", 0, |cx| by_discipline(cx, t));
    let codes = rep.tier(260, 1024);
    rep.explore("by category", 0, |cx| by_category(cx, t, codes));
    rep.explore("parameters", 0, |cx| parameters(cx, t));
    rep.explore("templates", 0, |cx| templates(cx, t));
    let all: Vec<u8> = (0..=255).collect();
    let ds: &[u8] = if rep.quick() { &[0, 1, 2, 3, 4, 5, 10, 20, 21, 255] } else { &all };
    let nums: Vec<u8> = (0..=rep.tier(13, 40)).chain([100, 191, 192, 254, 255]).collect();
    rep.explore("descriptions", 0, |cx| descriptions(cx, t, ds, &nums));
    rep.explore("products", 0, |cx| products(cx, t));
    rep.explore("octets", 0, |cx| octets(cx, t));
    rep.explore("grids and data", 0, |cx| grids_and_data(cx, t));
}
