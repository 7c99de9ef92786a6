use super::*;
use g2::OptArg;
use std::collections::BTreeMap;

/// Section, number, subtitle numbers; tables without subtitle first, then by discipline, then by
/// discipline and category.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Key(u8, u8, Vec<u8>);
impl Ord for Key {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0, self.1, self.2.len(), &self.2).cmp(&(o.0, o.1, o.2.len(), &o.2))
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
/// Reference: table key -> rows (code, description) in file order.
type Model = BTreeMap<Key, Vec<(usize, String)>>;

fn opt(k: &Key) -> OptArg {
    match k.2[..] {
        [] => OptArg::None,
        [d] => OptArg::L1(d),
        [d, c] => OptArg::L2(d, c),
        _ => unreachable!(),
    }
}
fn name(k: &Key) -> String {
    let mut s = format!("CODE_TABLE_{}_{}", k.0, k.1);
    for x in &k.2 {
        s += &format!("_{x}");
    }
    s
}
fn subtitle(a: &[u8]) -> String {
    match a {
        [] => String::new(),
        [d] => format!("Product discipline {d} - Some products"),
        [d, c] => format!("Product discipline {d} - Some products, parameter category {c}: some category"),
        _ => unreachable!(),
    }
}

/// The whole text, and each table's own text, must say what the model says.
fn compare(db: &Dbg2, m: &Model) -> Result<u64, mccore::Fail> {
    compare_titled(db, m, None)
}
fn compare_titled(db: &Dbg2, m: &Model, titles: Option<&BTreeMap<Key, String>>) -> Result<u64, mccore::Fail> {
    let text = guard("format", || db.to_string())?;
    let got = match lit::parse(&text) {
        Ok(t) => t,
        Err(e) => return fail("syntax", format!("{e} in {text:?}")),
    };
    let names: Vec<String> = m.keys().map(name).collect();
    let got_names: Vec<&String> = got.iter().map(|t| &t.name).collect();
    if names.iter().collect::<Vec<_>>() != got_names {
        return fail("content", format!("want tables {names:?}, got {got:?}"));
    }
    for (rows, t) in m.values().zip(&got) {
        if let Err(e) = c25::check(&lines(rows), &t.entries) {
            return fail("content", format!("{}: {e}", t.name));
        }
    }
    if let Some(titles) = titles {
        for (k, t) in m.keys().zip(&got) {
            let want = lit::squeeze(&titles[k]);
            ensure!(t.doc == want, "title", "{}: title {want:?}, documented as {:?}", t.name, t.doc);
        }
    }
    let mut own = String::new();
    for k in m.keys() {
        let t = guard("export", || db.export((k.0, k.1, opt(k))))?;
        match lit::parse(&t) {
            Ok(v) if v.len() == 1 && v[0] == got[own_index(m, k)] => {}
            other => return fail("export", format!("{}: {other:?}", name(k))),
        }
        own += &t;
        own += "\n";
    }
    // a table that no row named has no entries
    for k in [Key(4, 2, vec![]), Key(4, 2, vec![0]), Key(4, 2, vec![0, 2]), Key(4, 3, vec![]), Key(0, 0, vec![]), Key(255, 255, vec![255, 255])] {
        if !m.contains_key(&k) {
            let t = guard("export", || db.export((k.0, k.1, opt(&k))))?;
            ensure!(!t.contains('"'), "absent", "{} has no rows, exported {t:?}", name(&k));
        }
    }
    let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    ensure!(squeeze(&own) == squeeze(&text), "concat", "{own:?} / {text:?}");
    Ok(hash_of(&text))
}
fn own_index(m: &Model, k: &Key) -> usize {
    m.keys().position(|x| x == k).unwrap()
}
fn lines(rows: &[(usize, String)]) -> Vec<c25::Row> {
    rows.iter()
        .map(|(c, d)| c25::Row {
            code: c.to_string(),
            desc: d.clone(),
            range: Some((*c, *c)),
            reserved: c25::is_reserved(d),
        })
        .collect()
}

fn load(db: &mut Dbg2, path: &Path) -> Result<Result<(), String>, mccore::Fail> {
    guard("load", || db.load(path).map_err(|e| e.to_string()))
}

pub fn run(rep: R) {
    rep.rule = "every assignment of up to N rows of a file to a set of subtitles (in any interleaving), every sequence of up to N file loads from a set of files of all kinds, every discipline, category, section and table number, every description over a set of awkward characters, and a catalogue of malformed files; the generated text is parsed back as Rust source and compared with a map from table to rows".into();
    rep.note_assumption("one file per section and number (two files for the same table are outside the property)");
    let sc = Scratch::new("c26");

    // 1. Rows of one file over subtitles, any order, including tables that are left and resumed.
    let subs: [&[u8]; 7] = [&[], &[0], &[0, 0], &[0, 1], &[1, 0], &[3], &[10, 191]];
    let nrows = rep.tier(6, 7);
    rep.explore("rows-to-tables", 0, |cx| {
        let n = cx.choose(nrows + 1);
        let mut m = Model::new();
        let mut rows = vec![];
        for k in 0..n {
            let a = subs[cx.choose(subs.len())];
            let t = m.entry(Key(4, 2, a.to_vec())).or_default();
            let c = t.len();
            t.push((c, format!("r{k}")));
            rows.push((subtitle(a), c.to_string(), format!("r{k}")));
        }
        cx.note(|| format!("{rows:?}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_CodeTable_en.csv");
        std::fs::write(&p, g2_file("Title", &rows)).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("load-error", e);
        }
        match compare(&db, &m) {
            Err(mut e) => {
                let mut seen: Vec<&String> = vec![];
                let mut resumed = false;
                for (s, _, _) in &rows {
                    if seen.last() != Some(&s) {
                        resumed |= seen.contains(&s);
                        seen.push(s);
                    }
                }
                if resumed {
                    e.key = format!("{}-resumed-table", e.key);
                }
                Err(e)
            }
            ok => ok,
        }
    });

    // 1b. Tables of which nothing or only a part can be generated, among others.
    let nrows = rep.tier(4, 5);
    rep.explore("tables-without-entries", 0, |cx| {
        let n = 1 + cx.choose(nrows);
        let mut m = Model::new();
        let mut rows = vec![];
        for k in 0..n {
            let a = subs[cx.choose(4)];
            let t = m.entry(Key(4, 2, a.to_vec())).or_default();
            let c = t.last().map_or(0, |r| r.0 + 1);
            let (c, d) = match cx.choose(4) {
                0 => (c, format!("r{k}")),
                1 => (c, "Reserved".to_string()),
                2 => (c, "Missing".to_string()),
                _ => (c + 1, format!("gap {k}")),
            };
            t.push((c, d.clone()));
            rows.push((subtitle(a), c.to_string(), d));
        }
        cx.note(|| format!("{rows:?}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_CodeTable_en.csv");
        std::fs::write(&p, g2_file("Title", &rows)).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("load-error", e);
        }
        compare(&db, &m)
    });

    // 1c. Titles: each table is documented by the title of its own rows.
    let titles = [
        "Title", "#1 title", "", "a \"quoted\" title", "*/ /* \\", "two\nlines", "two\r\nlines", "a\rb", "{} {0}", " blanks ", "// x", "é 中", "const X", "a\n\n\nb\n", "\u{2028}x",
    ];
    let maxrows = rep.tier(3, 4);
    rep.explore("titles", 0, |cx| {
        let n = 1 + cx.choose(maxrows);
        let quoted = cx.flag();
        let mut m = Model::new();
        let mut t: BTreeMap<Key, &str> = BTreeMap::new();
        let mut text = csv_line(&G2_HEADER);
        for k in 0..n {
            let a = subs[cx.choose(3)];
            let key = Key(4, 2, a.to_vec());
            // rows of one table share its title
            let title: &str = match t.get(&key) {
                Some(x) => x,
                None => titles[cx.choose(titles.len())],
            };
            t.insert(key.clone(), title);
            let rows = m.entry(key).or_default();
            let c = rows.len();
            rows.push((c, format!("r{k}")));
            text += &if quoted {
                g2_row(title, &subtitle(a), &c.to_string(), &format!("r{k}"), k)
            } else {
                unquoted(&[title, &subtitle(a), &c.to_string(), "v", &format!("r{k}"), "", "u", "Operational"])
            };
        }
        cx.note(|| format!("{text:?}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_CodeTable_en.csv");
        std::fs::write(&p, text).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("load-error", e);
        }
        let t = t.into_iter().map(|(k, v)| (k, v.to_string())).collect();
        compare_titled(&db, &m, Some(&t))
    });

    // 1c'. Many tables of many rows in one file, whose rows lie together or apart.
    let counts = rep.tier(&[(1usize, 1000usize), (5, 300), (17, 20), (33, 8), (257, 3), (1100, 2)][..], &[(1, 1000), (1, 70_000), (5, 300), (9, 1025), (15, 20), (16, 20), (17, 20), (31, 8), (33, 8), (65, 8), (129, 3), (255, 3), (257, 3), (1100, 2), (3000, 2)][..]);
    rep.explore("many-tables", 0, |cx| {
        let (tables, per) = cx.pick(counts);
        let together = cx.flag();
        let order = cx.choose(2);
        let key = |t: usize| -> Vec<u8> {
            let t = if order == 0 { t } else { tables - 1 - t };
            match t {
                0 => vec![],
                1..=200 => vec![t as u8],
                _ => vec![(t % 7) as u8, (t / 13) as u8],
            }
        };
        let mut m = Model::new();
        let mut rows = vec![];
        for k in 0..tables * per {
            let t = if together { k / per } else { k % tables };
            let a = key(t);
            let v = m.entry(Key(4, 2, a.clone())).or_default();
            let c = v.len();
            v.push((c, format!("r{k}")));
            rows.push((subtitle(&a), c.to_string(), format!("r{k}")));
        }
        cx.note(|| format!("{tables} tables of {per} rows"));
        let p = sc.path("GRIB2_CodeFlag_4_2_CodeTable_en.csv");
        std::fs::write(&p, g2_file("Title", &rows)).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("load-error", e);
        }
        compare(&db, &m).map_err(|mut e| {
            e.msg = e.msg.chars().take(600).collect();
            e
        })
    });

    // 1d. A file loaded again after it has changed: its tables say what it says now.
    rep.explore("reloads", 0, |cx| {
        let kind = cx.choose(3);
        let n = 2 + cx.choose(3);
        let mut db = Dbg2::new();
        let mut cdb = cct::CodeDB::new();
        let mut last = vec![];
        for k in 0..n {
            let len = 1 + cx.choose(3);
            let rows: Vec<(String, String)> = (0..len).map(|i| (i.to_string(), format!("load {k} row {i}"))).collect();
            last = rows.iter().map(|r| r.1.clone()).collect();
            let (f, t) = match kind {
                0 => ("C00.csv", c00_file(&rows)),
                1 => ("C11.csv", c11_file(&rows)),
                _ => (
                    "GRIB2_CodeFlag_4_2_x.csv",
                    g2_file("T", &rows.iter().map(|r| (subtitle(&[0]), r.0.clone(), r.1.clone())).collect::<Vec<_>>()),
                ),
            };
            let p = sc.path(f);
            std::fs::write(&p, t).unwrap();
            let r = guard("load", || if kind == 2 { db.load(&p).map_err(|e| e.to_string()) } else { cdb.load(&p).map_err(|e| e.to_string()) })?;
            if let Err(e) = r {
                return fail("rejected", format!("{f}: {e}"));
            }
        }
        let text = if kind == 2 { db.to_string() } else { cdb.to_string() };
        let got = lit::parse(&text).map_err(|e| mccore::Fail { key: "syntax".into(), msg: e })?;
        ensure!(got.len() == 1 && got[0].entries == last, "reload", "want {last:?}, got {got:?}");
        Ok(hash_of(&text))
    });

    // 1e. Names of files that are no code-table files: near misses of every word.
    let words: [&[&str]; 4] = [
        &["GRIB2", "GRIB1", "grib2", "xGRIB2", "GRIB", "", "GRIB22"],
        &["CodeFlag", "Codeflag", "CodeFlags", "Template", "", "xCodeFlag"],
        &["4", "04x", "0", "", "CodeFlag"],
        &["2", "20", ""],
    ];
    let seps = ["_", "-", "__", " ", "."];
    rep.explore("other-names", 0, |cx| {
        let w: Vec<&str> = words.iter().map(|w| cx.pick(w)).collect();
        let which = cx.choose(4); // the separator that may be unusual
        let sep = cx.pick(&seps);
        let tail = cx.pick(&["_CodeTable_en", "", "_4_2"]);
        let mut f = w[0].to_string();
        for k in 1..4 {
            f += if which == k { sep } else { "_" };
            f += w[k];
        }
        f += tail;
        let stem: Vec<&str> = f.split('_').collect();
        cx.note(|| f.clone());
        let p = sc.path(&format!("{f}.csv"));
        if Path::new(&format!("{f}.csv")).file_stem().is_none_or(|s| s.to_str() != Some(&f)) {
            return Ok(0);
        }
        std::fs::write(&p, g2_file("t", &[(String::new(), "0".into(), "x".into())])).unwrap();
        let mut db = Dbg2::new();
        let r = load(&mut db, &p)?;
        std::fs::remove_file(&p).unwrap();
        if stem.len() >= 4 && stem[0] == "GRIB2" && stem[1] == "CodeFlag" {
            match (stem[2].parse::<u8>(), stem[3].parse::<u8>()) {
                (Ok(s), Ok(n)) => {
                    ensure!(r.is_ok(), "rejected", "{f}: {r:?}");
                    compare(&db, &Model::from([(Key(s, n, vec![]), vec![(0, "x".to_string())])]))
                }
                _ => {
                    // neither a table of any kind nor, silently, one under another number
                    ensure!(r.is_err(), "accepted", "{f} was accepted");
                    Ok(1)
                }
            }
        } else {
            ensure!(r.is_ok(), "other-kind", "{f}: {r:?}");
            compare(&db, &Model::new())
        }
    });

    // 2. Sequences of loads: table files of several sections, other files, broken files.
    struct F {
        file: &'static str,
        text: String,
        /// None: must be an error. Some(empty): ignored.
        adds: Option<Vec<(Key, Vec<(usize, String)>)>>,
    }
    let mk = |file: &'static str, s: u8, n: u8, subs: &[&[u8]]| {
        let mut rows = vec![];
        let mut adds = vec![];
        for a in subs {
            let d: Vec<(usize, String)> = (0..2).map(|c| (c, format!("{file} {a:?} {c}"))).collect();
            for (c, t) in &d {
                rows.push((subtitle(a), c.to_string(), t.clone()));
            }
            adds.push((Key(s, n, a.to_vec()), d));
        }
        F {
            file,
            text: g2_file(file, &rows),
            adds: Some(adds),
        }
    };
    let valid = g2_file("t", &[(String::new(), "0".into(), "x".into())]);
    let mut files = vec![
        mk("GRIB2_CodeFlag_4_2_CodeTable_en.csv", 4, 2, &[&[0, 0], &[0, 20], &[20, 0]]),
        mk("GRIB2_CodeFlag_4_20_CodeTable_en.csv", 4, 20, &[&[]]),
        mk("GRIB2_CodeFlag_4_1_CodeTable_en.csv", 4, 1, &[&[0], &[2]]),
        mk("GRIB2_CodeFlag_1_4_x.csv", 1, 4, &[&[]]),
        mk("GRIB2_CodeFlag_10_0.csv", 10, 0, &[&[]]),
        mk("GRIB2_CodeFlag_2_4.csv", 2, 4, &[&[], &[2], &[2, 2]]),
    ];
    for f in [
        "C00.csv",
        "GRIB2_Template_4_2_x_en.csv",
        "GRIB1_CodeFlag_4_2_x_en.csv",
        "GRIB2_CodeFlag_7.csv",
        "notes.csv",
    ] {
        files.push(F {
            file: f,
            text: valid.clone(),
            adds: Some(vec![]),
        });
    }
    files.push(F { file: "GRIB2_CodeFlag_a_2_x.csv", text: valid.clone(), adds: None });
    files.push(F { file: "GRIB2_CodeFlag_256_2_x.csv", text: valid.clone(), adds: None });
    files.push(F {
        file: "GRIB2_CodeFlag_4_3_broken.csv",
        text: g2_file("t", &[("Nonsense".into(), "0".into(), "x".into())]),
        adds: None,
    });
    let depth = rep.tier(4, 6);
    rep.explore("load-sequences", 0, |cx| {
        let n = 1 + cx.choose(depth);
        let mut db = Dbg2::new();
        let mut m = Model::new();
        let mut names = vec![];
        for _ in 0..n {
            let f = &files[cx.choose(files.len())];
            names.push(f.file);
            let p = sc.path(f.file);
            if !p.exists() {
                std::fs::write(&p, &f.text).unwrap();
            }
            match (load(&mut db, &p)?, &f.adds) {
                (Ok(()), Some(a)) => {
                    for (k, d) in a {
                        m.insert(k.clone(), d.clone());
                    }
                }
                (Err(_), None) => {}
                (Ok(()), None) => return fail("accepted", format!("{} was accepted", f.file)),
                (Err(e), Some(_)) => return fail("rejected", format!("{} was rejected: {e}", f.file)),
            }
        }
        cx.note(|| format!("{names:?}"));
        compare(&db, &m)
    });

    // 3. Every discipline and category number, with neighbours out of range.
    let step: i64 = 1;
    rep.explore("all-subtitles", 0, |cx| {
        let d = cx.range(-1, 257);
        let c = if d % step == 0 || d < 0 || d > 254 {
            cx.range(-1, 258)
        } else {
            let k = cx.choose(52);
            k as i64 * 5
        };
        // 258: no category
        let s = if c == 258 {
            format!("Product discipline {d} - X")
        } else {
            format!("Product discipline {d} - X, parameter category {c}: y, z")
        };
        let ok = (0..256).contains(&d) && (c == 258 || (0..256).contains(&c));
        let p = sc.path("GRIB2_CodeFlag_4_2_sub.csv");
        std::fs::write(&p, g2_file("T", &[(s.clone(), "0".into(), "x".into())])).unwrap();
        cx.note(|| s.clone());
        let mut db = Dbg2::new();
        match load(&mut db, &p)? {
            Ok(()) if ok => {
                let key = if c == 258 { vec![d as u8] } else { vec![d as u8, c as u8] };
                let m = Model::from([(Key(4, 2, key), vec![(0, "x".to_string())])]);
                compare(&db, &m)
            }
            Err(_) if !ok => Ok(0),
            Ok(()) => fail("accepted", format!("subtitle {s:?} was accepted")),
            Err(e) => fail("rejected", format!("subtitle {s:?} was rejected: {e}")),
        }
    });

    // 3b. Forms of subtitles: only the numbers decide.
    let names = ["", " - X", " - A,B", " - A: B", " - A - B", " - parameter category 7", " - Product discipline 9", " - a 1 2 3", " (x)"];
    let cats = ["", ": y", ": y, z", ": y: z", " - y", " y z", ": parameter category 8", ": a, parameter category 8: b", ": Product discipline 9"];
    let (nn, nc) = rep.tier((6, 5), (names.len(), cats.len()));
    let (names, cats) = (&names[..nn], &cats[cats.len() - nc..]);
    rep.explore("subtitle-forms", 0, |cx| {
        let one = |cx: Cx| {
            let d = cx.pick(&[0u8, 2, 10, 255]);
            let name = cx.pick(names);
            let c = cx.pick(&[None, Some(0u8), Some(19), Some(255)]);
            match c {
                None => (vec![d], format!("Product discipline {d}{name}")),
                Some(c) => (vec![d, c], format!("Product discipline {d}{name}, parameter category {c}{}", cx.pick(cats))),
            }
        };
        // two rows: the same table if the numbers are the same, whatever the words
        let (k1, s1) = one(cx);
        let (k2, s2) = if cx.flag() { one(cx) } else { (k1.clone(), format!("Product discipline {} - Other words{}", k1[0], if k1.len() > 1 { format!(", parameter category {}: other", k1[1]) } else { String::new() })) };
        let mut m = Model::new();
        m.entry(Key(4, 2, k1)).or_default().push((0, "x".into()));
        let t = m.entry(Key(4, 2, k2)).or_default();
        let c = t.len();
        t.push((c, "y".into()));
        let rows = [(s1, "0".to_string(), "x".to_string()), (s2, c.to_string(), "y".to_string())];
        cx.note(|| format!("{rows:?}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_forms.csv");
        std::fs::write(&p, g2_file("T", &rows)).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("rejected", e);
        }
        compare(&db, &m)
    });

    // 4. Every section and table number in the file name.
    rep.explore("all-file-names", 0, |cx| {
        let s = cx.range(0, 257);
        let n = if s % rep_step(step) == 0 || s > 254 { cx.range(0, 257) } else { 5 * cx.range(0, 51) };
        let tail = cx.pick(&["", "_CodeTable_en"]);
        let f = format!("GRIB2_CodeFlag_{s}_{n}{tail}.csv");
        let p = sc.path(&f);
        std::fs::write(&p, &valid).unwrap();
        cx.note(|| f.clone());
        let mut db = Dbg2::new();
        let r = load(&mut db, &p)?;
        std::fs::remove_file(&p).unwrap();
        let ok = s < 256 && n < 256;
        match r {
            Ok(()) if ok => {
                let m = Model::from([(Key(s as u8, n as u8, vec![]), vec![(0, "x".to_string())])]);
                compare(&db, &m)
            }
            Err(_) if !ok => Ok(0),
            r => fail("file-name", format!("{f}: {r:?}")),
        }
    });

    // 5. Descriptions over awkward characters.
    let chars: Vec<&str> = vec![
        "a", "\"", "\\", "\n", "\t", "\r\n", "'", "{", "}", "#", "é", "中", "😀", "\u{301}", "\u{200b}",
        "\u{7f}", "\0", "/", ",", " ", "\\n", "\u{feff}",
    ];
    let len = rep.tier(3, 5);
    rep.explore("descriptions", 0, |cx| {
        let n = 1 + cx.choose(len);
        let d: String = (0..n).map(|_| chars[cx.choose(chars.len())]).collect();
        cx.note(|| format!("{d:?}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_desc.csv");
        let q = format!("second {d}");
        let row = |c: &str, d: &String| (String::new(), c.to_string(), d.clone());
        std::fs::write(&p, g2_file("T", &[row("0", &d), row("1", &q), row("2-3", &d)])).unwrap();
        let mut db = Dbg2::new();
        if let Err(e) = load(&mut db, &p)? {
            return fail("load-error", e);
        }
        let m = Model::from([(Key(4, 2, vec![]), vec![(0, d.clone()), (1, q), (2, d.clone()), (3, d)])]);
        compare(&db, &m)
    });

    // 6. Malformed files and subtitles are errors, wherever the flaw is.
    let good = |d: &str| csv_line(&["T", "", d, "v", "x", "n", "u", "Operational"]);
    let flaws: Vec<(&str, Vec<u8>)> = vec![
        ("short row", csv_line(&["T", "", "1", "v"]).into_bytes()),
        ("long row", csv_line(&["T", "", "1", "v", "x", "n", "u", "Operational", "extra"]).into_bytes()),
        ("one field", b"oops\n".to_vec()),
        ("not UTF-8", b"T,,1,v,\xff\xfe,n,u,Operational\n".to_vec()),
        ("subtitle text", csv_line(&["T", "Nonsense", "1", "v", "x", "n", "u", "O"]).into_bytes()),
        ("subtitle no number", csv_line(&["T", "Product discipline", "1", "v", "x", "n", "u", "O"]).into_bytes()),
        ("subtitle bad number", csv_line(&["T", "Product discipline zero", "1", "v", "x", "n", "u", "O"]).into_bytes()),
        ("subtitle bad category", csv_line(&["T", "Product discipline 0 - X, parameter category a: y", "1", "v", "x", "n", "u", "O"]).into_bytes()),
        ("subtitle other second part", csv_line(&["T", "Product discipline 0 - X, something else 3", "1", "v", "x", "n", "u", "O"]).into_bytes()),
        ("subtitle category first", csv_line(&["T", "parameter category 1: y, Product discipline 0 - X", "1", "v", "x", "n", "u", "O"]).into_bytes()),
    ];
    rep.explore("malformed-rows", 0, |cx| {
        let (what, bytes) = &flaws[cx.choose(flaws.len())];
        let total = 1 + cx.choose(4);
        let pos = cx.choose(total);
        let mut t = csv_line(&G2_HEADER).into_bytes();
        for k in 0..total {
            if k == pos {
                t.extend_from_slice(bytes);
            } else {
                t.extend_from_slice(good(&k.to_string()).as_bytes());
            }
        }
        cx.note(|| format!("{what} at {pos} of {total}"));
        let p = sc.path("GRIB2_CodeFlag_4_2_bad.csv");
        std::fs::write(&p, &t).unwrap();
        let mut db = Dbg2::new();
        let other = sc.path("GRIB2_CodeFlag_1_4_x.csv");
        std::fs::write(&other, &valid).unwrap();
        load(&mut db, &other)?.map_err(|e| mccore::Fail { key: "rejected".into(), msg: e })?;
        let before = db.export((1, 4, OptArg::None));
        match load(&mut db, &p)? {
            Ok(()) => fail("accepted", format!("{what} was accepted")),
            Err(e) => {
                ensure!(db.export((1, 4, OptArg::None)) == before, "mixed", "another table changed");
                Ok(hash_of(&e))
            }
        }
    });
    rep.explore("malformed-headers", 0, |cx| {
        let kind = cx.choose(3);
        let (hdr, row, file): (Vec<&str>, Vec<&str>, &str) = match kind {
            0 => (G2_HEADER.to_vec(), vec!["T", "", "0", "v", "x", "n", "u", "O"], "GRIB2_CodeFlag_4_2_h.csv"),
            1 => (
                vec!["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"],
                vec!["0", "1", "2", "x", "O"],
                "C00.csv",
            ),
            _ => (vec!["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"], vec!["9", "0", "x", "O"], "C11.csv"),
        };
        // columns in any rotation are fine; a missing needed column is not
        let rot = cx.choose(hdr.len());
        let drop = cx.choose(hdr.len() + 1);
        let needed: &[usize] = match kind {
            0 => &[0, 1, 2, 4],
            1 => &[0, 3],
            _ => &[1, 2],
        };
        let idx: Vec<usize> = (0..hdr.len()).map(|k| (k + rot) % hdr.len()).filter(|k| *k != drop).collect();
        let text = csv_line(&idx.iter().map(|k| hdr[*k]).collect::<Vec<_>>())
            + &csv_line(&idx.iter().map(|k| row[*k]).collect::<Vec<_>>());
        let p = sc.path(file);
        std::fs::write(&p, &text).unwrap();
        cx.note(|| text.clone());
        let out = guard("load", || -> Result<String, String> {
            if kind == 0 {
                let mut db = Dbg2::new();
                db.load(&p).map_err(|e| e.to_string())?;
                Ok(db.to_string())
            } else {
                let mut db = cct::CodeDB::new();
                db.load(&p).map_err(|e| e.to_string())?;
                Ok(db.to_string())
            }
        })?;
        match out {
            Ok(t) => {
                ensure!(!needed.contains(&drop), "accepted", "accepted without column {}", hdr[drop]);
                let want = match kind {
                    0 => "CODE_TABLE_4_2",
                    1 => "COMMON_CODE_TABLE_00",
                    _ => "COMMON_CODE_TABLE_11",
                };
                let got = lit::parse(&t).map_err(|e| mccore::Fail { key: "syntax".into(), msg: e })?;
                ensure!(
                    got.len() == 1 && got[0].name == want && got[0].entries == ["x"],
                    "content",
                    "{got:?}"
                );
                Ok(hash_of(&t))
            }
            Err(e) => {
                // unused columns may be demanded or not; all columns present must be accepted
                ensure!(drop < hdr.len(), "rejected", "rotation {rot}: {e}");
                Ok(1)
            }
        }
    });
    rep.explore("missing-files", 0, |cx| {
        let f = cx.pick(&["GRIB2_CodeFlag_4_2_none.csv", "C00.csv", "C11.csv"]);
        let d = sc.path("absent").join(f);
        let r = guard("load", || {
            if f.starts_with('G') {
                Dbg2::new().load(&d).is_err()
            } else {
                cct::CodeDB::new().load(&d).is_err()
            }
        })?;
        ensure!(r, "accepted", "{f}: no error");
        Ok(0)
    });
    // 7. The common code tables: loads in any order, other names ignored.
    rep.explore("cct-loads", 0, |cx| {
        let n = 1 + cx.choose(4);
        let mut db = cct::CodeDB::new();
        let mut m: BTreeMap<u8, Vec<String>> = BTreeMap::new();
        for k in 0..n {
            let c = cx.choose(4);
            let rows: Vec<(String, String)> = (0..2).map(|i| (i.to_string(), format!("{c} {i} {k}"))).collect();
            let entries: Vec<String> = rows.iter().map(|r| r.1.clone()).collect();
            let (f, t) = match c {
                0 => ("C00.csv", c00_file(&rows)),
                1 => ("C11.csv", c11_file(&rows)),
                2 => ("C12.csv", c11_file(&rows)),
                _ => ("XC00.csv", c00_file(&rows)),
            };
            if c < 2 {
                m.insert(if c == 0 { 0 } else { 11 }, entries);
            }
            let p = sc.path(f);
            std::fs::write(&p, t).unwrap();
            if let Err(e) = guard("load", || db.load(&p).map_err(|e| e.to_string()))? {
                return fail("rejected", format!("{f}: {e}"));
            }
        }
        let text = guard("format", || db.to_string())?;
        let got = lit::parse(&text).map_err(|e| mccore::Fail { key: "syntax".into(), msg: e })?;
        let want: Vec<(String, Vec<String>)> = m.iter().map(|(k, v)| (format!("COMMON_CODE_TABLE_{k:02}"), v.clone())).collect();
        ensure!(got.iter().map(|t| (t.name.clone(), t.entries.clone())).eq(want.iter().cloned()), "content", "want {want:?}, got {got:?}");
        for k in m.keys() {
            let own = lit::parse(&db.export(*k)).map_err(|e| mccore::Fail { key: "syntax".into(), msg: e })?;
            ensure!(own.len() == 1 && own[0] == got[m.keys().position(|x| x == k).unwrap()], "export", "{own:?}");
        }
        Ok(hash_of(&text))
    });
}
fn rep_step(s: i64) -> i64 {
    s
}
