use crate::batch::{Host, Item, Out};
use crate::c27::{families, item_for_path, judge, large, large_sizes, probe_code, probes, tables, text, Row};
use mccore::{ensure, fail, hash_of, Fail, Report};

/// Each variant's documentation table, against the rows merged into it.
fn docs(rows: &[Row], out: &Out) -> Result<(), Fail> {
    let Out::Ran(lines) = out else { return Ok(()) };
    for l in lines {
        let Some(rest) = l.strip_prefix("V ") else { continue };
        let mut w = rest.splitn(3, ' ');
        let name = w.next().unwrap();
        let _ = w.next();
        let lit = w.next().unwrap();
        let doc = unescape(lit);
        let got: Vec<Vec<String>> = doc
            .lines()
            .filter(|l| l.starts_with('|'))
            .map(|l| {
                let l = l.trim_end();
                let l = l.strip_prefix('|').unwrap();
                let l = l.strip_suffix('|').unwrap_or(l);
                l.split('|').map(|c| c.trim().to_string()).collect()
            })
            .collect();
        ensure!(got.len() >= 2, "doc-table", "{name}: no table in {doc:?}");
        let header: Vec<String> = got[0].iter().map(|h| h.to_lowercase()).collect();
        let col = |what: &str| header.iter().position(|h| h.contains(what));
        let cols: Vec<Option<usize>> = ["discipline", "category", "number", "description", "unit", "abbreviation"].iter().map(|w| col(w)).collect();
        ensure!(cols.iter().all(Option::is_some), "doc-header", "{name}: {header:?}");
        let got_rows: Vec<Vec<String>> = got[1..]
            .iter()
            .filter(|r| !r.iter().all(|c| !c.is_empty() && c.chars().all(|x| x == '-' || x == ':')))
            .map(|r| cols.iter().map(|c| r.get(c.unwrap()).cloned().unwrap_or_default()).collect())
            .collect();
        let want: Vec<Vec<String>> = rows
            .iter()
            .filter(|r| r.variant() == name)
            .map(|r| {
                vec![r.id.0.to_string(), r.id.1.to_string(), r.id.2.to_string(), r.desc.trim().into(), r.unit.trim().into(), r.name.clone()]
            })
            .collect();
        ensure!(got_rows == want, "doc-rows", "{name}: want {want:?}, got {got_rows:?}");
        ensure!(doc.lines().next().unwrap_or("").contains(&rows.iter().find(|r| r.variant() == name).unwrap().name), "doc-title", "{name}: {doc:?}");
    }
    Ok(())
}

fn unescape(lit: &str) -> String {
    // a Debug-formatted string
    let mut o = String::new();
    let mut it = lit.chars().skip(1).peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => break,
            '\\' => match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some('0') => o.push('\0'),
                Some('u') => {
                    let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                }
                Some(c) => o.push(c),
                None => {}
            },
            c => o.push(c),
        }
    }
    o
}

/// The macro's own error: no compiler error code, and not a panic of the macro.
fn own_error(out: &Out) -> Result<u64, String> {
    match out {
        Out::Ran(l) => Err(format!("accepted; it printed {l:?}")),
        Out::Rejected(e) => {
            if e.iter().any(|(c, m)| c.is_empty() && !m.contains("panicked")) {
                Ok(hash_of(&e[0].1))
            } else {
                Err(format!("rejected, but not by the macro itself: {e:?}"))
            }
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "every catalogued malformed line at every position of tables of 1 to 3 rows, every catalogued form of the argument and of the annotated item (each must fail with the macro's own error), and every table of up to N rows over codes, repeated abbreviations, descriptions and units with awkward characters (the documentation of each variant is read back from the compiled enum and compared with the rows)".into();
    rep.note_assumption("cells are compared without surrounding blanks");
    rep.set_hang_limit(600_000);
    let host = Host::new("c28");

    // 1. documentation
    let ids = [(0, 0, 0), (0, 3, 194), (10, 191, 7), (255, 255, 255)];
    let names = ["A", "U-G", "U_G"];
    let max = rep.tier(3, 4);
    tables(rep, &host, "docs", 300, |cx| {
        let n = 1 + cx.choose(max);
        let mut left = ids.to_vec();
        (0..n)
            .map(|_| {
                let id = left.remove(cx.choose(left.len()));
                let mut r = Row::new(id, names[cx.choose(names.len())]);
                r.unit = format!("u{}", id.2);
                r
            })
            .collect()
    }, docs);
    tables(rep, &host, "docs-families", 40, families(rep.tier(&[1, 2, 4, 9, 17][..], &[1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65][..])), docs);
    let (n, lengths) = large_sizes(rep);
    tables(rep, &host, "docs-large", 6, large(n, lengths), docs);
    // repeated rows of a merged variant, distinct texts
    tables(rep, &host, "docs-texts", 300, |cx| {
        let texts = ["x", "", "a \"quoted\" one", "back\\slash", "µ m s^-1 中", "{} {0} {{", "a' b", "tab\there", "`code`", "[link]", "*/ x /*", "// x", "#\"", "x \u{a0}", "1.5e-3", "\\n"];
        let d = texts[cx.choose(texts.len())];
        let u = texts[cx.choose(texts.len())];
        let k = cx.choose(3);
        let mut rows = vec![];
        for j in 0..=k {
            let mut r = Row::new((0, 0, j as u8), if j == 1 { "B" } else { "A" });
            r.desc = d.into();
            r.unit = u.into();
            rows.push(r);
        }
        rows
    }, docs);

    // 2. malformed lines
    let good = |k: u8| Row::new((0, 0, k), &format!("G{k}"));
    let g = good(77).line();
    let fields: Vec<&str> = g.split(':').collect();
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    for n in 0..11 {
        // too few fields
        bad.push((format!("only {n} fields"), fields[..n].join(":").into_bytes()));
    }
    let numeric: [(usize, u32); 7] = [(0, 255), (2, 255), (3, 255), (4, 65535), (5, 255), (6, 255), (7, 255)];
    for (f, max) in numeric {
        for v in [(max + 1).to_string(), "-1".into(), "".into(), "x".into(), "0x1".into(), "1.0".into(), " 1".into(), "1 ".into(), "99999999999999999999".into(), "1a".into(), "１".into()] {
            let mut w: Vec<&str> = fields.clone();
            w[f] = &v;
            bad.push((format!("field {f} is {v:?}"), w.join(":").into_bytes()));
        }
    }
    for s in ["", " ", "#comment", "junk", ":", "::::::::::", "\t"] {
        bad.push((format!("stray line {s:?}"), s.as_bytes().to_vec()));
    }
    for s in ["", ":", "x", ":more", " ", ":K:K", "::::"] {
        bad.push((format!("more than 11 fields ({s:?})"), format!("{g}:{s}").into_bytes()));
    }
    for n in ["", "A B", "A.B", "A/B", "A+", "A\"B", "A'", "r#A", "A!", "(A)", " A", "A ", "A\tB", "\u{200b}", "😀", "A\u{301}?"] {
        let mut w: Vec<&str> = fields.clone();
        w[8] = n;
        bad.push((format!("no identifier: {n:?}"), w.join(":").into_bytes()));
    }
    bad.push(("not UTF-8".into(), [&g.as_bytes()[..], b" \xff"].concat()));
    bad.push(("leading blank".into(), format!(" {g}").into_bytes()));
    bad.push(("other separator".into(), g.replace(':', ";").into_bytes()));
    bad.push(("byte order mark".into(), format!("\u{feff}{g}").into_bytes()));
    let mut cases = vec![];
    for (what, line) in &bad {
        for total in 1..=3usize {
            for pos in 0..total {
                for ending in ["\n", "", "\r\n"] {
                    if ending.is_empty() && line.is_empty() && pos == total - 1 {
                        continue; // not a line at all
                    }
                    if rep.quick() && ending == "\r\n" && total > 1 {
                        continue;
                    }
                    let mut t = vec![];
                    for k in 0..total {
                        if k == pos {
                            t.extend_from_slice(line);
                        } else {
                            t.extend_from_slice(good(k as u8).line().as_bytes());
                        }
                        t.extend_from_slice(if k + 1 == total { ending } else if ending == "\r\n" { "\r\n" } else { "\n" }.as_bytes());
                    }
                    if t.is_empty() {
                        continue;
                    }
                    cases.push((format!("{what}, line {} of {total}, ending {ending:?}", pos + 1), t));
                }
            }
        }
    }
    if rep.wants("malformed-lines") {
        let items: Vec<Item> = cases.iter().enumerate().map(|(k, (_, t))| item_for_path(&host.file(&format!("bad{k}.txt"), t), "")).collect();
        let outs = host.run(&items, 200);
        rep.explore("malformed-lines", 0, |cx| {
            let k = cx.choose(cases.len());
            cx.note(|| format!("{}: {:?}", cases[k].0, String::from_utf8_lossy(&cases[k].1)));
            own_error(&outs[k]).or_else(|e| fail("malformed-line", format!("{}: {e}", cases[k].0)))
        });
    }

    // 3. harmless variations are accepted and read the same
    let vars: Vec<(&str, Vec<u8>)> = {
        let rows = [good(0), good(1), good(2)];
        let t = text(&rows);
        vec![
            ("plain", t.clone().into_bytes()),
            ("no final newline", t.trim_end().as_bytes().to_vec()),
            ("CRLF", t.replace('\n', "\r\n").into_bytes()),
            ("trailing blanks", t.replace('\n', "  \n").into_bytes()),
            ("leading zeros", each_line(&t, |l| format!("000:{}", &l[2..]))),
            ("other second field", each_line(&t, |l| format!("0::{}", &l[4..]))),
        ]
    };
    if rep.wants("variations") {
        let rows = [good(0), good(1), good(2)];
        let p = probe_code(&probes(&rows));
        let items: Vec<Item> = vars.iter().enumerate().map(|(k, (_, t))| item_for_path(&host.file(&format!("var{k}.txt"), t), &p)).collect();
        let outs = host.run(&items, 6);
        rep.explore("variations", 0, |cx| {
            let k = cx.choose(vars.len());
            cx.note(|| vars[k].0.to_string());
            let h = judge(&rows, &outs[k], None)?;
            docs(&rows, &outs[k])?;
            Ok(h)
        });
    }

    // 4. arguments and items
    let ok = host.file("ok.txt", text(&[good(0), good(1)]).as_bytes());
    let dir = host.dir.display().to_string();
    let args: Vec<String> = vec![
        format!("path = \"{dir}/absent.txt\""),
        format!("path = {dir:?}"),
        "path = \"\"".into(),
        "path = \"no/such/table\"".into(),
        "path = 5".into(),
        "path = 'c'".into(),
        "path = b\"x\"".into(),
        "path = true".into(),
        "path = 1.5".into(),
        "path = some_ident".into(),
        "path".into(),
        "path =".into(),
        "".into(),
        format!("{ok:?}"),
        format!("file = {ok:?}"),
        format!("Path = {ok:?}"),
        format!("path: {ok:?}"),
        format!("path = {ok:?} extra"),
        format!("path = {ok:?}, other = 1"),
        format!("path({ok:?})"),
        format!("path = [{ok:?}]"),
        "path = concat!(\"a\", \"b\")".into(),
    ];
    let mut items: Vec<(String, Item)> = vec![];
    for a in &args {
        items.push((format!("argument ({a})"), Item { code: format!("#[grib_codegen::parameter_codes({a})]\n#[derive(Debug)]\npub enum E {{}}"), report: String::new() }));
    }
    items.push(("no parentheses".into(), Item { code: "#[grib_codegen::parameter_codes]\npub enum E {}".into(), report: String::new() }));
    for e in [
        "pub enum E { A }", "pub enum E { A, B }", "enum E { A = 5 }", "enum E { A(u8) }", "enum E { A { x: u8 } }", "enum E { _G0 }", "enum E { _G0, _G1 }",
        "enum E { #[doc = \"x\"] A }", "pub struct E;", "pub struct E {}", "fn e() {}", "pub mod e {}", "pub union E { a: u8 }", "pub type E = u8;", "pub trait E {}", "pub const E: u8 = 1;",
        "impl u8 {}",
    ] {
        for pre in ["", "#[derive(Debug)]\n"] {
            if !pre.is_empty() && !e.contains("enum") {
                continue;
            }
            items.push((format!("item {pre}{e}"), Item { code: format!("#[grib_codegen::parameter_codes(path = {ok:?})]\n{pre}{e}"), report: String::new() }));
        }
    }
    if rep.wants("arguments-and-items") {
        let (names, its): (Vec<String>, Vec<Item>) = items.into_iter().unzip();
        let outs = host.run(&its, 40);
        rep.explore("arguments-and-items", 0, |cx| {
            let k = cx.choose(names.len());
            cx.note(|| names[k].clone());
            own_error(&outs[k]).or_else(|e| fail("bad-use", format!("{}: {e}", names[k])))
        });
    }
}

fn each_line(t: &str, f: impl Fn(&str) -> String) -> Vec<u8> {
    t.lines().map(|l| f(l) + "\n").collect::<String>().into_bytes()
}
