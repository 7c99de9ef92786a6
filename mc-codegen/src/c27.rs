use crate::batch::{Host, Item, Out};
use mccore::{enumerate, ensure, fail, hash_of, Ctx, Fail, Leaf, Report};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Row {
    pub id: (u8, u8, u8),
    pub name: String,
    pub desc: String,
    pub unit: String,
}
impl Row {
    pub fn new(id: (u8, u8, u8), name: &str) -> Row {
        Row {
            id,
            name: name.into(),
            desc: format!("d {} {} {}", id.0, id.1, id.2),
            unit: "K".into(),
        }
    }
    pub fn code(&self) -> u32 {
        self.id.0 as u32 * 65536 + self.id.1 as u32 * 256 + self.id.2 as u32
    }
    pub fn line(&self) -> String {
        // the second, version, centre and local-table fields vary with the row, over their whole
        // ranges and in any order: they do not enter the code
        let h = self.id.0 as usize * 5 + self.id.1 as usize * 3 + self.id.2 as usize;
        format!(
            "{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}",
            self.id.0,
            ["1", "0", "", "x"][h % 4],
            [0, 7, 255][h % 3],
            [255, 0, 30, 1, 255][h % 5],
            [0, 7, 65535, 98, 256][(h / 2) % 5],
            [0, 1, 255][(h / 3) % 3],
            self.id.1,
            self.id.2,
            self.name,
            self.desc,
            self.unit
        )
    }
    pub fn variant(&self) -> String {
        format!("_{}", self.name.replace('-', "_"))
    }
}
pub fn text(rows: &[Row]) -> String {
    rows.iter().map(|r| r.line() + "\n").collect()
}

/// Tables in which some code occurs twice need not be accepted; all others must be.
pub fn must_accept(rows: &[Row]) -> bool {
    let mut ids: Vec<u32> = rows.iter().map(Row::code).collect();
    ids.sort();
    ids.windows(2).all(|w| w[0] != w[1]) && !rows.is_empty()
}

const RANGES: &str = "";

pub fn item(host: &Host, k: usize, rows: &[Row], probe: &str) -> Item {
    let p = host.file(&format!("t{k}.txt"), text(rows).as_bytes());
    item_for_path(&p, probe)
}
pub fn item_for_path(p: &str, probe: &str) -> Item {
    Item {
        code: format!(
            "#[grib_codegen::parameter_codes(path = {p:?})]\n#[derive(Debug, Clone, Copy, PartialEq, Eq, enumdump::EnumDump)]\n#[repr(u32)]\npub enum E {{}}"
        ),
        report: format!(
            "for (n, d, v) in m::E::DUMP {{ println!(\"V {{n}} {{v}} {{d:?}}\"); }}\nprintln!(\"S {{}}\", std::mem::size_of::<m::E>());\nlet show = |c: u32| match m::E::try_from(c) {{ Ok(v) => println!(\"C {{c}} {{v:?}} {{}}\", v as u32), Err(_) => println!(\"C {{c}} -\") }};\n{probe}{RANGES}"
        ),
    }
}

/// Codes to convert for a table: its own, all neighbours in each field, and out-of-range ones.
pub fn probes(rows: &[Row]) -> Vec<u32> {
    let mut v = vec![0, 1, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX, 1 << 31];
    for r in rows {
        let c = r.code();
        for d in [0i64, 1, -1, 256, -256, 65536, -65536, 1 << 24, 1 << 31] {
            let x = c as i64 + d;
            if (0..=u32::MAX as i64).contains(&x) {
                v.push(x as u32);
            }
        }
        let (a, b, n) = (r.id.0 as u32, r.id.1 as u32, r.id.2 as u32);
        v.push(n << 16 | b << 8 | a);
        v.push(b << 16 | a << 8 | n);
        v.push(a << 16 | n << 8 | b);
        v.push(a << 8 | b << 8 | n);
    }
    v.sort();
    v.dedup();
    v
}

/// What a compiled table printed, against the table.
pub fn judge(rows: &[Row], out: &Out, all_probes: Option<&[u32]>) -> Leaf {
    let lines = match out {
        Out::Rejected(e) => {
            ensure!(!must_accept(rows), "rejected", "a well-formed table was rejected: {e:?}");
            return Ok(hash_of(&"rejected"));
        }
        Out::Ran(l) => l,
    };
    // model
    let mut first: BTreeMap<String, u32> = BTreeMap::new();
    let mut order = vec![];
    let mut want: HashMap<u32, Vec<String>> = HashMap::new();
    for r in rows {
        let v = r.variant();
        if !first.contains_key(&v) {
            first.insert(v.clone(), r.code());
            order.push(v.clone());
        }
        want.entry(r.code()).or_default().push(v);
    }
    let mut seen: BTreeMap<String, i128> = BTreeMap::new();
    let mut converted = 0;
    for l in lines {
        let mut w = l.splitn(4, ' ');
        match w.next() {
            Some("V") => {
                let n = w.next().unwrap().to_string();
                let v: i128 = w.next().unwrap().parse().unwrap();
                ensure!(seen.insert(n.clone(), v).is_none(), "variant-twice", "{n}");
            }
            Some("S") => {}
            Some("C") => {
                converted += 1;
                let c: u32 = w.next().unwrap().parse().unwrap();
                let got = w.next().unwrap();
                match want.get(&c) {
                    None => ensure!(got == "-", "unknown-code", "{c:#x} gave {got}"),
                    Some(vs) => {
                        ensure!(
                            vs.iter().all(|v| v == got),
                            "wrong-variant",
                            "{c:#x} gave {got}, want {vs:?}"
                        );
                        let d: u32 = w.next().unwrap().parse().unwrap();
                        ensure!(d == first[&vs[0]], "discriminant", "{got} is {d:#x}, want {:#x}", first[&vs[0]]);
                    }
                }
            }
            _ => return fail("died", l.clone()),
        }
    }
    let want_variants: BTreeMap<String, i128> = first.iter().map(|(k, v)| (k.clone(), *v as i128)).collect();
    ensure!(seen == want_variants, "variants", "want {want_variants:?}, got {seen:?}");
    if let Some(p) = all_probes {
        ensure!(converted == p.len(), "engine", "{converted} of {} conversions reported", p.len());
    }
    Ok(hash_of(lines))
}

pub fn probe_code(p: &[u32]) -> String {
    format!("for c in [{}] {{ show(c); }}", p.iter().map(|c| format!("{c}u32")).collect::<Vec<_>>().join(","))
}

/// Explores `gen`, all tables compiled and run beforehand in batches.
pub fn tables(rep: &mut Report, host: &Host, name: &str, per: usize, gen: impl Fn(&mut Ctx) -> Vec<Row> + Sync, judge_more: impl Fn(&[Row], &Out) -> Result<(), Fail> + Sync) {
    if !rep.wants(name) {
        return;
    }
    let mut index: HashMap<Vec<Row>, usize> = HashMap::new();
    let mut items = vec![];
    for rows in enumerate(&gen) {
        if !index.contains_key(&rows) {
            index.insert(rows.clone(), items.len());
            let p = probe_code(&probes(&rows));
            items.push(item(host, items.len(), &rows, &p));
        }
    }
    let outs = host.run(&items, per);
    rep.explore(name, 0, |cx| {
        let rows = gen(cx);
        cx.note(|| text(&rows));
        let o = &outs[index[&rows]];
        let h = judge(&rows, o, Some(&probes(&rows)))?;
        judge_more(&rows, o)?;
        Ok(h)
    });
}

/// Tables of two abbreviations with a and b rows each, interleaved or one after the other, in
/// ascending or descending order of codes that differ in one field, with equal or distinct texts.
pub fn families<'a>(sizes: &'a [usize]) -> impl Fn(&mut Ctx) -> Vec<Row> + Sync + 'a {
    move |cx| {
        let (a, b) = (cx.pick(sizes), cx.pick(sizes));
        let field = cx.choose(3);
        let order = cx.choose(4);
        let distinct = cx.flag();
        let n = a + b;
        (0..n)
            .map(|k| {
                let c = (if order % 2 == 0 { k } else { n - 1 - k }) as u8;
                let id = match field {
                    0 => (c, 1, 2),
                    1 => (0, c, 1),
                    _ => (2, 0, c),
                };
                let first = if order < 2 { k < a } else { (k % 2 == 0 && k / 2 < a) || k >= 2 * b };
                let mut r = Row::new(id, if first { "F-1" } else { "S_2" });
                if !distinct {
                    r.desc = "same".into();
                } else {
                    r.unit = format!("u{k}");
                }
                r
            })
            .collect()
    }
}

/// Tables of many rows, of one abbreviation or of as many, and long abbreviations and texts.
pub fn large<'a>(rows: &'a [usize], lengths: &'a [usize]) -> impl Fn(&mut Ctx) -> Vec<Row> + Sync + 'a {
    move |cx| {
        let kind = cx.choose(8);
        if kind < 4 {
            let n = cx.pick(rows);
            return (0..n)
                .map(|k| {
                    // codes in order, or jumping to and fro
                    let c = if kind % 2 == 0 { k } else { k * 7919 % 65536 };
                    let id = (if kind == 3 { (k % 251) as u8 } else { 1 }, (c >> 8) as u8, c as u8);
                    let mut r = Row::new(id, &if kind < 2 { "ONE-NAME".into() } else { format!("N-{k}") });
                    r.desc = format!("text {k}");
                    r
                })
                .collect();
        }
        let n = cx.pick(lengths);
        let text = |c: &str| c.repeat(n / c.len());
        let mut a = Row::new((0, 1, 2), "A");
        let mut b = Row::new((0, 1, 3), "B");
        match kind {
            4 => {
                a.name = text("X");
                b.name = text("X") + "Y";
            }
            5 => {
                a.name = text("X-");
                b.name = text("X-") + "Y-Z";
            }
            6 => {
                a.desc = text("word ") + "a";
                b.desc = text("word ") + "b";
            }
            _ => {
                a.unit = text("m-1") + "a";
                b.unit = text("m-1") + "b";
            }
        }
        let mut c = a.clone();
        c.id.2 = 4;
        vec![a, b, c]
    }
}
/// The sizes for `large`.
pub fn large_sizes(rep: &Report) -> (&'static [usize], &'static [usize]) {
    rep.tier(
        (&[31, 65, 129, 256, 257, 1025], &[15, 32, 64, 128, 256, 1026]),
        (&[31, 33, 64, 65, 127, 129, 255, 256, 257, 1023, 1025, 4097], &[15, 16, 31, 32, 33, 64, 66, 128, 255, 256, 512, 1026, 4098, 65538]),
    )
}

pub fn run(rep: &mut Report) {
    rep.rule = "every parameter table of up to N rows over a set of codes (differing in one field at a time) and abbreviations (repeated, hyphenated, starting with a digit); each is compiled with the real macro, and the compiled enum reports its variants, discriminants and the conversion of every code of the table, of all its neighbours field by field and of out-of-range numbers".into();
    rep.note_assumption("abbreviations that differ only in '-' versus '_' name the same variant");
    rep.note_assumption("a table in which one code occurs twice may be rejected by the compiler; if accepted it must convert as the table says");
    rep.set_hang_limit(600_000);
    let host = Host::new("c27");
    let ids = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 3, 194), (255, 255, 255), (10, 191, 7)];
    let names = ["A", "U-G", "U_G", "5W", "a"];
    let (n_ids, n_names) = rep.tier((4, 3), (5, 4));
    let max = 3;
    tables(rep, &host, "small-tables", 400, |cx| {
        let n = 1 + cx.choose(max);
        (0..n)
            .map(|_| {
                let id = ids[cx.choose(n_ids)];
                Row::new(id, names[cx.choose(n_names)])
            })
            .collect()
    }, |_, _| Ok(()));
    // Distinct codes in every order, names repeated in every pattern.
    let len = rep.tier(4, 5);
    let nn = rep.tier(3, 3);
    tables(rep, &host, "distinct-codes", 400, |cx| {
        let mut left: Vec<(u8, u8, u8)> = ids[..].to_vec();
        if len == 5 {
            left.truncate(5);
        }
        left.rotate_left(2);
        left.truncate(len + 1);
        (0..len)
            .map(|_| {
                let id = left.remove(cx.choose(left.len()));
                Row::new(id, names[cx.choose(nn)])
            })
            .collect()
    }, |_, _| Ok(()));
    // Abbreviations: every pair, and every pair followed by the first again.
    let many = [
        "A", "a", "AB", "A-B", "A_B", "A--B", "A-B-C", "A-B_C", "A_B-C", "A_B_C", "-A", "_A", "A-", "A_", "__A", "-", "5W", "5-W", "self", "É", "aB-c", "-A-", "N0-27", "A-_B",
    ];
    tables(rep, &host, "abbreviations", 150, |cx| {
        let (a, b, third) = (cx.pick(&many), cx.pick(&many), cx.flag());
        let mut t = vec![Row::new(ids[0], a), Row::new(ids[3], b)];
        if third {
            t.push(Row::new(ids[2], a));
        }
        t
    }, |_, _| Ok(()));
    // Many rows of one abbreviation, among those of another.
    tables(rep, &host, "families", 40, families(rep.tier(&[1, 2, 4, 9, 17][..], &[1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65][..])), |_, _| Ok(()));
    let (rows, lengths) = large_sizes(rep);
    tables(rep, &host, "large-tables", 6, large(rows, lengths), |_, _| Ok(()));
    // Every value of each field, one table per field, every code below 2^24 converted.
    let full = |f: usize| -> Vec<Row> {
        (0..256u32)
            .map(|k| {
                let k = k as u8;
                let id = match f {
                    0 => (k, 2, 3),
                    1 => (1, k, 3),
                    2 => (1, 2, k),
                    _ => (k, k.wrapping_mul(7), 255 - k),
                };
                Row::new(id, &format!("N{k}-{f}"))
            })
            .collect()
    };
    let items: Vec<Item> = (0..4)
        .map(|f| {
            let rows = full(f);
            let p = format!(
                "{}\nlet mut bad = 0u32; let mut ok = 0u32; for c in 0..{}u32 {{ if m::E::try_from(c).is_ok() {{ ok += 1; }} }} println!(\"C {{}} -\", if ok == 256 {{ u32::MAX }} else {{ {} }});",
                probe_code(&probes(&rows)),
                if rep.thorough && f == 3 { u32::MAX } else { 1 << 24 },
                rows[0].code()
            );
            item(&host, 900_000 + f, &rows, &p)
        })
        .collect();
    if rep.wants("full-fields") {
        let outs = host.run(&items, 1);
        rep.explore("full-fields", 0, |cx| {
            let f = cx.choose(4);
            judge(&full(f), &outs[f], None)
        });
    }
    // Attributes and visibility.
    visibility(rep, &host);
}

fn visibility(rep: &mut Report, host: &Host) {
    if !rep.wants("attributes-and-visibility") {
        return;
    }
    let p = host.file("vis.txt", text(&[Row::new((0, 0, 0), "A"), Row::new((0, 0, 1), "B")]).as_bytes());
    // (visibility, visible from the parent module, from the crate root two levels up)
    let vis = [("pub", true, true), ("pub(crate)", true, true), ("pub(super)", true, false), ("pub(in super::super)", true, true), ("", false, false)];
    let attrs: [(&str, &str, usize, &str); 11] = [
        ("#[repr(u32)]", "", 4, ""),
        ("#[repr(u64)]", "", 8, ""),
        ("#[repr(i32)]", "", 4, ""),
        ("", "#[derive(Debug)]", 1, "let _ = format!(\"{:?}\", E::_A);"),
        ("", "#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]", 1, "assert!(E::_A < E::_B); let a = E::_A; let b = a; assert_eq!(a, b);"),
        ("#[repr(u32)]", "#[doc = \"x\"]\n#[derive(Debug)]\n#[derive(Clone)]", 4, "let _ = format!(\"{:?}\", E::_A.clone());"),
        ("#[cfg_attr(all(), repr(u64))]", "#[allow(dead_code)]", 8, ""),
        ("#[repr(u32)]", "/// first line\n/// second line\n#[doc(alias = \"x\")]", 4, ""),
        ("#[non_exhaustive]", "#[must_use]\n#[allow(unused)]\n#[allow(clippy::all)]", 1, ""),
        ("#[doc(hidden)]", "#[deprecated = \"y\"]\n/// text", 1, ""),
        ("", "", 1, ""),
    ];
    // what must not compile without the derive: shows that the derive is what makes it compile
    let mut items = vec![];
    let mut wants = vec![];
    for (v, from_parent, from_root) in vis {
        for (repr, derives, size, body) in &attrs {
            for order in [0, 1] {
                for place in 0..3 {
                    let (a, b) = if order == 0 { (*repr, *derives) } else { (*derives, *repr) };
                    let inner = format!("#[grib_codegen::parameter_codes(path = {p:?})]\n{a}\n{b}\n#[derive(enumdump::EnumDump)]\n{v} enum E {{}}\npub fn own() {{ {body} assert!(E::try_from(1).is_ok()); print!(\"{{}} {{}}\", std::mem::size_of::<E>(), E::ATTRS.join(\" ; \")); }}");
                    let code = format!(
                        "pub mod inner {{\n{inner}\n}}\npub fn from_parent() {{ {} }}",
                        if place == 1 { "let _ = inner::E::try_from(0u32).is_ok();" } else { "" }
                    );
                    let report = format!(
                        "m::inner::own(); println!(); {}",
                        if place == 2 { "let _ = m::inner::E::try_from(0u32).is_ok();" } else { "" }
                    );
                    items.push(Item { code, report });
                    let accept = match place {
                        0 => true,
                        1 => from_parent,
                        _ => from_root,
                    };
                    let kept: Vec<String> = format!("{a}\n{b}")
                        .lines()
                        .filter(|l| !l.is_empty() && !l.contains("#[derive"))
                        .map(|l| match l.strip_prefix("///") {
                            Some(d) => format!("doc=\"{d}\""),
                            None => l.trim_start_matches("#[").strip_suffix(']').unwrap().replace("cfg_attr(all(), repr(u64))", "repr(u64)"),
                        })
                        .map(|t| t.split_whitespace().collect())
                        .collect();
                    let size = format!("{size} {}", kept.join(" ; "));
                    // without repr, two field-less variants 0 and 1 fit one byte
                    wants.push((accept, size, format!("{v} | {a} | {b} | used from {}", ["itself", "parent", "root"][place])));
                }
            }
        }
    }
    let outs = host.run(&items, 60);
    rep.explore("attributes-and-visibility", 0, |cx| {
        let k = cx.choose(items.len());
        let (accept, size, what) = &wants[k];
        cx.note(|| what.clone());
        match &outs[k] {
            Out::Rejected(e) => {
                ensure!(!accept, "attr-rejected", "{what}: {e:?}");
                ensure!(e.iter().all(|x| x.0 == "E0603"), "attr-other-error", "{what}: {e:?}");
                Ok(0)
            }
            Out::Ran(l) => {
                ensure!(*accept, "too-visible", "{what}: accepted");
                let got = l.join("\n").replace("doc=r\"", "doc=\"");
                ensure!(got.trim() == size.trim(), "attributes", "{what}: size and attributes {got:?}, want {size:?}");
                Ok(1)
            }
        }
    });
}
