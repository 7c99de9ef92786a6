use super::*;

/// One row as the file has it, and what the property says it means.
#[derive(Clone, Debug)]
pub struct Row {
    pub code: String,
    pub desc: String,
    /// None: no numeric code.
    pub range: Option<(usize, usize)>,
    /// Reserved, missing and local-use rows describe nothing.
    pub reserved: bool,
}

pub enum Want {
    Exactly(Vec<String>),
    /// Either no entries, or exactly these (tables whose reserved rows overlap or leave gaps).
    EmptyOr(Vec<String>),
}

pub fn is_reserved(desc: &str) -> bool {
    matches!(
        desc,
        "Future versions"
            | "Reserved"
            | "Reserved for local use"
            | "Reserved for other centres"
            | "Missing"
            | "Missing value"
            | ")"
    )
}

/// The reference model: coverage by rows, in file order.
pub fn model(rows: &[Row]) -> Want {
    let mut at: Vec<(usize, String)> = vec![]; // described codes
    let mut next = 0; // first code not yet covered
    let mut described_ok = true; // rows follow one another exactly
    let mut last_described_end = 0;
    let mut any_described_after_flaw = false;
    let mut flawed_described = false;
    for r in rows {
        let Some((a, b)) = r.range else { continue };
        if !r.reserved {
            if !described_ok {
                any_described_after_flaw = true;
            }
            if a < last_described_end || b < a {
                flawed_described = true; // repeats or goes backwards
            }
        }
        if a != next || b < a {
            described_ok = false;
            if !r.reserved {
                any_described_after_flaw = true;
            }
        }
        next = b + 1;
        if !r.reserved {
            for c in a..=b {
                at.push((c, r.desc.clone()));
            }
            last_described_end = b + 1;
        }
    }
    let dense = || {
        let mut v = vec![String::new(); at.iter().map(|(c, _)| c + 1).max().unwrap_or(0)];
        for (c, d) in &at {
            v[*c] = d.clone();
        }
        v
    };
    if described_ok {
        // every code up to the last described one is covered exactly once, in order
        return Want::Exactly(dense());
    }
    if !any_described_after_flaw {
        return Want::EmptyOr(dense()); // only trailing reserved rows are irregular
    }
    // Some code before the last described one is uncovered, repeated or out of order.
    if flawed_described {
        return Want::Exactly(vec![]);
    }
    // Were the described rows to blame, or only reserved ones?
    let mut covered = vec![0u32; dense().len() + 1];
    for r in rows {
        if let Some((a, b)) = r.range {
            for c in a..=b.min(covered.len() - 1) {
                if c < covered.len() {
                    covered[c] += 1;
                }
            }
        }
    }
    let all_covered = covered[..dense().len()].iter().all(|c| *c > 0);
    let has_reserved = rows.iter().any(|r| r.reserved && r.range.is_some());
    if !has_reserved {
        return Want::Exactly(vec![]);
    }
    let _ = all_covered;
    Want::EmptyOr(dense())
}

pub fn check(rows: &[Row], got: &[String]) -> Result<(), String> {
    match model(rows) {
        Want::Exactly(w) => {
            if got != w {
                return Err(format!("want {w:?}, got {got:?}"));
            }
        }
        Want::EmptyOr(w) => {
            if !got.is_empty() && got != w {
                return Err(format!("want nothing or {w:?}, got {got:?}"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    C00,
    C11,
    G2,
}

const RESERVED: [&str; 7] = [
    "Reserved",
    "Reserved for local use",
    "Missing",
    "Future versions",
    "Reserved for other centres",
    "Missing value",
    ")",
];

/// Descriptions that merely look like reserved ones.
const LOOKS: [&str; 8] = [
    "Missing data",
    "Future versions of x",
    "reserved",
    "Not Reserved",
    "Reserved for local use only",
    "Reserved for other centres and more",
    ") x",
    "Missing values",
];
/// Code columns without a numeric code (X: the code expected next).
const NOT_CODES: [&str; 8] = ["X-", "Xa", "X.5", "X/1", "X,1", "aX", "X to 9", "--"];

/// Chooses one more row, given the first code not covered yet.
fn pick_row(cx: Cx, n: usize, next: &mut usize, level: usize) -> Row {
    let base = 14;
    let c = cx.choose([base, base + 15, base + 17 + LOOKS.len() + NOT_CODES.len()][level]);
    let d = format!("d{n}");
    let num = |a: usize, b: usize, desc: &str, next: &mut usize| {
        *next = b + 1;
        Row {
            code: if a == b { a.to_string() } else { format!("{a}-{b}") },
            desc: desc.to_string(),
            range: Some((a, b)),
            reserved: is_reserved(desc),
        }
    };
    let text = |code: &str| Row {
        code: code.into(),
        desc: format!("t{n}"),
        range: None,
        reserved: false,
    };
    let x = *next;
    match c {
        0 => num(x, x, &d, next),
        1 => num(x, x + 1, &d, next),
        2 => num(x, x, "Reserved", next),
        3 => num(x, x + 2, "Reserved", next),
        4 => num(x, x + 2, "Missing", next),
        5 => num(x + 1, x + 1, &d, next),
        6 => num(x.saturating_sub(1), x.saturating_sub(1), &d, next),
        7 => text(""),
        8 => num(x, x, ")", next),
        9 => num(x, x + 3, &d, next),
        10 => num(x, x, "Reserved for local use", next),
        11 => num(x + 1, x + 2, "Reserved", next),
        12 => num(x, x + 1, "Reserved for other centres", next),
        13 => num(x, x, "same", next),
        // the rich alphabet
        27 => num(x, x, "Reserved for future", next), // only looks reserved
        14 => num(x, x, "missing", next),
        15 => text("Not applicable"),
        16 => text("-"),
        17 => text("-5"),
        18 => num(x, x, "Future versions", next),
        19 => num(x, x + 1, "Missing value", next),
        20 => num(x, x, "", next), // described by an empty text
        21 => num(x + 5, x + 6, &d, next),
        22 => num(0, 0, &d, next),
        23 => Row {
            // same code spelled as a range of one
            code: format!("{x}-{x}"),
            ..num(x, x, &d, next)
        },
        24 => Row {
            // reversed range: goes backwards
            code: format!("{}-{}", x + 2, x),
            desc: d,
            range: Some((x + 2, x)),
            reserved: false,
        },
        25 | 26 => Row {
            // reversed range that starts at the code expected next
            code: format!("{}-{}", x + 1, x),
            desc: if c == 25 { d } else { "Reserved".into() },
            range: Some((x + 1, x)),
            reserved: c == 26,
        },
        28 => Row {
            code: format!("{:03}", x),
            ..num(x, x, &d, next)
        },
        // blanks are part of a description
        29 => num(x, x, &format!("  two  blanks {n} "), next),
        30 => num(x, x + 1, &format!(" blanks  in a range {n}  "), next),
        c => {
            let k = c - 31;
            if k < LOOKS.len() {
                num(x, x + k % 2, LOOKS[k], next)
            } else {
                text(&NOT_CODES[k - LOOKS.len()].replace('X', &x.to_string()))
            }
        }
    }
}

fn load(kind: Kind, rows: &[Row], sc: &Scratch) -> Result<Vec<String>, mccore::Fail> {
    let pairs: Vec<(String, String)> = rows.iter().map(|r| (r.code.clone(), r.desc.clone())).collect();
    let (name, text) = match kind {
        Kind::C00 => ("C00.csv", c00_file(&pairs)),
        Kind::C11 => ("C11.csv", c11_file(&pairs)),
        Kind::G2 => (
            "GRIB2_CodeFlag_4_5_CodeTable_en.csv",
            g2_file(
                "T",
                &rows
                    .iter()
                    .map(|r| (String::new(), r.code.clone(), r.desc.clone()))
                    .collect::<Vec<_>>(),
            ),
        ),
    };
    let path = sc.path(name);
    std::fs::write(&path, text).unwrap();
    let out = guard("generate", || -> Result<String, String> {
        match kind {
            Kind::G2 => {
                let mut db = Dbg2::new();
                db.load(&path).map_err(|e| e.to_string())?;
                Ok(db.export((4, 5, g2::OptArg::None)))
            }
            k => {
                let mut db = cct::CodeDB::new();
                db.load(&path).map_err(|e| e.to_string())?;
                Ok(db.export(if k == Kind::C00 { 0 } else { 11 }))
            }
        }
    })?;
    let text = match out {
        Ok(t) => t,
        Err(e) => return fail("load", format!("loading failed: {e}")),
    };
    if rows.is_empty() && text.trim() == "[]" {
        return Ok(vec![]); // no row, no table
    }
    match lit::parse(&text) {
        Ok(t) if t.len() == 1 => Ok(t.into_iter().next().unwrap().entries),
        Ok(t) => fail("tables", format!("{} tables in {text:?}", t.len())),
        Err(e) => fail("syntax", format!("{e} in {text:?}")),
    }
}

fn judge(kind: Kind, rows: &[Row], sc: &Scratch, cx: Cx) -> L {
    cx.note(|| {
        format!(
            "{kind:?} {}",
            rows.iter().map(|r| format!("{}={}", r.code, r.desc)).collect::<Vec<_>>().join("; ")
        )
    });
    let got = load(kind, rows, sc)?;
    if let Err(e) = check(rows, &got) {
        let rev = rows.iter().any(|r| matches!(r.range, Some((a, b)) if b < a));
        return fail(if rev { "entries-reversed" } else { "entries" }, e);
    }
    Ok(hash_of(&got))
}

pub fn run(rep: R) {
    rep.rule = "every sequence of table rows up to the stated length over an alphabet of rows placed relative to the first code not covered yet (described single codes and ranges, every reserved/missing/local-use spelling, gaps, repeats, steps back, rows without a numeric code); each is written as a real table file, loaded and exported by the real generator, and the exported Rust text is parsed back and compared with a reference model of coverage".into();
    rep.note_assumption("tables whose reserved rows overlap or leave gaps may come out either empty or with every description at its own code (both keep entries unshifted)");
    let sc = Scratch::new("c25");
    for (kind, len, rich, name) in [
        (Kind::G2, rep.tier(5, 6), 0, "g2-rows"),
        (Kind::G2, rep.tier(4, 5), 1, "g2-rich-rows"),
        (Kind::G2, rep.tier(3, 4), 2, "g2-richer-rows"),
        (Kind::C00, rep.tier(4, 5), 0, "c00-rows"),
        (Kind::C11, rep.tier(3, 4), 2, "c11-rows"),
        (Kind::C00, rep.tier(3, 4), 2, "c00-rich-rows"),
    ] {
        rep.explore(name, 0, |cx| {
            let n = cx.choose(len + 1);
            let mut next = 0;
            let rows: Vec<Row> = (0..n).map(|k| pick_row(cx, k, &mut next, rich)).collect();
            judge(kind, &rows, &sc, cx)
        });
    }
    // Longer tables: every placement of one irregular row in a table of 8 regular ones.
    let kinds = [Kind::G2, Kind::C11, Kind::C00];
    let total = rep.tier(8usize, 12);
    rep.explore("one-irregular-row", 0, |cx| {
        let kind = cx.pick(&kinds);
        let pos = cx.choose(total);
        let mut next = 0;
        let mut rows = vec![];
        for k in 0..total {
            if k == pos {
                rows.push(pick_row(cx, k, &mut next, 2));
                rows.push(pick_row(cx, 100 + k, &mut next, 1));
            } else {
                let a = next;
                next += 1;
                rows.push(Row {
                    code: a.to_string(),
                    desc: format!("d{k}"),
                    range: Some((a, a)),
                    reserved: false,
                });
            }
        }
        judge(kind, &rows, &sc, cx)
    });
    // Wide codes: ranges whose ends lie at the edges that real tables use.
    let edges: &[usize] = rep.tier(
        &[0, 1, 9, 10, 99, 100, 191, 192, 254, 255, 256, 1000, 65535][..],
        &[0, 1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 191, 192, 253, 254, 255, 256, 257, 999, 1000, 32767, 32768, 65534, 65535, 65536][..],
    );
    rep.explore("wide-ranges", 0, |cx| {
        let kind = cx.pick(&kinds);
        let m = edges.len();
        let i = cx.choose(m);
        let j = i + cx.choose(m - i);
        let first_reserved = cx.flag();
        let second_reserved = cx.flag();
        let mut rows = vec![];
        let mk = |a: usize, b: usize, res: bool, d: &str| Row {
            code: if a == b { a.to_string() } else { format!("{a}-{b}") },
            desc: if res { "Reserved".into() } else { d.into() },
            range: Some((a, b)),
            reserved: res,
        };
        if edges[i] > 0 {
            rows.push(mk(0, edges[i] - 1, first_reserved, "lo"));
        }
        rows.push(mk(edges[i], edges[j], second_reserved, "mid"));
        rows.push(mk(edges[j] + 1, edges[j] + 1, false, "hi"));
        judge(kind, &rows, &sc, cx)
    });
    // Long tables and very wide ranges.
    let small = rep.tier(&[15, 16, 17, 255, 256, 257, 1023, 1025, 4097][..], &[15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 16385, 65537][..]);
    let wide = rep.tier(&[65535, 65536, 65537, 70000, 131073][..], &[65535, 65536, 65537, 70000, 131071, 131073, 262145, 1048577][..]);
    rep.explore("long-tables", 0, |cx| {
        let kind = cx.pick(&kinds);
        let shape = cx.choose(6);
        let row = |a: usize, b: usize, d: String| Row {
            code: if a == b { a.to_string() } else { format!("{a}-{b}") },
            reserved: is_reserved(&d),
            desc: d,
            range: Some((a, b)),
        };
        let rows: Vec<Row> = if shape < 4 {
            let n = cx.pick(small);
            match shape {
                0 => (0..n).map(|k| row(k, k, format!("d{k}"))).collect(),
                1 => (0..n).map(|k| row(k, k, if k % 3 == 1 || k + 1 == n { format!("d{k}") } else { "Reserved".into() })).collect(),
                2 => (0..n).map(|k| row(2 * k, 2 * k + 1, format!("d{k}"))).collect(),
                // one long description
                _ => vec![row(0, 0, "long ".repeat(n) + "one"), row(1, 1, "next".into())],
            }
        } else {
            let n = cx.pick(wide);
            let r = if shape == 4 { "wide" } else { "Reserved" };
            vec![row(0, n - 1, r.into()), row(n, n, "after".into())]
        };
        // the rows are not written out: the choices tell them
        cx.note(|| format!("{kind:?} shape {shape}, {} rows, the last {}", rows.len(), rows.last().unwrap().code));
        let got = load(kind, &rows, &sc)?;
        if let Err(e) = check(&rows, &got) {
            return fail("entries", e.chars().take(300).collect::<String>());
        }
        Ok(hash_of(&got))
    });
    let _ = RESERVED;
}
