//! C29: the views.
use crate::{cut, family, gribber, msg::*, s, samples, Scratch};
use grib::{codetables::*, *};
use mccore::{ensure, fail, guard, hash_of, Ctx, Fail, Leaf, Report};
use std::path::Path;

type Lines = Vec<Vec<String>>;

/// Lines that are not blank, as words.
fn lines(t: &str) -> Lines {
    t.lines().map(words).filter(|l| !l.is_empty()).collect()
}
fn words(l: &str) -> Vec<String> {
    l.split_whitespace().map(str::to_string).collect()
}

/// What each view has to contain, by the library.
#[derive(Default, Debug)]
struct Views {
    list: Lines,
    dump: Lines,
    sections: Lines,
    subs: Lines,
    templates: Lines,
    info: Lines,
}

fn views(bytes: &[u8]) -> Result<Result<Views, String>, Fail> {
    views_of(std::io::Cursor::new(bytes))
}
fn views_of(src: impl std::io::Read + std::io::Seek) -> Result<Result<Views, String>, Fail> {
    guard("the library", || {
        let g = grib::from_reader(src).map_err(|e| e.to_string())?;
        if g.is_empty() {
            return Err("empty".to_string());
        }
        let mut v = Views::default();
        for (i, s) in g.sections().enumerate() {
            v.sections.push(words(&format!("{i} │ {:016x} - {:016x} │ Section {}", s.offset, s.offset + s.size, s.num)));
        }
        for t in g.list_templates() {
            v.templates.push(words(&match t.describe() {
                Some(d) => format!("{t} - {d}"),
                None => t.to_string(),
            }));
        }
        for ((m, n), s) in &g {
            let id = format!("{m}.{n}");
            let p = s.prod_def();
            let name = s.parameter().map(|p| CodeTable4_2::new(p.discipline, p.category).lookup(p.num as usize).to_string()).unwrap_or_default();
            let process = p.generating_process().map(|v| CodeTable4_3.lookup(v as usize).to_string()).unwrap_or_default();
            let time = p.forecast_time().map(|t| t.to_string()).unwrap_or_default();
            let surf = |f: &FixedSurface| match f.unit() {
                Some(u) => format!("{} [{u}]", f.value()),
                None => format!("{}", f.value()),
            };
            let (a, b) = p.fixed_surfaces().map(|(a, b)| (surf(&a), surf(&b))).unwrap_or_default();
            let total = s.grid_def().num_points();
            let missing = total.saturating_sub(s.repr_def().num_points());
            let ty = match GridDefinitionTemplateValues::try_from(s.grid_def()) {
                Ok(t) => t.short_name().to_string(),
                Err(_) => format!("unknown (template {})", s.grid_def().grid_tmpl_num()),
            };
            v.list.push(words(&format!("{id} │ {name} {process} {time} {a} {b} │ {missing} / {total} {ty}")));
            v.dump.push(vec![id.clone()]);
            v.dump.extend(lines(&s.describe()));
            let ix = |s: &Option<usize>| s.map_or("-".to_string(), |k| k.to_string());
            let t = |s: &SubMessageSection| s.template_code().map_or("-".to_string(), |t| t.to_string());
            v.subs.push(words(&format!(
                "{id} │ {} {} {} {} {} {} │ {} {} {}",
                ix(&s.2.as_ref().map(|s| s.index)),
                s.3.index,
                s.4.index,
                s.5.index,
                s.6.index,
                s.7.index,
                t(&s.3),
                t(&s.4),
                t(&s.5)
            )));
            if n == 0 {
                let (Some(SectionBody::Section0(a)), Some(SectionBody::Section1(b))) = (&s.0.body.body, &s.1.body.body) else {
                    return Err("no identification".into());
                };
                v.info.push(words(&format!("Message {m}")));
                for (label, x) in [
                    ("Discipline:", CodeTable0_0.lookup(a.discipline as usize).to_string()),
                    ("Total Length:", a.total_length.to_string()),
                    ("Originating/generating centre:", CommonCodeTable11.lookup(b.centre_id() as usize).to_string()),
                    ("Originating/generating sub-centre:", b.subcentre_id().to_string()),
                    ("GRIB Master Tables Version Number:", format!("{} ({})", b.master_table_version(), CommonCodeTable00.lookup(b.master_table_version() as usize))),
                    ("GRIB Local Tables Version Number:", format!("{} ({})", b.local_table_version(), CodeTable1_1.lookup(b.local_table_version() as usize))),
                    ("Significance of Reference Time:", CodeTable1_2.lookup(b.ref_time_significance() as usize).to_string()),
                    ("Reference time of data:", b.ref_time().map(|t| t.to_string()).map_err(|e| e.to_string())?),
                    ("Production status of processed data:", CodeTable1_3.lookup(b.prod_status() as usize).to_string()),
                    ("Type of processed data:", CodeTable1_4.lookup(b.data_type() as usize).to_string()),
                ] {
                    v.info.push(words(&format!("{label} {x}")));
                }
            }
        }
        Ok(v)
    })
}

fn same(what: &str, view: &str, got: &[Vec<String>], want: &[Vec<String>]) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    fail(format!("wrong {view}"), format!("{what}: {} lines, not {}; line {k} is {:?}, not {:?}", got.len(), want.len(), got.get(k), want.get(k)))
}

/// The words of list rows; the counts may touch the slash.
fn unslash(l: Lines) -> Lines {
    l.iter().map(|l| words(&l.join(" ").replace('/', " / "))).collect()
}

/// Takes a view; 14 of them.
const VIEWS: usize = 14;
fn take(what: &str, file: &Path, v: &Views, k: usize) -> Leaf {
    let f = s(file);
    let (o, h);
    match k {
        0 => {
            o = gribber(&["list", f], None)?;
            o.succeeded(what)?;
            let l = lines(&o.stdout);
            ensure!(l.len() == v.list.len() + 1, "wrong list", "{what}: {} lines for {} submessages", l.len(), v.list.len());
            same(what, "list", &unslash(l[1..].to_vec()), &unslash(v.list.clone()))?;
        }
        1 | 2 => {
            o = gribber(&["list", if k == 1 { "-d" } else { "--dump" }, f], None)?;
            o.succeeded(what)?;
            same(what, "dump", &lines(&o.stdout), &v.dump)?;
        }
        3..=10 => {
            let m = k - 3;
            let mut a = vec!["inspect"];
            for (bit, short) in ["-s", "-m", "-t"].iter().enumerate() {
                if m >> bit & 1 == 1 {
                    a.push(short);
                }
            }
            a.push(f);
            o = gribber(&a, None)?;
            o.succeeded(what)?;
            inspected(what, &o.stdout, v, m)?;
        }
        11 => {
            // Long options, after the file.
            o = gribber(&["inspect", f, "--templates", "--sections"], None)?;
            o.succeeded(what)?;
            inspected(what, &o.stdout, v, 5)?;
        }
        12 => {
            o = gribber(&["inspect", "--submessages", f], None)?;
            o.succeeded(what)?;
            inspected(what, &o.stdout, v, 2)?;
        }
        _ => {
            o = gribber(&["info", f], None)?;
            o.succeeded(what)?;
            same(what, "info", &lines(&o.stdout), &v.info)?;
        }
    }
    ensure!(o.stderr.is_empty(), "a message about a success", "{what}: {:?}", cut(&o.stderr));
    h = hash_of(&o.stdout);
    Ok(h)
}

/// Every part in full and in order, each with a title when there are several.
fn inspected(what: &str, text: &str, v: &Views, mask: usize) -> Result<(), Fail> {
    let mask = if mask == 0 { 7 } else { mask };
    let l = lines(text);
    let titled = mask.count_ones() > 1;
    let mut pos = 0;
    for (bit, title, want, header) in [(0, "Sections:", &v.sections, 0), (1, "SubMessages:", &v.subs, 1), (2, "Templates:", &v.templates, 0)] {
        if mask >> bit & 1 == 0 {
            continue;
        }
        if titled {
            ensure!(l.get(pos) == Some(&words(title)), "wrong inspection", "{what}: {:?} for {title}", l.get(pos));
            pos += 1;
        }
        pos += header;
        let end = (pos + want.len()).min(l.len());
        same(what, title, &l[pos.min(end)..end], want)?;
        pos = end;
    }
    ensure!(pos == l.len(), "wrong inspection", "{what}: {} lines, not {pos}", l.len());
    Ok(())
}

fn file_of(sc: &Scratch, bytes: &[u8]) -> std::path::PathBuf {
    sc.write("in.grib2", bytes)
}

fn good(cx: &mut Ctx, sc: &Scratch, f: impl Fn(&mut Ctx) -> Vec<u8>, which: &[usize]) -> Leaf {
    let k = cx.pick(which);
    let bytes = f(cx);
    let v = match views(&bytes)? {
        Ok(v) => v,
        Err(e) => return fail("a good file is not read", e),
    };
    let p = file_of(sc, &bytes);
    take(&format!("view {k} of {} octets", bytes.len()), &p, &v, k)
}

/// Files of many submessages or messages.
fn many(cx: &mut Ctx, sc: &Scratch, ns: &[usize]) -> Leaf {
    let n = cx.pick(ns);
    let together = cx.flag();
    let bytes = family::many(n, together);
    let k = cx.pick(&[0usize, 1, 3, 4, 5, 6, 13]);
    let v = match views(&bytes)? {
        Ok(v) => v,
        Err(e) => return fail("a good file is not read", e),
    };
    ensure!(v.list.len() == n + 1, "a good file is not read", "{} submessages of {}", v.list.len(), n + 1);
    let p = file_of(sc, &bytes);
    take(&format!("view {k} of {n} parts and one more"), &p, &v, k)
}

/// Files whose later parts lie beyond 2 and 4 GiB (with holes).
fn huge(cx: &mut Ctx, sc: &Scratch) -> Leaf {
    let lens = cx.pick(&[&[0x7fff_ff00u32][..], &[0xffff_ff00], &[0xffff_ffff], &[0x8000_0000, 0x8000_0000], &[0xffff_fff0, 0xffff_ffff, 0xffff_ffff]]);
    let k = cx.choose(VIEWS);
    let p = sc.path("huge.grib2");
    family::with_holes(&p, lens);
    let v = match views_of(std::fs::File::open(&p).unwrap())? {
        Ok(v) => v,
        Err(e) => return fail("a good file is not read", e),
    };
    ensure!(v.info.iter().filter(|l| l[0] == "Message").count() == lens.len() + 3, "a good file is not read", "{lens:x?}: {:?}", v.info);
    let r = take(&format!("view {k} behind sections of {lens:x?} octets"), &p, &v, k);
    let _ = std::fs::remove_file(&p);
    r
}

/// On a terminal of any height, with or without `less`, a view has the words it has elsewhere.
fn terminal(cx: &mut Ctx, sc: &Scratch, files: &[Vec<u8>]) -> Leaf {
    let b = cx.pick(files);
    let k = cx.choose(10);
    let height = cx.pick(&[1u16, 2, 9, 10, 11, 25, 500]);
    let pager = cx.flag();
    let p = file_of(sc, &b);
    let f = s(&p);
    let args: Vec<&str> = match k {
        0 => vec!["list", f],
        1 => vec!["list", "-d", f],
        2 => vec!["info", f],
        3 => vec!["inspect", f],
        4 => vec!["inspect", "-s", f],
        5 => vec!["inspect", "-m", f],
        6 => vec!["inspect", "-t", f],
        7 => vec!["inspect", "-s", "-t", f],
        8 => vec!["inspect", "-m", "-s", f],
        _ => vec!["decode", f, "0.0"],
    };
    let what = format!("{:?} of {} octets on a terminal of {height} lines, pager {pager}", &args[..args.len() - 1], b.len());
    let plain = gribber(&args, None)?;
    plain.succeeded(&what)?;
    let (status, text) = crate::on_terminal(&args, height, sc, pager)?;
    ensure!(status == 0, "failure on a terminal", "{what}: status {status}, {:?}", cut(&text));
    same(&what, "view on a terminal", &lines(&text), &lines(&plain.stdout))?;
    Ok(hash_of(&text))
}

const COMMANDS: [&[&str]; 6] = [&["list"], &["list", "-d"], &["inspect"], &["inspect", "-t"], &["info"], &["decode"]];

/// A command on something that is not a readable file.
fn refused(cmd: usize, path: &str) -> Leaf {
    let mut a = COMMANDS[cmd].to_vec();
    a.push(path);
    if a[0] == "decode" {
        a.push("0.0");
    }
    let o = gribber(&a, None)?;
    o.failed(&format!("{a:?}"))?;
    Ok(hash_of(&o.stderr))
}

fn missing(cx: &mut Ctx, sc: &Scratch) -> Leaf {
    let cmd = cx.choose(COMMANDS.len());
    match cx.choose(5) {
        0 => refused(cmd, s(&sc.path("no-such-file"))),
        1 => refused(cmd, s(sc.path("x").parent().unwrap())),
        2 => refused(cmd, s(&sc.path("no-such-dir").join("f"))),
        3 => refused(cmd, "/dev/null"),
        _ => {
            sc.write("plain", b"");
            refused(cmd, s(&sc.path("plain").join("f")))
        }
    }
}

fn no_grib(cx: &mut Ctx, sc: &Scratch) -> Leaf {
    let cmd = cx.choose(COMMANDS.len());
    let n = cx.choose(70);
    let fill = cx.pick(&[b'G', 0, b'7', 255]);
    let mut b = vec![fill; n];
    if cx.flag() && n > 4 {
        b[..4].copy_from_slice(b"GRIB");
    }
    refused(cmd, s(&sc.write("in.grib2", &b)))
}

/// Every truncation of a file of two messages, except those at which a message ends.
fn truncated(cx: &mut Ctx, sc: &Scratch, full: &[u8], first: usize) -> Leaf {
    let cmd = cx.choose(COMMANDS.len());
    let n = cx.choose(full.len());
    let p = sc.write("in.grib2", &full[..n]);
    if n == first {
        let Ok(v) = views(&full[..n])? else { return fail("a good file is not read", "") };
        return take("the first message", &p, &v, [0, 1, 3, 6, 13, 13][cmd]);
    }
    // What follows a complete message may be taken for something else than a message.
    if n > first && views(&full[..n])?.is_ok() {
        return Ok(1);
    }
    refused(cmd, s(&p))
}

/// Damage to any octet: the views say what the library says, or fail when it does.
fn damaged(cx: &mut Ctx, sc: &Scratch, full: &[u8], vals: &[u8]) -> Leaf {
    let cmd = cx.choose(4);
    let pos = cx.choose(full.len());
    let v = cx.pick(vals);
    let mut b = full.to_vec();
    b[pos] ^= v;
    let p = sc.write("in.grib2", &b);
    match views(&b)? {
        Ok(w) => take(&format!("octet {pos} xor {v:#x}"), &p, &w, [0, 1, 3, 13][cmd]),
        Err(e) => {
            let c = [0, 1, 2, 4][cmd];
            if e.contains("invalid date time") {
                // Only `info` needs the reference time; it may have shown earlier messages.
                if c != 4 {
                    return Ok(2);
                }
                let mut o = gribber(&["info", s(&p)], None)?;
                o.stdout.clear();
                o.failed(&format!("info with octet {pos} xor {v:#x}"))?;
                return Ok(3);
            }
            refused(c, s(&p))
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.set_hang_limit(30_000);
    rep.rule = "Every view and subset of view options on every file of three families (parts of one message, arrangements of several, identification octets), compared word by word with what the library reports; every command on missing, empty, foreign, truncated (every length) and damaged (every octet) files".into();
    rep.note_assumption("the library's own reports are checked by C01 to C24; layout (blanks, headers) is not compared; output goes to a pipe, except in \"terminal\", where the pager is a stand-in that copies");
    let sc = &Scratch::new("c29");
    let all: Vec<usize> = (0..VIEWS).collect();
    let few = [0usize, 1, 3, 13];
    rep.explore("one message", 0, |cx| good(cx, sc, family::single, &few[..]));
    let (m, n) = rep.tier((2, 2), (3, 3));
    rep.explore("several", 0, |cx| good(cx, sc, |cx| family::several(cx, m, n), &all));
    let ns: Vec<usize> = rep.tier(vec![9, 10, 11, 16, 99, 100, 256, 300, 1025, 5000], (3..40).chain([99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1024, 4097, 10_001]).collect());
    rep.explore("many", 0, |cx| many(cx, sc, &ns));
    rep.explore("huge", 0, |cx| huge(cx, sc));
    let shown = [one(samples::simple()).bytes(), samples::multi_bytes(), family::many(8, true)];
    rep.explore("terminal", 0, |cx| terminal(cx, sc, &shown));
    rep.explore("identification", 0, |cx| good(cx, sc, family::identified, &[13]));
    rep.explore("missing", 0, |cx| missing(cx, sc));
    rep.explore("no grib", 0, |cx| no_grib(cx, sc));
    let first = one(samples::simple()).bytes();
    let mut full = first.clone();
    full.extend(one(samples::bitmapped()).bytes());
    rep.explore("truncated", 0, |cx| truncated(cx, sc, &full, first.len()));
    let v: &[u8] = rep.tier(&[1u8, 0xff][..], &[1u8, 2, 4, 8, 16, 32, 64, 128, 0xff][..]);
    rep.explore("damaged", 0, |cx| damaged(cx, sc, &full, v));
}
