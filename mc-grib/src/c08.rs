//! C08: what is read of a submessage does not depend on what was done before.
use crate::{msg::*, obs, rdr::*, samples};
use grib::*;
use mccore::{fail, guard, hash_of, Ctx, Leaf, Report};

pub struct File {
    pub name: String,
    pub bytes: Vec<u8>,
    /// Of each submessage, from a file opened for it alone.
    want: Result<Vec<obs::SubObs>, mccore::Fail>,
    sections: Vec<obs::SectObs>,
}

impl File {
    /// What its submessages are, each read alone.
    #[allow(dead_code)]
    pub fn want(&self) -> &[obs::SubObs] {
        self.want.as_ref().map_or(&[], |w| &w[..])
    }
}

fn file(name: &str, bytes: Vec<u8>) -> File {
    let n = guard("opening", || grib::from_slice(&bytes).map(|g| (g.len(), g.sections().map(obs::SectObs::of).collect::<Vec<_>>())).map_err(|e| obs::err(&e)));
    let (n, sections) = match n {
        Ok(Ok(n)) => n,
        Ok(Err(e)) => (0, vec![obs::SectObs { num: 0, offset: 0, size: 0, body: e }]),
        Err(_) => (0, vec![]),
    };
    let want = (0..n)
        .map(|k| {
            guard("a submessage of a fresh file", || {
                let g = grib::from_slice(&bytes).unwrap();
                let mut it = g.iter();
                for _ in 0..k {
                    it.next();
                }
                let (i, s) = it.next().unwrap();
                let mut m = obs::meta(i, &s);
                m.values = obs::values(s);
                m
            })
        })
        .collect();
    File { name: name.into(), bytes, want, sections }
}

fn damaged() -> Sub {
    // level 9 is not in the table of levels
    let mut s = samples::runlength();
    s.s7[0] = 0x9f;
    s
}
fn short_values() -> Sub {
    let mut s = samples::simple12();
    s.s7.truncate(4);
    s
}

fn msgs(groups: Vec<Vec<Sub>>) -> Vec<u8> {
    let mut v = vec![];
    for g in groups {
        let mut m = one(g[0].clone());
        m.subs = g;
        v.extend(m.bytes());
    }
    v
}

pub fn files() -> Vec<File> {
    let no3 = |mut s: Sub| {
        s.s3 = None;
        s
    };
    let mut other = samples::simple();
    other.s4 = prod(1, 8, 12, (1, 0, 0), (2, 1, -5));
    other.s7.reverse();
    vec![
        file("complex, damaged, diff2", msgs(vec![vec![samples::complex(), damaged()], vec![samples::diff(2)]])),
        file("bitmapped, jpeg, png", msgs(vec![vec![samples::bitmapped()], vec![samples::jpeg(), samples::png16()]])),
        file("run length, constant, lambert", msgs(vec![vec![samples::runlength(), samples::constant()], vec![samples::lambert()]])),
        file(
            "shared grid",
            msgs(vec![vec![samples::simple(), no3(other.clone()), samples::gaussian(), no3(short_values())]]),
        ),
        file("unsupported, short, polar", msgs(vec![vec![samples::unsupported()], vec![short_values()], vec![samples::polar()]])),
        file("four alike", msgs(vec![vec![samples::simple(), other.clone()], vec![other, samples::simple()]])),
    ]
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// Everything about submessage k.
    Meta(usize),
    Decode(usize),
    /// A decoder is made, `dispatch` is called, some values are taken.
    Abandon(usize, usize),
    /// A decoder is made and not used.
    DecoderOnly(usize),
    /// One decoder, used twice, interleaved.
    Twice(usize),
    /// Decoders of two submessages, advanced in turns.
    Both(usize, usize),
    List,
    Sections,
    Nth(usize),
}

fn get<'a, R>(g: &'a Grib2<R>, k: usize) -> Option<((usize, usize), SubMessage<'a, R>)> {
    let mut it = g.iter();
    for _ in 0..k {
        it.next()?;
    }
    it.next()
}

fn decoder<R: Grib2Read>(g: &Grib2<R>, k: usize) -> Result<Grib2SubmessageDecoder, String> {
    Grib2SubmessageDecoder::from(get(g, k).ok_or("no such submessage")?.1).map_err(|e| obs::err(&e))
}

fn vals(d: &Grib2SubmessageDecoder) -> obs::Vals {
    let it = d.dispatch().map_err(|e| obs::err(&e))?;
    Ok(it.take(obs::CAP).map(obs::bits).collect())
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {got:?}, not {want:?}"))
    }
}

fn perform<R: Grib2Read>(g: &Grib2<R>, op: Op, want: &[obs::SubObs], sections: &[obs::SectObs]) -> Result<(), String> {
    match op {
        Op::Meta(k) => {
            let (i, s) = get(g, k).ok_or("no such submessage")?;
            let mut m = obs::meta(i, &s);
            m.values = want[k].values.clone();
            same("metadata", &m, &want[k])
        }
        Op::Decode(k) => {
            let v = obs::values(get(g, k).ok_or("no such submessage")?.1);
            same("values", &v, &want[k].values)
        }
        Op::Abandon(k, n) => {
            let Ok(d) = decoder(g, k) else { return Ok(()) };
            let Ok(it) = d.dispatch() else { return Ok(()) };
            let v: Vec<u32> = it.take(n).map(obs::bits).collect();
            let w = want[k].values.as_ref().map_or(0, |v| v.len().min(n));
            same("first values", &Ok(&v[..]), &want[k].values.as_ref().map(|v| &v[..w]))
        }
        Op::DecoderOnly(k) => {
            let _ = decoder(g, k);
            Ok(())
        }
        Op::Twice(k) => {
            let v = match decoder(g, k) {
                Err(e) => Err(e),
                Ok(d) => {
                    let a = vals(&d);
                    let b = match (d.dispatch(), d.dispatch()) {
                        (Ok(x), Ok(mut y)) => {
                            let mut out = vec![];
                            for v in x.take(obs::CAP) {
                                out.push(obs::bits(v));
                                if y.next().map(obs::bits) != out.last().copied() {
                                    return Err("two uses of one decoder differ".into());
                                }
                            }
                            Ok(out)
                        }
                        (Err(e), _) | (_, Err(e)) => Err(obs::err(&e)),
                    };
                    same("second use of a decoder", &b, &a)?;
                    a
                }
            };
            same("values", &v, &want[k].values)
        }
        Op::Both(j, k) => {
            let (a, b) = (decoder(g, j), decoder(g, k));
            let mut out = [Ok(vec![]), Ok(vec![])];
            match (&a, &b) {
                (Ok(a), Ok(b)) => match (a.dispatch(), b.dispatch()) {
                    (Ok(mut x), Ok(mut y)) => {
                        let (mut u, mut v) = (vec![], vec![]);
                        for _ in 0..obs::CAP {
                            let (p, q) = (x.next(), y.next());
                            if p.is_none() && q.is_none() {
                                break;
                            }
                            u.extend(p.map(obs::bits));
                            v.extend(q.map(obs::bits));
                        }
                        out = [Ok(u), Ok(v)];
                    }
                    (x, y) => {
                        out = [x.map(|i| i.map(obs::bits).collect()).map_err(|e| obs::err(&e)), y.map(|i| i.map(obs::bits).collect()).map_err(|e| obs::err(&e))];
                    }
                },
                _ => {
                    out = [a.and_then(|d| vals(&d)), b.and_then(|d| vals(&d))];
                }
            }
            same("values in turns", &out[0], &want[j].values)?;
            same("values in turns", &out[1], &want[k].values)
        }
        Op::List => {
            let mut n = 0;
            for ((i, s), w) in g.iter().zip(want) {
                same("index", &i, &w.index)?;
                same("description", &s.describe(), &w.describe)?;
                n += 1;
            }
            same("number of submessages", &(n, g.len()), &(want.len(), want.len()))
        }
        Op::Sections => {
            let got: Vec<_> = g.sections().map(obs::SectObs::of).collect();
            same("sections", &&got[..], &sections)
        }
        Op::Nth(k) => {
            let (i, s) = g.iter().nth(k).ok_or("nth found nothing")?;
            let mut m = obs::meta(i, &s);
            m.values = obs::values(s);
            same("nth submessage", &m, &want[k])
        }
    }
}

fn pick_op(cx: &mut Ctx, n: usize, full: bool) -> Op {
    let kinds = if full { 9 } else { 5 };
    match cx.choose(kinds) {
        0 => Op::Decode(cx.choose(n)),
        1 => Op::Abandon(cx.choose(n), cx.pick(&[0usize, 1, 3])),
        2 => Op::Meta(cx.choose(n)),
        3 => Op::List,
        4 => Op::Nth(cx.choose(n)),
        5 => Op::DecoderOnly(cx.choose(n)),
        6 => Op::Twice(cx.choose(n)),
        7 => Op::Both(cx.choose(n), cx.choose(n)),
        _ => Op::Sections,
    }
}

fn history(cx: &mut Ctx, fs: &[File], depth: usize, full: bool, seek: bool) -> Leaf {
    let f = &fs[cx.choose(fs.len())];
    let want = match &f.want {
        Ok(w) if !w.is_empty() => w,
        Ok(_) => return fail("a valid file is not opened", format!("{}: {:?}", f.name, f.sections)),
        Err(e) => return Err(e.clone()),
    };
    let n = want.len();
    let len = 1 + cx.choose(depth);
    let ops: Vec<Op> = (0..len).map(|_| pick_op(cx, n, full)).collect();
    // the last word is always a look at everything
    let end = |g: &dyn Fn(Op) -> Result<(), String>| -> Result<(), String> {
        for k in (0..n).rev() {
            g(Op::Meta(k))?;
            g(Op::Decode(k))?;
        }
        g(Op::Sections)
    };
    let whole = |r: &dyn Fn(Op) -> Result<(), String>| -> Result<(), String> {
        for (k, op) in ops.iter().enumerate() {
            r(*op).map_err(|m| format!("{}: {op:?} as step {k} of {ops:?}: {m}", f.name))?;
        }
        end(r).map_err(|m| format!("{}: after {ops:?}: {m}", f.name))
    };
    let r = if seek {
        // through a reader that returns short counts
        let env = Env::new(cx, Policy::Chunk(5));
        let rd = Rdr::new(env, &f.bytes);
        guard("history", || {
            let g = grib::from_reader(rd).map_err(|e| obs::err(&e))?;
            let r = |op: Op| perform(&g, op, want, &f.sections);
            whole(&r)
        })
    } else {
        guard("history", || {
            let g = grib::from_slice(&f.bytes).map_err(|e| obs::err(&e))?;
            let r = |op: Op| perform(&g, op, want, &f.sections);
            whole(&r)
        })
    };
    match r {
        Ok(Ok(())) => Ok(hash_of(&format!("{ops:?}"))),
        Ok(Err(m)) => fail("a submessage reads differently after other operations", m),
        Err(e) => Err(e),
    }
}

/// Submessages that differ from one another in one respect.
fn variants() -> Vec<(String, Sub)> {
    let mut v: Vec<(String, Sub)> = samples::all().into_iter().map(|(n, s)| (n.to_string(), s)).collect();
    let mut grid = |name: String, n: usize, s3: Vec<u8>| {
        let vals: Vec<u8> = (1..=n as u8).collect();
        v.push((name, sub_simple8(Some(s3), &vals)));
    };
    for (ni, nj, first, last) in [(2u32, 4u32, 59_444_000i64, -59_444_000i64), (3, 4, 59_444_000, -59_444_000), (2, 6, 75_000_000, -75_000_000)] {
        for mode in [0u8, 0x40, 0x20, 0x10] {
            let (a, b) = if mode & 0x40 > 0 { (last, first) } else { (first, last) };
            grid(
                format!("gaussian {ni}x{nj} mode {mode:#x}"),
                (ni * nj) as usize,
                grid_gaussian(&LatLon { ni, nj, num: ni * nj, first: (a, 0), last: (b, 180_000_000), mode }),
            );
        }
    }
    for (ni, nj) in [(3u32, 2u32), (2, 3)] {
        for (mode, step) in [(0u8, 1_000_000i64), (0x40, 1_000_000), (0x80, 1_000_000), (0x20, 1_000_000), (0x10, 1_000_000), (0, 2_000_000)] {
            let dj = step * (nj as i64 - 1);
            let di = step * (ni as i64 - 1);
            let (a, b) = if mode & 0x40 > 0 { (10_000_000, 10_000_000 + dj) } else { (10_000_000, 10_000_000 - dj) };
            let (c, d) = if mode & 0x80 > 0 { (100_000_000, 100_000_000 - di) } else { (100_000_000, 100_000_000 + di) };
            grid(format!("latlon {ni}x{nj} mode {mode:#x} step {step}"), 6, grid_latlon(&LatLon { ni, nj, num: 6, first: (a, c), last: (b, d), mode }));
        }
    }
    type P = (u8, (i64, i64), i64, i64, (u32, u32), u8, u8);
    let p: P = (6, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, 0x40);
    let ps: Vec<(&str, P)> = vec![
        ("", p),
        ("sphere", (0, p.1, p.2, p.3, p.4, p.5, p.6)),
        ("first", (p.0, (21_000_000, 121_000_000), p.2, p.3, p.4, p.5, p.6)),
        ("LaD", (p.0, p.1, 31_000_000, p.3, p.4, p.5, p.6)),
        ("LoV", (p.0, p.1, p.2, 141_000_000, p.4, p.5, p.6)),
        ("step", (p.0, p.1, p.2, p.3, (4_000_000, 5_000_000), p.5, p.6)),
        ("pole", (p.0, p.1, p.2, p.3, p.4, 0x80, p.6)),
        ("mode", (p.0, p.1, p.2, p.3, p.4, p.5, 0)),
    ];
    for (n, (sh, first, lad, lov, d, flag, mode)) in &ps {
        if *n != "pole" {
            grid(format!("lambert {n}"), 6, grid_lambert(*sh, 3, 2, 6, *first, *lad, *lov, *d, *flag, *mode, (30_000_000, 60_000_000)));
        }
        grid(format!("polar {n}"), 6, grid_polar(*sh, 3, 2, 6, *first, *lad, *lov, *d, *flag, *mode));
    }
    grid("lambert parallels".into(), 6, grid_lambert(p.0, 3, 2, 6, p.1, p.2, p.3, p.4, p.5, p.6, (30_000_000, 50_000_000)));
    for (r, e, d, nbit) in [(1.0f32, 0i64, 0i64, 8u8), (2.0, 0, 0, 8), (1.0, 1, 0, 8), (1.0, 0, 1, 8), (1.0, 0, 0, 4)] {
        let mut s = sub_simple8(Some(small_grid(3, 2)), &[1, 2, 3, 4, 5, 6]);
        s.s5 = repr(6, 0, r, e, d, nbit);
        if nbit == 4 {
            s.s7.truncate(3);
        }
        v.push((format!("simple R={r} E={e} D={d} {nbit} bits"), s));
    }
    for k in 0..4 {
        let mut s = samples::bitmapped();
        s.s6[1] = s.s6[1].rotate_left(k);
        v.push((format!("bitmap rotated by {k}"), s));
        let mut s = samples::runlength();
        s.s5[12 + k as usize * 2] ^= 3;
        v.push((format!("level {k} changed"), s));
        let mut s = samples::simple();
        s.s4[4] = k as u8;
        s.s4[5] = k as u8 + 1;
        v.push((format!("parameter {k}.{}", k + 1), s));
    }
    let mut s = samples::png16();
    s.s7 = crate::enc::png(3, 2, 16, &[9, 8, 7, 6, 5, 4], png::FilterType::NoFilter);
    v.push(("another image".into(), s.clone()));
    s.s5 = repr(6, 41, 1.5, 0, 1, 8);
    s.s7 = crate::enc::png(3, 2, 8, &[9, 8, 7, 6, 5, 4], png::FilterType::NoFilter);
    v.push(("an 8-bit image".into(), s));
    v
}

/// Two submessages, as two files, two messages or one message, and looked at in either order
/// between looks at the other; each is compared with what a process sees that does nothing else.
fn check_pair(cx: &mut Ctx, a: &(String, Sub, Option<String>), b: &(String, Sub, Option<String>)) -> Leaf {
    let (Some(ra), Some(rb)) = (&a.2, &b.2) else { return Ok(0) };
    let how = cx.choose(3);
    let files: Vec<Vec<u8>> = match how {
        0 => vec![one(a.1.clone()).bytes(), one(b.1.clone()).bytes()],
        1 => vec![msgs(vec![vec![a.1.clone()], vec![b.1.clone()]])],
        _ => vec![msgs(vec![vec![a.1.clone(), b.1.clone()]])],
    };
    let order: &[usize] = cx.pick(&[&[0usize, 1, 0][..], &[1, 0, 1][..]]);
    let got = guard("a pair of submessages", || {
        let open: Vec<_> = files.iter().map(|f| grib::from_slice(f)).collect();
        order
            .iter()
            .map(|k| {
                let (f, n) = if how == 0 { (*k, 0) } else { (0, *k) };
                let r = match &open[f] {
                    Err(e) => Err(obs::err(e)),
                    Ok(g) => match get(g, n) {
                        None => Err("no such submessage".into()),
                        Some((i, s)) => {
                            let mut m = obs::meta(i, &s);
                            m.values = obs::values(s);
                            Ok(obs::placeless(&m))
                        }
                    },
                };
                (*k, format!("{r:?}"))
            })
            .collect::<Vec<_>>()
    })?;
    for (step, (k, g)) in got.iter().enumerate() {
        let (name, want) = if *k == 0 { (&a.0, ra) } else { (&b.0, rb) };
        if g != want {
            let at = g.bytes().zip(want.bytes()).position(|(x, y)| x != y).unwrap_or(g.len().min(want.len()));
            let part = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(30)..(at + 90).min(s.len())]).into_owned();
            return fail(
                "a submessage reads differently after another",
                format!("'{name}' as step {step} of {order:?} of '{}' and '{}' (layout {how}): ..{}.., alone ..{}..", a.0, b.0, part(g), part(want)),
            );
        }
    }
    Ok(hash_of(&got))
}

fn with_refs(v: Vec<(String, Sub)>) -> Vec<(String, Sub, Option<String>)> {
    let files: Vec<_> = v.iter().map(|(_, s)| (one(s.clone()).bytes(), 0)).collect();
    v.into_iter().zip(obs::alone_all(&files)).map(|((n, s), r)| (n, s, r)).collect()
}

/// Copies of a sample with one octet changed.
pub fn octet_variants(name: &str, s: &Sub, masks: &[u8]) -> Vec<(String, Sub)> {
    let mut out = vec![];
    for sect in 3..8 {
        fn part(s: &mut Sub, sect: usize) -> &mut Vec<u8> {
            match sect {
                3 => s.s3.as_mut().unwrap(),
                4 => &mut s.s4,
                5 => &mut s.s5,
                6 => &mut s.s6,
                _ => &mut s.s7,
            }
        }
        for at in 0..part(&mut s.clone(), sect).len() {
            for m in masks {
                let mut t = s.clone();
                part(&mut t, sect)[at] ^= m;
                out.push((format!("{name} with octet {} of section {sect} xor {m:#x}", at + 6), t));
            }
        }
    }
    out
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sequence of listing, describing, locating, decoding, abandoning and failing operations up to the stated depth on one opened file, each result and a final look at everything compared with freshly opened files; every pair of some 90 submessages and of samples with one octet changed, in three layouts and two orders, compared with processes that read only that submessage".into();
    let fs = files();
    for f in &fs {
        let w: Vec<String> = f.want.iter().flatten().map(|w| match &w.values {
            Ok(v) => format!("{} values", v.len()),
            Err(e) => e.chars().take(40).collect(),
        }).collect();
        rep.note_assumption(&format!("file '{}': submessages decode to {}", f.name, w.join("; ")));
    }
    if rep.wants("pairs") {
        let vs = with_refs(variants());
        rep.note_assumption(&format!("pairs: {} of {} submessages could be read by a process of their own", vs.iter().filter(|v| v.2.is_some()).count(), vs.len()));
        rep.explore("pairs", 0, |cx| {
            let (a, b) = (&vs[cx.choose(vs.len())], &vs[cx.choose(vs.len())]);
            check_pair(cx, a, b)
        });
    }
    if rep.wants("octet-variants") {
        let masks: &[u8] = rep.tier(&[0x01, 0x80], &[1, 2, 4, 8, 16, 32, 64, 128]);
        let sets: Vec<_> = samples::all()
            .into_iter()
            .map(|(n, s)| {
                let mut all = vec![(n.to_string(), s.clone())];
                all.extend(octet_variants(n, &s, masks));
                with_refs(all)
            })
            .collect();
        rep.explore("octet-variants", 0, |cx| {
            let set = &sets[cx.choose(sets.len())];
            let b = &set[1 + cx.choose(set.len() - 1)];
            check_pair(cx, &set[0], b)
        });
    }
    // the reference used below is itself what a process sees that does nothing else
    let alone: Vec<Vec<Option<String>>> =
        fs.iter().map(|f| obs::alone_all(&(0..f.want.as_ref().map_or(0, |w| w.len())).map(|k| (f.bytes.clone(), k)).collect::<Vec<_>>())).collect();
    rep.explore("references", 0, |cx| {
        let i = cx.choose(fs.len());
        let Ok(w) = &fs[i].want else { return Ok(0) };
        for (k, w) in w.iter().enumerate() {
            let got = format!("{:?}", Ok::<_, String>(obs::placeless(w)));
            if alone[i][k].as_ref().is_some_and(|r| *r != got) {
                return fail("a submessage reads differently after another", format!("submessage {k} of '{}', after other files were read: {got}, alone {:?}", fs[i].name, alone[i][k]));
            }
        }
        Ok(i as u64)
    });
    let d = rep.tier(3, 4);
    rep.explore("all-operations", 0, |cx| history(cx, &fs, d, true, false));
    let d = rep.tier(4, 5);
    rep.explore("main-operations", 0, |cx| history(cx, &fs, d, false, false));
    let d = rep.tier(3, 4);
    rep.explore("short-reads", 0, |cx| history(cx, &fs, d, false, true));
}
