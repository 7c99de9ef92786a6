//! C32: reading gives back everything it takes.
use crate::{c08::octet_variants, live, msg::*, samples};
use grib::*;
use mccore::{engine_error, ensure, guard, hash_of, Ctx, Leaf, Report};
use std::{
    cell::Cell,
    io::{self, Cursor, Read, Seek, SeekFrom},
    rc::Rc,
};

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Sections,
    List,
    Templates,
    Describe(usize),
    Coordinates(usize, usize),
    Decode(usize),
    /// Some values are taken, and the rest are not.
    Abandon(usize, usize),
    /// A decoder that is not used.
    DecoderOnly(usize),
    /// Two iterators over one decoder.
    Twice(usize),
    /// All iterators of the file at once.
    All,
}

fn get<'a, R>(g: &'a Grib2<R>, k: usize) -> Option<SubMessage<'a, R>> {
    g.iter().nth(k).map(|x| x.1)
}

const CAP: usize = 2000;

/// What was seen, as a number (nothing of it is kept).
fn perform<R: Grib2Read>(g: &Grib2<R>, op: Op) -> u64 {
    let dec = |k| get(g, k).and_then(|s| Grib2SubmessageDecoder::from(s).ok());
    match op {
        Op::Sections => g.sections().map(|s| hash_of(&(s.num, s.size, s.get_tmpl_code().map(|t| t.describe())))).fold(1, u64::wrapping_add),
        Op::List => g.iter().map(|((a, b), _)| (a * 7 + b) as u64).sum(),
        Op::Templates => g.list_templates().iter().map(|t| hash_of(&t.to_string())).fold(2, u64::wrapping_add),
        Op::Describe(k) => get(g, k).map_or(0, |s| {
            let p = s.prod_def();
            hash_of(&(
                s.describe(),
                s.parameter().and_then(|p| p.description()),
                p.forecast_time().map(|f| f.describe()),
                p.fixed_surfaces().map(|(a, b)| (a.describe(), b.describe())),
                format!("{:?}", s.3.body.body),
                s.3.body.clone().num,
            ))
        }),
        Op::Coordinates(k, n) => get(g, k).map_or(0, |s| {
            let a = s.ij().map_or(0, |i| i.take(n).map(|(a, b)| (a * 5 + b) as u64).sum());
            let b = s.latlons().map_or(0, |i| i.take(n).map(|(a, b)| a.to_bits() as u64 ^ b.to_bits() as u64).fold(0, u64::wrapping_add));
            hash_of(&(a, b))
        }),
        Op::Decode(k) => dec(k).map_or(0, |d| d.dispatch().map_or(3, |i| i.take(CAP).map(|v| v.to_bits() as u64).sum())),
        Op::Abandon(k, n) => dec(k).map_or(0, |d| d.dispatch().map_or(3, |i| i.take(n).map(|v| v.to_bits() as u64).sum())),
        Op::DecoderOnly(k) => dec(k).map_or(0, |_| 1),
        Op::Twice(k) => dec(k).map_or(0, |d| match (d.dispatch(), d.dispatch()) {
            (Ok(a), Ok(b)) => a.take(CAP).zip(b.take(CAP)).map(|(a, b)| a.to_bits() as u64 ^ b.to_bits() as u64).sum(),
            _ => 4,
        }),
        Op::All => {
            let ds: Vec<_> = g.iter().map(|(_, s)| Grib2SubmessageDecoder::from(s).ok()).collect();
            let its: Vec<_> = ds.iter().flatten().map(|d| d.dispatch().ok()).collect();
            its.into_iter().flatten().map(|i| i.take(3).map(|v| v.to_bits() as u64).sum::<u64>()).fold(0, u64::wrapping_add)
        }
    }
}

/// A reader that may fail at one of its calls, and that tells of its end.
struct Told<'d> {
    data: Cursor<&'d [u8]>,
    calls: usize,
    fail_at: usize,
    dropped: Rc<Cell<usize>>,
    made: Rc<Cell<usize>>,
}
impl Told<'_> {
    fn call(&mut self) -> io::Result<()> {
        self.calls += 1;
        self.made.set(self.calls);
        if self.calls == self.fail_at {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        Ok(())
    }
}
impl Read for Told<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call()?;
        self.data.read(b)
    }
}
impl Seek for Told<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.call()?;
        self.data.seek(p)
    }
}
impl Drop for Told<'_> {
    fn drop(&mut self) {
        self.dropped.set(self.dropped.get() + 1);
    }
}

/// One use of a file, from opening to dropping. What memory the third of three rounds of the same
/// operations on the open file took and kept, in blocks and octets.
fn session(b: &[u8], ops: &[Op], fail_at: usize, dropped: &Rc<Cell<usize>>, made: &Rc<Cell<usize>>) -> Result<(u64, (isize, isize)), u64> {
    let r = Told { data: Cursor::new(b), calls: 0, fail_at, dropped: dropped.clone(), made: made.clone() };
    let g = match grib::from_reader(r) {
        Ok(g) => g,
        Err(e) => return Err(hash_of(&e.to_string())),
    };
    let mut kept = (0, 0);
    let mut h = 0;
    for _ in 0..3 {
        let a = live::held();
        h = ops.iter().map(|o| perform(&g, *o)).fold(0, |a: u64, b| a.wrapping_mul(31).wrapping_add(b));
        let b = live::held();
        kept = (b.0 - a.0, b.1 - a.1);
    }
    Ok((h, kept))
}

fn balanced(what: &str, b: &[u8], ops: &[Op], fail_at: usize) -> Result<(u64, usize), mccore::Fail> {
    let r = guard("a session", || {
        let dropped = Rc::new(Cell::new(0));
        let made = Rc::new(Cell::new(0));
        let mut kept = (0, 0);
        let mut seen = (0, (0, 0));
        // the first round may set up what is set up once in a process
        for round in 1..=4 {
            let a = live::held();
            let r = session(b, ops, fail_at, &dropped, &made);
            let b = live::held();
            kept = (b.0 - a.0, b.1 - a.1);
            seen = r.unwrap_or_else(|e| (e, (0, 0)));
            if round >= 2 && kept == (0, 0) {
                return (seen, kept, dropped.get() == round, made.get());
            }
        }
        (seen, kept, dropped.get() == 4, made.get())
    });
    // panics, hangs and excess are C06's
    let Ok(((h, open), kept, dropped, made)) = r else { return Ok((0, 0)) };
    ensure!(kept == (0, 0), "memory not given back", "{what}, {ops:?}: {} blocks, {} octets are held after everything is dropped", kept.0, kept.1);
    ensure!(dropped, "reader not given back", "{what}, {ops:?}: the reader is not dropped with the file");
    ensure!(open == (0, 0), "memory taken by an open file grows", "{what}, {ops:?}: each repetition keeps {} blocks, {} octets", open.0, open.1);
    Ok((h, made))
}

fn files() -> Vec<(String, Vec<u8>, usize)> {
    let mut v: Vec<(String, Vec<u8>, usize)> = samples::all().into_iter().map(|(n, s)| (n.to_string(), one(s).bytes(), 1)).collect();
    let m = samples::multi_bytes();
    let n = grib::from_slice(&m).map_or(1, |g| g.len().max(1));
    v.push(("multi".into(), m, n));
    v
}

fn pick_op(cx: &mut Ctx, n: usize) -> Op {
    match cx.choose(10) {
        0 => Op::Decode(cx.choose(n)),
        1 => Op::Abandon(cx.choose(n), cx.pick(&[0usize, 1, 3])),
        2 => Op::Describe(cx.choose(n)),
        3 => Op::Coordinates(cx.choose(n), cx.pick(&[0usize, 2, CAP])),
        4 => Op::DecoderOnly(cx.choose(n)),
        5 => Op::Twice(cx.choose(n)),
        6 => Op::All,
        7 => Op::List,
        8 => Op::Templates,
        _ => Op::Sections,
    }
}

fn history(cx: &mut Ctx, fs: &[(String, Vec<u8>, usize)], depth: usize) -> Leaf {
    let (name, b, n) = &fs[cx.choose(fs.len())];
    let len = cx.choose(depth + 1);
    let ops: Vec<Op> = (0..len).map(|_| pick_op(cx, *n)).collect();
    Ok(balanced(name, b, &ops, 0)?.0)
}

const EVERYTHING: [Op; 9] =
    [Op::Sections, Op::Templates, Op::Describe(0), Op::Coordinates(0, 5), Op::Coordinates(0, 0), Op::Decode(0), Op::Abandon(0, 1), Op::Twice(0), Op::All];

fn points(s: &Sub) -> u64 {
    let be = |b: &[u8], at: usize| b.get(at..at + 4).map_or(0, |b| u32::from_be_bytes(b.try_into().unwrap()) as u64);
    let n = be(&s.s5, 0);
    match &s.s3 {
        Some(g) => n.max(be(g, 1)),
        None => n,
    }
}

fn damaged(cx: &mut Ctx, sets: &[Vec<(String, Sub)>], limit: u64) -> Leaf {
    let set = &sets[cx.choose(sets.len())];
    let (name, s) = &set[cx.choose(set.len())];
    if points(s) > limit {
        return Ok(0);
    }
    Ok(balanced(name, &one(s.clone()).bytes(), &[Op::Sections, Op::Describe(0), Op::Coordinates(0, 5), Op::Decode(0)], 0)?.0)
}

fn cut(cx: &mut Ctx, fs: &[(String, Vec<u8>, usize)]) -> Leaf {
    let (name, b, _) = &fs[cx.choose(fs.len())];
    let n = cx.choose(b.len() + 1);
    Ok(balanced(&format!("the first {n} octets of {name}"), &b[..n], &EVERYTHING, 0)?.0)
}

/// Values cut short or extended, every section of every length.
fn resized(cx: &mut Ctx) -> Leaf {
    let all = samples::all();
    let (name, s) = &all[cx.choose(all.len())];
    let mut m = one(s.clone());
    let k = 3 + cx.choose(5);
    let s = &mut m.subs[0];
    let body = match k {
        3 => s.s3.as_mut().unwrap(),
        4 => &mut s.s4,
        5 => &mut s.s5,
        6 => &mut s.s6,
        _ => &mut s.s7,
    };
    let len = cx.choose(body.len() + 6);
    let fill = cx.pick(&[0u8, 0xff]);
    body.resize(len, fill);
    Ok(balanced(&format!("{name} with section {k} of {len} octets"), &m.bytes(), &EVERYTHING, 0)?.0)
}

/// Code streams that fit the definition, or differ in one or two respects, cut or not.
fn codestreams(cx: &mut Ctx) -> Leaf {
    let (w, h) = cx.pick(&[(4u32, 3u32), (1, 1), (5, 5), (40, 3)]);
    let comps = cx.pick(&[1u32, 2, 3]);
    let off = cx.pick(&[(0u32, 0u32), (2, 1)]);
    let tile = cx.pick(&[0u32, 2]);
    let nbit = cx.pick(&[0u8, 8]);
    let n = cx.pick(&[w * h, w * h + 1, w * h - 1]);
    let vals: Vec<i32> = (0..w * h).map(|k| (k * 37 % 200) as i32).collect();
    let Some(mut s7) = crate::enc::jpeg2000(w, h, 8, false, comps, off, tile, &vals) else { return Ok(0) };
    let cut = cx.pick(&[0usize, 1, 2, 10, 50]);
    s7.truncate(s7.len().saturating_sub(cut));
    let mut s = samples::jpeg();
    s.s3 = Some(grid_unsupported(n, 101));
    s.s5[0..4].copy_from_slice(&n.to_be_bytes());
    s.s5[14] = nbit;
    s.s7 = s7;
    let what = format!("{w}x{h} code stream of {comps} components at {off:?}, tile {tile}, {nbit} bits, for {n} points, {cut} octets short");
    Ok(balanced(&what, &one(s).bytes(), &[Op::Decode(0), Op::Abandon(0, 1), Op::DecoderOnly(0), Op::Twice(0)], 0)?.0)
}

const KINDS: [&str; 15] =
    ["latlon", "gaussian", "lambert", "polar", "simple", "bitmapped", "complex", "difference", "run length", "png", "jpeg", "product", "local use", "distance", "identification"];

/// The `m`-th of endlessly many files of one kind, no two of which are alike.
fn variant(kind: usize, m: u32) -> Vec<u8> {
    let on = |g: Vec<u8>, n: u32| {
        let vals: Vec<u8> = (0..n).map(|k| (k * 7 + m) as u8).collect();
        one(sub_simple8(Some(g), &vals))
    };
    let plain = |n: u32, s5: Vec<u8>, s7: Vec<u8>| one(Sub { s2: None, s3: Some(grid_unsupported(n, 101)), s4: prod_default(), s5, s6: no_bitmap(), s7 });
    let field: Vec<i64> = (0..m as i64).map(|k| k * 13 % 50).collect();
    let msg = match kind {
        0 => on(small_grid(m, 2), m * 2),
        1 => on(grid_gaussian_rows(2, m, 2 * m, (0, 180_000_000), 0), m * 2),
        2 => on(grid_lambert(6, m, 2, m * 2, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000 + m, 4_000), 0, 0x40, (30_000_000, 60_000_000)), m * 2),
        3 => on(grid_polar(6, m, 2, m * 2, (20_000_000, 220_000_000), 60_000_000, 249_000_000, (5_000 + m, 4_000), 0, 0x40), m * 2),
        4 => plain(m, repr(m, 0, m as f32, 0, 0, 8), vec![7; m as usize]),
        5 => {
            let bits: Vec<bool> = (0..m).map(|k| k % 3 != 0).collect();
            let n = bits.iter().filter(|b| **b).count() as u32;
            let mut x = plain(m, repr(n, 0, 1.0, 0, 0, 8), vec![9; n as usize]);
            x.subs[0].s6 = bitmap(&bits);
            x
        }
        6 => {
            let gs = (0..m).map(|k| crate::enc::Group { width: 4, reff: k as u64 % 8, vals: vec![(k as u64) % 9, 3] }).collect();
            let (s5, s7) = crate::enc::Complex::fit(4, 0, gs, 0, 1, 1).t2(0.0, 0, 0);
            plain(2 * m, s5, s7)
        }
        7 => {
            let f: Vec<Option<i64>> = field.iter().map(|v| Some(*v)).collect();
            let mut cuts = vec![4usize; m as usize / 4];
            cuts.extend([m as usize % 4].iter().filter(|c| **c > 0));
            match crate::enc::diff_encode(&f, 1, 2, &cuts, 0) {
                Some((c, first, min)) => {
                    let (s5, s7) = c.t3(1.0, 0, 0, 1, 2, &first, min);
                    plain(m, s5, s7)
                }
                None => plain(m, repr(m, 0, 1.0, 0, 0, 0), vec![]),
            }
        }
        8 => plain(m, run_length_s5_of(m), crate::enc::run_length(3, 4, &[(1, m as usize)])),
        9 => {
            let vals: Vec<u32> = (0..2 * m).collect();
            plain(2 * m, repr(2 * m, 41, 0.0, 0, 0, 16), crate::enc::png(m, 2, 16, &vals, png::FilterType::NoFilter))
        }
        10 => {
            let vals: Vec<i32> = (0..2 * m as i32).map(|v| v % 200).collect();
            let s7 = crate::enc::jpeg2000(m, 2, 8, false, 1, (0, 0), 0, &vals).unwrap_or_default();
            plain(2 * m, repr(2 * m, 40, 0.0, 0, 0, 8), s7)
        }
        11 => {
            let mut x = on(small_grid(3, 2), 6);
            x.subs[0].s4 = prod((m % 200) as u8, (m / 7 % 200) as u8, m, (100, 0, m as i64), (103, 1, m as i64));
            x
        }
        12 => {
            let mut x = on(small_grid(3, 2), 6);
            x.subs[0].s2 = Some(vec![m as u8; m as usize]);
            x
        }
        13 => {
            let mut b = vec![b'x'; m as usize];
            b.extend(on(small_grid(3, 2), 6).bytes());
            return b;
        }
        _ => {
            let mut x = on(small_grid(3, 2), 6);
            x.s1[0..4].copy_from_slice(&m.to_be_bytes());
            x
        }
    };
    msg.bytes()
}
fn run_length_s5_of(m: u32) -> Vec<u8> {
    crate::enc::run_length_s5(m, 3, 4, &[5, 10, 20, 40], 1)
}

/// Files that differ, one after the other: what is held after many of them is not more than what
/// was held after the first few.
fn distinct(cx: &mut Ctx, count: u32) -> Leaf {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    // no file is used again in this process
    static NEXT: [AtomicU32; KINDS.len()] = [const { AtomicU32::new(20) }; KINDS.len()];
    let kind = cx.choose(KINDS.len());
    let m0 = NEXT[kind].fetch_add(count, SeqCst);
    let r = guard("reading many files", || {
        let (dropped, made) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let mut first = (0, 0);
        let mut decoded = 0;
        for k in 0..count {
            let b = variant(kind, m0 + k);
            decoded += usize::from(crate::obs::open_and_observe(&b).is_ok_and(|o| o.subs.iter().all(|s| s.values.is_ok())));
            let _ = session(&b, &EVERYTHING, 0, &dropped, &made);
            drop(b);
            if k == 8 {
                first = live::held();
            }
        }
        let h = live::held();
        (h.0 - first.0, h.1 - first.1, decoded)
    })?;
    ensure!(r.2 == count as usize, "a sample is not decoded", "{}: {} of {count} are decoded", KINDS[kind], r.2);
    ensure!(r.0 < count as isize / 4 && r.1 < 500 * count as isize, "memory grows with the files read", "{}: {} blocks, {} octets more are held after {} more files", KINDS[kind], r.0, r.1, count - 9);
    Ok(kind as u64)
}

fn failing(cx: &mut Ctx, fs: &[(String, Vec<u8>, usize, usize)]) -> Leaf {
    let (name, b, _, calls) = &fs[cx.choose(fs.len())];
    let at = 1 + cx.choose(*calls);
    Ok(balanced(&format!("{name}, call {at} of the reader fails"), b, &EVERYTHING, at)?.0)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sequence of operations up to the stated depth on every sample, every octet changed, every prefix, every section length, a failure at every call of the reader; everything is dropped, and what the thread then holds is compared with what it held before".into();
    // the instrument has to see both sides
    let a = live::taken();
    let v = std::hint::black_box(vec![1u8; 100]);
    if live::taken() == a {
        engine_error("allocations of Rust are not seen");
    }
    drop(v);
    let a = live::taken();
    std::hint::black_box(crate::enc::jpeg2000(2, 2, 8, false, 1, (0, 0), 0, &[1, 2, 3, 4]));
    if live::taken() < a + 10 {
        engine_error("allocations of C are not seen");
    }
    let fs = files();
    let d = rep.tier(3, 4);
    rep.explore("operations", 0, |cx| history(cx, &fs, d));
    let counted: Vec<_> = fs
        .iter()
        .map(|(n, b, k)| (n.clone(), b.clone(), *k, balanced(n, b, &EVERYTHING, 0).map_or(0, |r| r.1).max(1)))
        .collect();
    rep.explore("failing-readers", 0, |cx| failing(cx, &counted));
    rep.explore("prefixes", 0, |cx| cut(cx, &fs));
    rep.explore("resized", 0, resized);
    let n = rep.tier(64, 400);
    rep.explore("distinct-files", 0, |cx| distinct(cx, n));
    rep.explore("codestreams", 0, codestreams);
    let masks: &[u8] = rep.tier(&[0x01, 0x80, 0x04], &[1, 2, 4, 8, 16, 32, 64, 128, 0xff]);
    let every: &[u8] = &[1, 2, 4, 8, 16, 32, 64, 128, 0xff];
    let sets: Vec<Vec<(String, Sub)>> =
        samples::all().into_iter().map(|(n, s)| octet_variants(n, &s, if n == "jpeg" { every } else { masks })).collect();
    let limit = rep.tier(20_000, 300_000);
    rep.explore("damaged", 0, |cx| damaged(cx, &sets, limit));
    rep.note_assumption(&format!("of damaged samples with more than {limit} points declared, and of those that make a call panic or take too much (C06), nothing is measured"));
    rep.note_assumption("memory is counted per thread with the allocator's own size of each block, whether Rust or OpenJPEG took it; what is set up once per process is let pass");
}
