//! C13: run-length packing.
use crate::{dec::*, enc::*, msg::pack_bits};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};

/// The levels a sequence of codes stands for, by the definition.
fn expand(codes: &[u32], nbit: u32, maxv: u32) -> Result<Vec<u32>, String> {
    let radix = (1u64 << nbit) - 1 - maxv as u64;
    let mut out: Vec<u32> = vec![];
    let mut at = 0;
    while at < codes.len() {
        let level = codes[at];
        if level > maxv {
            return Err("starts with a run digit".into());
        }
        at += 1;
        let (mut run, mut place) = (1u64, 1u64);
        while at < codes.len() && codes[at] > maxv {
            run = run.saturating_add((codes[at] as u64 - maxv as u64 - 1).saturating_mul(place));
            place = place.saturating_mul(radix);
            at += 1;
        }
        if run + out.len() as u64 > 20_000_000 {
            return Err("huge".into());
        }
        out.extend(std::iter::repeat_n(level, run as usize));
    }
    Ok(out)
}

/// What codes followed by `pad` zero bits mean when `n` points are declared: trailing zeros that
/// do not make up an octet may be padding.
fn meaning(codes: &[u32], nbit: u32, maxv: u32, n: usize) -> Result<Vec<u32>, String> {
    let bits = codes.len() as u32 * nbit;
    let total = bits.div_ceil(8) * 8;
    // codes that the padding itself may look like
    let mut all = codes.to_vec();
    all.extend(std::iter::repeat_n(0, ((total - bits) / nbit) as usize));
    let mut last = Err("no reading".to_string());
    for k in 0..=all.len() {
        if total - k as u32 * nbit >= 8 || all[k..].iter().any(|c| *c != 0) {
            continue;
        }
        match expand(&all[..k], nbit, maxv) {
            Ok(v) if v.len() == n => return Ok(v),
            Ok(v) => {
                if last.is_err() {
                    last = Err(format!("{} points", v.len()));
                }
            }
            Err(e) => last = Err(e),
        }
    }
    last
}

fn level_value(level: u32, table: &[u16], digits: u8) -> Option<f64> {
    let power = if digits < 128 { digits as i32 } else { 128 - digits as i32 };
    (level > 0).then(|| table[level as usize - 1] as f64 * 10f64.powi(-power))
}

fn check(codes: &[u32], nbit: u32, maxv: u32, table: &[u16], digits: u8, n: usize) -> Leaf {
    let s5 = run_length_s5(n as u32, nbit as u8, maxv as u16, table, digits);
    let s7 = pack_bits(codes.iter().map(|c| (*c as u64, nbit)));
    let what = || format!("{nbit}-bit codes {:?}{} with levels up to {maxv}, {} table entries, {digits} digits, {n} points declared", &codes[..codes.len().min(30)], if codes.len() > 30 { ".." } else { "" }, table.len());
    let got = decode(sub(n, s5, s7))?;
    let want = meaning(codes, nbit, maxv, n).and_then(|l| {
        if l.iter().any(|l| *l as usize > table.len()) {
            Err("level above the table".into())
        } else {
            Ok(l)
        }
    });
    match (want, got) {
        (Err(w), Ok(v)) => fail("bad codes accepted", format!("{}: {w}, but decoded to {} values", what(), v.len())),
        (Err(_), Err(e)) => Ok(hash_of(&e)),
        (Ok(_), Err(e)) => fail("well-formed codes rejected", format!("{}: {e}", what())),
        (Ok(l), Ok(v)) => {
            ensure!(l.len() == v.len(), "wrong number of values", "{}: {} values", what(), v.len());
            for (k, (l, v)) in l.iter().zip(&v).enumerate() {
                let ok = match level_value(*l, table, digits) {
                    None => v.is_nan(),
                    Some(w) => ((*v as f64) - w).abs() <= w * (4 + 2 * (digits & 127)) as f64 / 16_777_216.0 * (digits & 127 > 0) as u8 as f64,
                };
                ensure!(ok, "wrong value", "{}: point {k} of level {l} is {v}", what());
            }
            Ok(hash_of(&l))
        }
    }
}

fn table(n: usize) -> Vec<u16> {
    (0..n as u32).map(|k| (k * 2621 + 3) as u16).collect()
}

/// Every sequence of codes.
fn codes(cx: &mut Ctx, nbit: u32, len: usize) -> Leaf {
    let maxv = cx.choose((1usize << nbit) - 2) as u32;
    let n = 1 + cx.choose(len);
    let c: Vec<u32> = (0..n).map(|_| cx.choose(1 << nbit) as u32).collect();
    let entries = maxv as usize + cx.choose(3);
    let entries = entries.saturating_sub(1);
    let declared = match expand(&c, nbit, maxv) {
        Ok(l) => match cx.choose(4) {
            0 => l.len(),
            1 => l.len() + 1,
            2 => l.len() - 1,
            _ => l.len() + 8,
        },
        Err(_) => cx.choose(4),
    };
    check(&c, nbit, maxv, &table(entries), 0, declared)
}

/// Runs that need several digits, for every width.
fn runs(cx: &mut Ctx, len: usize) -> Leaf {
    let nbit = 2 + cx.choose(15) as u32;
    let top = (1u32 << nbit) - 1;
    // two, three, many or nearly all codes are run digits
    let mut radixes = vec![2, 3, 10, top / 2, top - 1, top];
    radixes.retain(|r| *r >= 2 && *r <= top);
    radixes.dedup();
    let radix = cx.pick(&radixes);
    let maxv = top - radix;
    let levels = {
        let mut v = vec![0, 1, maxv / 2, maxv];
        v.retain(|l| *l <= maxv);
        v.dedup();
        v
    };
    let r = radix as usize;
    let mut lens = vec![1, 2, r, r + 1, r + 2, r * r, r * r + 1, r * r + 2, r * r * r + r + 1, 1000];
    lens.retain(|l| *l <= 70_000);
    lens.sort();
    lens.dedup();
    let n = 1 + cx.choose(len);
    let mut seq: Vec<(u32, usize)> = vec![];
    for _ in 0..n {
        seq.push((cx.pick(&levels), cx.pick(&lens)));
    }
    let c = run_codes(nbit, maxv, &seq);
    let total: usize = seq.iter().map(|s| s.1).sum();
    let off = cx.choose(3);
    let declared = [total, total + 1, total - 1][off];
    check(&c, nbit, maxv, &table(maxv as usize), 0, declared)
}

fn run_codes(nbit: u32, maxv: u32, seq: &[(u32, usize)]) -> Vec<u32> {
    let radix = (1u64 << nbit) - 1 - maxv as u64;
    let mut out = vec![];
    for (l, run) in seq {
        out.push(*l);
        let mut r = *run as u64 - 1;
        while r > 0 {
            out.push(maxv + 1 + (r % radix) as u32);
            r /= radix;
        }
    }
    out
}

/// Many points, in long runs or many short ones.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())];
    let nbit = cx.pick(&[2u32, 4, 7, 8, 9, 12, 16]);
    let top = (1u32 << nbit) - 1;
    let radix = cx.pick(&[2u32, 3, top / 2, top - 1]);
    if radix < 2 || radix >= top {
        return Ok(0);
    }
    let maxv = top - radix;
    let l = |k: usize| k as u32 % (maxv + 1);
    let seq: Vec<(u32, usize)> = match cx.choose(5) {
        0 => vec![(maxv, n)],
        1 => vec![(1, n / 2), (0, n - n / 2 - 1), (1, 1)],
        2 => (0..n).map(|k| (l(k), 1)).collect(),
        3 => {
            let m = n / 3;
            (0..m).map(|k| (l(k), if k + 1 < m { 3 } else { n - 3 * k })).collect()
        }
        _ => {
            let (mut v, mut left, mut k) = (vec![], n, 1);
            while left > 0 {
                let r = k.min(left);
                v.push((l(k), r));
                left -= r;
                k += 1;
            }
            v
        }
    };
    // a level that repeats starts a new run
    let c = run_codes(nbit, maxv, &seq);
    let total: usize = seq.iter().map(|s| s.1).sum();
    check(&c, nbit, maxv, &table(maxv as usize), 0, total + cx.choose(2))
}

/// Table values and decimal factors.
fn factors(cx: &mut Ctx, digits: &[u8]) -> Leaf {
    let d = cx.pick(digits);
    let t: Vec<u16> = cx.pick(&[vec![0u16, 1, 5], vec![65535, 300, 7], vec![10, 20, 32768], vec![1000, 999, 1001]]);
    let nbit = cx.pick(&[3u32, 4, 8, 11, 16]);
    let a = cx.choose(4) as u32;
    let b = cx.choose(4) as u32;
    let seq = [(a, 1), (b, 3), (0, 2), (3, 1)];
    let merged: Vec<(u32, usize)> = seq.iter().fold(vec![], |mut v: Vec<(u32, usize)>, s| {
        match v.last_mut() {
            Some(l) if l.0 == s.0 => l.1 += s.1,
            _ => v.push(*s),
        }
        v
    });
    check(&run_codes(nbit, 3, &merged), nbit, 3, &t, d, 7)
}

/// Widths outside 1 to 16 bits, short tables, empty data.
fn odd(cx: &mut Ctx) -> Leaf {
    match cx.choose(3) {
        0 => {
            let nbit = cx.pick(&[0u8, 17, 24, 32, 255]);
            let s5 = run_length_s5(2, nbit, 1, &[5], 0);
            let r = decode(sub(2, s5, vec![0; 64]))?;
            ensure!(r.is_err(), "bad codes accepted", "{nbit}-bit codes decoded");
            Ok(1)
        }
        1 => {
            // one-bit codes: levels 0 and 1, no runs
            let n = 1 + cx.choose(17);
            let c: Vec<u32> = (0..n).map(|k| (k % 3 != 0) as u32).collect();
            check(&c, 1, 1, &table(1), 0, n)
        }
        _ => {
            let n = cx.choose(3);
            let r = decode(sub(n, run_length_s5(n as u32, 4, 3, &[1, 2, 3], 0), vec![]))?;
            match (n, r) {
                (0, Ok(v)) if v.is_empty() => Ok(0),
                (0, r) => fail("well-formed codes rejected", format!("no points: {r:?}")),
                (_, Err(_)) => Ok(1),
                (n, Ok(v)) => fail("bad codes accepted", format!("no codes for {n} points decoded to {v:?}")),
            }
        }
    }
}

/// Codes without any digits left over (every code is a level).
fn no_digits(cx: &mut Ctx, len: usize) -> Leaf {
    let nbit = 1 + cx.choose(16) as u32;
    let top = (1u32 << nbit) - 1;
    let n = 1 + cx.choose(len);
    let c: Vec<u32> = (0..n).map(|_| cx.pick(&[0, 1, top])).collect();
    let entries = (top as usize).min(65_535).saturating_sub(cx.choose(2));
    let declared = n + cx.choose(2);
    check(&c, nbit, top, &table(entries), 0, declared)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sequence of codes up to the stated length for narrow codes and every highest level; every sequence of runs over run lengths around the powers of the radix for all widths; each with right and wrong numbers of points and short tables".into();
    for (nbit, q, t) in [(2, 9, 10), (3, 5, 6), (4, 3, 4)] {
        let l = rep.tier(q, t);
        rep.explore(&format!("codes-{nbit}-bit"), 0, |cx| codes(cx, nbit, l));
    }
    let l = rep.tier(2, 3);
    rep.explore("runs", 0, |cx| runs(cx, l));
    let ns = sizes(rep.tier(19, 20));
    rep.explore("large", 0, |cx| large(cx, &ns));
    // runs of many digits
    rep.explore("sixteen-million", 0, |cx| {
        let n = (1usize << 24) + 1;
        let (nbit, radix) = cx.pick(&[(16u32, 65_000u32), (8, 4)]);
        let maxv = (1 << nbit) - 1 - radix;
        let c = run_codes(nbit, maxv, &[(1, n), (0, 2)]);
        check(&c, nbit, maxv, &table(maxv as usize), 0, n + 2)
    });
    let ds: Vec<u8> = (0..=30).chain(128..=158).collect();
    rep.explore("factors", 0, |cx| factors(cx, &ds));
    rep.explore("odd", 0, odd);
    let l = rep.tier(4, 5);
    rep.explore("no-digits", 0, |cx| no_digits(cx, l));
    rep.note_assumption("a radix of 1 (a single run digit) has no meaning and is left out; up to 7 trailing zero bits are padding where the number of points asks for it");
}
