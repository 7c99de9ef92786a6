//! C10: simple packing.
use crate::{dec::*, msg::*};
use mccore::{Ctx, Leaf, Report};

fn s5(n: usize, sc: Scale, nbit: u8) -> Vec<u8> {
    repr(n as u32, 0, sc.r, sc.e, sc.d, nbit)
}

fn go(sc: Scale, nbit: u32, x: &[u64]) -> Leaf {
    let want: Vec<_> = x.iter().map(|x| Some(*x as f64)).collect();
    let s7 = pack_bits(x.iter().map(|x| (*x, nbit)));
    judge(sc, &want, sub(x.len(), s5(x.len(), sc, nbit as u8), s7), || format!("{nbit}-bit fields {x:?}"))
}

fn boundary(nbit: u32) -> Vec<u64> {
    let m = (1u64 << nbit) - 1;
    let mut v = vec![0, 1, m / 2, m / 2 + 1, m - 1, m, m / 3, m / 255];
    v.sort();
    v.dedup();
    v.retain(|x| *x <= m);
    v
}

/// Every content of a few narrow fields.
fn small(cx: &mut Ctx, bits: u32) -> Leaf {
    let nbit = 1 + cx.choose(8) as u32;
    let n = 1 + cx.choose((bits / nbit).max(1) as usize);
    if n as u32 * nbit > bits {
        return Ok(0);
    }
    let x: Vec<u64> = (0..n).map(|_| cx.choose(1 << nbit) as u64).collect();
    go(Scale { r: 3.0, e: 0, d: 0 }, nbit, &x)
}

/// Every width, number of fields and placement of boundary values.
fn widths(cx: &mut Ctx, len: usize, many: usize) -> Leaf {
    let nbit = 1 + cx.choose(32) as u32;
    let b = boundary(nbit);
    let sc = cx.pick(&[PLAIN, Scale { r: 0.0, e: -3, d: 0 }]);
    let x: Vec<u64> = if cx.flag() {
        let n = 1 + cx.choose(len);
        (0..n).map(|_| cx.pick(&b)).collect()
    } else {
        let n = 1 + cx.choose(many);
        let m = (1u64 << nbit) - 1;
        match cx.choose(5) {
            // one field stands out
            0 => {
                let k = cx.choose(n);
                (0..n).map(|i| if i == k { m } else { 0 }).collect()
            }
            1 => {
                let k = cx.choose(n);
                (0..n).map(|i| if i == k { 0 } else { m }).collect()
            }
            2 => {
                let k = cx.choose(n);
                (0..n).map(|i| if i == k { 1 } else { m / 2 }).collect()
            }
            3 => (0..n as u64).map(|i| (i * 0x9e37_79b9 + 1) & m).collect(),
            _ => (0..n as u64).map(|i| if i % 2 == 0 { m } else { 0 }).collect(),
        }
    };
    go(sc, nbit, &x)
}

/// Large fields of every width.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())] as u64;
    let nbit = 1 + cx.choose(32) as u32;
    let m = (1u64 << nbit) - 1;
    let pat = cx.choose(3);
    let x: Vec<u64> = (0..n)
        .map(|i| match pat {
            0 => (i * 0x9e37_79b9 + 1) & m,
            1 => m - (i & m),
            _ => (i == n - 1) as u64,
        })
        .collect();
    go(Scale { r: 0.0, e: -1, d: 0 }, nbit, &x)
}

/// Every combination of reference value and scale factors.
fn scales(cx: &mut Ctx, es: &[i64], ds: &[i64]) -> Leaf {
    let sc = Scale {
        r: cx.pick(&[0.0f32, -0.0, 1.0, -1.0, 273.15, -1e-5, 1e10, -3.5e20, 16_777_216.0, 1e-12, 99999.0]),
        e: cx.pick(es),
        d: cx.pick(ds),
    };
    let nbit = cx.pick(&[1u32, 7, 8, 12, 16, 23, 24, 25, 31, 32]);
    go(sc, nbit, &boundary(nbit))
}

/// Scale factors with a sign and no magnitude.
fn negative_zero(cx: &mut Ctx) -> Leaf {
    let nbit = cx.pick(&[0u32, 5, 16]);
    let (e, d) = (cx.flag(), cx.flag());
    let other = cx.pick(&[0i64, 3, -3]);
    let sc = Scale { r: 12.5, e: if e { 0 } else { other }, d: if d { 0 } else { other } };
    let x = if nbit == 0 { vec![0; 4] } else { boundary(nbit) };
    let mut s = s5(x.len(), sc, nbit as u8);
    if e {
        s[10..12].copy_from_slice(&[0x80, 0]);
    }
    if d {
        s[12..14].copy_from_slice(&[0x80, 0]);
    }
    let s7 = pack_bits(x.iter().map(|x| (*x, nbit)));
    let want: Vec<_> = x.iter().map(|x| Some(*x as f64)).collect();
    judge(sc, &want, sub(x.len(), s, s7), || format!("{nbit}-bit fields, signed zero in E {e}, in D {d}"))
}

const LARGE: [usize; 9] = [255, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537];

/// No bits at all.
fn constant(cx: &mut Ctx, n: usize, ds: &[i64]) -> Leaf {
    let sc = Scale {
        r: cx.pick(&[0.0f32, 1.0, -7.25, 273.15, 1e-20, -4e12, 16_777_215.0]),
        e: cx.pick(&[0, 1, -1, 20, -20, 100, 1000, -1000, 32767]),
        d: cx.pick(ds),
    };
    let n = match cx.choose(n + LARGE.len()) {
        k if k < n => k,
        k => LARGE[k - n],
    };
    // E plays no part
    let want = vec![Some(0.0); n];
    judge(Scale { e: 0, ..sc }, &want, sub(n, s5(n, sc, 0), vec![]), || format!("{n} constant points, E {}", sc.e))
}

/// Widths the library cannot hold, and original values that are no floating-point numbers: refused or right.
fn unsupported(cx: &mut Ctx) -> Leaf {
    let nbit = cx.choose(256) as u32;
    let original = cx.choose(256) as u8;
    if nbit <= 32 && original == 0 {
        return Ok(0);
    }
    let n = 1 + cx.choose(4);
    let x: Vec<u64> = match cx.choose(3) {
        _ if nbit == 0 => vec![0; n],
        0 => (0..n as u64).map(|i| i & 1).collect(),
        1 => vec![1u64.checked_shl(nbit - 1).unwrap_or(1 << 40); n],
        _ => (0..n as u64).map(|i| if nbit < 63 { (1 << nbit) - 1 - i % 2 } else { (1 << 62) - (i << 40) }).collect(),
    };
    let mut s = s5(n, PLAIN, nbit as u8);
    s[15] = original;
    let s7 = pack_bits(x.iter().map(|x| (*x, nbit)));
    let want: Vec<_> = x.iter().map(|x| Some(*x as f64)).collect();
    match decode(sub(n, s, s7))? {
        Err(_) => Ok(1),
        Ok(v) => match PLAIN.check_all(&want, &v) {
            Ok(()) => Ok(2),
            Err(m) => mccore::fail("wrong values", format!("{nbit}-bit fields {x:?}, type {original} of original values: {m}")),
        },
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every field width, alignment, boundary content and scale in the stated alphabets; all contents of narrow fields".into();
    let t = rep.tier(16, 20);
    rep.explore("small-fields", 0, |cx| small(cx, t));
    let (l, m) = rep.tier((5, 72), (6, 140));
    rep.explore("widths", 0, |cx| widths(cx, l, m));
    let ns = sizes(rep.tier(19, 20));
    rep.explore("large", 0, |cx| large(cx, &ns));
    // a section whose length needs all of its octets
    rep.explore("sixteen-million", 0, |cx| {
        let nbit = cx.pick(&[8u32, 1]);
        let n = (1u64 << 24) + 1;
        let x: Vec<u64> = (0..n).map(|i| (i * 0x9e37_79b9 >> 7) & ((1 << nbit) - 1)).collect();
        go(Scale { r: 0.0, e: -1, d: 0 }, nbit, &x)
    });
    let es: Vec<i64> = (-119..=119).collect();
    let ds: Vec<i64> = (-35..=35).collect();
    rep.explore("scales", 0, |cx| scales(cx, &es, &ds));
    rep.explore("negative-zero", 0, negative_zero);
    let n = rep.tier(40, 300);
    rep.explore("constant", 0, |cx| constant(cx, n, &ds));
    rep.explore("unsupported", 0, unsupported);
    rep.note_assumption("R, E and D are chosen so that every intermediate result stays in the normal range of f32; results are compared exactly where all of them are representable, otherwise within (6 + 2|D|) half units in the last place");
}
