//! C09: one value per grid point, gaps where the bitmap says.
use crate::{dec::*, enc::*, msg::*};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};

const KINDS: [&str; 9] = ["simple", "simple-5", "constant", "complex", "diff1", "diff2", "run length", "png", "jpeg"];

/// The `k`th value present of large fields.
fn cyclic(kind: usize, k: usize) -> u32 {
    let w = match KINDS[kind] {
        "constant" => 1,
        "simple-5" => 31,
        "run length" => 250,
        _ => 4001,
    };
    (k % w) as u32 + 1
}

/// `cyclic` values packed in the given way.
fn packed_large(kind: usize, n: usize) -> (Vec<u8>, Vec<u8>) {
    let v: Vec<u32> = (0..n).map(|k| cyclic(kind, k)).collect();
    let f = || v.iter().map(|v| Some(*v as i64)).collect::<Vec<_>>();
    match KINDS[kind] {
        "simple" => (repr(n as u32, 0, 0.0, 0, 0, 16), pack_bits(v.iter().map(|x| (*x as u64, 16)))),
        "simple-5" => (repr(n as u32, 0, 1.0, 0, 0, 5), pack_bits(v.iter().map(|x| (*x as u64 - 1, 5)))),
        "constant" => (repr(n as u32, 0, 1.0, 0, 0, 0), vec![]),
        "complex" => {
            let g = v.chunks(700).map(|c| Group { width: 12, reff: 1, vals: c.iter().map(|x| *x as u64 - 1).collect() }).collect();
            Complex::fit(4, 0, g, 0, 0, 1).t2(0.0, 0, 0)
        }
        "diff1" | "diff2" => {
            let o = if KINDS[kind] == "diff1" { 1 } else { 2 };
            let mut cuts = vec![900; n / 900];
            if n % 900 > 0 {
                cuts.push(n % 900);
            }
            let (c, first, min) = diff_encode(&f(), o, 3, &cuts, 0).unwrap();
            c.t3(0.0, 0, 0, o, 3, &first, min)
        }
        "run length" => {
            let levels: Vec<u16> = (1..=250).collect();
            let runs: Vec<_> = v.iter().map(|v| (*v, 1)).collect();
            (run_length_s5(n as u32, 8, 250, &levels, 0), run_length(8, 250, &runs))
        }
        "png" => (repr(n as u32, 41, 0.0, 0, 0, 16), png(n as u32, 1, 16, &v, png::FilterType::NoFilter)),
        _ => {
            let v: Vec<i32> = v.iter().map(|v| *v as i32).collect();
            (repr(n as u32, 40, 0.0, 0, 0, 13), jpeg2000(n as u32, 1, 13, false, 1, (0, 0), 0, &v).unwrap_or_default())
        }
    }
}

/// Large fields, with and without a bitmap.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    // the largest first, so that no thread is left with them
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())];
    let kind = cx.choose(KINDS.len());
    if KINDS[kind] == "jpeg" && n > 20_000 {
        return Ok(0);
    }
    let pat = cx.choose(9);
    let bits: Vec<bool> = (0..n)
        .map(|i| match pat {
            0 | 1 => true,
            2 => i % 2 == 1,
            3 => i / 64 % 2 == 0,
            4 => i != n - 1,
            5 => i != n / 2,
            6 => i % 7 != 3,
            7 => i >= n - 3,
            _ => (i as u32).wrapping_mul(0x9e37_79b9) >> 31 == 0,
        })
        .collect();
    let ones = bits.iter().filter(|b| **b).count();
    let (s5, s7) = packed_large(kind, ones);
    if KINDS[kind] == "jpeg" && s7.is_empty() {
        return Ok(0);
    }
    let s = Sub { s2: None, s3: Some(points(n)), s4: prod_default(), s5, s6: if pat > 0 { bitmap(&bits) } else { no_bitmap() }, s7 };
    let mut k = 0;
    let want: Vec<Option<f32>> = bits
        .iter()
        .map(|b| {
            b.then(|| {
                k += 1;
                cyclic(kind, k - 1) as f32
            })
        })
        .collect();
    check(&format!("{n} points, {}, bitmap pattern {pat}", KINDS[kind]), &want, decode(s)?)
}

/// The values 1, 2, .. n packed in the given way.
pub fn packed(kind: usize, n: usize) -> Option<(Vec<u8>, Vec<u8>)> {
    let f: Vec<Option<i64>> = (1..=n as i64).map(Some).collect();
    Some(match KINDS[kind] {
        "simple" => (repr(n as u32, 0, 0.0, 0, 0, 16), pack_bits((1..=n as u64).map(|x| (x, 16)))),
        "simple-5" => {
            // five bits hold 0..=30 only
            if n > 31 {
                return None;
            }
            (repr(n as u32, 0, 1.0, 0, 0, 5), pack_bits((0..n as u64).map(|x| (x, 5))))
        }
        "constant" => (repr(n as u32, 0, 1.0, 0, 0, 0), vec![]),
        "complex" => {
            if n == 0 {
                return None;
            }
            let a = n.div_ceil(2);
            let mut g = vec![Group { width: 16, reff: 1, vals: (0..a as u64).collect() }];
            if n > a {
                g.push(Group { width: 16, reff: 0, vals: (a as u64 + 1..=n as u64).collect() });
            }
            Complex::fit(4, 0, g, 0, 0, 1).t2(0.0, 0, 0)
        }
        "diff1" | "diff2" => {
            if n == 0 {
                return None;
            }
            let o = if KINDS[kind] == "diff1" { 1 } else { 2 };
            let (c, first, min) = diff_encode(&f, o, 2, &[n], 0)?;
            c.t3(0.0, 0, 0, o, 2, &first, min)
        }
        "run length" => {
            let runs: Vec<_> = (1..=n as u32).map(|k| (k, 1)).collect();
            let levels: Vec<u16> = (1..=n as u16).collect();
            let nbit = if n < 250 { 8 } else { 16 };
            (run_length_s5(n as u32, nbit as u8, n as u16, &levels, 0), run_length(nbit, n as u32, &runs))
        }
        "png" => {
            if n == 0 {
                return None;
            }
            let v: Vec<u32> = (1..=n as u32).collect();
            (repr(n as u32, 41, 0.0, 0, 0, 16), png(n as u32, 1, 16, &v, png::FilterType::NoFilter))
        }
        _ => {
            if n == 0 {
                return None;
            }
            let v: Vec<i32> = (1..=n as i32).collect();
            (repr(n as u32, 40, 0.0, 0, 0, 12), jpeg2000(n as u32, 1, 12, false, 1, (0, 0), 0, &v)?)
        }
    })
}

fn want(kind: usize, bits: &[bool]) -> Vec<Option<f32>> {
    let mut k = 0;
    bits.iter()
        .map(|b| {
            b.then(|| {
                k += 1;
                if KINDS[kind] == "constant" {
                    1.0
                } else {
                    k as f32
                }
            })
        })
        .collect()
}

fn check(what: &str, want: &[Option<f32>], got: Result<Vec<f32>, String>) -> Leaf {
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("a well-formed field is not decoded", format!("{what}: {e}")),
    };
    ensure!(got.len() == want.len(), "wrong number of values", "{what}: {} values for {} points", got.len(), want.len());
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        let ok = match w {
            None => g.is_nan(),
            Some(w) => g == w,
        };
        ensure!(ok, "wrong value", "{what}: point {k} is {g}, not {w:?}");
    }
    Ok(hash_of(&got.iter().map(|v| v.to_bits()).collect::<Vec<_>>()))
}

fn field(kind: usize, bits: &[bool], grid: Vec<u8>, with_map: bool, tail: &[u8]) -> Option<Sub> {
    let ones = bits.iter().filter(|b| **b).count();
    let (s5, s7) = packed(kind, ones)?;
    let mut s6 = if with_map { bitmap(bits) } else { no_bitmap() };
    if with_map {
        s6.extend(tail);
    }
    Some(Sub { s2: None, s3: Some(grid), s4: prod_default(), s5, s6, s7 })
}

fn show(bits: &[bool]) -> String {
    bits.iter().map(|b| if *b { '1' } else { '0' }).collect()
}

/// Every bitmap of up to `max` points, for every packing.
fn all_bitmaps(cx: &mut Ctx, max: usize) -> Leaf {
    let kind = cx.choose(KINDS.len());
    let n = 1 + cx.choose(max);
    let bits: Vec<bool> = (0..n).map(|_| cx.flag()).collect();
    let Some(s) = field(kind, &bits, points(n), true, &[]) else { return Ok(0) };
    check(&format!("{} with bitmap {}", KINDS[kind], show(&bits)), &want(kind, &bits), decode(s)?)
}

/// Longer bitmaps of regular kinds.
fn long(cx: &mut Ctx, max: usize) -> Leaf {
    let kind = cx.choose(KINDS.len());
    let n = 1 + cx.choose(max);
    let bits: Vec<bool> = match cx.choose(5) {
        0 => {
            let k = cx.choose(n);
            (0..n).map(|i| i != k).collect()
        }
        1 => {
            let k = cx.choose(n);
            (0..n).map(|i| i == k).collect()
        }
        2 => {
            let k = cx.choose(n + 1);
            (0..n).map(|i| i < k).collect()
        }
        3 => {
            let k = cx.choose(n + 1);
            (0..n).map(|i| i >= k).collect()
        }
        _ => {
            let p = 2 + cx.choose(8);
            let q = cx.choose(p);
            (0..n).map(|i| i % p != q).collect()
        }
    };
    let Some(s) = field(kind, &bits, points(n), true, &[]) else { return Ok(0) };
    check(&format!("{} with bitmap {}", KINDS[kind], show(&bits)), &want(kind, &bits), decode(s)?)
}

/// No bitmap, and every small grid.
fn unmapped(cx: &mut Ctx, max: usize) -> Leaf {
    let kind = cx.choose(KINDS.len());
    let (grid, n) = if cx.flag() {
        let n = cx.choose(max);
        (points(n), n)
    } else {
        let (ni, nj) = (1 + cx.choose(9), 1 + cx.choose(9));
        (small_grid(ni as u32, nj as u32), ni * nj)
    };
    let bits = vec![true; n];
    let map = cx.flag();
    let tail = if map { cx.pick(&[vec![], vec![0xffu8], vec![0, 0xff, 0xff]]) } else { vec![] };
    let Some(s) = field(kind, &bits, grid, map, &tail) else { return Ok(0) };
    check(&format!("{} points, {}, bitmap {map}", n, KINDS[kind]), &want(kind, &bits), decode(s)?)
}

/// Several submessages, with and without bitmaps: none sees another's.
fn several(cx: &mut Ctx) -> Leaf {
    let two_messages = cx.flag();
    let mut subs = vec![];
    let mut wants = vec![];
    let shape: Vec<usize> = vec![cx.choose(3), cx.choose(3), cx.choose(3)];
    for (k, c) in shape.iter().enumerate() {
        let kind = (k + cx.choose(2) * 4) % KINDS.len();
        let n = 9;
        let bits: Vec<bool> = match c {
            0 => vec![true; n],
            1 => (0..n).map(|i| i % 3 != k).collect(),
            _ => (0..n).map(|i| i % 2 == k % 2).collect(),
        };
        let mut s = field(kind, &bits, points(n), *c > 0, &[]).unwrap();
        if k > 0 && cx.flag() && !two_messages {
            s.s3 = None;
        }
        subs.push(s);
        wants.push((kind, want(kind, &bits)));
    }
    let bytes: Vec<u8> = if two_messages {
        subs.into_iter().flat_map(|s| one(s).bytes()).collect()
    } else {
        let mut m = one(subs[0].clone());
        m.subs = subs;
        m.bytes()
    };
    let mut h = 0;
    for (k, (kind, w)) in wants.iter().enumerate() {
        h ^= check(&format!("submessage {k} of bitmaps {shape:?}, {}", KINDS[*kind]), w, decode_nth(&bytes, k)?)?.rotate_left(k as u32);
    }
    Ok(h)
}

/// Missing points of complex packing under a bitmap.
fn nested(cx: &mut Ctx, max: usize) -> Leaf {
    let n = 2 + cx.choose(max);
    // 0: not in the bitmap, 1: a value, 2: marked missing by the packing
    let p: Vec<usize> = (0..n).map(|_| cx.choose(3)).collect();
    let bits: Vec<bool> = p.iter().map(|p| *p > 0).collect();
    let f: Vec<Option<i64>> = p.iter().enumerate().filter(|(_, p)| **p > 0).map(|(k, p)| (*p == 1).then_some(k as i64 * 3 + 1)).collect();
    if f.is_empty() {
        return Ok(0);
    }
    let order = cx.choose(3);
    let (s5, s7) = if order == 0 {
        let v = f.iter().map(|f| f.map_or(63, |v| v as u64)).collect();
        Complex::fit(1, 1, vec![Group { width: 6, reff: 0, vals: v }], 0, 0, 1).t2(0.0, 0, 0)
    } else {
        let Some((c, first, min)) = diff_encode(&f, order as u8, 1, &[f.len()], 1) else { return Ok(0) };
        c.t3(0.0, 0, 0, order as u8, 1, &first, min)
    };
    let s = Sub { s2: None, s3: Some(points(n)), s4: prod_default(), s5, s6: bitmap(&bits), s7 };
    let want: Vec<Option<f32>> = p.iter().enumerate().map(|(k, p)| (*p == 1).then_some(k as f32 * 3.0 + 1.0)).collect();
    check(&format!("points {p:?} (0 outside the bitmap, 2 missing), differencing {order}"), &want, decode(s)?)
}

/// Bitmaps that end before the last point.
fn ends_early(cx: &mut Ctx, max: usize) -> Leaf {
    let kind = cx.choose(KINDS.len());
    let n = 1 + cx.choose(max);
    let bits: Vec<bool> = match cx.choose(3) {
        0 => vec![true; n],
        1 => (0..n).map(|i| i % 2 == 0).collect(),
        _ => (0..n).map(|i| i == 0).collect(),
    };
    let Some(mut s) = field(kind, &bits, points(n), true, &[]) else { return Ok(0) };
    let octets = cx.choose(n.div_ceil(8));
    s.s6.truncate(1 + octets);
    match decode(s)? {
        Ok(v) => fail("a bitmap that is too short is accepted", format!("{}, {n} points, bitmap of {octets} octets: {} values", KINDS[kind], v.len())),
        Err(e) => Ok(hash_of(&e)),
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every bitmap up to the stated number of points and regular longer ones, for every packing; fields of sizes around every power of two; several submessages; missing points under bitmaps; bitmaps that end too early".into();
    let n = rep.tier(15, 18);
    rep.explore("all-bitmaps", 0, |cx| all_bitmaps(cx, n));
    let n = rep.tier(200, 400);
    rep.explore("long-bitmaps", 0, |cx| long(cx, n));
    let n = rep.tier(1000, 3000);
    rep.explore("without-bitmap", 0, |cx| unmapped(cx, n));
    let ns = sizes(rep.tier(20, 22));
    rep.explore("large", 0, |cx| large(cx, &ns));
    rep.explore("several", 0, several);
    let n = rep.tier(140, 600);
    rep.explore("short-bitmap", 0, |cx| ends_early(cx, n));
    let n = rep.tier(10, 12);
    rep.explore("missing-under-bitmap", 0, |cx| nested(cx, n));
}
