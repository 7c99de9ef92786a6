//! C12: complex packing with spatial differencing.
use crate::{dec::*, enc::*};
use mccore::{Ctx, Leaf, Report};

#[derive(Clone, Copy)]
struct How {
    order: u8,
    octets: usize,
    mgmt: u8,
    /// Missing points of odd groups carry the secondary code.
    secondary: bool,
    /// Contents of the fields that the first values replace.
    junk: bool,
}

fn go(sc: Scale, f: &[Option<i64>], h: How, cuts: &[usize]) -> Leaf {
    let Some((mut c, first, min)) = diff_encode(f, h.order, h.octets, cuts, h.mgmt) else { return Ok(0) };
    if h.secondary {
        let mut k = 0;
        for (g, len) in c.groups.iter_mut().zip(cuts) {
            if g.width > 0 {
                for (i, v) in g.vals.iter_mut().enumerate() {
                    if f[k + i].is_none() && (k + i) % 2 == 1 {
                        *v = (1 << g.width) - 2;
                    }
                }
            } else if f[k..k + len].iter().all(|f| f.is_none()) && k % 2 == 1 {
                g.reff = (1 << c.nbit) - 2;
            }
            k += len;
        }
    }
    if h.junk {
        // the differences of the points that hold the first values mean nothing
        let mut left = h.order;
        let mut k = 0;
        for (g, len) in c.groups.iter_mut().zip(cuts) {
            for i in 0..*len {
                if f[k + i].is_some() && left > 0 {
                    left -= 1;
                    if g.width > 0 {
                        g.vals[i] = ((1 << g.width) - 1 - h.mgmt as u64).min(1 + g.vals[i]);
                    }
                }
            }
            k += len;
        }
    }
    let (s5, s7) = c.t3(sc.r, sc.e, sc.d, h.order, h.octets, &first, min);
    let want: Vec<Option<f64>> = f.iter().map(|v| v.map(|v| v as f64)).collect();
    judge(sc, &want, sub(f.len(), s5, s7), || format!("{f:?} order {} octets {} groups {cuts:?} management {} secondary {} first {first:?} min {min}", h.order, h.octets, h.mgmt, h.secondary))
}

/// A composition of n.
fn cuts(cx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut v = vec![1];
    for _ in 1..n {
        if cx.flag() {
            v.push(1);
        } else {
            *v.last_mut().unwrap() += 1;
        }
    }
    v
}

fn how(cx: &mut Ctx, any_missing: bool) -> How {
    let order = 1 + cx.choose(2) as u8;
    let mgmt = if any_missing { 1 + cx.choose(2) as u8 } else { cx.choose(3) as u8 };
    How {
        order,
        octets: 0,
        mgmt,
        secondary: any_missing && mgmt == 2 && cx.flag(),
        junk: cx.flag(),
    }
}

/// Every short field over an alphabet, every grouping.
fn fields(cx: &mut Ctx, len: usize, alpha: &[Option<i64>]) -> Leaf {
    let n = 1 + cx.choose(len);
    let f: Vec<Option<i64>> = (0..n).map(|_| cx.pick(alpha)).collect();
    let mut h = how(cx, f.iter().any(|f| f.is_none()));
    h.octets = 1 + cx.choose(2);
    let c = cuts(cx, n);
    go(PLAIN, &f, h, &c)
}

/// Numbers near the limits of each number of octets.
fn limits(cx: &mut Ctx, len: usize) -> Leaf {
    let octets = 1 + cx.choose(4);
    let lim = (1i64 << (8 * octets - 1)) - 1;
    let l = lim.min(1 << 29);
    let n = 1 + cx.choose(len);
    let alpha = [Some(l), Some(-l), Some(l / 2), Some(-l / 2), Some(0), Some(-1), Some(l / 4 + 1), None];
    let f: Vec<Option<i64>> = (0..n).map(|_| cx.pick(&alpha)).collect();
    let mut h = how(cx, f.iter().any(|f| f.is_none()));
    h.octets = octets;
    h.junk = false;
    let c = if cx.flag() { vec![n] } else { vec![1; n] };
    go(PLAIN, &f, h, &c)
}

/// Missing points in every position of a longer field.
fn gaps(cx: &mut Ctx, n: usize) -> Leaf {
    let f: Vec<Option<i64>> = (0..n).map(|k| (!cx.flag()).then_some([7i64, -3, 100, 100, 41, -60, 0, 5, 99, -99, 12, 3, 8][k % 13])).collect();
    let mut h = how(cx, true);
    h.octets = 2;
    let c = match cx.choose(4) {
        0 => vec![n],
        1 => vec![1; n],
        2 => vec![n / 2, n - n / 2],
        _ => vec![1, n - 2, 1],
    };
    go(PLAIN, &f, h, &c)
}

fn scales(cx: &mut Ctx) -> Leaf {
    let sc = Scale { r: cx.pick(&[0.0f32, 1.5, -273.15, 1e6]), e: cx.pick(&[-9, -1, 0, 1, 8, 20]), d: cx.pick(&[-5, -1, 0, 1, 2, 8]) };
    let f = [Some(1000), None, Some(-20000), Some(5), Some(5), Some(30000), None, Some(29999)];
    let mut h = how(cx, true);
    h.octets = 3 + cx.choose(2);
    go(sc, &f, h, &[3, 2, 3])
}

/// Long fields.
fn long(cx: &mut Ctx, max: usize) -> Leaf {
    let n = 1 + cx.choose(max);
    let pat = cx.choose(5);
    let f: Vec<Option<i64>> = (0..n as i64)
        .map(|k| match pat {
            0 => Some(k),
            1 => Some(k * k - 50 * k),
            2 => Some(-k * 3 + 1000 * (k % 2)),
            3 => (k % 5 != 2).then_some(k * 7 % 31),
            _ => Some(42),
        })
        .collect();
    let mut h = how(cx, pat == 3);
    h.octets = 3;
    let g = 1 + cx.choose(9);
    let mut c = vec![g; n / g];
    if n % g > 0 {
        c.push(n % g);
    }
    go(PLAIN, &f, h, &c)
}

/// Large fields.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())];
    let pat = cx.choose(5);
    let f: Vec<Option<i64>> = (0..n as i64)
        .map(|k| match pat {
            0 => Some(k * 3 - 1000),
            1 => Some(k % 1000 * (k % 1000) - 50 * k),
            2 => (k % 5 != 2).then_some(k * 7 % 31),
            3 => (k / 300 % 2 == 1).then_some(k % 4000),
            _ => Some(if k == n as i64 - 1 { 0 } else { 42 }),
        })
        .collect();
    let mut h = how(cx, pat == 2 || pat == 3);
    h.octets = 4;
    let g = cx.pick(&[1usize, 30, 257, 70_000, n]).min(n);
    let mut c = vec![g; n / g];
    if n % g > 0 {
        c.push(n % g);
    }
    go(PLAIN, &f, h, &c)
}

/// Orders and numbers of octets that the library need not know: an error, or the right values.
fn unsupported(cx: &mut Ctx) -> Leaf {
    let order = 1 + cx.choose(2) as u8;
    let f: Vec<Option<i64>> = [5, -3, 12, 12, 40, 7].map(Some).to_vec();
    let (c, first, min) = diff_encode(&f, order, 2, &[2, 1, 3], 0).unwrap();
    let k = cx.choose(256);
    if cx.flag() {
        if k == 1 || k == 2 {
            return Ok(0);
        }
        let (mut s5, s7) = c.t3(0.0, 0, 0, order, 2, &first, min);
        let n = s5.len();
        s5[n - 2] = k as u8;
        return match decode(sub(f.len(), s5, s7))? {
            Err(_) => Ok(1),
            Ok(v) => mccore::fail("decoded without knowing how", format!("order {k}: {v:?}")),
        };
    }
    let (s5, s7) = if k == 0 {
        let (mut s5, s7) = c.t3(0.0, 0, 0, order, 1, &[], 0);
        *s5.last_mut().unwrap() = 0;
        (s5, s7[1..].to_vec())
    } else {
        c.t3(0.0, 0, 0, order, k, &first, min)
    };
    let want: Vec<Option<f64>> = f.iter().map(|v| v.map(|v| v as f64)).collect();
    match decode(sub(f.len(), s5, s7))? {
        Err(_) if k == 0 || k > 4 => Ok(2),
        Err(e) => mccore::fail("a well-formed field is not decoded", format!("order {order}, {k} octets: {e}")),
        Ok(v) => match PLAIN.check_all(&want, &v) {
            Ok(()) => Ok(3),
            Err(m) => mccore::fail("wrong values", format!("order {order}, {k} octets: {m}")),
        },
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every field up to the stated length over the stated alphabets, with every grouping, order, number of octets and missing-value management".into();
    let n = rep.tier(6, 7);
    rep.explore("fields", 0, |cx| fields(cx, n, &[Some(0), Some(1), Some(-7), None]));
    let n = rep.tier(4, 5);
    rep.explore("more-numbers", 0, |cx| fields(cx, n, &[Some(0), Some(1), Some(2), Some(-1), Some(-2), Some(100), Some(-100), None]));
    let n = rep.tier(5, 6);
    rep.explore("limits", 0, |cx| limits(cx, n));
    let n = rep.tier(13, 17);
    rep.explore("gaps", 0, |cx| gaps(cx, n));
    rep.explore("unsupported", 0, unsupported);
    rep.explore("scales", 0, scales);
    let n = rep.tier(200, 1500);
    rep.explore("long", 0, |cx| long(cx, n));
    let ns = sizes(rep.tier(16, 19));
    rep.explore("large", 0, |cx| large(cx, &ns));
    rep.note_assumption("the original integers, first values and minimum fit signed 32-bit numbers");
}
