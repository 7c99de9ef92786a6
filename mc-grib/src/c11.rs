//! C11: complex packing.
use crate::{dec::*, enc::*};
use mccore::{Ctx, Leaf, Report};

fn judge_c(c: &Complex, sc: Scale, sect5: Vec<u8>, sect7: Vec<u8>) -> Leaf {
    let want: Vec<Option<f64>> = c.expected().iter().map(|v| v.map(|v| v as f64)).collect();
    judge(sc, &want, sub(c.num(), sect5, sect7), || format!("{c:?}"))
}

/// Whether the encoding means what `expected` says (a width-0 group of zero-bit references with
/// missing-value management has two readings).
fn clear(c: &Complex) -> bool {
    !(c.nbit == 0 && c.mgmt > 0) && !(c.mgmt == 2 && c.nbit == 1) && !(c.mgmt == 2 && c.groups.iter().any(|g| g.width == 1))
}

/// Every content of one to three small groups.
fn small(cx: &mut Ctx, ngroups: usize, wmax: usize, lmax: usize, bits: u32) -> Leaf {
    let mgmt = cx.choose(3) as u8;
    let nbit = cx.choose(3) as u32;
    let n = 1 + cx.choose(ngroups);
    let mut total = 0;
    let mut groups = vec![];
    for _ in 0..n {
        let width = cx.choose(wmax + 1) as u32;
        let len = 1 + cx.choose(lmax);
        let reff = cx.choose(1 << nbit) as u64;
        total += width * len as u32 + nbit;
        if total > bits {
            return Ok(0);
        }
        let vals = if width == 0 { vec![0; len] } else { (0..len).map(|_| cx.choose(1 << width) as u64).collect() };
        groups.push(Group { width, reff, vals });
    }
    let c = Complex::fit(nbit, mgmt, groups, 0, 0, 1);
    if !clear(&c) {
        return Ok(0);
    }
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// Every layout of groups from an alphabet of widths and lengths, with every way to describe it.
fn layouts(cx: &mut Ctx, ngroups: usize, widths: &[u32], lens: &[usize]) -> Leaf {
    let n = 1 + cx.choose(ngroups);
    let nbit = cx.pick(&[1u32, 7, 8, 16, 31, 32]);
    let mgmt = cx.choose(3) as u8;
    let m = (1u64 << nbit) - 1;
    let mut groups = vec![];
    for k in 0..n {
        let width = cx.pick(widths);
        let len = cx.pick(lens);
        let reff = [m - m / 3, 0, m / 2][k % 3];
        let wm = if width == 0 { 0 } else { (1u64 << width) - 1 };
        let vals = (0..len as u64)
            .map(|i| if width == 0 { 0 } else { [wm, 0, wm - 1, wm / 2, 1][((i + k as u64) % 5) as usize] & wm })
            .collect();
        groups.push(Group { width, reff, vals });
    }
    let wmin = groups.iter().map(|g| g.width).min().unwrap();
    let lmin = groups[..n - 1].iter().map(|g| g.vals.len()).min().unwrap_or(1) as u32;
    let wref = if cx.flag() { wmin } else { 0 };
    let lref = cx.pick(&[0, 1, lmin]).min(lmin);
    let inc = cx.pick(&[1u32, 2, 3]);
    if groups[..n - 1].iter().any(|g| (g.vals.len() as u32 - lref) % inc != 0) {
        return Ok(0);
    }
    let mut c = Complex::fit(nbit, mgmt, groups, wref, lref, inc);
    if cx.flag() {
        // wider descriptors than needed, and something in the unused last length
        c.width_nbit += 3;
        c.len_nbit += 5;
        c.last_slot = 0x15;
    }
    if !clear(&c) {
        return Ok(0);
    }
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// Missing codes next to ordinary values, in every position, constant groups included.
fn missing(cx: &mut Ctx, len: usize) -> Leaf {
    let mgmt = cx.choose(3) as u8;
    let nbit = cx.pick(&[2u32, 3, 8, 13, 32]);
    let m = (1u64 << nbit) - 1;
    let mut groups = vec![];
    for _ in 0..2 {
        let width = cx.pick(&[0u32, 2, 3, 9, 32]);
        let reff = cx.pick(&[m, m - 1, m - 2, 0]);
        let n = 1 + cx.choose(len);
        let wm = if width == 0 { 0 } else { (1u64 << width) - 1 };
        let vals = (0..n).map(|_| if width == 0 { 0 } else { cx.pick(&[wm, wm - 1, wm - 2, 0]) }).collect();
        groups.push(Group { width, reff, vals });
    }
    let c = Complex::fit(nbit, mgmt, groups, 0, 1, 1);
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// Scaling of the recovered integers.
fn scales(cx: &mut Ctx) -> Leaf {
    let sc = Scale {
        r: cx.pick(&[0.0f32, 1.5, -273.15, 1e6, -2e-7]),
        e: cx.pick(&[-40, -9, -2, -1, 0, 1, 2, 8, 33]),
        d: cx.pick(&[-12, -3, -1, 0, 1, 2, 5, 15]),
    };
    let c = Complex::fit(
        cx.pick(&[9u32, 17, 32]),
        cx.choose(2) as u8,
        vec![
            Group { width: 5, reff: 400, vals: vec![0, 30, 7] },
            Group { width: 0, reff: 77, vals: vec![0; 2] },
            Group { width: cx.pick(&[11u32, 19, 32]), reff: 3, vals: vec![2046, 1, 0, 1024] },
        ],
        0,
        2,
        1,
    );
    let (a, b) = c.t2(sc.r, sc.e, sc.d);
    judge_c(&c, sc, a, b)
}

/// Many groups.
fn many(cx: &mut Ctx, max: usize) -> Leaf {
    let n = 1 + cx.choose(max);
    let pat = cx.choose(6);
    let groups: Vec<Group> = (0..n)
        .map(|k| {
            let (width, len) = match pat {
                0 => (0, 1),
                1 => (k as u32 % 9, 1 + k % 4),
                2 => (3, 2),
                3 => (if k % 2 == 0 { 0 } else { 12 }, 3),
                4 => (1 + k as u32 % 32, 1),
                _ => (8, 8),
            };
            let wm = if width == 0 { 0 } else { (1u64 << width) - 1 };
            Group { width, reff: (k as u64 * 5) % 500, vals: (0..len as u64).map(|i| (i * 77 + k as u64) & wm).collect() }
        })
        .collect();
    let c = Complex::fit(9, 0, groups, 0, 1, 1);
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// Groups of many points and fields of many groups.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())];
    let width = cx.pick(&[0u32, 1, 5, 8, 17, 32]);
    let wm = if width == 0 { 0 } else { (1u64 << width) - 1 };
    let mgmt = cx.choose(2) as u8;
    let group = |k: usize, len: usize, width: u32| {
        let m = if width == 0 { 0 } else { wm };
        Group { width, reff: (k as u64 * 37) % 1000, vals: (0..len as u64).map(|i| (i * 0x9e37_79b9 + k as u64) & m).collect() }
    };
    let (groups, lref, inc): (Vec<Group>, u32, u32) = match cx.choose(6) {
        0 => (vec![group(0, n, width)], 0, 1),
        1 => (vec![group(0, 3, width), group(1, n, width), group(2, 2, width)], 0, 1),
        2 => (vec![group(0, n, width), group(1, n + 200, 0), group(2, n - 200, width)], n as u32, 100),
        3 => (vec![group(0, 1 + 255 * (n / 255), width), group(1, 1, width), group(2, n % 255 + 1, 0)], 1, 255),
        4 => ((0..n).map(|k| group(k, 1 + k % 3, if k % 2 == 0 { 0 } else { width })).collect(), 1, 1),
        _ => ((0..n).map(|k| group(k, 1, width)).collect(), 1, 1),
    };
    let c = Complex::fit(10, mgmt, groups, 0, lref, inc);
    if !clear(&c) {
        return Ok(0);
    }
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// The same groups with descriptors of every width.
fn descriptors(cx: &mut Ctx) -> Leaf {
    let layout = cx.choose(4);
    let g = |width: u32, reff: u64, vals: &[u64]| Group { width, reff, vals: vals.to_vec() };
    let groups = match layout {
        0 => vec![g(0, 3, &[0; 2]), g(0, 1, &[0])],
        1 => vec![g(5, 1, &[3, 31, 0]), g(0, 2, &[0; 4]), g(9, 0, &[511, 256])],
        2 => vec![g(1, 0, &[1]), g(7, 3, &[100]), g(32, 2, &[0xffff_fff0])],
        _ => vec![g(3, 2, &[5, 0, 6, 1, 2, 4, 7]), g(2, 3, &[3, 0])],
    };
    let refs = cx.choose(2) == 1;
    let (wref, lref) = if refs { (groups.iter().map(|g| g.width).min().unwrap(), 1) } else { (0, 0) };
    let mut c = Complex::fit(2, 0, groups, wref, lref, 1);
    // every width of the three lists of descriptors, up to what 32 bits hold
    c.nbit += cx.choose(31) as u32;
    c.width_nbit += cx.choose((33 - c.width_nbit) as usize) as u32;
    c.len_nbit += cx.choose((33 - c.len_nbit) as usize) as u32;
    let (a, b) = c.t2(0.0, 0, 0);
    judge_c(&c, PLAIN, a, b)
}

/// Descriptions of groups that the library need not know: an error, or the right values.
fn unsupported(cx: &mut Ctx) -> Leaf {
    let groups = vec![
        Group { width: 5, reff: 3, vals: vec![3, 31, 0] },
        Group { width: 0, reff: 2, vals: vec![0; 4] },
        Group { width: 4, reff: 0, vals: vec![15, 8] },
    ];
    let mut c = Complex::fit(3, 0, groups, 0, 1, 1);
    let differenced = cx.flag();
    let what = cx.choose(5);
    let k = cx.choose(256);
    match what {
        0 if k == 1 => return Ok(0),
        1 if k <= 2 => return Ok(0),
        2 => {
            c.nbit = k as u32;
            if (33..=62).contains(&k) {
                c.groups[0].reff |= 1 << (k - 1);
            }
        }
        3 => c.width_nbit = k as u32,
        4 => c.len_nbit = k as u32,
        _ => {}
    }
    if what >= 2 && k <= 32 {
        return Ok(0);
    }
    let mut want: Vec<Option<f64>> = c.expected().iter().map(|v| v.map(|v| v as f64)).collect();
    let (mut s5, s7) = if differenced {
        let mut x = 0.0;
        for v in want.iter_mut().skip(1) {
            x += v.unwrap();
            *v = Some(x);
        }
        want[0] = Some(0.0);
        c.t3(0.0, 0, 0, 1, 2, &[0], 0)
    } else {
        c.t2(0.0, 0, 0)
    };
    match what {
        0 => s5[16] = k as u8,
        1 => s5[17] = k as u8,
        _ => {}
    }
    let show = || {
        let field = ["splitting method", "missing-value management", "bits of the references", "bits of the widths", "bits of the lengths"][what];
        format!("{c:?}{}, {field} {k}", ["", ", differenced"][differenced as usize])
    };
    match decode(sub(c.num(), s5, s7))? {
        Err(_) => Ok(1),
        Ok(_) if what < 2 => mccore::fail("decoded without knowing how", show()),
        Ok(v) => match PLAIN.check_all(&want, &v) {
            Ok(()) => Ok(2),
            Err(m) => mccore::fail("wrong values", format!("{}: {m}", show())),
        },
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every content of small groups; every layout of up to the stated number of groups over the stated widths, lengths and descriptors; every placement of missing-value codes".into();
    let (n, w, l, b) = rep.tier((3, 3, 3, 11), (4, 4, 3, 15));
    rep.explore("small-groups", 0, |cx| small(cx, n, w, l, b));
    let ws: &[u32] = rep.tier(&[0, 1, 7, 8, 9, 32], &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32]);
    let ls: &[usize] = rep.tier(&[1, 3, 8], &[1, 2, 3, 7, 8, 9]);
    rep.explore("layouts", 0, |cx| layouts(cx, 3, ws, ls));
    if !rep.quick() {
        rep.explore("layouts-4", 0, |cx| layouts(cx, 4, &[0, 3, 8, 13], &[1, 2, 5]));
    }
    let n = rep.tier(3, 4);
    rep.explore("missing", 0, |cx| missing(cx, n));
    rep.explore("descriptors", 0, descriptors);
    rep.explore("unsupported", 0, unsupported);
    rep.explore("scales", 0, scales);
    let n = rep.tier(300, 2000);
    rep.explore("many-groups", 0, |cx| many(cx, n));
    let ns = sizes(rep.tier(18, 19));
    rep.explore("large", 0, |cx| large(cx, &ns));
    rep.note_assumption("zero-bit references with missing-value management, and 1-bit fields with both missing codes, have two readings and are left out");
}
