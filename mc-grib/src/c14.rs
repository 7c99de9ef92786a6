//! C14: PNG packing.
use crate::{dec::*, msg::*};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};
use png::{BitDepth, ColorType, FilterType};

const FILTERS: [FilterType; 5] = [FilterType::NoFilter, FilterType::Sub, FilterType::Up, FilterType::Avg, FilterType::Paeth];
const DEPTHS: [u32; 7] = [1, 2, 4, 8, 16, 24, 32];

pub fn image(w: u32, h: u32, bits: u32, vals: &[u32], filter: FilterType) -> Vec<u8> {
    let mut raw = vec![];
    for row in vals.chunks(w as usize) {
        raw.extend(pack_bits(row.iter().map(|v| (*v as u64, bits))));
    }
    let (c, d) = match bits {
        1 => (ColorType::Grayscale, BitDepth::One),
        2 => (ColorType::Grayscale, BitDepth::Two),
        4 => (ColorType::Grayscale, BitDepth::Four),
        8 => (ColorType::Grayscale, BitDepth::Eight),
        16 => (ColorType::Grayscale, BitDepth::Sixteen),
        24 => (ColorType::Rgb, BitDepth::Eight),
        _ => (ColorType::Rgba, BitDepth::Eight),
    };
    let mut out = vec![];
    let mut e = png::Encoder::new(&mut out, w, h);
    e.set_color(c);
    e.set_depth(d);
    e.set_filter(filter);
    e.set_adaptive_filter(png::AdaptiveFilterType::NonAdaptive);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(&raw).unwrap();
    wr.finish().unwrap();
    out
}

fn s5(n: usize, sc: Scale, bits: u32) -> Vec<u8> {
    repr(n as u32, 41, sc.r, sc.e, sc.d, bits as u8)
}

fn go(sc: Scale, w: u32, h: u32, bits: u32, vals: &[u32], f: FilterType) -> Leaf {
    let want: Vec<_> = vals.iter().map(|v| Some(*v as f64)).collect();
    let n = vals.len();
    judge(sc, &want, sub(n, s5(n, sc, bits), image(w, h, bits, vals, f)), || format!("{w}x{h} image of {bits}-bit samples {:?}.., filter {f:?}", &vals[..n.min(12)]))
}

fn shapes(cx: &mut Ctx, max: usize) -> Leaf {
    let bits = cx.pick(&DEPTHS);
    let (w, h) = (1 + cx.choose(max), 1 + cx.choose(max));
    let f = cx.pick(&FILTERS);
    let m = (((1u64) << bits) - 1) as u32;
    let n = w * h;
    let vals: Vec<u32> = match cx.choose(4) {
        0 => (0..n).map(|k| (k as u32).wrapping_mul(0x9e37_79b9) & m).collect(),
        1 => (0..n).map(|k| if k % 2 == 0 { m } else { 0 }).collect(),
        2 => (0..n as u32).map(|k| k.wrapping_mul(m / 255 + 1) & m).collect(),
        _ => (0..n).map(|k| m - (k as u32 & m)).collect(),
    };
    go(PLAIN, w as u32, h as u32, bits, &vals, f)
}

/// Every content of small images.
fn contents(cx: &mut Ctx) -> Leaf {
    let bits = cx.pick(&DEPTHS);
    let (w, h) = cx.pick(&[(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]);
    let m = (((1u64) << bits) - 1) as u32;
    let mut a = vec![0, 1, m / 2, m / 2 + 1, m - 1, m, 0x0102_0304 & m, 0x8000_7f80 & m];
    a.sort();
    a.dedup();
    let vals: Vec<u32> = (0..w * h).map(|_| cx.pick(&a)).collect();
    go(PLAIN, w, h, bits, &vals, FilterType::Paeth)
}

fn scales(cx: &mut Ctx, step: usize) -> Leaf {
    let es: Vec<i64> = (-60..=60).step_by(step).collect();
    let ds: Vec<i64> = (-20..=20).step_by(step).collect();
    let sc = Scale { r: cx.pick(&[0.0f32, -1.0, 273.15, 1e9]), e: cx.pick(&es), d: cx.pick(&ds) };
    let bits = cx.pick(&DEPTHS);
    let m = (((1u64) << bits) - 1) as u32;
    go(sc, 2, 2, bits, &[0, m, m / 2, 1], FilterType::Sub)
}

/// No image at all: every value is the reference value.
fn constant(cx: &mut Ctx) -> Leaf {
    let sc = Scale { r: cx.pick(&[0.0f32, 5.5, -1e7]), e: 0, d: cx.pick(&[0i64, 2, -3]) };
    let n = cx.choose(20);
    let s7 = if cx.flag() { vec![] } else { image(3, 1, 8, &[1, 2, 3], FilterType::NoFilter) };
    judge(sc, &vec![Some(0.0); n], sub(n, s5(n, sc, 0), s7), || format!("{n} constant points"))
}

/// Images that do not fit the section.
fn misfits(cx: &mut Ctx) -> Leaf {
    let bits = cx.pick(&DEPTHS);
    let (w, h) = (1 + cx.choose(4), 1 + cx.choose(4));
    let vals = vec![1; w * h];
    let img = image(w as u32, h as u32, bits, &vals, FilterType::NoFilter);
    if cx.flag() {
        let n = cx.choose(20);
        if n == w * h {
            return Ok(0);
        }
        let r = decode(sub(n, s5(n, PLAIN, bits), img))?;
        ensure!(r.is_err(), "misfit accepted", "a {w}x{h} image of {bits}-bit samples for {n} points decoded to {r:?}");
        Ok(hash_of(&format!("{r:?}")))
    } else {
        let other = 1 + cx.choose(40) as u32;
        if other == bits {
            return Ok(0);
        }
        let n = w * h;
        let r = decode(sub(n, s5(n, PLAIN, other), img))?;
        ensure!(r.is_err(), "misfit accepted", "a {w}x{h} image of {bits}-bit samples declared as {other}-bit decoded to {r:?}");
        Ok(hash_of(&format!("{r:?}")))
    }
}

/// Images whose samples are wider than the library can hold: refused, or the right values.
fn unsupported(cx: &mut Ctx) -> Leaf {
    let (color, bits) = cx.pick(&[(ColorType::Rgb, 48u32), (ColorType::Rgba, 64)]);
    let (w, h) = (1 + cx.choose(4), 1 + cx.choose(3));
    let kind = cx.choose(4);
    let vals: Vec<u64> = (0..(w * h) as u64)
        .map(|k| match kind {
            0 => k,
            1 => 1 << (bits - 1),
            2 => 1 << (33 + k),
            _ => ((1u128 << bits) - 1) as u64,
        })
        .collect();
    let mut raw = vec![];
    for row in vals.chunks(w) {
        raw.extend(pack_bits(row.iter().map(|v| (*v, bits))));
    }
    let mut out = vec![];
    let mut e = png::Encoder::new(&mut out, w as u32, h as u32);
    e.set_color(color);
    e.set_depth(BitDepth::Sixteen);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(&raw).unwrap();
    wr.finish().unwrap();
    let want: Vec<_> = vals.iter().map(|v| Some(*v as f64)).collect();
    match decode(sub(vals.len(), s5(vals.len(), PLAIN, bits), out))? {
        Err(_) => Ok(1),
        Ok(v) => match PLAIN.check_all(&want, &v) {
            Ok(()) => Ok(2),
            Err(m) => fail("wrong values", format!("{w}x{h} image of {bits}-bit samples {vals:?}: {m}")),
        },
    }
}

/// Images cut short or changed: an error, or the same values.
fn broken(cx: &mut Ctx, xors: &[u8]) -> Leaf {
    let bits = cx.pick(&DEPTHS);
    let (w, h) = cx.pick(&[(3usize, 2usize), (5, 5)]);
    let m = (((1u64) << bits) - 1) as u32;
    let vals: Vec<u32> = (0..w * h).map(|k| (k as u32).wrapping_mul(0x9e37_79b9) & m).collect();
    let mut img = image(w as u32, h as u32, bits, &vals, cx.pick(&FILTERS[..2]));
    let at = cx.choose(img.len());
    let cut = cx.flag();
    let what;
    if cut {
        img.truncate(at);
        what = format!("cut to {at} octets");
    } else {
        let x = cx.pick(xors);
        img[at] ^= x;
        what = format!("octet {at} xor {x:#x}");
    }
    let n = w * h;
    match decode(sub(n, s5(n, PLAIN, bits), img))? {
        Err(e) => Ok(hash_of(&e)),
        Ok(v) => {
            let want: Vec<_> = vals.iter().map(|v| Some(*v as f64)).collect();
            match PLAIN.check_all(&want, &v) {
                Ok(()) => Ok(2),
                Err(m) => fail("broken image accepted", format!("{w}x{h} image of {bits}-bit samples {what}: {m}")),
            }
        }
    }
}

/// Large images.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())] as u32;
    let bits = cx.pick(&DEPTHS);
    let (w, h) = match cx.choose(4) {
        0 => (n, 1),
        1 => (1, n),
        2 => (n / 16, 16),
        _ => (300, n / 300),
    };
    if w == 0 || h == 0 {
        return Ok(0);
    }
    let f = cx.pick(&[FilterType::NoFilter, FilterType::Paeth]);
    let m = (((1u64) << bits) - 1) as u32;
    let vals: Vec<u32> = (0..w * h).map(|k| k.wrapping_mul(0x9e37_79b9) >> 3 & m).collect();
    go(PLAIN, w, h, bits, &vals, f)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sample depth, shape up to the stated size, filter and content pattern; every boundary content of tiny images; every scale; every cut and single-octet change of two images per depth".into();
    let n = rep.tier(50, 100);
    rep.explore("shapes", 0, |cx| shapes(cx, n));
    rep.explore("contents", 0, contents);
    let ns = sizes(rep.tier(19, 21));
    rep.explore("large", 0, |cx| large(cx, &ns));
    let n = rep.tier(1, 1);
    rep.explore("scales", 0, |cx| scales(cx, n));
    rep.explore("constant", 0, constant);
    rep.explore("misfits", 0, misfits);
    rep.explore("unsupported", 0, unsupported);
    let xs: Vec<u8> = (1..=255).collect();
    rep.explore("broken", 0, |cx| broken(cx, &xs));
}
