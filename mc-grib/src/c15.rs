//! C15: JPEG 2000 packing.
use crate::{dec::*, enc::jpeg2000, msg::*};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};

fn s5(n: usize, sc: Scale, bits: u32) -> Vec<u8> {
    repr(n as u32, 40, sc.r, sc.e, sc.d, bits as u8)
}

static REFUSED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

struct Img {
    w: u32,
    h: u32,
    prec: u32,
    off: (u32, u32),
    tile: u32,
}

fn go(sc: Scale, i: &Img, vals: &[i32]) -> Leaf {
    let Some(code) = jpeg2000(i.w, i.h, i.prec, false, 1, i.off, i.tile, vals) else {
        REFUSED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return Ok(0);
    };
    let want: Vec<_> = vals.iter().map(|v| Some(*v as f64)).collect();
    let n = vals.len();
    judge(sc, &want, sub(n, s5(n, sc, i.prec), code), || {
        format!("{}x{} image of {}-bit samples {:?}.. at {:?}, tiles of {}", i.w, i.h, i.prec, &vals[..n.min(12)], i.off, i.tile)
    })
}

fn pattern(k: usize, n: usize, m: u32) -> Vec<i32> {
    (0..n as u32)
        .map(|i| match k {
            0 => i.wrapping_mul(0x9e37_79b9) & m,
            1 => {
                if i % 2 == 0 {
                    m
                } else {
                    0
                }
            }
            2 => i & m,
            _ => m - (i & m),
        } as i32)
        .collect()
}

fn shapes(cx: &mut Ctx, max: usize, precs: &[u32]) -> Leaf {
    let prec = cx.pick(precs);
    let (w, h) = (1 + cx.choose(max), 1 + cx.choose(max));
    let p = cx.choose(4);
    let off = cx.pick(&[(0, 0), (3, 5)]);
    let m = ((1u64 << prec) - 1) as u32;
    go(PLAIN, &Img { w: w as u32, h: h as u32, prec, off, tile: 0 }, &pattern(p, w * h, m))
}

fn depths(cx: &mut Ctx) -> Leaf {
    let prec = 1 + cx.choose(24) as u32;
    let (w, h) = cx.pick(&[(1u32, 1u32), (2, 1), (1, 2), (2, 2)]);
    let m = ((1u64 << prec) - 1) as i32;
    let mut a = vec![0, 1, m / 2, m / 2 + 1, m - 1, m];
    a.retain(|x| *x >= 0);
    a.sort();
    a.dedup();
    let vals: Vec<i32> = (0..w * h).map(|_| cx.pick(&a)).collect();
    go(PLAIN, &Img { w, h, prec, off: (0, 0), tile: 0 }, &vals)
}

fn tiles(cx: &mut Ctx, max: u32) -> Leaf {
    let (w, h) = (1 + cx.choose(max as usize) as u32, 1 + cx.choose(max as usize) as u32);
    let tile = cx.pick(&[3u32, 4, 7]);
    let prec = cx.pick(&[5u32, 12]);
    go(PLAIN, &Img { w, h, prec, off: (0, 0), tile }, &pattern(0, (w * h) as usize, (1 << prec) - 1))
}

fn scales(cx: &mut Ctx, step: usize) -> Leaf {
    let es: Vec<i64> = (-60..=60).step_by(step).collect();
    let ds: Vec<i64> = (-20..=20).step_by(step).collect();
    let sc = Scale { r: cx.pick(&[0.0f32, -1.0, 273.15, 1e9]), e: cx.pick(&es), d: cx.pick(&ds) };
    let prec = cx.pick(&[4u32, 16, 24]);
    let m = (1 << prec) - 1;
    go(sc, &Img { w: 2, h: 2, prec, off: (0, 0), tile: 0 }, &[0, m, m / 2, 1])
}

fn constant(cx: &mut Ctx) -> Leaf {
    let sc = Scale { r: cx.pick(&[0.0f32, 5.5, -1e7]), e: 0, d: cx.pick(&[0i64, 2, -3]) };
    let n = cx.choose(20);
    judge(sc, &vec![Some(0.0); n], sub(n, s5(n, sc, 0), vec![]), || format!("{n} constant points"))
}

/// Images of more components or other sizes.
fn misfits(cx: &mut Ctx) -> Leaf {
    let (w, h) = (1 + cx.choose(5), 1 + cx.choose(5));
    let comps = 1 + cx.choose(4);
    let n = if comps > 1 && cx.flag() { w * h } else { cx.choose(30) };
    if comps == 1 && n == w * h {
        return Ok(0);
    }
    let vals = pattern(2, w * h, 255);
    let Some(code) = jpeg2000(w as u32, h as u32, 8, false, comps as u32, (0, 0), 0, &vals) else { return Ok(0) };
    let r = decode(sub(n, s5(n, PLAIN, 8), code))?;
    ensure!(r.is_err(), "misfit accepted", "a {w}x{h} image of {comps} components for {n} points decoded to {r:?}");
    Ok(hash_of(&format!("{r:?}")))
}

/// Code streams cut short, or with a main header that is none.
fn broken(cx: &mut Ctx, precs: &[u32]) -> Leaf {
    let prec = cx.pick(precs);
    let (w, h) = cx.pick(&[(1usize, 1usize), (3, 2), (5, 5), (9, 8)]);
    let vals = pattern(0, w * h, (1 << prec) - 1);
    let Some(mut code) = jpeg2000(w as u32, h as u32, prec, false, 1, (0, 0), 0, &vals) else { return Ok(0) };
    let what;
    if cx.flag() {
        let at = cx.choose(code.len());
        code.truncate(at);
        what = format!("cut to {at} octets");
    } else {
        let at = cx.choose(4);
        let x = cx.pick(&[1u8, 0x10, 0x80, 0xff]);
        code[at] ^= x;
        what = format!("octet {at} xor {x:#x}");
    }
    let n = w * h;
    match decode(sub(n, s5(n, PLAIN, prec), code))? {
        Err(e) => Ok(hash_of(&e)),
        Ok(v) => {
            let want: Vec<_> = vals.iter().map(|v| Some(*v as f64)).collect();
            match PLAIN.check_all(&want, &v) {
                Ok(()) => Ok(2),
                Err(m) => fail("broken image accepted", format!("{w}x{h} image of {prec}-bit samples {what}: {m}")),
            }
        }
    }
}

/// Large images.
fn large(cx: &mut Ctx, sizes: &[usize]) -> Leaf {
    let n = sizes[sizes.len() - 1 - cx.choose(sizes.len())] as u32;
    let prec = cx.pick(&[1u32, 8, 12, 16, 24]);
    let (w, h) = match cx.choose(4) {
        0 => (n, 1),
        1 => (1, n),
        2 => (n / 16, 16),
        _ => (300, n / 300),
    };
    if w == 0 || h == 0 {
        return Ok(0);
    }
    let p = cx.choose(2) * 2;
    go(PLAIN, &Img { w, h, prec, off: (0, 0), tile: 0 }, &pattern(p, (w * h) as usize, ((1u64 << prec) - 1) as u32))
}

/// Code streams of more than a megabyte.
fn megabytes(cx: &mut Ctx) -> Leaf {
    let (w, h) = cx.pick(&[(700u32, 600u32), (1000, 1000), (3, 400_001)]);
    let prec = cx.pick(&[24u32, 16]);
    let mut x = 1u32;
    let vals: Vec<i32> = (0..w * h)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x & ((1 << prec) - 1)) as i32
        })
        .collect();
    go(PLAIN, &Img { w, h, prec, off: (0, 0), tile: 0 }, &vals)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sample depth, shape up to the stated size, image offset and content pattern; tiles; every scale; other sizes and components; every cut".into();
    let n = rep.tier(12, 24);
    let ps: Vec<u32> = (1..=24).collect();
    rep.explore("shapes", 0, |cx| shapes(cx, n, &ps));
    let ns = sizes(rep.tier(16, 18));
    rep.explore("large", 0, |cx| large(cx, &ns));
    rep.explore("megabytes", 0, megabytes);
    rep.explore("depths", 0, depths);
    let n = rep.tier(16, 24);
    rep.explore("tiles", 0, |cx| tiles(cx, n));
    let n = rep.tier(3, 1);
    rep.explore("scales", 0, |cx| scales(cx, n));
    rep.explore("constant", 0, constant);
    rep.explore("misfits", 0, misfits);
    rep.explore("broken", 0, |cx| broken(cx, &ps));
    rep.note_assumption(&format!("images refused by the encoder: {}", REFUSED.load(std::sync::atomic::Ordering::Relaxed)));
    rep.note_assumption("the code streams are made by OpenJPEG's own lossless encoder; images it refuses to encode are left out");
}
