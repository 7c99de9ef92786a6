//! C16: order of grid indices.
use crate::{grids::*, msg::*};
use mccore::{ensure, hash_of, Ctx, Leaf, Report};

pub fn grid(kind: usize, ni: u32, nj: u32, num: u32, mode: u8) -> Vec<u8> {
    let j = if mode & 0x40 != 0 { 10_000_000 } else { -10_000_000 };
    let i = if mode & 0x80 == 0 { 10_000_000 } else { -10_000_000 };
    let r = LatLon { ni, nj, num, first: (20_000_000, 100_000_000), last: (20_000_000 + j, 100_000_000 + i), mode };
    match kind {
        0 => grid_latlon(&r),
        1 => grid_gaussian_rows(ni, nj, num, (r.first.1, r.last.1), mode),
        2 => grid_lambert(6, ni, nj, num, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, mode, (30_000_000, 60_000_000)),
        _ => grid_polar(6, ni, nj, num, (60_000_000, 220_000_000), 60_000_000, 249_000_000, (5_000_000, 4_000_000), 0, mode),
    }
}

fn sizes(cx: &mut Ctx, sizes: &[u32]) -> Leaf {
    let kind = cx.choose(4);
    let (ni, nj) = (cx.pick(sizes), cx.pick(sizes));
    let mode = (cx.choose(16) << 4) as u8;
    one_shape(kind, ni, nj, mode)
}

fn one_shape(kind: usize, ni: u32, nj: u32, mode: u8) -> Leaf {
    let s = see(grid(kind, ni, nj, ni * nj, mode))?;
    let what = format!("template {} of {ni}x{nj}, mode {mode:#x}", [0, 40, 30, 20][kind]);
    let want = ij_model(ni as usize, nj as usize, mode);
    ensure!(s.shape == Ok((ni as usize, nj as usize)), "wrong shape", "{what}: {:?}", s.shape);
    let k = match &s.ij {
        Ok(v) => (0..v.len().max(want.len())).find(|k| v.get(*k) != want.get(*k)).map(|k| format!("index {k} is {:?}, not {:?}", v.get(k), want.get(k))),
        Err(e) => Some(e.clone()),
    };
    ensure!(k.is_none(), "wrong indices", "{what}: {}", k.unwrap());
    match &s.latlons {
        Ok(v) => ensure!(v.len() == want.len(), "wrong number of coordinates", "{what}: {}", v.len()),
        Err(e) => ensure!(want.is_empty(), "no coordinates", "{what}: {e}"),
    }
    Ok(hash_of(&(s.ij, kind)))
}

/// Every scanning mode.
fn modes(cx: &mut Ctx) -> Leaf {
    let kind = cx.choose(4);
    let mode = cx.choose(256) as u8;
    let (ni, nj) = cx.pick(&[(2u32, 3u32), (3, 2), (1, 1), (4, 1), (1, 4)]);
    let s = see(grid(kind, ni, nj, ni * nj, mode))?;
    let what = format!("template {} of {ni}x{nj}, mode {mode:#x}", [0, 40, 30, 20][kind]);
    if mode & 0x0f != 0 {
        ensure!(s.ij.is_err(), "unsupported scanning mode accepted", "{what}: indices {:?}", s.ij);
        ensure!(s.latlons.is_err(), "unsupported scanning mode accepted", "{what}: coordinates {:?}", s.latlons);
    } else {
        let want = ij_model(ni as usize, nj as usize, mode);
        ensure!(s.ij == Ok(want), "wrong indices", "{what}: {:?}", s.ij);
        ensure!(s.latlons.is_ok(), "no coordinates", "{what}: {:?}", s.latlons);
    }
    Ok(hash_of(&(s.ij.is_ok(), mode, kind)))
}

/// Declared numbers of points that are not ni * nj.
fn counts(cx: &mut Ctx) -> Leaf {
    let kind = cx.choose(4);
    let (ni, nj) = (cx.choose(7) as u32, cx.choose(7) as u32);
    let mode = cx.pick(&[0u8, 0x10, 0x20, 0x30, 0x40, 0x80, 0xf0]);
    let num = cx.pick(&[0, 1, 2, 5, 6, 7, 8, 30, 36, 42, 49, ni * nj + 1, (ni * nj).wrapping_sub(1), ni * nj, 256 + ni * nj, u32::MAX, 1 << 24]);
    let s = see(grid(kind, ni, nj, num, mode))?;
    let what = format!("template {} of {ni}x{nj} declared as {num} points, mode {mode:#x}", [0, 40, 30, 20][kind]);
    if num == ni * nj {
        ensure!(s.ij.is_ok(), "right number of points rejected", "{what}: {:?}", s.ij);
        if num > 0 {
            ensure!(s.latlons.is_ok(), "right number of points rejected", "{what}: {:?}", s.latlons);
        }
    } else {
        ensure!(s.ij.is_err(), "wrong number of points accepted", "{what}: {} indices", s.ij.as_ref().unwrap().len());
        ensure!(s.latlons.is_err(), "wrong number of points accepted", "{what}: {} coordinates", s.latlons.as_ref().unwrap().len());
    }
    Ok(hash_of(&(s.ij, s.latlons.is_ok())))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every scanning mode, every shape over the stated sizes and declared numbers of points, for all four grid templates".into();
    let mut v: Vec<u32> = (0..=rep.tier(24, 40)).collect();
    v.extend([33, 64, 100]);
    rep.explore("sizes", 0, |cx| sizes(cx, &v));
    let big: &[(u32, u32)] = rep.tier(
        &[(255, 3), (256, 3), (257, 3), (3, 255), (3, 256), (3, 257), (1000, 2), (4096, 1), (1, 4097), (2, 65_537), (65_537, 2), (361, 181), (1440, 721)],
        &[(255, 3), (256, 3), (257, 3), (3, 255), (3, 256), (3, 257), (1000, 2), (4096, 1), (1, 4097), (2, 65_537), (65_537, 2), (361, 181), (1440, 721), (1, 1_000_001), (1_000_001, 1)],
    );
    rep.explore("large", 0, |cx| {
        let (ni, nj) = big[big.len() - 1 - cx.choose(big.len())];
        let kind = cx.choose(4);
        let mode = (cx.choose(16) << 4) as u8;
        if kind == 1 && nj > 400 {
            return Ok(0);
        }
        one_shape(kind, ni, nj, mode)
    });
    rep.explore("modes", 0, modes);
    rep.explore("counts", 0, counts);
}
