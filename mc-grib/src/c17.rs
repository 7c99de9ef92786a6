//! C17: regular latitude/longitude grids.
use crate::{grids::*, msg::*};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};

/// Latitudes where they are defined by first and last point.
fn lats(first: i64, last: i64, nj: usize) -> Vec<f64> {
    (0..nj)
        .map(|j| if nj == 1 { first as f64 / 1e6 } else { (first as f64 + (last - first) as f64 * j as f64 / (nj - 1) as f64) / 1e6 })
        .collect()
}

fn check(g: LatLon) -> Leaf {
    check_body(&g, grid_latlon(&g), "")
}

/// The body of Section 3 is said to be of the grid.
fn check_body(g: &LatLon, s3: Vec<u8>, how: &str) -> Leaf {
    let what = format!("{}x{} from {:?} to {:?}, mode {:#x}{how}", g.ni, g.nj, g.first, g.last, g.mode);
    let (ni, nj) = (g.ni as usize, g.nj as usize);
    let Some(lon) = lons(g.first.1, g.last.1, ni, g.mode) else { return Ok(0) };
    let up = g.mode & 0x40 != 0;
    let (f, l) = (g.first.0, g.last.0);
    if nj > 1 && f == l {
        return Ok(0);
    }
    let consistent = f == l || (l > f) == up;
    if nj == 1 && !consistent {
        return Ok(0);
    }
    let s = see(s3)?;
    if !consistent {
        ensure!(s.latlons.is_err(), "contradicting latitudes accepted", "{what}");
        return Ok(1);
    }
    let got = match s.latlons {
        Ok(v) => v,
        Err(e) => return fail("no coordinates", format!("{what}: {e}")),
    };
    let lat = lats(f, l, nj);
    let ij = ij_model(ni, nj, g.mode);
    ensure!(got.len() == ij.len(), "wrong number of coordinates", "{what}: {}", got.len());
    // angles of other units may be rounded to microdegrees
    let slack = if how.is_empty() { 0.0 } else { 1.1e-6 };
    let (ta, to) = (slack + lat_tol(f, l), slack + lon_tol(g.first.1, g.last.1));
    for (k, ((i, j), (a, o))) in ij.iter().zip(&got).enumerate() {
        ensure!((*a as f64 - lat[*j]).abs() <= ta, "wrong latitude", "{what}: point {k} ({i}, {j}) is at {a}, not {}", lat[*j]);
        ensure!(lon_diff(*o as f64, lon[*i]) <= to, "wrong longitude", "{what}: point {k} ({i}, {j}) is at {o}, not {}", lon[*i]);
        ensure!(*o > -360.001 && *o < 720.001, "wrong longitude", "{what}: point {k} ({i}, {j}) is at {o}");
    }
    Ok(hash_of(&got.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>()))
}

const M: i64 = 1_000_000;

fn longitudes(cx: &mut Ctx, vals: &[i64], nis: &[u32]) -> Leaf {
    let (a, b) = (cx.pick(vals), cx.pick(vals));
    // either convention, but not both
    let within = |lo: i64, hi: i64| a >= lo && a <= hi && b >= lo && b <= hi;
    if !within(0, 360 * M) && !within(-180 * M, 180 * M) {
        return Ok(0);
    }
    let mode = (cx.choose(2) << 7 | cx.choose(2) << 5 | cx.choose(2) << 4) as u8;
    check(LatLon { ni: cx.pick(nis), nj: 2, num: 0, first: (10 * M, a), last: (9 * M, b), mode }.sized())
}

fn latitudes(cx: &mut Ctx, vals: &[i64], njs: &[u32]) -> Leaf {
    let (a, b) = (cx.pick(vals), cx.pick(vals));
    let mode = (cx.choose(8) << 4) as u8;
    check(LatLon { ni: 2, nj: cx.pick(njs), num: 0, first: (a, 10 * M), last: (b, 11 * M), mode }.sized())
}

/// Every small shape, mode and direction, degenerate ones included.
fn shapes(cx: &mut Ctx, max: u32) -> Leaf {
    let (ni, nj) = (1 + cx.choose(max as usize) as u32, 1 + cx.choose(max as usize) as u32);
    let mode = (cx.choose(16) << 4) as u8;
    let (a, b) = cx.pick(&[(0i64, 0i64), (45 * M, -45 * M), (-90 * M, 90 * M), (90 * M, -90 * M), (1, 0), (0, 1)]);
    let (c, d) = cx.pick(&[(0i64, 0i64), (0, 350 * M), (350 * M, 10 * M), (10 * M, 350 * M), (-180 * M, 179 * M), (179 * M, -179 * M), (0, 360 * M), (355 * M, 355 * M)]);
    check(LatLon { ni, nj, num: 0, first: (a, c), last: (b, d), mode }.sized())
}

/// Grids as they are in use.
fn real(cx: &mut Ctx) -> Leaf {
    let (ni, nj, first, last) = cx.pick(&[
        (1440u32, 721u32, (90 * M, 0i64), (-90 * M, 359_750_000i64)),
        (360, 181, (90 * M, 0), (-90 * M, 359 * M)),
        (481, 505, (47_600_000, 120 * M), (22_400_000, 150 * M)),
        (900, 601, (-30 * M, 300 * M), (30 * M, 29_900_000)),
        (121, 61, (60 * M, -180 * M), (20 * M, 180 * M)),
        (145, 73, (-90 * M, 180 * M), (90 * M, 540 * M - 360 * M - 2_500_000)),
    ]);
    let flip = cx.choose(4);
    let (mut first, mut last) = (first, last);
    let mut mode = if last.0 > first.0 { 0x40 } else { 0 };
    if flip & 1 != 0 {
        std::mem::swap(&mut first.0, &mut last.0);
        mode ^= 0x40;
    }
    if flip & 2 != 0 {
        std::mem::swap(&mut first.1, &mut last.1);
        mode ^= 0x80;
    }
    mode |= (cx.choose(4) << 4) as u8;
    check(LatLon { ni, nj, num: 0, first, last, mode }.sized())
}

/// Sizes around the limits of narrower integers.
fn sizes(cx: &mut Ctx, ns: &[u32]) -> Leaf {
    let n = cx.pick(ns);
    let m = cx.pick(&[1u32, 2, 3]);
    let (ni, nj) = if cx.flag() { (n, m) } else { (m, n) };
    let mode = (cx.choose(16) << 4) as u8;
    let up = mode & 0x40 != 0;
    let (c, d) = if mode & 0x80 != 0 { (359_990_000, 10_000) } else { (10_000, 359_990_000) };
    let (a, b) = if up { (-90 * M, 90 * M) } else { (90 * M, -90 * M) };
    check(LatLon { ni, nj, num: 0, first: (a, c), last: (b, d), mode }.sized())
}

/// Angles in other units than microdegrees.
fn units(cx: &mut Ctx) -> Leaf {
    let unit = cx.pick(&UNITS);
    let (a, b) = cx.pick(&[(10 * M, 20 * M), (-90 * M, 90 * M), (-33_333_333, -1 * M), (0, 2 * M)]);
    let (c, d) = cx.pick(&[(0i64, 350 * M), (350 * M, 10 * M), (10 * M, 350 * M), (-180 * M, 179 * M), (179 * M, -179 * M), (0, 360 * M)]);
    let mode = (cx.choose(16) << 4) as u8;
    let (a, b) = if mode & 0x40 != 0 { (a, b) } else { (b, a) };
    let (ni, nj) = (cx.pick(&[1u32, 2, 5]), cx.pick(&[2u32, 4]));
    let (Some(a), Some(b), Some(c), Some(d)) = (to_units(a, unit), to_units(b, unit), to_units(c, unit), to_units(d, unit)) else { return Ok(0) };
    let raw = LatLon { ni, nj, num: 0, first: (a.0, c.0), last: (b.0, d.0), mode }.sized();
    let g = LatLon { ni, nj, num: 0, first: (a.1, c.1), last: (b.1, d.1), mode }.sized();
    check_body(&g, in_units(grid_latlon(&raw), unit.0, unit.1), &format!(", in units of {unit:?}"))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every pair of first and last longitudes and latitudes from the stated sets, every direction and order of scanning, sizes from one point up".into();
    let lo: Vec<i64> = {
        let mut v = vec![0, 1, 250_000, M, 10 * M, 44_999_999, 90 * M, 179_750_000, 180 * M, 180_000_001, 225 * M, 270 * M, 300 * M, 355 * M, 359_750_000, 359_999_999, 360 * M];
        v.extend([-1, -250_000, -10 * M, -90 * M, -179_750_000, -180 * M]);
        let step = rep.tier(5, 2);
        v.extend((1..360 / step).map(|k| k * step * M + 12_345));
        v
    };
    let mut nis = vec![1, 2, 3, 4, 5, 7, 10, 37];
    if !rep.quick() {
        nis.extend([100, 333]);
    }
    rep.explore("longitudes", 0, |cx| longitudes(cx, &lo, &nis));
    let la: Vec<i64> = {
        let mut v = vec![90 * M, 89_999_999, 60_123_456, 45 * M, 10 * M, 1, 0, -1, -M, -33_333_333, -89 * M, -90 * M];
        let n = rep.tier(35, 89);
        v.extend((-n..=n).map(|k| k * (90 * M / (n + 1)) + 777));
        v
    };
    rep.explore("latitudes", 0, |cx| latitudes(cx, &la, &nis));
    let n = rep.tier(9, 14);
    rep.explore("shapes", 0, |cx| shapes(cx, n));
    let ns = rep.tier(&[255u32, 256, 257, 32_768, 65_535, 65_536, 65_537][..], &[127, 128, 129, 255, 256, 257, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 131_073, 1_000_000][..]);
    rep.explore("sizes", 0, |cx| sizes(cx, ns));
    rep.explore("units", 0, units);
    rep.explore("grids-in-use", 0, real);
    rep.note_assumption("equal first and last longitudes or latitudes of more than one point, contradicting latitudes of a single row, and mixtures of the 0..360 and -180..180 conventions are ambiguous and left out");
}
