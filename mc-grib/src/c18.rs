//! C18: Gaussian latitudes.
use crate::{grids::*, msg::*};
use grib::utils::compute_gaussian_latitudes;
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};
use std::f64::consts::PI;

/// P_n(x) / P_n'(x), with compensated recurrences.
fn correction(n: usize, x: f64) -> f64 {
    if n == 1 {
        return x;
    }
    // P_k and Q_k = P_k' by their own recurrences
    let (mut p0, mut p1) = (1.0f64, x);
    let (mut d0, mut d1) = (0.0f64, 1.0f64);
    for k in 2..=n {
        let kf = k as f64;
        let p2 = x * p1 + (kf - 1.0) / kf * (x * p1 - p0);
        // P'_k = P'_{k-2} + (2k - 1) P_{k-1}
        let d2 = d0 + (2.0 * kf - 1.0) * p1;
        p0 = p1;
        p1 = p2;
        d0 = d1;
        d1 = d2;
    }
    p1 / d1
}

fn latitudes(n: usize) -> Result<Vec<Option<f64>>, mccore::Fail> {
    guard("gaussian latitudes", || compute_gaussian_latitudes(n).take(n + 3).collect())
}

fn one_size(n: usize) -> Leaf {
    let got = latitudes(n)?;
    ensure!(got.len() == n, "wrong number of latitudes", "{} latitudes for n = {n}", got.len());
    let mut v = vec![];
    for (k, g) in got.iter().enumerate() {
        match g {
            Some(x) => v.push(*x),
            None => return fail("missing latitude", format!("latitude {k} of {n} is not found")),
        }
    }
    // latitudes are arcsines of the roots: their accuracy falls off towards the poles
    for k in 0..n {
        let lat = v[k];
        ensure!(k == 0 || lat < v[k - 1], "latitudes not decreasing", "n = {n}: latitude {k} is {lat}, the one before {}", v[k - 1]);
        // The k-th zero from the north lies between these colatitudes (Bruns).
        let (lo, hi) = ((k as f64 + 0.5) / (n as f64 + 0.5) * PI, (k as f64 + 1.0) / (n as f64 + 0.5) * PI);
        let col = PI / 2.0 - lat;
        ensure!(col > lo - 1e-12 && col < hi + 1e-12, "not the zero", "n = {n}: latitude {k} is {lat}");
        let dx = correction(n, lat.sin());
        let tol = 1e-14 + 3e-16 * n as f64;
        ensure!(dx.abs() <= tol, "not a zero", "n = {n}: latitude {k} = {lat} is off by {dx:e} in its sine");
        let sym = v[n - 1 - k];
        let cos = lat.cos().max(1e-9);
        ensure!((sym + lat).abs() <= 2.0 * tol / cos, "not symmetric", "n = {n}: latitudes {k} {lat} and {} {sym}", n - 1 - k);
    }
    Ok(hash_of(&v.iter().map(|v| v.to_bits()).collect::<Vec<_>>()))
}

/// Regular Gaussian grids of all parallels.
fn grid(cx: &mut Ctx, njs: &[u32], nis: &[u32]) -> Leaf {
    let nj = cx.pick(njs);
    rows(cx, nj, 0, nj, nis)
}

/// Every range of rows of small Gaussian grids, and some of larger ones.
fn part(cx: &mut Ctx, all: &[u32]) -> Leaf {
    let total = cx.pick(all);
    let (start, nj) = if total <= 16 {
        let start = cx.choose(total as usize) as u32;
        (start, 1 + cx.choose((total - start) as usize) as u32)
    } else {
        let start = cx.pick(&[0, 1, total / 2 - 1, total / 2, total - 3, total - 1]);
        (start, cx.pick(&[1, 2, 3, total / 2, total - 1]).min(total - start))
    };
    rows(cx, total, start, nj, &[1, 3])
}

/// `nj` rows of a Gaussian grid of `total` parallels.
fn rows(cx: &mut Ctx, total: u32, start: u32, nj: u32, nis: &[u32]) -> Leaf {
    let ni = cx.pick(nis);
    let mode = (cx.choose(16) << 4) as u8;
    let (c, d) = cx.pick(&[(0i64, 350_000_000i64), (350_000_000, 10_000_000), (10_000_000, 350_000_000), (-180_000_000, 179_000_000), (179_000_000, -179_000_000), (0, 360_000_000), (5_000_000, 5_000_000)]);
    let up = mode & 0x40 != 0;
    let want: Vec<f64> = {
        let mut v: Vec<f64> = latitudes(total as usize)?.iter().map(|v| v.unwrap_or(f64::NAN).to_degrees()).skip(start as usize).take(nj as usize).collect();
        if up {
            v.reverse();
        }
        v
    };
    let micro = |v: f64| (v * 1e6).round() as i64;
    let wrong = cx.flag();
    let (mut a, mut b) = (micro(want[0]), micro(want[nj as usize - 1]));
    if wrong {
        if nj == 1 {
            return Ok(0);
        }
        std::mem::swap(&mut a, &mut b);
    }
    let Some(lon) = lons(c, d, ni as usize, mode) else { return Ok(0) };
    let unit = cx.pick(&[UNITS[0], UNITS[1], (1, 1_000_000), (1, 10_000_000 / 2), (1, 3_000_000)]);
    let (Some(ua), Some(ub), Some(uc), Some(ud)) = (to_units(a, unit), to_units(b, unit), to_units(c, unit), to_units(d, unit)) else { return Ok(0) };
    let what = format!("{ni}x{nj} of {total} parallels from {a}, {c} to {b}, {d}, mode {mode:#x}, units {unit:?}");
    let raw = LatLon { ni, nj, num: 0, first: (ua.0, uc.0), last: (ub.0, ud.0), mode }.sized();
    let s = see(in_units(grid_gaussian_of(&raw, total / 2), unit.0, unit.1))?;
    if wrong {
        ensure!(s.latlons.is_err(), "contradicting latitudes accepted", "{what}");
        return Ok(1);
    }
    let got = match s.latlons {
        Ok(v) => v,
        Err(e) => return fail("no coordinates", format!("{what}: {e}")),
    };
    let ij = ij_model(ni as usize, nj as usize, mode);
    ensure!(got.len() == ij.len(), "wrong number of coordinates", "{what}: {}", got.len());
    let to = lon_tol(c, d) + 1.1e-6;
    for (k, ((i, j), (a, o))) in ij.iter().zip(&got).enumerate() {
        ensure!((*a as f64 - want[*j]).abs() <= 2e-5, "wrong latitude", "{what}: point {k} ({i}, {j}) is at {a}, not {}", want[*j]);
        ensure!(lon_diff(*o as f64, lon[*i]) <= to, "wrong longitude", "{what}: point {k} ({i}, {j}) is at {o}, not {}", lon[*i]);
    }
    Ok(hash_of(&got.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>()))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every number of latitudes up to the stated one, each latitude against an independent evaluation of the polynomial and the interval of its zero; every scanning mode of regular Gaussian grids".into();
    let top = rep.tier(2100, 5200);
    // large sizes first, so that no thread is left with the longest
    rep.explore("sizes", 0, |cx| one_size(top - cx.choose(top)));
    let mut njs: Vec<u32> = (1..=8).map(|k| 2 * k).collect();
    njs.extend([32, 64, 94, 128, 256]);
    if !rep.quick() {
        njs.extend([190, 320, 512, 640, 1280]);
    }
    rep.explore("grids", 0, |cx| grid(cx, &njs, &[1, 2, 5, 8]));
    let nis = rep.tier(&[255u32, 256, 257, 65_535, 65_536, 65_537][..], &[127, 128, 129, 255, 256, 257, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 131_073, 1_000_000][..]);
    rep.explore("wide-grids", 0, |cx| grid(cx, &[2, 4], nis));
    let all: Vec<u32> = rep.tier(vec![2, 4, 6, 8, 12, 64, 320], vec![2, 4, 6, 8, 10, 12, 14, 16, 64, 320, 640, 1280]);
    rep.explore("parts", 0, |cx| part(cx, &all));
}
