//! Grids as seen through a message.
use crate::{msg::*, obs};
use mccore::{guard, Fail};

/// Indices in scanning order, by the definition.
pub fn ij_model(ni: usize, nj: usize, mode: u8) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let (rows, cols) = if mode & 0x20 == 0 { (nj, ni) } else { (ni, nj) };
    for r in 0..rows {
        for c in 0..cols {
            let c = if mode & 0x10 != 0 && r % 2 == 1 { cols - 1 - c } else { c };
            v.push(if mode & 0x20 == 0 { (c, r) } else { (r, c) });
        }
    }
    v
}

pub struct Seen {
    pub shape: Result<(usize, usize), String>,
    pub ij: Result<Vec<(usize, usize)>, String>,
    pub latlons: Result<Vec<(f32, f32)>, String>,
}

/// What the library says of the grid in the given Section 3 body.
pub fn see(s3: Vec<u8>) -> Result<Seen, Fail> {
    let b = one(Sub { s2: None, s3: Some(s3), s4: prod_default(), s5: repr(0, 0, 0.0, 0, 0, 0), s6: no_bitmap(), s7: vec![] }).bytes();
    let r = guard("grid", || {
        let g = grib::from_slice(&b).map_err(|e| obs::err(&e))?;
        let (_, s) = g.iter().next().ok_or("no submessage")?;
        let seen = Seen {
            shape: s.grid_shape().map_err(|e| obs::err(&e)),
            ij: s.ij().map(|i| i.take(3_000_000).collect()).map_err(|e| obs::err(&e)),
            latlons: s.latlons().map(|i| i.take(3_000_000).collect()).map_err(|e| obs::err(&e)),
        };
        Ok::<_, String>(seen)
    })?;
    r.map_err(|e| mccore::Fail { key: "a valid file is not opened".into(), msg: e })
}

/// |a - b| of longitudes in degrees, modulo 360.
pub fn lon_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}

const HALF_ULP: f64 = 1.0 / 16_777_216.0;

/// Longitudes of a regular grid in the direction of scanning; None where they are ambiguous.
pub fn lons(first: i64, last: i64, ni: usize, mode: u8) -> Option<Vec<f64>> {
    if ni == 1 {
        return Some(vec![first as f64 / 1e6]);
    }
    let mut span = last - first;
    if span == 0 {
        return None;
    }
    if mode & 0x80 == 0 && span < 0 {
        span += 360_000_000;
    }
    if mode & 0x80 != 0 && span > 0 {
        span -= 360_000_000;
    }
    if span == 0 {
        return None;
    }
    Some((0..ni).map(|i| (first as f64 + span as f64 * i as f64 / (ni - 1) as f64) / 1e6).collect())
}

pub fn lon_tol(first: i64, last: i64) -> f64 {
    8.0 * HALF_ULP * (first.abs().max(last.abs()) + 360_000_000) as f64 / 1e6
}
pub fn lat_tol(first: i64, last: i64) -> f64 {
    8.0 * HALF_ULP * (first.abs() + last.abs()) as f64 / 1e6
}

/// Basic angles and subdivisions; the first ones mean microdegrees.
pub const UNITS: [(u32, u32); 17] = [
    (0, 0xffff_ffff),
    (0, 0),
    (0, 1000),
    (0xffff_ffff, 0xffff_ffff),
    (0xffff_ffff, 1000),
    (0xffff_ffff, 0),
    (1, 1_000_000),
    (90, 90_000_000),
    (1, 1),
    (1, 2),
    (1, 3),
    (1, 1000),
    (1, 10_000_000),
    (2, 3000),
    (360, 1 << 20),
    (180, 0x7fff_ffff),
    (90, 65_537),
];

/// How many units the given microdegrees are (to the nearest), and how many microdegrees those are.
pub fn to_units(micro: i64, (basic, sub): (u32, u32)) -> Option<(i64, i64)> {
    if [0, u32::MAX].contains(&basic) || [0, u32::MAX].contains(&sub) {
        return Some((micro, micro));
    }
    let (b, s) = (basic as i128 * 1_000_000, sub as i128);
    let div = |a: i128, b: i128| (2 * a + b).div_euclid(2 * b) as i64;
    let u = div(micro as i128 * s, b);
    (u.abs() < 1 << 31).then(|| (u, div(u as i128 * b, s)))
}
