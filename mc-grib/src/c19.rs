//! C19: Lambert conformal and polar stereographic grids.
use crate::{grids::*, msg::*};
use mccore::{ensure, fail, hash_of, Ctx, Leaf, Report};
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4};

const M: i64 = 1_000_000;

/// Snyder, "Map Projections: A Working Manual", equations 15-9, 14-15, 7-9 (and 7-9a).
fn t_of(phi: f64, e: f64) -> f64 {
    let s = e * phi.sin();
    (FRAC_PI_4 - phi / 2.0).tan() / ((1.0 - s) / (1.0 + s)).powf(e / 2.0)
}
fn m_of(phi: f64, e: f64) -> f64 {
    phi.cos() / (1.0 - (e * phi.sin()).powi(2)).sqrt()
}
/// Latitude of the isometric parameter t, by bisection (t falls as the latitude rises).
fn phi_of(t: f64, e: f64) -> f64 {
    let (mut lo, mut hi) = (-FRAC_PI_2, FRAC_PI_2);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if mid == lo || mid == hi {
            break;
        }
        if t_of(mid, e) > t {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    0.5 * (lo + hi)
}

trait Plane {
    fn fwd(&self, lat: f64, lon: f64) -> (f64, f64);
    fn inv(&self, x: f64, y: f64) -> (f64, f64);
}

struct Lambert {
    e: f64,
    n: f64,
    af: f64,
    lon0: f64,
}
impl Lambert {
    fn new(a: f64, b: f64, lat1: f64, lat2: f64, lon0: f64) -> Self {
        let e = (1.0 - (b / a).powi(2)).max(0.0).sqrt();
        let (m1, t1) = (m_of(lat1, e), t_of(lat1, e));
        let n = if lat1 == lat2 { lat1.sin() } else { (m1.ln() - m_of(lat2, e).ln()) / (t1.ln() - t_of(lat2, e).ln()) };
        Lambert { e, n, af: a * m1 / (n * t1.powf(n)), lon0 }
    }
}
/// Into -180..180 degrees, in radians.
fn wrap(l: f64) -> f64 {
    let mut d = l.to_degrees() % 360.0;
    if d > 180.0 {
        d -= 360.0;
    }
    if d < -180.0 {
        d += 360.0;
    }
    d.to_radians()
}
impl Plane for Lambert {
    // with the origin at the apex of the cone
    fn fwd(&self, lat: f64, lon: f64) -> (f64, f64) {
        let rho = self.af * t_of(lat, self.e).powf(self.n);
        let th = self.n * wrap(lon - self.lon0);
        (rho * th.sin(), -rho * th.cos())
    }
    fn inv(&self, x: f64, y: f64) -> (f64, f64) {
        let s = self.n.signum();
        let rho = s * x.hypot(y);
        let th = (s * x).atan2(-s * y);
        (phi_of((rho / self.af).powf(1.0 / self.n), self.e), th / self.n + self.lon0)
    }
}

struct Polar {
    e: f64,
    c: f64,
    lon0: f64,
    south: bool,
}
impl Polar {
    fn new(a: f64, b: f64, ts: f64, lon0: f64, south: bool) -> Self {
        let e = (1.0 - (b / a).powi(2)).max(0.0).sqrt();
        let ts = ts.abs();
        let c = if (ts - FRAC_PI_2).abs() < 1e-9 {
            2.0 * a / ((1.0 + e).powf(1.0 + e) * (1.0 - e).powf(1.0 - e)).sqrt()
        } else {
            a * m_of(ts, e) / t_of(ts, e)
        };
        Polar { e, c, lon0, south }
    }
}
impl Plane for Polar {
    fn fwd(&self, lat: f64, lon: f64) -> (f64, f64) {
        let (lat, s) = if self.south { (-lat, 1.0) } else { (lat, -1.0) };
        let rho = self.c * t_of(lat, self.e);
        let l = lon - self.lon0;
        (rho * l.sin(), s * rho * l.cos())
    }
    fn inv(&self, x: f64, y: f64) -> (f64, f64) {
        let phi = phi_of(x.hypot(y) / self.c, self.e);
        if self.south {
            (-phi, self.lon0 + x.atan2(y))
        } else {
            (phi, self.lon0 + x.atan2(-y))
        }
    }
}

/// (a, b) of an Earth shape with a fixed size.
fn radii(shape: u8) -> Option<(f64, f64)> {
    Some(match shape {
        0 => (6_367_470.0, 6_367_470.0),
        2 => (6_378_160.0, 6_356_775.0),
        4 => (6_378_137.0, 6_356_752.314),
        5 => (6_378_137.0, 6_356_752.314_2),
        6 => (6_371_229.0, 6_371_229.0),
        8 => (6_371_200.0, 6_371_200.0),
        _ => return None,
    })
}

#[derive(Debug, Clone)]
struct G {
    lambert: bool,
    shape: u8,
    /// Scale factor and value of radius, major and minor axis.
    axes: [(u8, u32); 3],
    ni: u32,
    nj: u32,
    first: (i64, i64),
    lad: i64,
    lov: i64,
    d: (u32, u32),
    flag: u8,
    mode: u8,
    latin: (i64, i64),
}

impl G {
    fn body(&self) -> Vec<u8> {
        let n = self.ni * self.nj;
        let mut b = if self.lambert {
            grid_lambert(self.shape, self.ni, self.nj, n, self.first, self.lad, self.lov, self.d, self.flag, self.mode, self.latin)
        } else {
            grid_polar(self.shape, self.ni, self.nj, n, self.first, self.lad, self.lov, self.d, self.flag, self.mode)
        };
        for (k, (f, v)) in self.axes.iter().enumerate() {
            b[10 + 5 * k] = *f;
            b[11 + 5 * k..15 + 5 * k].copy_from_slice(&v.to_be_bytes());
        }
        b
    }
    fn ab(&self) -> Option<(f64, f64)> {
        let v = |k: usize| {
            let (f, v) = self.axes[k];
            let f = if f & 0x80 != 0 { -((f & 0x7f) as i32) } else { f as i32 };
            v as f64 * 10f64.powi(-f)
        };
        match self.shape {
            1 => Some((v(0), v(0))),
            3 => Some((v(1) * 1000.0, v(2) * 1000.0)),
            7 => Some((v(1), v(2))),
            s => radii(s),
        }
    }
}

const NO_AXES: [(u8, u32); 3] = [(0xff, u32::MAX); 3];

fn check(g: &G) -> Leaf {
    let what = format!("{g:?}");
    let s = see(g.body())?;
    if g.ab().is_none() || g.mode & 0x0f != 0 || (!g.lambert && g.flag & 0x3f != 0) {
        ensure!(s.latlons.is_err(), "unsupported grid accepted", "{what}");
        return Ok(1);
    }
    let (a, b) = g.ab().unwrap();
    let r = |v: i64| (v as f64 / 1e6).to_radians();
    let p: Box<dyn Plane> = if g.lambert {
        Box::new(Lambert::new(a, b, r(g.latin.0), r(g.latin.1), r(g.lov)))
    } else {
        Box::new(Polar::new(a, b, r(g.lad), r(g.lov), g.flag & 0x80 != 0))
    };
    let got = match s.latlons {
        Ok(v) => v,
        Err(e) => return fail("no coordinates", format!("{what}: {e}")),
    };
    let ij = ij_model(g.ni as usize, g.nj as usize, g.mode);
    ensure!(got.len() == ij.len(), "wrong number of coordinates", "{what}: {}", got.len());
    let (x0, y0) = p.fwd(r(g.first.0), r(g.first.1));
    let dx = if g.mode & 0x80 == 0 { 1.0 } else { -1.0 } * g.d.0 as f64 / 1e3;
    let dy = if g.mode & 0x40 != 0 { 1.0 } else { -1.0 } * g.d.1 as f64 / 1e3;
    for (k, ((i, j), (la, lo))) in ij.iter().zip(&got).enumerate() {
        let (wa, wo) = if (*i, *j) == (0, 0) { (r(g.first.0), r(g.first.1)) } else { p.inv(x0 + dx * *i as f64, y0 + dy * *j as f64) };
        let (wa, wo) = (wa.to_degrees(), wo.to_degrees());
        let tol = 1e-5;
        ensure!((*la as f64 - wa).abs() <= tol, "wrong latitude", "{what}: point {k} ({i}, {j}) is at {la}, {lo}, not {wa}, {wo}");
        let cos = wa.to_radians().cos();
        if cos > 1e-6 {
            let tol = 2e-5 + 1e-7 / cos;
            ensure!(lon_diff(*lo as f64, wo) <= tol, "wrong longitude", "{what}: point {k} ({i}, {j}) is at {la}, {lo}, not {wa}, {wo}");
        }
    }
    Ok(hash_of(&got.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect::<Vec<_>>()))
}

const SHAPES: [u8; 6] = [0, 2, 4, 5, 6, 8];

fn lambert(cx: &mut Ctx, full: bool) -> Leaf {
    let latin = cx.pick(&[(30 * M, 60 * M), (60 * M, 30 * M), (25 * M, 25 * M), (33_333_333, 45_678_901), (-30 * M, -60 * M), (-40 * M, -40 * M), (50 * M, -10 * M), (1 * M, 2 * M)]);
    let lad = if full { cx.pick(&[latin.0, 30 * M, -45 * M]) } else { latin.0 };
    let lov = cx.pick(&[0i64, 140 * M, 265 * M, 359_999_999, -95 * M, 180 * M]);
    let dlon = cx.pick(&[0i64, -20 * M, 35_123_456, 100 * M]);
    let lat = cx.pick(&[latin.0 - 15 * M, latin.0, latin.1 + 10 * M]);
    let (ni, nj) = cx.pick(&[(1u32, 1u32), (3, 2), (2, 3)]);
    let d = cx.pick(&[(5_000_000u32, 4_000_000u32), (1, 7), (250_000_000, 100_000_000)]);
    let mode = (cx.choose(16) << 4) as u8;
    let shape = cx.pick(if full { &SHAPES[..] } else { &SHAPES[1..5] });
    let mut lon = lov + dlon;
    if lov >= 0 && lon < 0 {
        lon += 360 * M;
    }
    if lon >= 360 * M {
        lon -= 360 * M;
    }
    check(&G { lambert: true, shape, axes: NO_AXES, ni, nj, first: (lat, lon), lad, lov, d, flag: if latin.0 < 0 { 0x80 } else { 0 }, mode, latin })
}

fn polar(cx: &mut Ctx, full: bool) -> Leaf {
    let south = cx.flag();
    let s = if south { -1 } else { 1 };
    let lad = cx.pick(&[60 * M, 90 * M, 40 * M, 75_123_456, -60 * M, -90 * M]);
    let lov = cx.pick(&[0i64, 249 * M, 359_999_999, -45 * M, 180 * M]);
    let lon = cx.pick(&[0i64, 120 * M, 220_123_456, 359 * M, -135 * M]);
    let lat = s * cx.pick(&[20 * M, 60 * M, 85_500_000, -5 * M]);
    let (ni, nj) = cx.pick(&[(1u32, 1u32), (3, 2), (2, 3)]);
    let d = cx.pick(&[(5_000_000u32, 4_000_000u32), (1, 7), (250_000_000, 100_000_000)]);
    let mode = (cx.choose(16) << 4) as u8;
    let shape = cx.pick(if full { &SHAPES[..] } else { &SHAPES[1..5] });
    check(&G { lambert: false, shape, axes: NO_AXES, ni, nj, first: (lat, lon), lad, lov, d, flag: (south as u8) << 7, mode, latin: (0, 0) })
}

/// Longer rows and columns, over the pole and around it.
fn wide(cx: &mut Ctx) -> Leaf {
    let lam = cx.flag();
    let mode = (cx.choose(16) << 4) as u8;
    let south = cx.flag();
    let s = if south { -1 } else { 1 };
    let d = cx.pick(&[(30_000_000u32, 20_000_000u32), (81_271_000, 81_271_000)]);
    let (ni, nj) = cx.pick(&[(93u32, 65u32), (40, 40), (1, 50), (50, 1)]);
    let first = cx.pick(&[(12_190_000i64, 226_541_000i64), (50 * M, 250 * M), (-20_826_000, 145 * M)]);
    check(&G {
        lambert: lam,
        shape: cx.pick(&[6u8, 5]),
        axes: NO_AXES,
        ni,
        nj,
        first: (s * first.0, first.1),
        lad: s * 25 * M,
        lov: 265 * M,
        d: if lam && first.0 < 0 { (5_000_000, 5_000_000) } else { d },
        flag: (south as u8) << 7,
        mode,
        latin: (s * 25 * M, s * 25 * M),
    })
}

/// Many points close together.
fn long(cx: &mut Ctx) -> Leaf {
    let (ni, nj) = cx.pick(&[(257u32, 3u32), (3, 257), (1025, 2), (2, 1025), (4097, 1), (1, 4097), (66_000, 1), (1, 66_000), (300, 301)]);
    let lam = cx.flag();
    let mode = (cx.choose(16) << 4) as u8;
    check(&G {
        lambert: lam,
        shape: 6,
        axes: NO_AXES,
        ni,
        nj,
        first: (50 * M, 250 * M),
        lad: 45 * M,
        lov: 265 * M,
        d: (20_000_000 / ni.max(20), 10_000_000 / nj.max(20)),
        flag: 0,
        mode,
        latin: (35 * M, 55 * M),
    })
}

/// Every shape code, projection-centre flag and scanning mode.
fn codes(cx: &mut Ctx) -> Leaf {
    let lambert = cx.flag();
    let mut g = G {
        lambert,
        shape: 6,
        axes: [(0x81, 637_120), (2, 637_813_700), (0x83, 6_350)],
        ni: 2,
        nj: 3,
        first: (40 * M, 230 * M),
        lad: 60 * M,
        lov: 240 * M,
        d: (3_000_000, 2_000_000),
        flag: 0,
        mode: 0x40,
        latin: (30 * M, 50 * M),
    };
    match cx.choose(3) {
        0 => {
            g.shape = cx.choose(256) as u8;
            g.mode = cx.pick(&[0u8, 0x40]);
            if g.shape == 3 {
                // kilometres
                g.axes[1] = (2, 637_814);
                g.axes[2] = (0, 6_350);
            }
        }
        1 => {
            if lambert {
                return Ok(0);
            }
            g.flag = cx.choose(256) as u8;
            if g.flag & 0x40 != 0 && g.flag & 0x3f == 0 {
                // bipolar grids are not spoken of
                return Ok(0);
            }
            if g.flag & 0x80 != 0 {
                g.first.0 = -g.first.0;
            }
        }
        _ => g.mode = cx.choose(256) as u8,
    }
    check(&g)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every combination of the stated shapes, standard parallels, orientations, first points, grid lengths and scanning modes, against Snyder's formulas; every shape code, flag and mode".into();
    let full = !rep.quick();
    rep.explore("lambert", 0, |cx| lambert(cx, full));
    rep.explore("polar", 0, |cx| polar(cx, full));
    rep.explore("wide", 0, wide);
    rep.explore("long", 0, long);
    rep.explore("codes", 0, codes);
    rep.note_assumption("the proj crate is a stand-in written for this sandbox (PROJ is not installed); what is decided is the library's use of it: definition string, displacements, order, units");
}
