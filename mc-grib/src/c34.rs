//! C34: grid definitions, field by field.
use crate::{c16::grid, grids::*, msg::*, obs::*};
use grib::{EarthShapeDefinition, GaussianGridDefinition, GridDefinition, GridDefinitionTemplateValues as V, LambertGridDefinition, LatLonGridDefinition, PolarStereographicGridDefinition, ScanningMode};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

pub const TEMPLATES: [u16; 4] = [0, 20, 30, 40];
fn size_of(t: u16) -> usize {
    [67, 60, 76, 67][TEMPLATES.iter().position(|u| *u == t).unwrap()]
}
/// Octets without which the fields given out are not all there.
fn least(t: u16) -> usize {
    [67, 60, 68, 67][TEMPLATES.iter().position(|u| *u == t).unwrap()]
}

/// Octets of Section 3, counted from 1 as in the manual, in a body that lacks the first five.
struct Octets<'a>(&'a [u8]);
impl Octets<'_> {
    fn one(&self, at: usize) -> u8 {
        self.0[at - 6]
    }
    fn four(&self, at: usize) -> u32 {
        (0..4).fold(0, |v, k| v << 8 | self.one(at + k) as u32)
    }
    fn signed(&self, at: usize) -> i32 {
        let v = self.four(at);
        let m = (v & 0x7fff_ffff) as i32;
        if v >> 31 == 1 {
            -m
        } else {
            m
        }
    }
    fn earth(&self) -> EarthShapeDefinition {
        EarthShapeDefinition {
            shape_of_the_earth: self.one(15),
            scale_factor_of_radius_of_spherical_earth: self.one(16),
            scaled_value_of_radius_of_spherical_earth: self.four(17),
            scale_factor_of_earth_major_axis: self.one(21),
            scaled_value_of_earth_major_axis: self.four(22),
            scale_factor_of_earth_minor_axis: self.one(26),
            scaled_value_of_earth_minor_axis: self.four(27),
        }
    }
    /// Microdegrees; none if they do not fit into the field.
    fn angle(&self, at: usize) -> Option<i32> {
        let (b, s) = (self.four(39), self.four(43));
        let v = self.signed(at);
        if b == 0 || b == u32::MAX || s == 0 || s == u32::MAX {
            return Some(v);
        }
        let v = v as i128 * b as i128 * 1_000_000;
        let s = s as i128;
        let v = (2 * v + s).div_euclid(2 * s);
        i32::try_from(v).ok().filter(|v| v.unsigned_abs() < 1 << 31)
    }
    fn values(&self, t: u16) -> Option<V> {
        Some(match t {
            0 => V::Template0(LatLonGridDefinition {
                ni: self.four(31),
                nj: self.four(35),
                first_point_lat: self.angle(47)?,
                first_point_lon: self.angle(51)?,
                last_point_lat: self.angle(56)?,
                last_point_lon: self.angle(60)?,
                scanning_mode: ScanningMode(self.one(72)),
            }),
            40 => V::Template40(GaussianGridDefinition {
                ni: self.four(31),
                nj: self.four(35),
                first_point_lat: self.angle(47)?,
                first_point_lon: self.angle(51)?,
                last_point_lat: self.angle(56)?,
                last_point_lon: self.angle(60)?,
                i_direction_inc: self.four(64),
                n: self.four(68),
                scanning_mode: ScanningMode(self.one(72)),
            }),
            20 => V::Template20(PolarStereographicGridDefinition {
                earth_shape: self.earth(),
                ni: self.four(31),
                nj: self.four(35),
                first_point_lat: self.signed(39),
                first_point_lon: self.signed(43),
                lad: self.signed(48),
                lov: self.signed(52),
                dx: self.four(56),
                dy: self.four(60),
                projection_centre: grib::ProjectionCentreFlag(self.one(64)),
                scanning_mode: ScanningMode(self.one(65)),
            }),
            _ => V::Template30(LambertGridDefinition {
                earth_shape: self.earth(),
                ni: self.four(31),
                nj: self.four(35),
                first_point_lat: self.signed(39),
                first_point_lon: self.signed(43),
                lad: self.signed(48),
                lov: self.signed(52),
                dx: self.four(56),
                dy: self.four(60),
                scanning_mode: ScanningMode(self.one(65)),
                latin1: self.signed(66),
                latin2: self.signed(70),
            }),
        })
    }
}

/// Fields that are angles of templates 3.0 and 3.40 may be one microdegree off where they are converted.
fn near(a: &V, b: &V) -> bool {
    let of = |v: &V| match v {
        V::Template0(d) => Some(([d.first_point_lat, d.first_point_lon, d.last_point_lat, d.last_point_lon], vec![d.ni, d.nj, d.scanning_mode.0 as u32])),
        V::Template40(d) => Some(([d.first_point_lat, d.first_point_lon, d.last_point_lat, d.last_point_lon], vec![d.ni, d.nj, d.scanning_mode.0 as u32, d.n, d.i_direction_inc])),
        _ => None,
    };
    match (of(a), of(b)) {
        (Some((a, x)), Some((b, y))) => x == y && a.iter().zip(&b).all(|(a, b)| a.abs_diff(*b) <= 1),
        _ => a == b,
    }
}

fn judge(t: u16, body: &[u8], via_file: bool, what: impl Fn() -> String) -> Leaf {
    let o = Octets(body);
    let want = o.values(t);
    let (n, got) = if via_file {
        let s = Sub { s3: Some(body.to_vec()), ..sub_simple8(Some(small_grid(1, 1)), &[7]) };
        let file = one(s).bytes();
        match guard("grid definition", || {
            let g = grib::from_slice(&file).map_err(|e| err(&e))?;
            let (_, s) = g.iter().next().ok_or("no submessage")?;
            Ok::<_, String>((s.grid_def().num_points(), V::try_from(s.grid_def()).map_err(|e| err(&e))))
        })? {
            Ok(r) => r,
            Err(e) => return fail("file not opened", format!("{}: {e}", what())),
        }
    } else {
        match guard("grid definition", || GridDefinition::from_payload(body.to_vec().into_boxed_slice()).map(|d| (d.num_points(), V::try_from(&d).map_err(|e| err(&e)))))? {
            Ok(r) => r,
            Err(e) => return fail("section rejected", format!("{}: {e:?}", what())),
        }
    };
    ensure!(n == o.four(7), "wrong number of points", "{}: {n}", what());
    let got = match got {
        // a list of numbers of points that is announced, a grid defined elsewhere
        Err(_) if body[0] != 0 || body[5] != 0 || body[6] != 0 => return Ok(0),
        Err(e) => match want {
            None => return Ok(1),
            Some(_) => return fail("definition rejected", format!("{}: {e}", what())),
        },
        Ok(v) => v,
    };
    let units = [0, 40].contains(&t) && o.four(39) != 0 && o.four(43) != u32::MAX;
    if let Some(want) = &want {
        ensure!(got == *want || units && near(&got, want), "wrong field", "{}: {got:?}, not {want:?}", what());
    }
    let name = ["regular_ll", "polar_stereographic", "lambert", "regular_gg"][TEMPLATES.iter().position(|u| *u == t).unwrap()];
    ensure!(got.short_name() == name, "wrong name", "{}: {}", what(), got.short_name());
    let shape = (o.four(31) as usize, o.four(35) as usize);
    ensure!(got.grid_shape() == shape, "wrong shape", "{}: {:?}", what(), got.grid_shape());
    Ok(hash_of(&format!("{got:?}")))
}

/// A body of template `t` filled with some pattern.
fn body(t: u16, fill: usize) -> Vec<u8> {
    let mut b: Vec<u8> = (0..size_of(t))
        .map(|k| match fill {
            0 => (k * 37 + 11) as u8,
            1 => 0,
            2 => 255,
            _ => 0x80 | (k * 7) as u8,
        })
        .collect();
    b[0] = 0;
    b[5] = 0;
    b[6] = 0;
    b[7..9].copy_from_slice(&t.to_be_bytes());
    if fill != 3 && [0, 40].contains(&t) {
        b[33..37].fill(0);
        b[37..41].fill(255);
    }
    b
}

/// Every value of every octet.
fn octets(cx: &mut Ctx) -> Leaf {
    let t = cx.pick(&TEMPLATES);
    let at = cx.choose(size_of(t));
    let fill = cx.choose(4);
    let via_file = cx.flag();
    let mut h = 0;
    for v in 0..=255u8 {
        let mut b = body(t, fill);
        if (7..9).contains(&at) {
            break;
        }
        b[at] = v;
        h ^= judge(t, &b, via_file, || format!("template {t}, filling {fill}, octet {} is {v}", at + 6))?;
    }
    Ok(h)
}

/// Every pair of four-octet numbers, aligned or not, with values at the limits.
fn numbers(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let t = cx.pick(&TEMPLATES);
    let n = size_of(t);
    let at = 9 + cx.choose(n - 12);
    let v = cx.pick(vals);
    let other = cx.flag().then(|| (25 + cx.choose(n - 28), cx.pick(vals)));
    let mut b = body(t, cx.choose(3));
    b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    if let Some((at, v)) = other {
        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
    judge(t, &b, false, || format!("template {t}, {v:#x} from octet {}, {other:x?}", at + 6))
}

/// Sections of every length.
fn lengths(cx: &mut Ctx) -> Leaf {
    let t = cx.pick(&TEMPLATES);
    let n = cx.choose(100);
    let mut b = body(t, cx.choose(3));
    b.resize(n.max(b.len()), 1);
    b.truncate(n);
    let what = format!("template {t}, {n} octets");
    match guard("grid definition", || GridDefinition::from_payload(b.clone().into_boxed_slice()).map(|d| V::try_from(&d).map_err(|e| err(&e))))? {
        Err(_) => {
            ensure!(n < 14, "section rejected", "{what}");
            Ok(0)
        }
        Ok(Err(_)) => {
            ensure!(n < size_of(t) || n > size_of(t), "definition rejected", "{what}");
            Ok(1)
        }
        Ok(Ok(v)) => {
            ensure!(n >= least(t), "definition from a section that is too short", "{what}: {v:?}");
            ensure!(Some(&v) == Octets(&b).values(t).as_ref(), "wrong field", "{what}: {v:?}");
            Ok(2)
        }
    }
}

/// Octets that have no part in where the points are.
fn bystanders(cx: &mut Ctx) -> Leaf {
    let kind = cx.choose(4);
    let mode = cx.pick(&[0u8, 0x40, 0x80, 0x30]);
    let base = grid(kind, 3, 2, 6, mode);
    let t = u16::from_be_bytes([base[7], base[8]]);
    let spare: Vec<usize> = match t {
        // Earth, resolution flags, increments
        0 => (15..31).chain([55]).chain(64..72).collect(),
        40 => (15..31).chain([55]).chain(64..68).collect(),
        // resolution flags
        20 => vec![47],
        // and the pole of the projection
        _ => [47].into_iter().chain(74..82).collect(),
    };
    let want = see_grid(&base)?;
    let at = spare[cx.choose(spare.len())] - 6;
    let v = cx.choose(256) as u8;
    let mut b = base.clone();
    b[at] = v;
    if cx.flag() && at + 4 <= b.len() && spare.contains(&(at + 9)) {
        b[at..at + 4].fill(v);
    }
    let got = see_grid(&b)?;
    ensure!(got == want, "another octet counts", "template {t}, mode {mode:#x}, octet {} is {v}: {got:?}, not {want:?}", at + 6);
    Ok(hash_of(&(kind, at)))
}
fn see_grid(b: &[u8]) -> Result<String, mccore::Fail> {
    let s = see(b.to_vec())?;
    Ok(format!("{:?} {:?} {:?}", s.shape, s.ij, s.latlons))
}

/// Every octet of flags.
fn flags(cx: &mut Ctx) -> Leaf {
    let f = cx.choose(256) as u8;
    let bit = |k: u8| f >> (8 - k) & 1 == 1;
    let c = grib::ProjectionCentreFlag(f);
    let got = guard("flags", || (c.contains_north_pole_on_projection_plane(), c.is_bipolar()))?;
    ensure!(got == (!bit(1), bit(2)), "wrong flags", "projection centre flag {f:#010b}: north pole, bipolar = {got:?}");
    let m = ScanningMode(f);
    let got = guard("flags", || (m.scans_positively_for_i(), m.scans_positively_for_j(), m.is_consecutive_for_i(), m.scans_alternating_rows()))?;
    ensure!(got == (!bit(1), bit(2), !bit(3), bit(4)), "wrong flags", "scanning mode {f:#010b}: positive i, positive j, consecutive i, alternating = {got:?}");
    Ok(f as u64)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every value of every octet of every supported grid definition over several fillings, numbers at the limits at every position, every length; every octet of flags".into();
    rep.explore("octets", 0, octets);
    let vals: &[u32] = rep.tier(
        &[0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX, 0x0102_0304, 90_000_000, 0x8000_0000 | 90_000_000],
        &[0, 1, 2, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX, u32::MAX - 1, 0x0102_0304, 90_000_000, 0x8000_0000 | 90_000_000, 180_000_000, 360_000_000, 0x00ff_00ff, 0xff00_ff00, 1_000_000],
    );
    rep.explore("numbers", 0, |cx| numbers(cx, vals));
    rep.explore("lengths", 0, lengths);
    rep.explore("bystanders", 0, bystanders);
    rep.explore("flags", 0, flags);
    rep.note_assumption("definitions that announce a list of numbers of points without having one, or that a code other than 0 says to be defined elsewhere, may be refused; converted angles may be one microdegree off");
}
