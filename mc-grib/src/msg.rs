//! Builds GRIB2 files octet by octet (independently of the code under test).

pub fn sect(num: u8, body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 5) as u32).to_be_bytes().to_vec();
    v.push(num);
    v.extend_from_slice(body);
    v
}

/// A sign-and-magnitude number of `n` octets.
pub fn sm(v: i64, n: usize) -> Vec<u8> {
    let m = v.unsigned_abs().to_be_bytes();
    assert!(n >= 8 || v.unsigned_abs() < 1 << (8 * n - 1));
    let mut b = vec![0; n.saturating_sub(8)];
    b.extend(&m[8 - n.min(8)..]);
    if v < 0 {
        b[0] |= 0x80;
    }
    b
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub s2: Option<Vec<u8>>,
    pub s3: Option<Vec<u8>>,
    pub s4: Vec<u8>,
    pub s5: Vec<u8>,
    pub s6: Vec<u8>,
    pub s7: Vec<u8>,
}

/// Bodies (without the five header octets) of all sections of a message.
#[derive(Clone, Debug)]
pub struct Msg {
    pub discipline: u8,
    pub s1: Vec<u8>,
    pub subs: Vec<Sub>,
}

impl Msg {
    pub fn sections(&self) -> Vec<(u8, Vec<u8>)> {
        let mut v: Vec<(u8, Vec<u8>)> = vec![(1, self.s1.clone())];
        for s in &self.subs {
            if let Some(b) = &s.s2 {
                v.push((2, b.clone()));
            }
            if let Some(b) = &s.s3 {
                v.push((3, b.clone()));
            }
            v.push((4, s.s4.clone()));
            v.push((5, s.s5.clone()));
            v.push((6, s.s6.clone()));
            v.push((7, s.s7.clone()));
        }
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        from_sections(self.discipline, &self.sections())
    }
}

pub fn sec0(discipline: u8, total: u64) -> Vec<u8> {
    let mut v = b"GRIB".to_vec();
    v.extend_from_slice(&[0xff, 0xff, discipline, 2]);
    v.extend_from_slice(&total.to_be_bytes());
    v
}

pub fn from_sections(discipline: u8, sections: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let total: usize = 16 + 4 + sections.iter().map(|s| 5 + s.1.len()).sum::<usize>();
    let mut v = sec0(discipline, total as u64);
    for (n, b) in sections {
        v.extend(sect(*n, b));
    }
    v.extend_from_slice(b"7777");
    v
}

pub fn ident() -> Vec<u8> {
    let mut v = vec![0, 34, 0, 7, 5, 1, 1];
    v.extend_from_slice(&2024u16.to_be_bytes());
    v.extend_from_slice(&[2, 29, 12, 30, 15, 0, 1]);
    v
}

pub struct LatLon {
    pub ni: u32,
    pub nj: u32,
    pub num: u32,
    pub first: (i64, i64),
    pub last: (i64, i64),
    pub mode: u8,
}

/// Section 3 body for template 3.0 (or 3.40 with `n` parallels).
pub fn grid_latlon(g: &LatLon) -> Vec<u8> {
    grid_regular(g, 0, 0xffff_ffff)
}
pub fn grid_gaussian(g: &LatLon) -> Vec<u8> {
    grid_regular(g, 40, g.nj / 2)
}
/// The first rows of a Gaussian grid of the least number of parallels that has as many.
pub fn grid_gaussian_rows(ni: u32, nj: u32, num: u32, lons: (i64, i64), mode: u8) -> Vec<u8> {
    let total = nj + nj % 2;
    let lat = |k: u32| ((90.0 - (k as f64 + 0.75) * 180.0 / (total as f64 + 0.5)) * 1e6).round() as i64;
    let (a, b) = (lat(0), lat(nj.max(1) - 1));
    let (a, b) = if mode & 0x40 != 0 { (b, a) } else { (a, b) };
    grid_gaussian_of(&LatLon { ni, nj, num, first: (a, lons.0), last: (b, lons.1), mode }, total / 2)
}
/// A Gaussian grid that has some of the `2 * n` parallels only.
pub fn grid_gaussian_of(g: &LatLon, n: u32) -> Vec<u8> {
    grid_regular(g, 40, n)
}
/// The same body, with angles in units of `basic / subdivisions` degrees.
pub fn in_units(mut s3: Vec<u8>, basic: u32, subdivisions: u32) -> Vec<u8> {
    s3[33..37].copy_from_slice(&basic.to_be_bytes());
    s3[37..41].copy_from_slice(&subdivisions.to_be_bytes());
    s3
}
fn grid_regular(g: &LatLon, tmpl: u16, dj: u32) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(g.num.to_be_bytes());
    v.extend([0, 0]);
    v.extend(tmpl.to_be_bytes());
    v.push(6); // shape of the Earth
    v.push(0xff);
    v.extend([0xff; 4]);
    v.push(0xff);
    v.extend([0xff; 4]);
    v.push(0xff);
    v.extend([0xff; 4]);
    v.extend(g.ni.to_be_bytes());
    v.extend(g.nj.to_be_bytes());
    v.extend([0, 0, 0, 0]);
    v.extend([0xff; 4]);
    v.extend(sm(g.first.0, 4));
    v.extend(sm(g.first.1, 4));
    v.push(0x30);
    v.extend(sm(g.last.0, 4));
    v.extend(sm(g.last.1, 4));
    v.extend([0xff; 4]);
    v.extend(dj.to_be_bytes());
    v.push(g.mode);
    assert_eq!(v.len(), 67);
    v
}

pub fn small_grid(ni: u32, nj: u32) -> Vec<u8> {
    grid_latlon(&LatLon {
        ni,
        nj,
        num: ni * nj,
        first: (10_000_000, 100_000_000),
        last: (
            10_000_000 - 1_000_000 * (nj as i64 - 1),
            100_000_000 + 1_000_000 * (ni as i64 - 1),
        ),
        mode: 0,
    })
}

/// A grid of a template without coordinates support.
pub fn grid_unsupported(num: u32, tmpl: u16) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(num.to_be_bytes());
    v.extend([0, 0]);
    v.extend(tmpl.to_be_bytes());
    v.extend([6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    v.extend([1; 20]);
    v
}

fn earth(shape: u8) -> Vec<u8> {
    let mut v = vec![shape, 0xff];
    v.extend([0xff; 4]);
    v.push(0xff);
    v.extend([0xff; 4]);
    v.push(0xff);
    v.extend([0xff; 4]);
    v
}

#[allow(clippy::too_many_arguments)]
pub fn grid_lambert(shape: u8, ni: u32, nj: u32, num: u32, first: (i64, i64), lad: i64, lov: i64, d: (u32, u32), flag: u8, mode: u8, latin: (i64, i64)) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(num.to_be_bytes());
    v.extend([0, 0, 0, 30]);
    v.extend(earth(shape));
    v.extend(ni.to_be_bytes());
    v.extend(nj.to_be_bytes());
    v.extend(sm(first.0, 4));
    v.extend(sm(first.1, 4));
    v.push(0x08);
    v.extend(sm(lad, 4));
    v.extend(sm(lov, 4));
    v.extend(d.0.to_be_bytes());
    v.extend(d.1.to_be_bytes());
    v.push(flag);
    v.push(mode);
    v.extend(sm(latin.0, 4));
    v.extend(sm(latin.1, 4));
    v.extend(sm(-90_000_000, 4));
    v.extend(sm(0, 4));
    assert_eq!(v.len(), 76);
    v
}

#[allow(clippy::too_many_arguments)]
pub fn grid_polar(shape: u8, ni: u32, nj: u32, num: u32, first: (i64, i64), lad: i64, lov: i64, d: (u32, u32), flag: u8, mode: u8) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(num.to_be_bytes());
    v.extend([0, 0, 0, 20]);
    v.extend(earth(shape));
    v.extend(ni.to_be_bytes());
    v.extend(nj.to_be_bytes());
    v.extend(sm(first.0, 4));
    v.extend(sm(first.1, 4));
    v.push(0x08);
    v.extend(sm(lad, 4));
    v.extend(sm(lov, 4));
    v.extend(d.0.to_be_bytes());
    v.extend(d.1.to_be_bytes());
    v.push(flag);
    v.push(mode);
    assert_eq!(v.len(), 60);
    v
}

/// Section 4 body, template 4.0.
pub fn prod(category: u8, number: u8, ft: u32, first: (u8, i64, i64), second: (u8, i64, i64)) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 0, category, number, 2, 0, 31, 0, 0, 0, 1];
    v.extend(ft.to_be_bytes());
    v.push(first.0);
    v.extend(sm(first.1, 1));
    v.extend(sm(first.2, 4));
    v.push(second.0);
    v.extend(sm(second.1, 1));
    v.extend(sm(second.2, 4));
    assert_eq!(v.len(), 29);
    v
}
pub fn prod_default() -> Vec<u8> {
    prod(3, 5, 6, (100, -2, 850), (255, -127, -0x7fff_ffff))
}

/// The first part of every Section 5 body: number of points, template, R, E, D, width, type.
pub fn repr(n: u32, tmpl: u16, r: f32, e: i64, d: i64, nbit: u8) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend(tmpl.to_be_bytes());
    v.extend(r.to_be_bytes());
    v.extend(sm(e, 2));
    v.extend(sm(d, 2));
    v.push(nbit);
    v.push(0);
    v
}

pub fn no_bitmap() -> Vec<u8> {
    vec![255]
}
pub fn bitmap(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(pack_bits(bits.iter().map(|b| (*b as u64, 1))));
    v
}

/// Packs (value, width) fields most significant bit first, padding the last octet with zeros.
pub fn pack_bits(fields: impl IntoIterator<Item = (u64, u32)>) -> Vec<u8> {
    let mut w = BitWriter::default();
    for (v, n) in fields {
        w.put(v, n);
    }
    w.bytes
}

#[derive(Default, Clone)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    used: u32,
}
impl BitWriter {
    pub fn put(&mut self, v: u64, n: u32) {
        for k in (0..n).rev() {
            if self.used == 0 {
                self.bytes.push(0);
            }
            let bit = v.checked_shr(k).unwrap_or(0) & 1;
            *self.bytes.last_mut().unwrap() |= (bit as u8) << (7 - self.used);
            self.used = (self.used + 1) % 8;
        }
    }
    pub fn align(&mut self) {
        self.used = 0;
    }
}

/// A simple-packed submessage of octet values.
pub fn sub_simple8(grid: Option<Vec<u8>>, vals: &[u8]) -> Sub {
    Sub {
        s2: None,
        s3: grid,
        s4: prod_default(),
        s5: repr(vals.len() as u32, 0, 1.0, 0, 0, 8),
        s6: no_bitmap(),
        s7: vals.to_vec(),
    }
}

pub fn one(sub: Sub) -> Msg {
    Msg {
        discipline: 0,
        s1: ident(),
        subs: vec![sub],
    }
}

impl LatLon {
    pub fn sized(mut self) -> Self {
        self.num = self.ni * self.nj;
        self
    }
}
