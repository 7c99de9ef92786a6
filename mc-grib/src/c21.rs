//! C21: product attributes.
use crate::msg::*;
use grib::*;
use mccore::{ensure, guard, hash_of, Ctx, Leaf, Report};

pub fn supported(t: u16) -> bool {
    matches!(t, 0..=15 | 20 | 30..=35 | 40..=49 | 51 | 53..=63 | 67 | 68 | 70..=73 | 76..=88 | 91 | 254 | 1000..=1002 | 1100 | 1101)
}

/// Octets (from the start of the template) of the generating process, the unit of the forecast
/// time and the first fixed surface.
pub fn places(t: u16) -> (Option<usize>, Option<usize>, Option<usize>) {
    if !supported(t) {
        return (None, None, None);
    }
    match t {
        0..=15 => (Some(2), Some(8), Some(13)),
        20 | 30 | 31 | 35 => (Some(2), None, None),
        32..=34 => (Some(2), Some(8), None),
        40..=43 => (Some(4), Some(10), Some(15)),
        44 => (Some(15), Some(21), Some(24)),
        45..=47 => (Some(15), Some(21), Some(26)),
        48 | 49 => (Some(26), Some(32), Some(37)),
        51 => (Some(2), Some(8), Some(13)),
        55 | 56 | 59 | 62 | 63 => (Some(8), Some(14), Some(19)),
        60 | 61 => (Some(2), Some(8), Some(13)),
        70..=73 => (Some(7), Some(13), Some(18)),
        76..=79 => (Some(5), Some(11), Some(16)),
        80 | 81 => (Some(27), Some(33), Some(38)),
        82..=84 => (Some(16), Some(22), Some(27)),
        85 => (Some(15), Some(21), Some(26)),
        86 | 87 => (Some(2), Some(8), Some(13)),
        88 => (Some(2), Some(26), Some(5)),
        91 => (Some(2), Some(8), Some(13)),
        1000..=1002 => (Some(2), Some(8), None),
        1100 | 1101 => (Some(2), Some(8), Some(13)),
        _ => (None, None, None), // 53, 54, 57, 58, 67, 68: variable; 254: none of them
    }
}

pub fn signed(b: &[u8]) -> i64 {
    let m = b.iter().fold(0i64, |a, x| a << 8 | *x as i64);
    let top = 1i64 << (8 * b.len() - 1);
    if m & top != 0 {
        -(m - top)
    } else {
        m
    }
}

pub type Surf = (u8, i64, i64);
#[derive(Debug, PartialEq, Eq, Hash, Clone)]
pub struct Attrs {
    pub coords: u16,
    pub tmpl: u16,
    pub category: Option<u8>,
    pub number: Option<u8>,
    pub process: Option<u8>,
    pub time: Option<(u8, u32)>,
    pub surfaces: Option<(Surf, Surf)>,
}

pub fn model(p: &[u8]) -> Attrs {
    let t = u16::from_be_bytes([p[2], p[3]]);
    let (gp, ft, fs) = places(t);
    let at = |k: usize| p.get(4 + k).copied();
    let surf = |k: usize| -> Option<Surf> {
        let b = p.get(4 + k..4 + k + 6)?;
        Some((b[0], signed(&b[1..2]), signed(&b[2..6])))
    };
    let n = if t == 44 { 2 } else { 4 };
    Attrs {
        coords: u16::from_be_bytes([p[0], p[1]]),
        tmpl: t,
        category: if supported(t) { at(0) } else { None },
        number: if supported(t) { at(1) } else { None },
        process: gp.and_then(at),
        time: ft.and_then(|k| {
            let b = p.get(4 + k..4 + k + 1 + n)?;
            Some((b[0], b[1..].iter().fold(0u32, |a, x| a << 8 | *x as u32)))
        }),
        surfaces: fs.and_then(|k| surf(k).zip(surf(k + 6))),
    }
}

pub fn unit_code(u: &Code<codetables::grib2::Table4_4, u8>) -> u8 {
    use codetables::grib2::Table4_4::*;
    match u {
        Name(n) => match n {
            Minute => 0,
            Hour => 1,
            Day => 2,
            Month => 3,
            Year => 4,
            Decade => 5,
            Normal => 6,
            Century => 7,
            ThreeHours => 10,
            SixHours => 11,
            TwelveHours => 12,
            Second => 13,
            Missing => 255,
        },
        Num(n) => *n,
    }
}

pub fn seen(d: &ProdDefinition) -> Attrs {
    let s = |s: &FixedSurface| (s.surface_type, s.scale_factor as i64, s.scaled_value as i64);
    Attrs {
        coords: d.num_coordinates(),
        tmpl: d.prod_tmpl_num(),
        category: d.parameter_category(),
        number: d.parameter_number(),
        process: d.generating_process(),
        time: d.forecast_time().map(|t| (unit_code(&t.unit), t.value)),
        surfaces: d.fixed_surfaces().map(|(a, b)| (s(&a), s(&b))),
    }
}

fn compare(p: &[u8], via_file: bool) -> Leaf {
    let want = model(p);
    let got = if via_file {
        let file = one(Sub { s2: None, s3: Some(small_grid(1, 1)), s4: p.to_vec(), s5: repr(1, 0, 0.0, 0, 0, 0), s6: no_bitmap(), s7: vec![] }).bytes();
        guard("product attributes", || {
            let g = grib::from_slice(&file).map_err(|e| crate::obs::err(&e))?;
            let (_, s) = g.iter().next().ok_or("no submessage")?;
            Ok::<_, String>(seen(s.prod_def()))
        })?
    } else {
        let b: Box<[u8]> = p.into();
        guard("product attributes", || ProdDefinition::from_payload(b).map(|d| seen(&d)).map_err(|e| format!("{e:?}")))?
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return mccore::fail("a product definition is not read", format!("{p:?}: {e}")),
    };
    ensure!(got == want, differing(&got, &want), "template {}, {} octets {p:?}: {got:?}, not {want:?}", want.tmpl, p.len());
    Ok(hash_of(&got))
}

fn differing(a: &Attrs, b: &Attrs) -> String {
    let mut s = String::from("wrong");
    for (n, d) in [
        ("number of coordinates", a.coords != b.coords),
        ("template number", a.tmpl != b.tmpl),
        ("category", a.category != b.category),
        ("number", a.number != b.number),
        ("generating process", a.process != b.process),
        ("forecast time", a.time != b.time),
        ("surfaces", a.surfaces != b.surfaces),
    ] {
        if d {
            s += " ";
            s += n;
        }
    }
    s
}

/// A payload whose octets are all different from each other.
fn payload(t: u16, len: usize, fill: usize) -> Vec<u8> {
    (0..len)
        .map(|k| match k {
            2 => (t >> 8) as u8,
            3 => t as u8,
            _ => match fill {
                0 => (k * 7 + 3) as u8 % 251,
                1 => 255 - k as u8,
                2 => 0,
                3 => 255,
                _ => (k * 31 + fill * 17) as u8,
            },
        })
        .collect()
}

/// Every template number with every length of the section.
fn lengths(cx: &mut Ctx, fills: usize) -> Leaf {
    let t = cx.choose(65536) as u16;
    let fill = cx.choose(fills);
    let mut h = 0;
    for len in 4..=96 {
        h = hash_of(&(h, compare(&payload(t, len, fill), false)?));
    }
    Ok(h)
}

const LIST: [u16; 80] = {
    let mut l = [0u16; 80];
    let mut n = 0;
    let mut t = 0u16;
    while t <= 1101 {
        let s = matches!(t, 0..=15 | 20 | 30..=35 | 40..=49 | 51 | 53..=63 | 67 | 68 | 70..=73 | 76..=88 | 91 | 254 | 1000..=1002 | 1100 | 1101);
        if s {
            l[n] = t;
            n += 1;
        }
        t += 1;
    }
    // Templates that are not supported.
    let extra = [16u16, 50, 52, 90, 255, 1003, 1099, 32768, 65535];
    let mut k = 0;
    while n < 80 {
        l[n] = extra[k];
        n += 1;
        k += 1;
    }
    l
};

/// Every octet of a long section, with every value.
fn octets(cx: &mut Ctx) -> Leaf {
    let t = cx.pick(&LIST);
    let pos = cx.choose(92);
    let via_file = cx.flag();
    let mut p = payload(t, 96, 0);
    let pos = if pos < 2 { pos } else { pos + 2 };
    let mut h = 0;
    for v in 0..=255 {
        p[pos] = v;
        h = hash_of(&(h, compare(&p, via_file)?));
    }
    Ok(h)
}

/// Two octets at a time (missing markers among them).
fn pairs(cx: &mut Ctx, vals: &[u8]) -> Leaf {
    let t = cx.pick(&LIST);
    let a = 4 + cx.choose(60);
    let b = 4 + cx.choose(60);
    let mut p = payload(t, 66, 1);
    let mut h = 0;
    for x in vals {
        for y in vals {
            p[a] = *x;
            p[b] = *y;
            h = hash_of(&(h, compare(&p, false)?));
        }
    }
    Ok(h)
}

/// Runs of equal octets, aligned in every way: fields made of sign bits, zeros and ones.
fn runs(cx: &mut Ctx) -> Leaf {
    let t = cx.pick(&LIST);
    let start = 4 + cx.choose(60);
    let via_file = cx.flag();
    let mut h = 0;
    for len in 1..=12 {
        for (head, v) in [(0u8, 0u8), (0x80, 0), (0x80, 1), (0x7f, 0xff), (0xff, 0xff), (0xff, 0), (1, 0)] {
            let mut p = payload(t, 80, 0);
            for k in 0..len {
                p[start + k] = if k == 0 { head } else { v };
            }
            h = hash_of(&(h, compare(&p, via_file)?));
        }
    }
    Ok(h)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every template number with every section length of 4 to 96 octets (after the section header); every value of every octet of every supported template; pairs of octets; through the section type and through files; against the octet numbers of the template definitions".into();
    rep.note_assumption("the octet numbers are the harness's own copy of the definition tables");
    let fills = rep.tier(2, 5);
    rep.explore("lengths", 0, |cx| lengths(cx, fills));
    rep.explore("octets", 0, octets);
    let v: &[u8] = rep.tier(&[0u8, 0x81, 0xff][..], &[0u8, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff][..]);
    rep.explore("pairs", 0, |cx| pairs(cx, v));
    rep.explore("runs", 0, runs);
}
