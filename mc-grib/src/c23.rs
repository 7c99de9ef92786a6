//! C23: signed numbers, missing markers and units.
use crate::{c21::signed, dec, enc, msg::*};
use grib::*;
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

/// Patterns with at most `k` bits away from all zeros or all ones.
fn patterns(k: u32) -> Vec<u32> {
    let mut v = vec![0u32];
    let mut level = vec![0u32];
    for _ in 0..k {
        let mut next = vec![];
        for x in &level {
            for b in 0..32 {
                if 1u32 << b > *x {
                    next.push(x | 1 << b);
                }
            }
        }
        v.extend(&next);
        level = next;
    }
    let inv: Vec<u32> = v.iter().map(|x| !x).collect();
    v.extend(inv);
    v.extend([123_456_789, 0x8000_0001 + 85_000, 85_000, 0xdead_beef, 0x5555_5555, 0xaaaa_aaaa]);
    v.sort();
    v.dedup();
    v
}

fn unit_of(t: u8) -> Option<&'static str> {
    Some(match t {
        11 | 12 | 26 | 27 | 30 | 102 | 103 | 106 | 117 | 160 | 161 => "m",
        13 => "%",
        18 | 100 | 108 => "Pa",
        20 | 107 | 170 => "K",
        21 | 22 | 169 => "kg m-3",
        23 | 24 => "Bq m-3",
        25 => "dBZ",
        104 => "\"sigma\" value",
        109 => "K m2 kg-1 s-1",
        114 | 151 | 152 | 168 => "Numeric",
        171 => "m2 s-1",
        _ => return None,
    })
}

/// One surface as a section holds it.
fn check_surface(raw: [u8; 6], second: bool, full: bool) -> Result<(), mccore::Fail> {
    let mut p = prod(3, 5, 6, (1, 0, 1), (2, 0, 2));
    let at = if second { 23 } else { 17 };
    p[at..at + 6].copy_from_slice(&raw);
    let b: Box<[u8]> = p.into();
    let got = guard("a surface", || {
        let (a, c) = ProdDefinition::from_payload(b).ok()?.fixed_surfaces()?;
        let s = if second { c } else { a };
        let d = if full { Some((s.describe(), s.unit().map(str::to_string), s.scale_factor_is_nan(), s.value_is_nan())) } else { None };
        Some(((s.surface_type, s.scale_factor as i64, s.scaled_value as i64), s.value(), d))
    })?;
    let Some((f, value, d)) = got else { return fail("a surface is not read", format!("{raw:?}")) };
    let sf = signed(&raw[1..2]);
    let sv = signed(&raw[2..]);
    ensure!(f == (raw[0], sf, sv), "wrong signed number", "{raw:?}: {f:?}, not {:?}", (raw[0], sf, sv));
    let missing = raw[2..] == [0xff; 4];
    if missing {
        ensure!(value.is_nan(), "missing value has a number", "{raw:?}: {value}");
    } else {
        let want = sv as f64 * 10f64.powi(-sf as i32);
        ensure!((value - want).abs() <= 1e-12 * want.abs(), "wrong surface value", "{raw:?}: {value}, not {want}");
    }
    if let Some((d, unit, sn, vn)) = d {
        ensure!(sn == (raw[1] == 0xff) && vn == missing, "wrong missing markers", "{raw:?}: {sn}, {vn}");
        let text = |m: bool, v: i64| if m { "Missing".to_string() } else { v.to_string() };
        ensure!(d.1 == text(raw[1] == 0xff, sf) && d.2 == text(missing, sv), "wrong surface text", "{raw:?}: {d:?}");
        ensure!(unit.as_deref() == unit_of(raw[0]), "wrong surface unit", "{raw:?}: {unit:?}");
    }
    Ok(())
}

/// All types and scale factors with boundary values, both surfaces.
fn surfaces(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let sf = cx.choose(256) as u8;
    let second = cx.flag();
    let ty = cx.pick(&[0u8, 1, 100, 103, 255]);
    for v in vals {
        let b = v.to_be_bytes();
        check_surface([ty, sf, b[0], b[1], b[2], b[3]], second, true)?;
    }
    Ok(0)
}
fn types(cx: &mut Ctx) -> Leaf {
    let ty = cx.choose(256) as u8;
    let second = cx.flag();
    for sf in 0..=255u8 {
        for v in [0u32, 1, 0x8000_0000, 0x8000_0001, 850, u32::MAX, u32::MAX - 1] {
            let b = v.to_be_bytes();
            check_surface([ty, sf, b[0], b[1], b[2], b[3]], second, true)?;
        }
    }
    Ok(0)
}
/// Every 32-bit pattern (thorough) or every pattern of the upper half with boundary lower halves.
fn whole(cx: &mut Ctx, all: bool) -> Leaf {
    let hi = cx.choose(65536) as u32;
    let run = |lo: u32| {
        let v = (hi << 16 | lo).to_be_bytes();
        check_surface([103, 2, v[0], v[1], v[2], v[3]], false, false)
    };
    if all {
        for lo in 0..65536 {
            run(lo)?;
        }
    } else {
        for lo in [0u32, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff] {
            run(lo)?;
        }
    }
    Ok(0)
}

/// Values built directly.
fn direct(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let sf = cx.choose(256) as u8 as i8;
    for v in vals {
        let v = *v as i32;
        let got = guard("a surface", || {
            let s = FixedSurface::new(100, sf, v);
            (s.value(), s.describe())
        })?;
        // i32::MIN + 1 is what all set bits are read as.
        if v == i32::MIN + 1 {
            ensure!(got.0.is_nan() && got.1 .2 == "Missing", "missing value has a number", "{sf} {v}: {got:?}");
        } else {
            let want = v as f64 * 10f64.powi(-(sf as i32));
            ensure!((got.0 - want).abs() <= 1e-12 * want.abs() && got.1 .2 == v.to_string(), "wrong surface value", "{sf} {v}: {got:?}, not {want}");
        }
        let t = if sf == -127 { "Missing".to_string() } else { sf.to_string() };
        ensure!(got.1 .1 == t, "wrong surface text", "{sf} {v}: {got:?}");
    }
    Ok(0)
}

/// All unit codes.
fn times(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let unit = cx.choose(256) as u8;
    let via_file = cx.flag();
    let (name, expr): (&str, Option<&str>) = match unit {
        0 => ("Minute", Some("m")),
        1 => ("Hour", Some("h")),
        2 => ("Day", Some("D")),
        3 => ("Month", Some("M")),
        4 => ("Year", Some("Y")),
        5 => ("Decade", Some("10Y")),
        6 => ("Normal", Some("30Y")),
        7 => ("Century", Some("C")),
        10 => ("ThreeHours", Some("3h")),
        11 => ("SixHours", Some("6h")),
        12 => ("TwelveHours", Some("12h")),
        13 => ("Second", Some("s")),
        255 => ("Missing", None),
        _ => ("", None),
    };
    for v in vals {
        let want = (
            *v,
            unit,
            match (name, expr) {
                ("", _) => format!("{v} [unit: {unit}]"),
                (_, Some(e)) => format!("{v} [{e}]"),
                _ => format!("{v}"),
            },
            if name.is_empty() { format!("code {unit}") } else { name.to_string() },
            v.to_string(),
        );
        let got = guard("a forecast time", || {
            let t = if via_file {
                let mut p = prod(3, 5, *v, (1, 0, 1), (2, 0, 2));
                p[12] = unit;
                ProdDefinition::from_payload(p.into()).ok()?.forecast_time()?
            } else {
                ForecastTime::from_numbers(unit, *v)
            };
            let d = t.describe();
            Some((t.value, crate::c21::unit_code(&t.unit), t.to_string(), d.0, d.1))
        })?;
        ensure!(got.as_ref() == Some(&want), "wrong forecast time", "unit {unit}: {got:?}, not {want:?}");
    }
    Ok(0)
}

/// Every 16-bit binary or decimal scale factor, by what a field decodes to.
fn factors(cx: &mut Ctx) -> Leaf {
    let which = cx.choose(2);
    let tmpl = cx.pick(&[0u16, 2]);
    let raw = cx.choose(65536) as u16;
    let v = signed(&raw.to_be_bytes());
    // A value 1 * 2^E * 10^-D; the other factor is zero.
    let (e, d) = if which == 0 { (v, 0) } else { (0, v) };
    let exact = if which == 0 { 2f64.powi(v as i32) } else { 10f64.powi(-v as i32) };
    if exact > 1e37 || (exact != 0.0 && exact < 1e-37) {
        return Ok(0); // beyond single precision
    }
    let sc = dec::Scale { r: 0.0, e, d };
    let mut sub = match tmpl {
        0 => dec::sub(2, repr(2, 0, 0.0, 0, 0, 8), vec![1, 3]),
        _ => {
            let c = enc::Complex::fit(2, 0, vec![enc::Group { width: 2, reff: 0, vals: vec![1, 3] }], 0, 1, 1);
            let (s5, s7) = c.t2(0.0, 0, 0);
            dec::sub(2, s5, s7)
        }
    };
    let at = if which == 0 { 10 } else { 12 };
    sub.s5[at..at + 2].copy_from_slice(&raw.to_be_bytes());
    dec::judge(sc, &[Some(1.0), Some(3.0)], sub, || format!("factor {raw:#06x}, template {tmpl}, place {which}"))
}

/// Every signed and unsigned number of the four grid templates.
fn grids(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let tmpl = cx.pick(&[0u16, 40, 20, 30]);
    // (offset in the section, signed)
    let fields: &[(usize, bool)] = match tmpl {
        0 => &[(25, false), (29, false), (41, true), (45, true), (50, true), (54, true)],
        40 => &[(25, false), (29, false), (41, true), (45, true), (50, true), (54, true), (58, false), (62, false)],
        20 => &[(25, false), (29, false), (33, true), (37, true), (42, true), (46, true), (50, false), (54, false)],
        _ => &[(25, false), (29, false), (33, true), (37, true), (42, true), (46, true), (50, false), (54, false), (60, true), (64, true)],
    };
    let k = cx.choose(fields.len());
    let mut b = match tmpl {
        0 | 40 => {
            let g = LatLon { ni: 7, nj: 6, num: 42, first: (-1, 2), last: (3, -4), mode: 0x40 };
            if tmpl == 0 {
                grid_latlon(&g)
            } else {
                grid_gaussian(&g)
            }
        }
        20 => grid_polar(6, 5, 4, 20, (-11, 12), 13, -14, (15, 16), 0x80, 0x50),
        _ => grid_lambert(6, 5, 4, 20, (-11, 12), 13, -14, (15, 16), 0, 0x50, (-17, 18)),
    };
    for v in vals {
        b[fields[k].0..fields[k].0 + 4].copy_from_slice(&v.to_be_bytes());
        let want: Vec<i64> = fields
            .iter()
            .map(|(o, s)| if *s { signed(&b[*o..*o + 4]) } else { u32::from_be_bytes(b[*o..*o + 4].try_into().unwrap()) as i64 })
            .collect();
        let p: Box<[u8]> = b.clone().into();
        let got = guard("a grid definition", || {
            let d = GridDefinition::from_payload(p).map_err(|e| format!("{e:?}"))?;
            let t = GridDefinitionTemplateValues::try_from(&d).map_err(|e| format!("{e:?}"))?;
            Ok::<Vec<i64>, String>(match t {
                GridDefinitionTemplateValues::Template0(d) => {
                    vec![d.ni as i64, d.nj as i64, d.first_point_lat as i64, d.first_point_lon as i64, d.last_point_lat as i64, d.last_point_lon as i64]
                }
                GridDefinitionTemplateValues::Template40(d) => {
                    vec![d.ni as i64, d.nj as i64, d.first_point_lat as i64, d.first_point_lon as i64, d.last_point_lat as i64, d.last_point_lon as i64, d.i_direction_inc as i64, d.n as i64]
                }
                GridDefinitionTemplateValues::Template20(d) => {
                    vec![d.ni as i64, d.nj as i64, d.first_point_lat as i64, d.first_point_lon as i64, d.lad as i64, d.lov as i64, d.dx as i64, d.dy as i64]
                }
                GridDefinitionTemplateValues::Template30(d) => {
                    vec![d.ni as i64, d.nj as i64, d.first_point_lat as i64, d.first_point_lon as i64, d.lad as i64, d.lov as i64, d.dx as i64, d.dy as i64, d.latin1 as i64, d.latin2 as i64]
                }
            })
        })?;
        ensure!(got.as_ref() == Ok(&want), "wrong grid parameters", "template {tmpl}, octet {} = {v:#010x}: {got:?}, not {want:?}", fields[k].0);
    }
    Ok(0)
}

/// Differencing descriptors of one to four octets: first values and minimum.
fn descriptors(cx: &mut Ctx, vals: &[u32]) -> Leaf {
    let octets = cx.choose(4) + 1;
    let order = cx.choose(2) + 1;
    let place = cx.choose(order + 1);
    let n = order + 2;
    let mut h = 0;
    let space: Vec<u32> = if octets == 1 {
        (0..256).collect()
    } else if octets == 2 {
        (0..65536).collect()
    } else {
        let m = if octets == 3 { 0xff_ffff } else { u32::MAX };
        let mut v: Vec<u32> = vals.iter().map(|x| x & m).collect();
        if octets == 3 {
            v.extend(vals.iter().map(|x| x >> 8));
        }
        v.sort();
        v.dedup();
        v
    };
    for raw in space {
        let x = signed(&raw.to_be_bytes()[4 - octets..]);
        // Everything has to fit in 32 bits.
        if x.abs() > 300_000_000 {
            continue;
        }
        let mut desc = vec![1i64; order + 1];
        desc[place] = x;
        let (firsts, min) = desc.split_at(order);
        let c = enc::Complex::fit(2, 0, vec![enc::Group { width: 2, reff: 0, vals: vec![0; order].into_iter().chain([1, 2]).collect() }], 0, 1, 1);
        let (s5, mut s7) = c.t3(0.0, 0, 0, order as u8, octets, firsts, min[0]);
        // The very octets (a negative zero among them).
        s7[place * octets..(place + 1) * octets].copy_from_slice(&raw.to_be_bytes()[4 - octets..]);
        let mut want: Vec<i64> = firsts.to_vec();
        for k in order..n {
            let g = min[0] + [1, 2][k - order];
            let v = if order == 1 { want[k - 1] + g } else { 2 * want[k - 1] - want[k - 2] + g };
            want.push(v);
        }
        if want.iter().any(|v| v.abs() > i32::MAX as i64) {
            continue;
        }
        let want: Vec<Option<f64>> = want.iter().map(|v| Some(*v as f64)).collect();
        let sc = dec::Scale { r: 0.0, e: 0, d: 0 };
        h = hash_of(&(h, dec::judge(sc, &want, dec::sub(n, s5, s7), || format!("{octets} octets, order {order}, place {place}, {raw:#x}"))?));
    }
    Ok(h)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every scale-factor octet and surface type; 32-bit patterns (all of them in the thorough tier); every 16-bit binary and decimal scale factor whose result single precision can hold; every unit code; every number of the four grid templates; all one- and two-octet and boundary three- and four-octet differencing descriptors".into();
    let small = patterns(1);
    let big = patterns(rep.tier(2, 3));
    rep.explore("surfaces", 0, |cx| surfaces(cx, &small));
    rep.explore("types", 0, types);
    let all = !rep.quick();
    rep.explore("whole", 0, |cx| whole(cx, all));
    rep.explore("direct", 0, |cx| direct(cx, &big));
    rep.explore("times", 0, |cx| times(cx, &big));
    rep.explore("factors", 0, factors);
    rep.explore("grids", 0, |cx| grids(cx, &big));
    rep.explore("descriptors", 0, |cx| descriptors(cx, &big));
}
