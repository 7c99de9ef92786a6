//! C22: identification, header fields and parameters.
use crate::{msg::*, obs};
use grib::{codetables::NCEP, *};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

fn ident_with(f: impl Fn(&mut Vec<u8>)) -> Vec<u8> {
    let mut v = ident();
    f(&mut v);
    v
}

/// Days since 1970-01-01, counted by whole years and months.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    // Leap days before year y, from year 1.
    let upto = |y: i64| (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400;
    n += (y - 1970) * 365 + upto(y) - upto(1970);
    for k in 1..m {
        n += month_len(k, leap(y));
    }
    n + d - 1
}
fn month_len(m: i64, leap: bool) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap => 29,
        2 => 28,
        _ => 0,
    }
}
/// Seconds since 1970, or None when there is no such date or time.
fn time(f: [i64; 6]) -> Option<i64> {
    let [y, mo, d, h, mi, s] = f;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    if !(1..=12).contains(&mo) || d < 1 || d > month_len(mo, leap) || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    Some(days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s)
}

fn check_time(f: [i64; 6]) -> Leaf {
    let mut b = ident();
    b[7..9].copy_from_slice(&(f[0] as u16).to_be_bytes());
    for k in 1..6 {
        b[8 + k] = f[k] as u8;
    }
    let b: Box<[u8]> = b.into();
    let got = guard("the reference time", || Identification::from_payload(b).map_err(|_| ()).map(|i| i.ref_time().map(|t| t.timestamp()).map_err(|e| obs::err(&e))))?;
    let Ok(got) = got else { return fail("identification is not read", format!("{f:?}")) };
    match (time(f), &got) {
        (Some(w), Ok(g)) => ensure!(w == *g, "wrong reference time", "{f:?}: {g}, not {w}"),
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return fail("existing time is an error", format!("{f:?}: {e}")),
        (None, Ok(g)) => return fail("time that does not exist is accepted", format!("{f:?}: {g}")),
    }
    Ok(hash_of(&got.is_ok()))
}

const YEARS: [i64; 24] = [1, 4, 99, 100, 400, 1582, 1600, 1700, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9999, 32768, 65535];

/// Every month and day octet.
fn dates(cx: &mut Ctx) -> Leaf {
    let y = cx.pick(&YEARS);
    let m = cx.choose(256) as i64;
    for d in 0..256 {
        check_time([y, m, d, 23, 59, 59])?;
        check_time([y, m, d, 0, 0, 0])?;
    }
    Ok(0)
}

/// Every year from 1 with its boundary dates.
fn years(cx: &mut Ctx) -> Leaf {
    let y = 1 + cx.choose(65535) as i64;
    for m in 0..=13 {
        for d in [0, 1, 28, 29, 30, 31, 32] {
            check_time([y, m, d, 12, 30, 15])?;
        }
    }
    Ok(0)
}

/// Every hour, minute and second octet (60 seconds left out).
fn clock(cx: &mut Ctx, all: bool) -> Leaf {
    let h = cx.choose(256) as i64;
    let m = cx.choose(256) as i64;
    for s in 0..256 {
        if s != 60 && (all || [0, 1, 29, 30, 31, 58, 59, 61, 127, 128, 255].contains(&s)) {
            check_time([2024, 2, 29, h, m, s])?;
        }
    }
    Ok(0)
}

/// Every octet of the identification section.
fn identification(cx: &mut Ctx) -> Leaf {
    let pos = cx.choose(16);
    let v = cx.choose(256) as u8;
    let extra = cx.pick(&[0usize, 1, 6]);
    let via_file = cx.flag();
    let fill = cx.flag();
    let mut b = if fill { (0..16).map(|k| 0xf0 - 7 * k as u8).collect() } else { ident() };
    b[pos] = v;
    b.extend(std::iter::repeat_n(0xaa, extra));
    let want = (
        u16::from_be_bytes([b[0], b[1]]),
        u16::from_be_bytes([b[2], b[3]]),
        b[4],
        b[5],
        b[6],
        b[14],
        b[15],
        {
            let f = [b[7] as i64 * 256 + b[8] as i64, b[9] as i64, b[10] as i64, b[11] as i64, b[12] as i64, b[13] as i64];
            if f[0] == 0 || f[5] == 60 {
                None
            } else {
                Some(time(f))
            }
        },
    );
    let look = |i: &Identification| {
        (
            i.centre_id(),
            i.subcentre_id(),
            i.master_table_version(),
            i.local_table_version(),
            i.ref_time_significance(),
            i.prod_status(),
            i.data_type(),
            want.7.map(|_| i.ref_time().ok().map(|t| t.timestamp())),
        )
    };
    let what = format!("{b:?}");
    let got = if via_file {
        let mut m = one(sub_simple8(Some(small_grid(1, 1)), &[7]));
        m.s1 = b;
        let file = m.bytes();
        guard("identification", || {
            let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
            let (_, s) = g.iter().next().ok_or("no submessage")?;
            match s.1.body.body.as_ref() {
                Some(SectionBody::Section1(i)) => Ok(look(i)),
                b => Err(format!("no identification: {b:?}")),
            }
        })?
    } else {
        let b: Box<[u8]> = b.into();
        guard("identification", || Identification::from_payload(b).map(|i| look(&i)).map_err(|e| format!("{e:?}")))?
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("identification is not read", format!("{what}: {e}")),
    };
    ensure!(got == want, "wrong identification", "{what}: {got:?}, not {want:?}");
    Ok(hash_of(&format!("{got:?}")))
}

/// Numbers of points and template numbers: every octet of the headers of Sections 3 to 5.
fn headers(cx: &mut Ctx) -> Leaf {
    let sect = cx.choose(3);
    let pos = cx.choose(12);
    let fill = cx.choose(3);
    let via_file = cx.flag();
    for v in 0..=255u8 {
        let mut b: Vec<u8> = (0..90u32)
            .map(|k| match fill {
                0 => (k * 13 + 5) as u8,
                1 => 0,
                _ => 255,
            })
            .collect();
        b[pos] = v;
        let (n, t) = match sect {
            0 => (u32::from_be_bytes(b[1..5].try_into().unwrap()), u16::from_be_bytes([b[7], b[8]])),
            1 => (u16::from_be_bytes([b[0], b[1]]) as u32, u16::from_be_bytes([b[2], b[3]])),
            _ => (u32::from_be_bytes(b[0..4].try_into().unwrap()), u16::from_be_bytes([b[4], b[5]])),
        };
        let got = if via_file {
            let mut s = sub_simple8(Some(small_grid(1, 1)), &[7]);
            match sect {
                0 => s.s3 = Some(b.clone()),
                1 => s.s4 = b.clone(),
                _ => s.s5 = b.clone(),
            }
            let file = one(s).bytes();
            guard("header fields", || {
                let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
                let tm: Vec<_> = g.list_templates().iter().map(|t| (t.0, t.1)).collect();
                let (_, s) = g.iter().next().ok_or("no submessage")?;
                let r = match sect {
                    0 => (s.grid_def().num_points(), s.grid_def().grid_tmpl_num()),
                    1 => (s.prod_def().num_coordinates() as u32, s.prod_def().prod_tmpl_num()),
                    _ => (s.repr_def().num_points(), s.repr_def().repr_tmpl_num()),
                };
                let info = [&s.3, &s.4, &s.5][sect].body.get_tmpl_code().map(|t| (t.0, t.1));
                if info != Some((sect as u8 + 3, r.1)) || !tm.contains(&(sect as u8 + 3, r.1)) {
                    return Err(format!("templates {info:?} and {tm:?} beside {r:?}"));
                }
                Ok(r)
            })?
        } else {
            let b: Box<[u8]> = b.clone().into();
            guard("header fields", || match sect {
                0 => GridDefinition::from_payload(b).map(|d| (d.num_points(), d.grid_tmpl_num())).map_err(|e| format!("{e:?}")),
                1 => ProdDefinition::from_payload(b).map(|d| (d.num_coordinates() as u32, d.prod_tmpl_num())).map_err(|e| format!("{e:?}")),
                _ => ReprDefinition::from_payload(b).map(|d| (d.num_points(), d.repr_tmpl_num())).map_err(|e| format!("{e:?}")),
            })?
        };
        match got {
            Ok(g) => ensure!(g == (n, t), "wrong header fields", "section {}, octet {pos} = {v}: {g:?}, not {:?}", sect + 3, (n, t)),
            Err(e) => return fail("header fields are not read", format!("section {}, octet {pos} = {v}: {e}", sect + 3)),
        }
    }
    Ok(0)
}

fn one_sub(cat: u8, num: u8) -> Sub {
    let mut s = sub_simple8(Some(small_grid(1, 1)), &[7]);
    s.s4 = prod(cat, num, 6, (100, 0, 1), (255, 0, 0));
    s
}

type P = (u8, u16, u8, u8, u8, u8);
fn param(p: &Parameter) -> P {
    (p.discipline, p.centre, p.master_ver, p.local_ver, p.category, p.num)
}

/// Every discipline and total length; parameters of several messages and submessages.
fn parameters(cx: &mut Ctx, byte: &[u8]) -> Leaf {
    let n = cx.pick(&[1usize, 2]);
    let mut file = vec![];
    let mut want: Vec<(P, u64)> = vec![];
    for k in 0..n {
        let disc = cx.pick(byte);
        let id = ident_with(|v| {
            v[0] = disc ^ 0x11;
            v[1] = 3 + k as u8;
            v[4] = 40 + k as u8;
            v[5] = 50 + k as u8;
        });
        let (a, b) = (cx.pick(byte), cx.pick(byte));
        let second = k == 0 && cx.flag();
        let mut m = Msg { discipline: disc, s1: id.clone(), subs: vec![one_sub(a, b)] };
        m.subs[0].s2 = Some(vec![1; 5 * k]);
        if second {
            let mut s = one_sub(b, a);
            s.s3 = None;
            m.subs.push(s);
        }
        let bytes = m.bytes();
        for j in 0..m.subs.len() {
            let (c, d) = if j == 0 { (a, b) } else { (b, a) };
            want.push(((disc, u16::from_be_bytes([id[0], id[1]]), id[4], id[5], c, d), bytes.len() as u64));
        }
        file.extend(bytes);
    }
    let got = guard("parameters", || {
        let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
        let mut v = vec![];
        for (_, s) in &g {
            let Some(p) = s.parameter() else { return Err("no parameter".to_string()) };
            if s.indicator().discipline != p.discipline {
                return Err(format!("discipline {} beside {p:?}", s.indicator().discipline));
            }
            v.push((param(&p), s.indicator().total_length));
        }
        Ok(v)
    })?;
    match got {
        Ok(g) => {
            ensure!(g == want, "wrong parameters", "{g:?}, not {want:?}");
            Ok(hash_of(&g))
        }
        Err(e) => fail("parameters are not read", format!("{want:?}: {e}")),
    }
}

fn disciplines(cx: &mut Ctx) -> Leaf {
    let disc = cx.choose(256) as u8;
    let pad = cx.pick(&[0usize, 1, 40, 255, 256, 65_536, 70_000]);
    let mut m = one(one_sub(3, 5));
    m.discipline = disc;
    m.subs[0].s2 = Some(vec![0; pad]);
    let file = m.bytes();
    let got = guard("the indicator", || {
        let g = grib::from_slice(&file).map_err(|e| obs::err(&e))?;
        let (_, s) = g.iter().next().ok_or("no submessage")?;
        Ok::<_, String>((s.indicator().discipline, s.indicator().total_length))
    })?;
    ensure!(got == Ok((disc, file.len() as u64)), "wrong indicator", "discipline {disc}, {} octets: {got:?}", file.len());
    Ok(hash_of(&got))
}

/// All 2^24 triples against every named code; the other fields do not matter.
fn identity(cx: &mut Ctx) -> Leaf {
    let disc = cx.choose(256) as u8;
    let cat = cx.choose(256) as u8;
    let other = cx.choose(2);
    let bad = guard("is_identical_to", || {
        for num in 0..=255u8 {
            let p = if other == 0 {
                Parameter { discipline: disc, centre: 7, master_ver: 2, local_ver: 1, category: cat, num }
            } else {
                Parameter { discipline: disc, centre: 0xffff, master_ver: 255, local_ver: 0, category: cat, num }
            };
            let is = [p.is_identical_to(NCEP::PRES), p.is_identical_to(NCEP::PRMSL), p.is_identical_to(NCEP::HGT)];
            let t = (disc, cat, num);
            let want = [t == (0, 3, 0), t == (0, 3, 1), t == (0, 3, 5)];
            if is != want {
                return Some((num, is, want));
            }
        }
        None
    })?;
    ensure!(bad.is_none(), "wrong identity", "discipline {disc}, category {cat}: (number, got, expected) {bad:?}");
    Ok(0)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every calendar and clock octet (all years with their boundary dates; all months and days for 24 years); every value of every octet of Section 1 and of the headers of Sections 3 to 5; parameters of one- and two-message files; all 2^24 discipline, category, number triples against the named codes".into();
    rep.note_assumption("year 0 and second 60 are left out");
    rep.explore("dates", 0, dates);
    rep.explore("years", 0, years);
    let all = !rep.quick();
    rep.explore("clock", 0, |cx| clock(cx, all));
    rep.explore("identification", 0, identification);
    rep.explore("headers", 0, headers);
    let b: &[u8] = rep.tier(&[0u8, 1, 3, 10, 255][..], &[0u8, 1, 2, 3, 10, 127, 128, 192, 255][..]);
    rep.explore("parameters", 0, |cx| parameters(cx, b));
    rep.explore("disciplines", 0, disciplines);
    rep.explore("identity", 0, identity);
}
