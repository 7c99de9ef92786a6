//! C33: what the library does not implement.
use crate::{c21::supported as product_supported, msg::*, obs::*, samples};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

fn see(msgs: &[Msg]) -> Result<Result<Vec<SubObs>, String>, mccore::Fail> {
    let b: Vec<u8> = msgs.iter().flat_map(|m| m.bytes()).collect();
    guard("use", || open_and_observe(&b).map(|o| o.subs))
}
fn see_one(s: &Sub) -> Result<SubObs, mccore::Fail> {
    match see(&[one(s.clone())])? {
        Ok(mut v) if v.len() == 1 => Ok(v.remove(0)),
        Ok(v) => Err(mccore::Fail { key: "wrong number of submessages".into(), msg: format!("{} for {s:?}", v.len()) }),
        Err(e) => Err(mccore::Fail { key: "file not opened".into(), msg: format!("{e}: {s:?}") }),
    }
}

/// Everything but the grid: the values and the product.
fn beside_grid(o: &SubObs) -> String {
    format!("{:?} {}", o.values, o.parameter)
}
fn grid(o: &SubObs) -> String {
    format!("{:?} {:?} {:?}", o.shape, o.ij, o.latlons)
}

fn no_grid(o: &SubObs, what: &str) -> Result<(), mccore::Fail> {
    ensure!(o.shape.is_err(), "shape of an unknown grid", "{what}: {:?}", o.shape);
    ensure!(o.ij.is_err(), "indices of an unknown grid", "{what}: {:?}", o.ij);
    ensure!(o.latlons.is_err(), "coordinates of an unknown grid", "{what}: {:?}", o.latlons);
    Ok(())
}

pub const GRIDS: [u16; 4] = [0, 20, 30, 40];
pub const DATA: [u16; 6] = [0, 2, 3, 40, 41, 200];

/// Samples whose values can be decoded, with what is seen of each.
fn bases() -> Vec<(&'static str, Sub, SubObs)> {
    samples::all().into_iter().filter_map(|(n, s)| see_one(&s).ok().map(|o| (n, s, o))).collect()
}

fn data(cx: &mut Ctx, bases: &[(&str, Sub, SubObs)]) -> Leaf {
    let t = cx.choose(65_536) as u16;
    let (name, s, want) = &bases[cx.choose(bases.len())];
    let own = u16::from_be_bytes([s.s5[4], s.s5[5]]);
    if DATA.contains(&t) && t != own {
        return Ok(0);
    }
    let mut s = s.clone();
    s.s5[4..6].copy_from_slice(&t.to_be_bytes());
    let o = see_one(&s)?;
    ensure!(grid(&o) == grid(want) && o.parameter == want.parameter, "something else changed", "{name} with data representation template {t}: {} {}, not {} {}", grid(&o), o.parameter, grid(want), want.parameter);
    if t == own {
        ensure!(o.values == want.values && want.values.is_ok(), "values changed", "{name}: {:?}, not {:?}", o.values, want.values);
    } else if let Ok(v) = &o.values {
        return fail("values of an unknown packing", format!("{name} with data representation template {t}: {:?}", v.iter().map(|v| f32::from_bits(*v)).collect::<Vec<_>>()));
    }
    Ok(hash_of(&(t == own, o.values)))
}

fn grids(cx: &mut Ctx, bases: &[(&str, Sub, SubObs)]) -> Leaf {
    let t = cx.choose(65_536) as u16;
    let (name, s, want) = &bases[cx.choose(bases.len())];
    let mut s = s.clone();
    let s3 = s.s3.as_mut().unwrap();
    let own = u16::from_be_bytes([s3[7], s3[8]]);
    s3[7..9].copy_from_slice(&t.to_be_bytes());
    let o = see_one(&s)?;
    let what = format!("{name} with grid definition template {t}");
    ensure!(beside_grid(&o) == beside_grid(want), "something else changed", "{what}: {}, not {}", beside_grid(&o), beside_grid(want));
    if !GRIDS.contains(&t) {
        no_grid(&o, &what)?;
    } else if t == own {
        ensure!(grid(&o) == grid(want), "grid changed", "{what}: {}, not {}", grid(&o), grid(want));
    }
    Ok(hash_of(&grid(&o)))
}

fn products(cx: &mut Ctx, bases: &[(&str, Sub, SubObs)]) -> Leaf {
    let t = cx.choose(65_536) as u16;
    let (name, s, want) = &bases[cx.choose(bases.len())];
    let mut s = s.clone();
    s.s4[2..4].copy_from_slice(&t.to_be_bytes());
    let o = see_one(&s)?;
    let what = format!("{name} with product definition template {t}");
    ensure!(grid(&o) == grid(want) && o.values == want.values, "something else changed", "{what}: {} {:?}, not {} {:?}", grid(&o), o.values, grid(want), want.values);
    if !product_supported(t) {
        ensure!(o.parameter == "None", "parameter of an unknown product", "{what}: {}", o.parameter);
    }
    Ok(hash_of(&o.parameter))
}

/// Every bitmap indicator, with and without a bitmap before it.
fn bitmaps(cx: &mut Ctx) -> Leaf {
    let bits = [true, false, true, true, false, true];
    let with = || {
        let mut s = samples::bitmapped();
        let n = bits.iter().filter(|b| **b).count() as u32;
        s.s3 = Some(small_grid(3, 2));
        s.s5 = repr(n, 0, 0.0, 0, 0, 8);
        s.s6 = bitmap(&bits);
        s.s7 = (1..=n as u8).collect();
        s
    };
    let k = cx.choose(256) as u8;
    let full = cx.flag(); // as many values as there are points
    let before = cx.choose(3);
    let mut s = sub_simple8(Some(small_grid(3, 2)), if full { &[1, 2, 3, 4, 5, 6] } else { &[1, 2, 3, 4] });
    // with or without the octets of a bitmap
    s.s6 = if cx.flag() { bitmap(&bits) } else { no_bitmap() };
    s.s6[0] = k;
    let what = format!("bitmap indicator {k}, {} values, Section 6 of {} octets, after {}", if full { 6 } else { 4 }, s.s6.len(), ["nothing", "a submessage with a bitmap", "a message with a bitmap"][before]);
    let mut msgs = vec![one(with())];
    match before {
        0 => msgs = vec![one(s)],
        1 => msgs[0].subs.push(Sub { s3: None, ..s }),
        _ => msgs.push(one(s)),
    }
    let o = match see(&msgs)? {
        Ok(v) => v,
        Err(e) => return fail("file not opened", format!("{what}: {e}")),
    };
    ensure!(o.len() == 1 + (before > 0) as usize, "wrong number of submessages", "{what}: {}", o.len());
    let o = o.last().unwrap();
    ensure!(o.shape == Ok((3, 2)) && o.ij.is_ok() && o.latlons.is_ok(), "something else changed", "{what}: {}", grid(o));
    let nan = f32::NAN.to_bits();
    let masked: Vec<u32> = [2.0f32, f32::NAN, 3.0, 4.0, f32::NAN, 5.0].iter().map(|v| bits_of(*v, nan)).collect();
    match k {
        0 | 255 => {}
        254 if before == 1 && !full && o.values == Ok(masked) => {}
        _ => ensure!(o.values.is_err(), "values under an unknown bitmap", "{what}: {:?}", o.values),
    }
    Ok(hash_of(&(k, &o.values)))
}
fn bits_of(v: f32, nan: u32) -> u32 {
    if v.is_nan() {
        nan
    } else {
        v.to_bits()
    }
}

/// Grids whose rows have numbers of points of their own.
fn lists(cx: &mut Ctx, max: usize) -> Leaf {
    let gaussian = cx.flag();
    let nj = 2 * (1 + cx.choose(max)) as u32;
    let octets = cx.pick(&[1usize, 2, 4]);
    let interpretation = cx.pick(&[1u8, 2, 3]);
    let ni = cx.pick(&[0xffff_ffffu32, 3, 0]);
    let per_row: Vec<u32> = (0..nj).map(|j| [3u32, 2, 1, 4][j as usize % 4]).collect();
    let num: u32 = per_row.iter().sum();
    let vals: Vec<u8> = (0..num as u8).collect();
    let mut s3 = if gaussian {
        grid_gaussian_rows(ni, nj, num, (0, 180_000_000), 0)
    } else {
        grid_latlon(&LatLon { ni, nj, num, first: (10_000_000, 0), last: (10_000_000 - 1_000_000 * nj as i64, 180_000_000), mode: 0 })
    };
    s3[5] = octets as u8;
    s3[6] = interpretation;
    for n in &per_row {
        s3.extend(&n.to_be_bytes()[4 - octets..]);
    }
    let what = format!("{} grid of {nj} rows of {per_row:?} points ({octets} octets, interpretation {interpretation}), Ni {ni}", ["latitude/longitude", "Gaussian"][gaussian as usize]);
    let o = see_one(&sub_simple8(Some(s3), &vals))?;
    no_grid(&o, &what)?;
    let want: Vec<u32> = vals.iter().map(|v| (*v as f32 + 1.0).to_bits()).collect();
    ensure!(o.values == Ok(want), "something else changed", "{what}: {:?}", o.values);
    Ok(hash_of(&o.values))
}

/// A submessage that is not understood among others.
fn neighbours(cx: &mut Ctx) -> Leaf {
    let mut subs = vec![samples::simple(), samples::bitmapped(), samples::complex()];
    let together = cx.flag();
    let at = cx.choose(3);
    let what = cx.choose(4);
    let t = cx.pick(&[1u16, 4, 42, 50, 61, 101, 255, 256, 257, 32_768, 65_534, 65_535]).to_be_bytes();
    let file = |subs: &[Sub]| -> Vec<Msg> {
        if together {
            let mut m = one(subs[0].clone());
            m.subs = subs.to_vec();
            vec![m]
        } else {
            subs.iter().map(|s| one(s.clone())).collect()
        }
    };
    let before = see(&file(&subs))?;
    let s = &mut subs[at];
    match what {
        0 => s.s3.as_mut().unwrap()[7..9].copy_from_slice(&t),
        1 => s.s4[2..4].copy_from_slice(&t),
        2 => s.s5[4..6].copy_from_slice(&t),
        _ => s.s6[0] = t[1].clamp(1, 253),
    }
    let after = see(&file(&subs))?;
    let (Ok(a), Ok(b)) = (&before, &after) else { return fail("file not opened", format!("{before:?} {after:?}")) };
    ensure!(a.len() == 3 && b.len() == 3, "wrong number of submessages", "{} and {}", a.len(), b.len());
    for k in (0..3).filter(|k| *k != at) {
        ensure!(placeless(&a[k]) == placeless(&b[k]), "another submessage changed", "submessage {k} of three {}, when {} of {at} is {}: {}, not {}", ["messages", "submessages"][together as usize], ["the grid", "the product", "the data representation", "the bitmap indicator"][what], u16::from_be_bytes(t), placeless(&b[k]), placeless(&a[k]));
    }
    Ok(hash_of(&b.iter().map(placeless).collect::<Vec<_>>()))
}

/// Every edition, of the first and of a later message.
fn editions(cx: &mut Ctx) -> Leaf {
    let k = cx.choose(256) as u8;
    let at = cx.choose(3);
    let b = one(sub_simple8(Some(small_grid(3, 2)), &[1, 2, 3, 4, 5, 6])).bytes();
    let mut f: Vec<u8> = (0..3).flat_map(|_| b.clone()).collect();
    f[at * b.len() + 7] = k;
    match guard("use", || open_and_observe(&f).map(|o| o.subs))? {
        Ok(o) => {
            ensure!(k == 2, "another edition taken for the second", "edition {k} in message {at} of three: {} submessages", o.len());
            ensure!(o.len() == 3 && o.iter().all(|o| o.values.as_ref().is_ok_and(|v| v.len() == 6)), "wrong submessages", "{} of three", o.len());
        }
        Err(e) => ensure!(k != 2, "a file of the second edition is not opened", "{e}"),
    }
    Ok(k as u64)
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every number of every template on every kind of submessage, every bitmap indicator, grids with lists of numbers of points, each alone and among others".into();
    let all = bases();
    let some: Vec<_> = if rep.quick() { all.iter().filter(|b| ["simple", "gaussian", "lambert", "polar"].contains(&b.0)).cloned().collect() } else { all.clone() };
    rep.explore("data-templates", 0, |cx| data(cx, &all));
    rep.explore("grid-templates", 0, |cx| grids(cx, &some));
    rep.explore("product-templates", 0, |cx| products(cx, &some));
    rep.explore("bitmap-indicators", 0, bitmaps);
    let n = rep.tier(10, 40);
    rep.explore("lists", 0, |cx| lists(cx, n));
    rep.explore("editions", 0, editions);
    rep.explore("neighbours", 0, neighbours);
    rep.note_assumption("the templates and indicators listed in the harness are the ones the library implements");
}
