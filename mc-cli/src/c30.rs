//! C30: decoded values.
use crate::{cut, family, gribber, msg::*, s, samples, Scratch};
use mccore::{ensure, fail, guard, hash_of, Ctx, Fail, Leaf, Report};

struct Decoded {
    index: (usize, usize),
    values: Result<Vec<f32>, String>,
    /// None: no coordinates for grids of this type.
    latlons: Result<Option<Vec<(f32, f32)>>, String>,
}

fn library(bytes: &[u8]) -> Result<Result<Vec<Decoded>, String>, Fail> {
    guard("the library", || {
        let g = grib::from_slice(bytes).map_err(|e| e.to_string())?;
        let mut v = vec![];
        for (index, s) in &g {
            let latlons = match s.latlons() {
                Ok(i) => Ok(Some(i.collect())),
                Err(grib::GribError::NotSupported(_)) => Ok(None),
                Err(e) => Err(e.to_string()),
            };
            let values = grib::Grib2SubmessageDecoder::from(s).map_err(|e| e.to_string()).and_then(|d| d.dispatch().map(|i| i.collect()).map_err(|e| e.to_string()));
            v.push(Decoded { index, values, latlons });
        }
        Ok(v)
    })
}

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// 0: text, 1: big endian, 2: little endian, 3, 4: the same with long options and other orders.
const FORMATS: usize = 5;

fn decode(sc: &Scratch, bytes: &[u8], d: Option<&Decoded>, index: &str, format: usize) -> Leaf {
    let input = sc.write("in.grib2", bytes);
    decode_file(sc, &input, &format!("{} octets", bytes.len()), d, index, format)
}

fn decode_file(sc: &Scratch, input: &std::path::Path, of: &str, d: Option<&Decoded>, index: &str, format: usize) -> Leaf {
    let out = sc.path("out.bin");
    let old = cx_old(format, index);
    match &old {
        Some(o) => std::fs::write(&out, o).unwrap(),
        None => {
            let _ = std::fs::remove_file(&out);
        }
    }
    let (i, o) = (s(input), s(&out));
    let args: Vec<&str> = match format {
        0 => vec!["decode", i, index],
        1 => vec!["decode", "-b", o, i, index],
        2 => vec!["decode", "-l", o, i, index],
        3 => vec!["decode", i, index, "--big-endian", o],
        _ => vec!["decode", i, "--little-endian", o, index],
    };
    let what = format!("{index:?} of {of}, format {format}");
    let r = gribber(&args, None)?;
    let Some(Decoded { values: Ok(values), latlons, .. }) = d else {
        r.failed(&what)?;
        return Ok(hash_of(&r.stderr));
    };
    if format == 0 {
        let ll = match latlons {
            Ok(ll) => ll,
            Err(_) => {
                r.failed(&what)?;
                return Ok(hash_of(&r.stderr));
            }
        };
        r.succeeded(&what)?;
        let mut rows = r.stdout.lines();
        ensure!(rows.next().is_some(), "no header", "{what}");
        let rows: Vec<&str> = rows.collect();
        ensure!(rows.len() == values.len(), "wrong number of lines", "{what}: {} lines for {} points", rows.len(), values.len());
        for (k, (row, v)) in rows.iter().zip(values).enumerate() {
            let w: Vec<&str> = row.split_whitespace().collect();
            let num = |k: usize| w.get(k).and_then(|x| x.parse::<f64>().ok());
            let (Some(lat), Some(lon), Some(x), 3) = (num(0), num(1), num(2), w.len()) else {
                return fail("not a line of three numbers", format!("{what}, line {k}: {row:?}"));
            };
            let x = w[2].parse::<f32>().unwrap_or(x as f32);
            ensure!(same(x, *v), "wrong value in text", "{what}, line {k}: {row:?}, not {v}");
            match ll {
                None => ensure!(lat.is_nan() && lon.is_nan(), "coordinates out of nothing", "{what}, line {k}: {row:?}"),
                Some(ll) => {
                    let near = |a: f64, b: f32| (a - b as f64).abs() <= 5.1e-7 || (a.is_nan() && b.is_nan());
                    ensure!(near(lat, ll[k].0) && near(lon, ll[k].1), "wrong coordinates in text", "{what}, line {k}: {row:?}, not {:?}", ll[k]);
                }
            }
        }
        return Ok(hash_of(&r.stdout));
    }
    r.succeeded(&what)?;
    ensure!(r.stdout.is_empty(), "text beside a binary output", "{what}: {:?}", cut(&r.stdout));
    let got = std::fs::read(&out).unwrap_or_default();
    ensure!(got.len() == 4 * values.len(), "wrong output size", "{what}: {} octets for {} values", got.len(), values.len());
    for (k, (g, v)) in got.chunks(4).zip(values).enumerate() {
        let g: [u8; 4] = g.try_into().unwrap();
        let g = if format % 2 == 1 { f32::from_be_bytes(g) } else { f32::from_le_bytes(g) };
        ensure!(same(g, *v), "wrong output", "{what}: value {k} is {g}, not {v}");
    }
    Ok(hash_of(&got))
}

/// What the output file held before.
fn cx_old(format: usize, index: &str) -> Option<Vec<u8>> {
    match (format + index.len()) % 3 {
        0 => None,
        1 => Some(vec![0xaa; 3]),
        _ => Some(vec![0x55; 5000]),
    }
}

fn kinds(cx: &mut Ctx, sc: &Scratch, files: &[Vec<u8>]) -> Leaf {
    let bytes = cx.pick(files);
    let format = cx.choose(FORMATS);
    let lib = match library(&bytes)? {
        Ok(l) => l,
        Err(e) => return fail("a good file is not read", e),
    };
    // Every submessage and some indices around them.
    let m = cx.choose(5);
    let n = cx.choose(5);
    let d = lib.iter().find(|d| d.index == (m, n));
    decode(sc, &bytes, d, &format!("{m}.{n}"), format)
}

/// Submessages that lie beyond 2 or 4 GiB.
fn huge(cx: &mut Ctx, sc: &Scratch, tail: &[Decoded]) -> Leaf {
    let lens = cx.pick(&[&[0x7fff_ff00u32][..], &[0xffff_ff00], &[0xffff_ffff], &[0xffff_fff0, 0xffff_ffff, 0xffff_ffff]]);
    let format = cx.choose(FORMATS);
    let m = lens.len() + cx.choose(4);
    let n = cx.choose(4);
    let p = sc.path("huge.grib2");
    family::with_holes(&p, lens);
    let d = tail.iter().find(|d| d.index == (m - lens.len(), n));
    let r = decode_file(sc, &p, &format!("messages behind sections of {lens:x?} octets"), d, &format!("{m}.{n}"), format);
    let _ = std::fs::remove_file(&p);
    r
}

/// Fields of more than a thousand points.
fn large(cx: &mut Ctx, sc: &Scratch, sizes: &[usize]) -> Leaf {
    let wide = |ni: u32, nj: u32| grid_latlon(&LatLon { ni, nj, num: ni * nj, first: (-45_000_000, 10_000_000), last: (-45_000_000 + 1_000_000 * (nj as i64 - 1), 170_000_000), mode: 0x40 });
    let n = cx.pick(sizes);
    let kind = cx.choose(3);
    let format = cx.choose(FORMATS);
    let (s3, n) = match kind {
        0 => (wide(n as u32, 1), n),
        1 => (wide(n as u32 / 64, 64), n / 64 * 64),
        _ => (grid_unsupported(n as u32, 101), n),
    };
    let mut sub = sub_simple8(Some(s3), &(0..n).map(|k| (k / 7 + k % 251) as u8).collect::<Vec<_>>());
    sub.s5 = repr(n as u32, 0, 0.25, 0, 1, 8);
    let bytes = one(sub).bytes();
    let lib = match library(&bytes)? {
        Ok(l) => l,
        Err(e) => return fail("a good file is not read", e),
    };
    ensure!(lib.len() == 1 && lib[0].values.as_ref().is_ok_and(|v| v.len() == n), "a good file is not read", "{n} points");
    decode(sc, &bytes, lib.first(), "0.0", format)
}

/// Files of one submessage: sizes, bit maps, widths.
fn fields(cx: &mut Ctx, sc: &Scratch, max: u32) -> Leaf {
    let ni = 1 + cx.choose(max as usize) as u32;
    let nj = 1 + cx.choose(max as usize) as u32;
    let n = (ni * nj) as usize;
    let grid = match cx.choose(4) {
        0 => small_grid(ni, nj),
        1 => grid_unsupported(n as u32, 101),
        2 => grid_lambert(6, ni, nj, n as u32, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, 0x40, (30_000_000, 60_000_000)),
        _ => grid_latlon(&LatLon { ni, nj, num: n as u32, first: (-1_000_000, 350_000_000), last: (-1_000_000 + 500_000 * (nj as i64 - 1), 350_000_000 + 3_000_000 * (ni as i64 - 1)), mode: 0x50 }),
    };
    let mut sub = sub_simple8(Some(grid), &(0..n).map(|k| (k * 37 % 256) as u8).collect::<Vec<_>>());
    match cx.choose(4) {
        0 => {}
        1 => sub.s5 = repr(n as u32, 0, -3.25, 2, -1, 8),
        2 => {
            let bits: Vec<bool> = (0..n).map(|k| k % 3 != 1).collect();
            let c = bits.iter().filter(|b| **b).count();
            sub.s5 = repr(c as u32, 0, 1e-3, 0, 3, 8);
            sub.s7.truncate(c);
            sub.s6 = bitmap(&bits);
        }
        _ => {
            // Constant, large and negative.
            sub.s5 = repr(n as u32, 0, -1.5e30, 0, 0, 0);
            sub.s7.clear();
        }
    }
    let format = cx.choose(3);
    let bytes = one(sub).bytes();
    let lib = match library(&bytes)? {
        Ok(l) => l,
        Err(e) => return fail("a good file is not read", e),
    };
    decode(sc, &bytes, lib.first(), "0.0", format)
}

/// Index strings.
fn strings(cx: &mut Ctx, sc: &Scratch, bytes: &[u8], lib: &[Decoded], max: usize) -> Leaf {
    let n = cx.choose(max + 1);
    let mut t = String::new();
    for _ in 0..n {
        t.push(cx.pick(&['0', '1', '2', '.', '-', '+', ' ', 'a', '１', '\n']));
    }
    string(sc, bytes, lib, &t)
}
fn string(sc: &Scratch, bytes: &[u8], lib: &[Decoded], t: &str) -> Leaf {
    let num = |x: &str| -> Option<usize> {
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        x.parse().ok()
    };
    let ix = t.split_once('.').and_then(|(a, b)| Some((num(a)?, num(b)?)));
    let d = ix.and_then(|ix| lib.iter().find(|d| d.index == ix));
    decode(sc, bytes, d, t, 1)
}
const LONG: [&str; 22] = [
    "18446744073709551616.0",
    "0.18446744073709551616",
    "18446744073709551615.0",
    "0.18446744073709551615",
    "18446744073709551615.18446744073709551615",
    "99999999999999999999999999.99999999999999999999999999",
    "4294967296.0",
    "0.4294967296",
    "4294967297.1",
    "00000000000000000000000000.0",
    "0.00000000000000000000000001",
    "0000.0001",
    "0.0.0",
    "0,0",
    "0_0",
    "0.0 ",
    " 0.0",
    "0.0\n",
    "0.0x",
    "x0.0",
    "٠.٠",
    "0x0.0",
];
fn long(cx: &mut Ctx, sc: &Scratch, bytes: &[u8], lib: &[Decoded]) -> Leaf {
    let t = cx.pick(&LONG);
    string(sc, bytes, lib, t)
}

/// Twelve messages of one or twelve submessages, no two of which hold the same values.
fn dozen() -> Vec<u8> {
    let mut b = vec![];
    for i in 0..12u8 {
        let mut m = one(sub_simple8(Some(small_grid(3, 1)), &[i, 0, 99]));
        if i % 4 == 3 {
            m.subs.extend((1..12).map(|k| sub_simple8(Some(small_grid(3, 1)), &[i, k, 99])));
        }
        b.extend(m.bytes());
    }
    b
}
fn numbers(cx: &mut Ctx, sc: &Scratch, bytes: &[u8], lib: &[Decoded]) -> Leaf {
    ensure!(lib.len() == 45, "a good file is not read", "{} of 45 submessages", lib.len());
    let (n, m) = (cx.choose(14), cx.choose(14));
    let t = match cx.choose(3) {
        0 => format!("{n}.{m}"),
        1 => format!("{n:02}.{m:03}"),
        // digits in the place of others
        _ => format!("{n}.{}", m + 80),
    };
    string(sc, bytes, lib, &t)
}

/// A message of many submessages, or as many messages, no two of which hold the same values.
fn crowd(n: usize, together: bool) -> Vec<u8> {
    let sub = |k: usize| sub_simple8(Some(small_grid(3, 1)), &[k as u8, (k >> 8) as u8, (k >> 16) as u8]);
    if together {
        let mut m = one(sub(0));
        m.subs = (0..n).map(sub).collect();
        m.bytes()
    } else {
        (0..n).flat_map(|k| one(sub(k)).bytes()).collect()
    }
}
fn crowds(cx: &mut Ctx, sc: &Scratch, crowds: &[(Vec<u8>, Vec<Decoded>)], n: usize) -> Leaf {
    let together = cx.choose(2);
    let (bytes, lib) = &crowds[together];
    ensure!(lib.len() == n, "a good file is not read", "{} of {n} submessages", lib.len());
    let mut at: Vec<usize> = vec![0, 1, 9, 10, 99, 100, 254, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 4095, 4096, 10_000, 65_535, 65_536, 65_537, 131_072];
    at.extend([n - 1, n, n + 1, n + 255, n + 256]);
    let k = cx.pick(&at);
    let t = match (cx.choose(3), together) {
        (0, 0) => format!("{k}.0"),
        (0, _) => format!("0.{k}"),
        (1, 0) => format!("0.{k}"),
        (1, _) => format!("{k}.0"),
        _ => format!("{k}.{k}"),
    };
    let format = cx.choose(2);
    let d = match t.split_once('.') {
        Some((a, b)) => lib.iter().find(|d| (d.index.0.to_string(), d.index.1.to_string()) == (a.into(), b.into())),
        _ => None,
    };
    decode(sc, bytes, d, &t, format)
}

fn damaged(cx: &mut Ctx, sc: &Scratch, bytes: &[u8], vals: &[u8]) -> Leaf {
    let pos = cx.choose(bytes.len());
    let v = cx.pick(vals);
    let format = cx.choose(2);
    let mut b = bytes.to_vec();
    if v == 0 {
        b.truncate(pos);
    } else {
        b[pos] ^= v;
    }
    let lib = library(&b)?;
    let d = lib.as_ref().ok().and_then(|l| l.iter().find(|d| d.index == (0, 0)));
    decode(sc, &b, d, "0.0", format)
}

pub fn run(rep: &mut Report) {
    rep.set_hang_limit(30_000);
    rep.rule = "Every kind of submessage, arrangement and output option; fields of every size up to the bound with four grids and four packings; every index string up to a length over ten characters, overlong ones, and every index of a file of a dozen messages, many of files of a thousand; every truncation and damaged octet; compared with the values and coordinates the library gives".into();
    rep.note_assumption("the library's values and coordinates are checked by C08 to C20; output goes to a pipe or a scratch file");
    let sc = &Scratch::new("c30");
    let mut files: Vec<Vec<u8>> = samples::all().into_iter().map(|(_, s)| one(s).bytes()).collect();
    files.push(samples::multi_bytes());
    // A submessage that cannot be decoded beside one that can.
    let mut bad = samples::simple();
    bad.s5 = repr(6, 61, 0.0, 0, 0, 8);
    let mut m = one(bad);
    let mut ok = samples::simple12();
    ok.s2 = Some(vec![1]);
    m.subs.push(ok);
    files.push(m.bytes());
    // Coordinates that do not match the number of points.
    let mut odd = samples::simple();
    odd.s3 = Some(grid_latlon(&LatLon { ni: 2, nj: 2, num: 6, first: (0, 0), last: (1_000_000, 1_000_000), mode: 0x40 }));
    files.push(one(odd).bytes());
    // Three messages.
    let mut three = samples::multi_bytes();
    three.extend(one(samples::complex()).bytes());
    files.push(three);
    rep.explore("kinds", 0, |cx| kinds(cx, sc, &files));
    let mut tail = samples::multi_bytes();
    tail.extend(one(samples::bitmapped()).bytes());
    let tail = library(&tail).ok().and_then(|l| l.ok()).unwrap_or_default();
    rep.explore("huge", 0, |cx| huge(cx, sc, &tail));
    let ns: Vec<usize> = rep.tier(vec![255, 256, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10_000, 65_535, 65_536, 65_537, 150_000, 1 << 20 | 64], (8..=21).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).chain([1000, 10_000, 100_000, 1_000_000]).collect());
    rep.explore("large", 0, |cx| large(cx, sc, &ns));
    let max = rep.tier(5, 8);
    rep.explore("fields", 0, |cx| fields(cx, sc, max));
    let multi = samples::multi_bytes();
    let lib = library(&multi).ok().and_then(|l| l.ok()).unwrap_or_default();
    let len = rep.tier(4, 5);
    rep.explore("strings", 0, |cx| strings(cx, sc, &multi, &lib, len));
    rep.explore("long", 0, |cx| long(cx, sc, &multi, &lib));
    let dozen = dozen();
    let lib = library(&dozen).ok().and_then(|l| l.ok()).unwrap_or_default();
    rep.explore("numbers", 0, |cx| numbers(cx, sc, &dozen, &lib));
    let n = rep.tier(1_100, 70_000);
    let cs: Vec<_> = [false, true]
        .map(|t| {
            let b = crowd(n, t);
            let lib = library(&b).ok().and_then(|l| l.ok()).unwrap_or_default();
            (b, lib)
        })
        .into();
    rep.explore("crowds", 0, |cx| crowds(cx, sc, &cs, n));
    let one_file = one(samples::bitmapped()).bytes();
    let v: &[u8] = rep.tier(&[0u8, 1, 0xff][..], &[0u8, 1, 2, 4, 8, 16, 32, 64, 128, 0xff][..]);
    rep.explore("damaged", 0, |cx| damaged(cx, sc, &one_file, v));
}
