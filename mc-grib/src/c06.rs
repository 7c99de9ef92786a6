//! C06: damaged input never panics, hangs or takes memory out of proportion.
use crate::{msg::*, obs, samples};
use grib::*;
use mccore::{fail, guard, guard_mem, hash_of, Ctx, Leaf, Report};

fn be32(b: &[u8], at: usize) -> u64 {
    if at + 4 <= b.len() {
        u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as u64
    } else {
        0
    }
}

/// Points declared by anything in the file that may be a Section 3 or 5.
fn declared(b: &[u8]) -> u64 {
    let mut n = 0;
    for i in 4..b.len() {
        if b[i] == 3 {
            n += be32(b, i + 2);
        }
        if b[i] == 5 {
            n += be32(b, i + 1);
        }
    }
    n
}

/// The largest number of points in what were Sections 3 and 5 of the valid file `f`.
fn points(f: &[u8], b: &[u8]) -> u64 {
    let (mut at, mut max) = (0, 0);
    while at + 16 <= f.len() {
        match &f[at..at + 4] {
            b"GRIB" => at += 16,
            b"7777" => at += 4,
            _ => {
                match f[at + 4] {
                    3 => max = max.max(be32(b, at + 6)),
                    5 => max = max.max(be32(b, at + 5)),
                    _ => {}
                }
                at += be32(f, at) as usize;
            }
        }
    }
    max
}

pub fn prod_all(p: &ProdDefinition) -> String {
    let ft = p.forecast_time();
    let fs = p.fixed_surfaces();
    format!(
        "{:?} {:?} {:?} {} {} {:?} {:?}",
        p.parameter_category(),
        p.parameter_number(),
        p.generating_process(),
        p.num_coordinates(),
        p.prod_tmpl_num(),
        ft.map(|f| (f.to_string(), f.describe())),
        fs.map(|(a, b)| (
            a.describe(),
            a.value().to_bits(),
            a.unit().map(str::to_string),
            b.describe(),
            b.value().to_bits(),
            b.unit().map(str::to_string)
        ))
    )
}

fn ident_all(i: &Identification) -> String {
    format!(
        "{} {} {} {} {} {:?} {} {}",
        i.centre_id(),
        i.subcentre_id(),
        i.master_table_version(),
        i.local_table_version(),
        i.ref_time_significance(),
        i.ref_time().map_err(|e| obs::err(&e)),
        i.prod_status(),
        i.data_type()
    )
}

/// Everything a user can do with a byte string.
pub fn exercise(b: &[u8]) -> Result<u64, String> {
    let g = match grib::from_slice(b) {
        Ok(g) => g,
        Err(e) => {
            let _ = e.to_string();
            return Ok(hash_of(&obs::err(&e)));
        }
    };
    let _ = (g.is_empty(), g.list_templates().iter().map(|t| (t.to_string(), t.describe())).count());
    let mut kinds: Vec<String> = vec![];
    for s in g.sections() {
        match &s.body {
            Some(SectionBody::Section1(i)) => {
                ident_all(i);
            }
            Some(SectionBody::Section4(p)) => {
                prod_all(p);
            }
            Some(SectionBody::Section3(d)) => {
                if let Ok(v) = GridDefinitionTemplateValues::try_from(d) {
                    let _ = (v.grid_shape(), v.short_name());
                    if let Ok(ij) = v.ij() {
                        ij.size_hint();
                        for _ in ij.take(100) {}
                    }
                }
            }
            _ => {}
        }
        let _ = s.get_tmpl_code();
    }
    for (_, s) in &g {
        let _ = s.describe();
        if let Some(p) = s.parameter() {
            let _ = (p.description(), p.is_identical_to(grib::codetables::NCEP::PRMSL));
        }
        let _ = (s.3.describe(), s.4.describe(), s.5.describe());
        let shape = s.grid_shape();
        let ij = s.ij().map_err(|e| obs::err(&e));
        let n = s.grid_def().num_points();
        let gauss = s.grid_def().grid_tmpl_num() == 40 && shape.as_ref().is_ok_and(|x| x.1 > 3000);
        let mut latlon = Ok(0);
        // (costly though finite: a consistent grid of very many points)
        if !(ij.is_ok() && n > 0 && (n > 3_000_000 || gauss)) {
            latlon = s.latlons().map(|i| i.take(300).count()).map_err(|e| obs::err(&e));
        }
        let ij = ij.map(|i| {
            i.size_hint();
            i.take(300).count()
        });
        let v = match Grib2SubmessageDecoder::from(s) {
            Err(e) => Err(obs::err(&e)),
            Ok(d) => match d.dispatch() {
                Err(e) => Err(obs::err(&e)),
                Ok(mut i) => {
                    i.size_hint();
                    let c = i.by_ref().take(300).count();
                    i.size_hint();
                    Ok(c)
                }
            },
        };
        kinds.push(format!("{:?} {ij:?} {latlon:?} {v:?}", shape.is_ok()));
    }
    Ok(hash_of(&kinds))
}

fn try_bytes(b: &[u8], what: &str) -> Leaf {
    try_points(b, declared(b), what)
}
fn try_points(b: &[u8], points: u64, what: &str) -> Leaf {
    // an allowance for every point declared, and a fixed part
    let mem = (64 << 20) as usize + 64 * b.len() + (points as usize).saturating_mul(24);
    // what OpenJPEG sets up for as many tiles as a code stream may have
    let tiles = if b.windows(4).any(|w| w == [0xff, 0x4f, 0xff, 0x51]) { 400 << 20 } else { 0 };
    match guard_mem("use of damaged input", mem, || crate::live::peak_of(|| exercise(b))) {
        Ok((r, peak)) if peak <= (mem + tiles) as isize => Ok(r.unwrap_or(0)),
        Ok((_, peak)) => fail(format!("memory: {what}"), format!("{what}: up to {peak} octets are held, C code included (allowance {}) [{}]", mem + tiles, hex(b))),
        Err(mut f) => {
            f.key = format!("{} {}", f.key, what);
            f.msg = format!("{}: {} [{}]", what, f.msg, hex(b));
            Err(f)
        }
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(600).map(|x| format!("{x:02x}")).collect()
}

type Named = Vec<(String, Vec<u8>)>;

fn seeds() -> Named {
    let mut v: Named = samples::all().into_iter().map(|(n, s)| (n.into(), one(s).bytes())).collect();
    v.push(("multi".into(), samples::multi_bytes()));
    // templates with longer product definitions and local tables
    let mut s = samples::simple();
    s.s4 = {
        let mut p = prod_default();
        p[3] = 48;
        p.extend(vec![7; 40]);
        p
    };
    v.push(("prod48".into(), one(s).bytes()));
    let mut s = samples::simple();
    s.s5 = repr(6, 0, 1.0, 300, -300, 8);
    v.push(("scales".into(), one(s).bytes()));
    v
}

/// Octets whose every value is tried except where the number of points would merely be huge.
fn bytes1(cx: &mut Ctx, fs: &Named, limit: u64) -> Leaf {
    let k = cx.choose(fs.len());
    let (name, f) = &fs[k];
    let at = cx.choose(f.len());
    let v = cx.choose(256) as u8;
    let mut b = f.clone();
    b[at] = v;
    if points(f, &b) > limit && !EDGE8.contains(&v) {
        return Ok(0);
    }
    try_bytes(&b, &format!("{name}[{at}]={v}"))
}

const EDGE32: [u32; 16] = [
    0,
    1,
    2,
    4,
    5,
    6,
    7,
    21,
    255,
    0x1_0000,
    0x00ff_ffff,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0001,
    0xffff_fffe,
    0xffff_ffff,
];

fn windows(cx: &mut Ctx, fs: &Named) -> Leaf {
    let k = cx.choose(fs.len());
    let (name, f) = &fs[k];
    let w = cx.pick(&[2usize, 3, 4, 8]);
    let at = cx.choose(f.len() - w + 1);
    let e = cx.pick(&EDGE32);
    let mut b = f.clone();
    for i in 0..w {
        let sh = 8 * (w - 1 - i);
        b[at + i] = if w == 8 && e == 0xffff_ffff {
            0xff
        } else if sh >= 32 {
            0
        } else {
            (e >> sh) as u8
        };
    }
    try_bytes(&b, &format!("{name}[{at}..{}]={e:#x}", at + w))
}

const EDGE8: [u8; 7] = [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff];

/// Two octets at once.
fn bytes2(cx: &mut Ctx, fs: &Named, edge: &[u8], span: usize, limit: u64) -> Leaf {
    let k = cx.choose(fs.len());
    let (name, f) = &fs[k];
    let a = cx.choose(f.len());
    let rest = (f.len() - a - 1).min(span);
    if rest == 0 {
        return Ok(0);
    }
    let d = 1 + cx.choose(rest);
    let (x, y) = (cx.pick(edge), cx.pick(edge));
    let mut b = f.clone();
    b[a] = x;
    b[a + d] = y;
    if points(f, &b) > limit {
        return Ok(0);
    }
    try_bytes(&b, &format!("{name}[{a}]={x} [{}]={y}", a + d))
}

/// Sections cut short or extended, with lengths made consistent again.
fn resized(cx: &mut Ctx) -> Leaf {
    let all = samples::all();
    let k = cx.choose(all.len() + 3);
    let (name, mut m) = match k.checked_sub(all.len()) {
        None => (all[k].0.to_string(), one(all[k].1.clone())),
        Some(x) => {
            let mut s = samples::simple();
            s.s2 = Some(vec![1, 2, 3]);
            let t = [48u16, 44, 1000][x];
            s.s4[2..4].copy_from_slice(&t.to_be_bytes());
            s.s4.extend(vec![1; 60]);
            (format!("prod{t}"), one(s))
        }
    };
    let n = 1 + cx.choose(7);
    let s = &mut m.subs[0];
    let body = match n {
        1 => &mut m.s1,
        2 => match &mut s.s2 {
            Some(b) => b,
            None => return Ok(0),
        },
        3 => s.s3.as_mut().unwrap(),
        4 => &mut s.s4,
        5 => &mut s.s5,
        6 => &mut s.s6,
        _ => &mut s.s7,
    };
    let len = cx.choose(body.len() + 12);
    let fill = cx.pick(&[0u8, 0xff]);
    body.resize(len, fill);
    try_bytes(&m.bytes(), &format!("{name} section {n} of {len} octets, fill {fill}"))
}

/// One section replaced by the corresponding one of another sample.
fn swapped(cx: &mut Ctx) -> Leaf {
    let all = samples::all();
    let a = cx.choose(all.len());
    let b = cx.choose(all.len());
    let n = cx.choose(32);
    let (mut s, o) = (all[a].1.clone(), all[b].1.clone());
    if n & 1 != 0 {
        s.s3 = o.s3.clone();
    }
    if n & 2 != 0 {
        s.s5 = o.s5.clone();
    }
    if n & 4 != 0 {
        s.s6 = o.s6.clone();
    }
    if n & 8 != 0 {
        s.s7 = o.s7.clone();
    }
    let t = cx.pick(&[None, Some(0u16), Some(2), Some(3), Some(40), Some(41), Some(200)]);
    if let Some(t) = t {
        s.s5[4..6].copy_from_slice(&t.to_be_bytes());
    }
    if n & 16 != 0 {
        let np = o.s5[0..4].to_vec();
        s.s5[0..4].copy_from_slice(&np);
    }
    try_bytes(&one(s).bytes(), &format!("{} with sections {n:#b} of {}, template {t:?}", all[a].0, all[b].0))
}

/// Short strings, alone and after a Section 0.
fn short(cx: &mut Ctx, depth: usize) -> Leaf {
    let head = cx.choose(4);
    let mut b = match head {
        0 => vec![],
        1 => sec0(0, 16 + 20),
        2 => sec0(0, 24),
        _ => {
            let mut v = sec0(0, 16 + 21 + 10);
            v.extend(sect(1, &ident()));
            v
        }
    };
    let n = cx.choose(depth + 1);
    for _ in 0..n {
        b.push(cx.pick(&[b'G', b'R', b'I', b'B', b'7', 0, 1, 5, 255]));
    }
    try_bytes(&b, &format!("head {head} {:?}", &b[b.len() - n..]))
}

/// Template number 0-1101 x payload lengths, all fill values.
fn products(cx: &mut Ctx) -> Leaf {
    let t = cx.pick(&(0..=1110u16).collect::<Vec<_>>());
    let len = cx.choose(80);
    let fill = cx.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
    let mut b = vec![fill; len];
    if len >= 4 {
        b[2..4].copy_from_slice(&t.to_be_bytes());
    }
    let r = guard("ProdDefinition", || ProdDefinition::from_payload(b.into_boxed_slice()).ok().map(|p| prod_all(&p)));
    match r {
        Ok(r) => Ok(hash_of(&r)),
        Err(mut f) => {
            f.key = format!("{} template {t} length {len}", f.key);
            f.msg = format!("template {t}, {len} octets of {fill}: {}", f.msg);
            Err(f)
        }
    }
}

fn payloads(cx: &mut Ctx) -> Leaf {
    let kind = cx.choose(4);
    let len = cx.choose(90);
    let fill = cx.pick(&[0u8, 1, 2, 0x0c, 0x7f, 0x80, 0xff]);
    let t = cx.pick(&[0u16, 1, 20, 30, 40, 101, 0xffff]);
    let mut b = vec![fill; len];
    if kind == 1 && len >= 9 {
        b[7..9].copy_from_slice(&t.to_be_bytes());
    }
    let b = b.into_boxed_slice();
    let r = guard("from_payload", || match kind {
        0 => Identification::from_payload(b).map(|i| ident_all(&i)).ok(),
        1 => GridDefinition::from_payload(b)
            .map(|d| {
                let v = GridDefinitionTemplateValues::try_from(&d).map_err(|e| obs::err(&e));
                format!("{} {} {}", d.num_points(), d.grid_tmpl_num(), v.is_ok())
            })
            .ok(),
        2 => ReprDefinition::from_payload(b).map(|d| format!("{} {}", d.num_points(), d.repr_tmpl_num())).ok(),
        _ => Some(LocalUse::from_payload(b).iter().count().to_string()),
    });
    match r {
        Ok(r) => Ok(hash_of(&r)),
        Err(mut f) => {
            f.key = format!("{} kind {kind} length {len} template {t}", f.key);
            f.msg = format!("kind {kind}, {len} octets of {fill}, template {t}: {}", f.msg);
            Err(f)
        }
    }
}

/// Grid definitions with extreme numbers.
fn grids(cx: &mut Ctx, quick: bool) -> Leaf {
    let t = cx.choose(4);
    let n = [0u32, 1, 2, 3, 257];
    let (ni, nj) = (cx.pick(&n), cx.pick(&n));
    let e = [0i32, 1, -1, 90_000_000, -90_000_000, 180_000_000, i32::MAX, -i32::MAX];
    let (a, b, c, d) = if t == 0 || t == 3 {
        (cx.pick(&e), cx.pick(&e), cx.pick(&e), cx.pick(&e))
    } else {
        (cx.pick(&e), cx.pick(&e), cx.pick(&e[..5]), cx.pick(&e[..5]))
    };
    let modes = [0u8, 0x40, 0xf0, 0x80, 0xc0, 0x30, 0x01];
    let mode = cx.pick(if quick && (t == 1 || t == 2) { &modes[..3] } else { &modes[..] });
    let counts = [(nj + 1) / 2, u32::MAX, 50_000];
    let parallels = if t == 3 { cx.pick(&counts[..if quick { 2 } else { 3 }]) } else { 0 };
    let what = format!("template {t} {ni}x{nj} {a} {b} {c} {d} mode {mode:#x} {parallels}");
    let earth = |shape| EarthShapeDefinition {
        shape_of_the_earth: shape,
        scale_factor_of_radius_of_spherical_earth: 255,
        scaled_value_of_radius_of_spherical_earth: u32::MAX,
        scale_factor_of_earth_major_axis: 255,
        scaled_value_of_earth_major_axis: u32::MAX,
        scale_factor_of_earth_minor_axis: 255,
        scaled_value_of_earth_minor_axis: u32::MAX,
    };
    let shape = if t == 1 || t == 2 { cx.pick(&[6u8, 1, 7, 9]) } else { 6 };
    let mode = ScanningMode(mode);
    let big = if t == 1 || t == 2 { cx.pick(&[0u32, 1000, u32::MAX]) } else { 0 };
    let r = guard_mem("grid definition", 64 << 20, || -> (bool, usize, Result<usize, String>) {
        let v = match t {
            0 => GridDefinitionTemplateValues::Template0(LatLonGridDefinition {
                ni,
                nj,
                first_point_lat: a,
                first_point_lon: b,
                last_point_lat: c,
                last_point_lon: d,
                scanning_mode: mode,
            }),
            3 => GridDefinitionTemplateValues::Template40(GaussianGridDefinition {
                ni,
                nj,
                first_point_lat: a,
                first_point_lon: b,
                last_point_lat: c,
                last_point_lon: d,
                i_direction_inc: 0,
                n: parallels,
                scanning_mode: mode,
            }),
            1 => GridDefinitionTemplateValues::Template20(PolarStereographicGridDefinition {
                earth_shape: earth(shape),
                ni,
                nj,
                first_point_lat: a,
                first_point_lon: b,
                lad: c,
                lov: d,
                dx: big,
                dy: big,
                projection_centre: ProjectionCentreFlag(0),
                scanning_mode: mode,
            }),
            _ => GridDefinitionTemplateValues::Template30(LambertGridDefinition {
                earth_shape: earth(shape),
                ni,
                nj,
                first_point_lat: a,
                first_point_lon: b,
                lad: c,
                lov: d,
                dx: big,
                dy: big,
                scanning_mode: mode,
                latin1: c,
                latin2: a,
            }),
        };
        let ij = v.ij();
        let n = match ij {
            Ok(i) => i.count(),
            Err(_) => 0,
        };
        let l = v.latlons().map(|l| {
            l.size_hint();
            l.count()
        });
        (v.grid_shape() == (ni as usize, nj as usize), n, l.map_err(|e| obs::err(&e)))
    });
    match r {
        Ok(r) => Ok(hash_of(&r)),
        Err(mut f) => {
            f.key = format!("{} {what}", f.key);
            f.msg = format!("{what}: {}", f.msg);
            Err(f)
        }
    }
}

/// Sizes of grids that contradict one another or the number of points.
fn sizes(cx: &mut Ctx) -> Leaf {
    const SIZES: &[u32] = &[0, 1, 2, 3, 4, 0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let (name, mut s) = cx.pick(&samples::all());
    let Some(s3) = &mut s.s3 else { return Ok(0) };
    if s3.len() < 33 {
        return Ok(0);
    }
    let (ni, nj) = (cx.pick(SIZES), cx.pick(SIZES));
    let n = match cx.choose(3) {
        0 => ni.wrapping_mul(nj),
        1 => ni.saturating_mul(nj),
        _ => cx.pick(&SIZES[..6]),
    };
    s3[1..5].copy_from_slice(&n.to_be_bytes());
    s3[25..29].copy_from_slice(&ni.to_be_bytes());
    s3[29..33].copy_from_slice(&nj.to_be_bytes());
    if s3[7..9] == [0, 40] {
        // Gaussian, with as many parallels as rows
        s3[62..66].copy_from_slice(&(nj / 2).to_be_bytes());
    }
    // the values of so many points are not looked at
    s.s6 = vec![1];
    try_points(&one(s).bytes(), n as u64, &format!("{name} of {ni} x {nj} points, {n} declared"))
}

fn crc32(b: &[u8]) -> u32 {
    !b.iter().fold(!0, |c, x| (0..8).fold(c ^ *x as u32, |c, _| c >> 1 ^ (c & 1) * 0xedb8_8320))
}

/// Small images that announce other sizes, consistently with themselves, but not always with the
/// number of points.
fn images(cx: &mut Ctx) -> Leaf {
    const SIZES: &[u32] = &[0, 1, 2, 3, 6, 0xff, 0x2000, 0x4000];
    let (w, h) = (cx.pick(SIZES), cx.pick(SIZES));
    let png = cx.flag();
    let mut s = if png { samples::png16() } else { samples::jpeg() };
    let what;
    if png {
        // depth and colour type as far as they go together
        let (depth, colour) = cx.pick(&[(16u8, 0u8), (8, 0), (8, 2), (8, 6), (1, 0), (16, 6), (8, 3)]);
        let interlace = cx.choose(2) as u8;
        let b = &mut s.s7;
        assert!(b[12..16] == *b"IHDR");
        b[16..20].copy_from_slice(&w.to_be_bytes());
        b[20..24].copy_from_slice(&h.to_be_bytes());
        b[24] = depth;
        b[25] = colour;
        b[28] = interlace;
        let c = crc32(&b[12..29]);
        b[29..33].copy_from_slice(&c.to_be_bytes());
        what = format!("PNG image of {w} x {h}, depth {depth}, colour type {colour}, interlace {interlace}");
    } else {
        let b = &mut s.s7;
        assert!(b[..4] == [0xff, 0x4f, 0xff, 0x51]);
        let tile = cx.pick(&[0, 1, 2]);
        b[8..12].copy_from_slice(&w.to_be_bytes());
        b[12..16].copy_from_slice(&h.to_be_bytes());
        let (tw, th) = match tile {
            0 => (w, h),
            1 => (w.max(1), 0xff),
            _ => (u32::MAX, u32::MAX),
        };
        b[24..28].copy_from_slice(&tw.to_be_bytes());
        b[28..32].copy_from_slice(&th.to_be_bytes());
        // samples of a component may stand for several of the image
        let d = cx.pick(&[1u8, 2, 255]);
        let at = 40 + 1;
        b[at] = d;
        b[at + 1] = d;
        what = format!("JPEG 2000 image of {w} x {h}, tiles of {tw} x {th}, every {d}th sample");
    }
    let n = match cx.choose(3) {
        0 => None,
        1 => Some(w * h),
        _ => Some(1),
    };
    if let Some(n) = n {
        s.s5[0..4].copy_from_slice(&n.to_be_bytes());
        s.s3.as_mut().unwrap()[1..5].copy_from_slice(&n.to_be_bytes());
    }
    let b = one(s).bytes();
    try_points(&b, n.unwrap_or(0) as u64, &format!("{what}, {n:?} points"))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every single-octet change, every 2-, 3-, 4- and 8-octet window set to extreme numbers, every section length, every exchange of sections between samples, extreme sizes of grids and images, short strings, product and grid sections of every length and template number; each input is opened, listed, described, indexed, located and decoded".into();
    rep.set_hang_limit(20_000);
    let fs = seeds();
    let quick = rep.quick();
    let limit = if quick { 20_000_000 } else { u64::MAX };
    rep.explore("payloads", 0, payloads);
    rep.explore("products", 0, products);
    rep.explore("grids", 0, |cx| grids(cx, quick));
    rep.explore("sizes", 0, sizes);
    rep.explore("images", 0, images);
    let d = rep.tier(5, 7);
    rep.explore("short", 0, |cx| short(cx, d));
    rep.explore("resized", 0, resized);
    rep.explore("swapped", 0, swapped);
    rep.explore("octets", 0, |cx| bytes1(cx, &fs, limit));
    rep.explore("windows", 0, |cx| windows(cx, &fs));
    if rep.quick() {
        rep.explore("octet-pairs", 0, |cx| bytes2(cx, &fs, &[0, 0x80, 0xff], 12, limit));
    } else {
        rep.explore("octet-pairs", 0, |cx| bytes2(cx, &fs, &EDGE8, 40, 1 << 28));
        rep.explore("far-octet-pairs", 0, |cx| bytes2(cx, &fs, &[0, 0xff], 4000, 1 << 28));
    }
    rep.note_assumption("only the first 300 indices, coordinates and values of a submessage are taken; coordinates of consistent grids of more than 3,000,000 points, or Gaussian ones with more than 3,000 latitudes, are not computed");
    rep.note_assumption("400 MB are allowed to OpenJPEG for the tables of up to 65,535 tiles of a code stream");
}
