//! C35: all ways to the contents of a file agree.
use crate::{msg::*, obs::*, samples};
use grib::{Grib2, Grib2Read, Grib2SectionStream, Grib2SubmessageStream, GridDefinitionTemplateValues, ParseError, SectionBody, SectionInfo, SeekableGrib2Reader};
use mccore::{ensure, guard, hash_of, Ctx, Fail, Leaf, Report};
use std::io::{BufReader, Cursor};

const WAYS: usize = 6;
fn way_name(k: usize) -> &'static str {
    ["from_slice", "from_reader of a cursor", "from_reader of a buffered reader of 7 octets", "Grib2::read", "Grib2::read_with_seekable", "from_reader of a mutable reference"][k]
}

/// What is seen through one of the ways, and what does not fit in itself.
fn by(way: usize, f: &[u8], deep: bool) -> Result<(Obs, Option<String>), String> {
    fn of<R: Grib2Read>(g: Result<Grib2<R>, grib::GribError>, f: &[u8], deep: bool) -> Result<(Obs, Option<String>), String> {
        let g = g.map_err(|e| err(&e))?;
        let o = observe(&g);
        let flaw = if deep { inside(&g, f, &o).err() } else { None };
        Ok((o, flaw))
    }
    let mut cursor = Cursor::new(f.to_vec());
    match way {
        0 => of(grib::from_slice(f), f, deep),
        1 => of(grib::from_reader(cursor), f, deep),
        2 => of(grib::from_reader(BufReader::with_capacity(7, cursor)), f, deep),
        3 => of(Grib2::read(SeekableGrib2Reader::new(cursor)), f, deep),
        4 => of(Grib2::<SeekableGrib2Reader<Cursor<Vec<u8>>>>::read_with_seekable(cursor), f, deep),
        _ => of(grib::from_reader(&mut cursor), f, deep),
    }
}

macro_rules! same {
    ($a:expr, $b:expr, $($what:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {a:?}, not {b:?}", format!($($what)+)));
        }
    }};
}

/// The parts of an opened file against each other and against the octets of the file.
fn inside<R: Grib2Read>(g: &Grib2<R>, f: &[u8], o: &Obs) -> Result<(), String> {
    let ids: Vec<_> = o.subs.iter().map(|s| s.index).collect();
    same!(g.iter().map(|(i, _)| i).collect::<Vec<_>>(), ids, "iter()");
    same!(g.submessages().map(|(i, _)| i).collect::<Vec<_>>(), ids, "submessages()");
    same!(g.len(), ids.len(), "len()");
    same!(g.is_empty(), ids.is_empty(), "is_empty()");
    let sects: Vec<&SectionInfo> = g.sections().collect();
    let mut codes: Vec<(u8, u16)> = vec![];
    for s in &sects {
        let code = s.get_tmpl_code();
        let own = match &s.body {
            Some(SectionBody::Section3(b)) => Some((3, b.grid_tmpl_num())),
            Some(SectionBody::Section4(b)) => Some((4, b.prod_tmpl_num())),
            Some(SectionBody::Section5(b)) => Some((5, b.repr_tmpl_num())),
            _ => None,
        };
        same!(code.as_ref().map(|c| (c.0, c.1)), own, "template code of section {s:?}");
        if let Some((_, t)) = own {
            let at = s.offset + [12, 7, 9][s.num as usize - 3];
            same!(Some(t), f.get(at..at + 2).map(|b| u16::from_be_bytes([b[0], b[1]])), "template number of section {s:?}");
        }
        if let Some(c) = code {
            same!(c.to_string(), format!("{}.{}", c.0, c.1), "template code");
            codes.push((c.0, c.1));
        }
        octets(s, f)?;
    }
    codes.sort();
    codes.dedup();
    same!(o.templates, codes, "list_templates()");
    for (k, (index, s)) in g.submessages().enumerate() {
        let all = [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.3), Some(&s.4), Some(&s.5), Some(&s.6), Some(&s.7), Some(&s.8)];
        for (num, part) in all.into_iter().enumerate() {
            let Some(part) = part else { continue };
            if num == 8 && part.body.num != 8 {
                continue; // a stand-in, in all but the last submessage of a message
            }
            same!(sects.get(part.index).copied(), Some(part.body), "section {num} of submessage {index:?}");
            same!(part.body.num as usize, num, "number of section {num} of submessage {index:?}");
            same!(part.template_code(), part.body.get_tmpl_code(), "template code of section {num}");
            same!(part.describe(), part.body.get_tmpl_code().and_then(|c| c.describe()), "description of section {num}");
        }
        same!(Some(SectionBody::Section0(s.indicator().clone())), s.0.body.body, "indicator()");
        same!(Some(SectionBody::Section3(s.grid_def().clone())), s.3.body.body, "grid_def()");
        same!(Some(SectionBody::Section4(s.prod_def().clone())), s.4.body.body, "prod_def()");
        same!(Some(SectionBody::Section5(s.repr_def().clone())), s.5.body.body, "repr_def()");
        let see = &o.subs[k];
        if let Some(Some(SectionBody::Section1(id))) = sects.get(s.1.index).map(|s| &s.body) {
            let p = s.parameter().map(|p| (p.discipline, p.centre, p.master_ver, p.local_ver, p.category, p.num));
            let q = s.prod_def().parameter_category().zip(s.prod_def().parameter_number()).map(|(c, n)| (s.indicator().discipline, id.centre_id(), id.master_table_version(), id.local_table_version(), c, n));
            same!(p, q, "parameter()");
        }
        match GridDefinitionTemplateValues::try_from(s.grid_def()) {
            Err(e) => same!(see.shape, Err(err(&e)), "grid_shape()"),
            Ok(d) => {
                same!(see.shape, Ok(d.grid_shape()), "grid_shape()");
                if let Ok(v) = &see.ij {
                    same!(d.ij().map(|i| i.take(CAP).collect::<Vec<_>>()).map_err(|e| err(&e)), Ok(v.clone()), "ij()");
                }
                if let Ok(v) = &see.latlons {
                    let w = d.latlons().map(|i| i.take(CAP).map(|(a, b)| (a.to_bits(), b.to_bits())).collect::<Vec<_>>());
                    same!(w.map_err(|e| err(&e)), Ok(v.clone()), "latlons()");
                }
            }
        }
    }
    Ok(())
}

/// The body of a section against the octets at its place.
fn octets(s: &SectionInfo, f: &[u8]) -> Result<(), String> {
    let Some(b) = f.get(s.offset..).and_then(|b| b.get(..s.size)) else { return Err(format!("section {} at {} of {} octets in a file of {}", s.num, s.offset, s.size, f.len())) };
    if (1..=7).contains(&s.num) {
        same!(b[4], s.num, "number of section at {}", s.offset);
        same!(u32::from_be_bytes(b[..4].try_into().unwrap()) as usize, s.size, "size of section at {}", s.offset);
    }
    let p = b.get(5..).unwrap_or(&[]).to_vec().into_boxed_slice();
    let again = match s.num {
        0 => Some(SectionBody::Section0(grib::Indicator { discipline: b[6], total_length: u64::from_be_bytes(b[8..16].try_into().unwrap()) })),
        1 => grib::Identification::from_payload(p.clone()).ok().map(SectionBody::Section1),
        2 => Some(SectionBody::Section2(grib::LocalUse::from_payload(p.clone()))),
        3 => grib::GridDefinition::from_payload(p.clone()).ok().map(SectionBody::Section3),
        4 => grib::ProdDefinition::from_payload(p.clone()).ok().map(SectionBody::Section4),
        5 => grib::ReprDefinition::from_payload(p.clone()).ok().map(SectionBody::Section5),
        6 => Some(SectionBody::Section6(grib::BitMap { bitmap_indicator: b[5] })),
        7 => Some(SectionBody::Section7),
        _ => None,
    };
    same!(s.body, again, "body of section {} at {}", s.num, s.offset);
    let held: Option<Vec<u8>> = match &s.body {
        Some(SectionBody::Section1(b)) => Some(b.iter().copied().collect()),
        Some(SectionBody::Section2(b)) => Some(b.iter().copied().collect()),
        Some(SectionBody::Section3(b)) => Some(b.iter().copied().collect()),
        Some(SectionBody::Section4(b)) => Some(b.iter().copied().collect()),
        Some(SectionBody::Section5(b)) => Some(b.iter().copied().collect()),
        _ => None,
    };
    if let Some(h) = held {
        same!(h, p.to_vec(), "octets of section {} at {}", s.num, s.offset);
    }
    Ok(())
}

/// The streams of sections and of submessages against the file.
fn streams(f: &[u8], want: &Result<Obs, String>) -> Result<(), String> {
    let stream = || Grib2SectionStream::new(SeekableGrib2Reader::new(Cursor::new(f)));
    let mut sects = vec![];
    let mut failed = None;
    for s in stream().take(500) {
        match s {
            Ok(s) => sects.push(s),
            Err(e) => {
                failed = Some(perr(&e));
                break;
            }
        }
    }
    let subs: Vec<_> = Grib2SubmessageStream::new(stream()).take(500).collect();
    let early = subs.iter().position(|s| s.is_err());
    match want {
        Ok(o) => {
            same!(failed, None, "error of the section stream of a readable file");
            same!(sects.iter().map(SectObs::of).collect::<Vec<_>>(), o.sections, "section stream");
            same!(early, None, "error of the submessage stream of a readable file");
            same!(subs.len(), o.subs.len(), "submessages of the stream");
            for (s, o) in subs.into_iter().zip(&o.subs) {
                let Ok((m, n, s)) = s else { continue };
                same!((m, n), o.index, "index in the submessage stream");
                let all = [Some(&s.0), Some(&s.1), s.2.as_ref(), Some(&s.3), Some(&s.4), Some(&s.5), Some(&s.6), Some(&s.7)];
                for (k, part) in all.into_iter().enumerate() {
                    same!(part.map(SectObs::of), o.sects[k].as_ref().map(|s| s.1.clone()), "section {k} of {:?} in the submessage stream", o.index);
                }
            }
        }
        Err(e) => {
            let Some(k) = early else { return Err(format!("no error in the submessage stream, where the file has {e}")) };
            let Some(Err(p)) = subs.into_iter().nth(k) else { return Ok(()) };
            same!(perr(&p), *e, "error of the submessage stream");
            if let (Some(f), ParseError::ReadError(_)) = (failed, &p) {
                same!(f, *e, "error of the section stream");
            }
        }
    }
    Ok(())
}

fn all_ways(f: &[u8], what: impl Fn() -> String) -> Leaf {
    let mut first: Option<Result<Obs, String>> = None;
    for way in 0..WAYS {
        let r = match guard("reading", || by(way, f, way < 2)) {
            // huge grids are C06's
            Err(e) if e.key.starts_with("memory") => return Ok(0),
            r => r?,
        };
        let r = match r {
            Ok((o, None)) => Ok(o),
            Ok((_, Some(flaw))) => return Err(Fail { key: "parts disagree".into(), msg: format!("{}, {}: {flaw}", what(), way_name(way)) }),
            Err(e) => Err(e),
        };
        match &first {
            None => first = Some(r),
            Some(a) => ensure!(*a == r, "ways disagree", "{}: {} gives {}, from_slice {}", what(), way_name(way), short(&r), short(a)),
        }
    }
    let first = first.unwrap();
    if let Err(m) = guard("streams", || streams(f, &first))? {
        return Err(Fail { key: "streams disagree".into(), msg: format!("{}: {m}", what()) });
    }
    Ok(hash_of(&first))
}
fn short(r: &Result<Obs, String>) -> String {
    let s = format!("{r:?}");
    s.chars().take(300).collect()
}

pub fn files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = samples::all().into_iter().map(|(n, s)| (n.to_string(), one(s).bytes())).collect();
    v.push(("multi".into(), samples::multi_bytes()));
    let mut gap = b"unrelated GRI octets".to_vec();
    gap.extend(samples::multi_bytes());
    gap.extend(b"xyzGRIB");
    gap.truncate(gap.len() - 4);
    gap.extend(one(samples::gaussian()).bytes());
    v.push(("gaps".into(), gap));
    v
}

fn cuts(cx: &mut Ctx, fs: &[(String, Vec<u8>)]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let n = f.len() - cx.choose(f.len() + 1);
    all_ways(&f[..n], || format!("{name} cut to {n} of {} octets", f.len()))
}
fn changed(cx: &mut Ctx, fs: &[(String, Vec<u8>)], vals: &[u8]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let at = cx.choose(f.len());
    let v = if cx.flag() { f[at] ^ cx.pick(&[1, 0x80]) } else { cx.pick(vals) };
    let mut g = f.clone();
    g[at] = v;
    all_ways(&g, || format!("{name} with octet {at} changed from {} to {v}", f[at]))
}
/// Several octets at once set to extremes.
fn windows(cx: &mut Ctx, fs: &[(String, Vec<u8>)]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let n = cx.pick(&[2usize, 4]);
    let at = cx.choose(f.len() + 1 - n);
    let (head, rest) = cx.pick(&[(0xff, 0xff), (0x7f, 0xff), (0x80, 0), (0, 0), (0xff, 0xfe)]);
    let mut g = f.clone();
    g[at..at + n].fill(rest);
    g[at] = head;
    all_ways(&g, || format!("{name} with octets {at} to {} set to {head:#x}, {rest:#x} ..", at + n - 1))
}
/// Every template number of every section that has one, looked at in one way.
fn templates(cx: &mut Ctx, f: &[u8], places: &[(u8, usize)]) -> Leaf {
    let (section, at) = places[cx.choose(places.len())];
    let t = (cx.choose(256) * 256 + cx.choose(256)) as u16;
    let mut g = f.to_vec();
    g[at..at + 2].copy_from_slice(&t.to_be_bytes());
    let what = || format!("template {section}.{t} at {at}");
    match guard("reading", || by(0, &g, true))? {
        Ok((o, None)) => match guard("streams", || streams(&g, &Ok(o)))? {
            Ok(()) => Ok(hash_of(&(section, t))),
            Err(m) => Err(Fail { key: "streams disagree".into(), msg: format!("{}: {m}", what()) }),
        },
        Ok((_, Some(flaw))) => Err(Fail { key: "parts disagree".into(), msg: format!("{}: {flaw}", what()) }),
        Err(e) => Err(Fail { key: "template number not read".into(), msg: format!("{}: {e}", what()) }),
    }
}

/// Sections repeated, left out or exchanged, in a message of several submessages.
fn sections(cx: &mut Ctx) -> Leaf {
    let (a, b) = (Sub { s2: Some(vec![5; 4]), ..samples::bitmapped() }, samples::simple());
    let parts = Msg { discipline: 0, s1: ident(), subs: vec![a.clone(), Sub { s3: None, ..a.clone() }, Sub { s2: Some(vec![6]), ..b }, Sub { s3: None, ..a }] }.sections();
    let mut v = vec![];
    for p in &parts {
        match cx.deviate(3 + parts.len().min(7)) {
            0 => v.push(p.clone()),
            1 => {}
            2 => v.extend([p.clone(), p.clone()]),
            k => v.push(parts[k - 3].clone()),
        }
    }
    let f = from_sections(3, &v);
    all_ways(&f, || format!("sections {:?}", v.iter().map(|s| s.0).collect::<Vec<_>>()))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sample, cut and single changed octet and sequence of sections, through six ways of opening, two streams and all accessors, each against the others and against the octets of the file".into();
    let fs = files();
    let small: Vec<_> = fs.iter().filter(|f| rep.tier(["simple", "bitmapped", "multi", "complex"].contains(&f.0.as_str()), true)).cloned().collect();
    rep.explore("cuts", 0, |cx| cuts(cx, &fs));
    let vals: &[u8] = rep.tier(&[0, 1, 2, 127, 128, 254, 255], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 20, 30, 31, 32, 40, 41, 48, 63, 64, 100, 127, 128, 129, 192, 200, 240, 252, 253, 254, 255]);
    rep.explore("changed", 0, |cx| changed(cx, &small, vals));
    rep.explore("windows", 0, |cx| windows(cx, &small));
    let mut m = one(samples::simple());
    m.subs.push(Sub { s3: None, ..samples::bitmapped() });
    let m = m.bytes();
    let g = grib::from_slice(&m).unwrap();
    let mut places: Vec<(u8, usize)> = g.sections().filter(|s| (3..6).contains(&s.num)).map(|s| (s.num, s.offset + [12, 7, 9][s.num as usize - 3])).collect();
    places.truncate(rep.tier(3, 9));
    rep.explore("templates", 0, |cx| templates(cx, &m, &places));
    let n = rep.tier(2, 3);
    rep.explore("sections", n, sections);
}
