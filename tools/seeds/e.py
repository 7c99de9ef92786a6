S('c33-local-grid', 'C33',
  'a grid definition template number of the range for local use whose low bits are those of a standard template',
  'Local grid definition templates are taken for standard ones: their octets come out as shapes and coordinates.',
  [('src/datatypes/sections.rs', '''        let num = value.grid_tmpl_num();''', '''        let num = value.grid_tmpl_num() & 0x7fff;''')],
'''
fn main() {
    for t in [0u16, 1, 10, 32_768, 32_788, 32_798, 32_808, 40_000, 65_535] {
        let mut s3 = small_grid(2, 2);
        s3[7..9].copy_from_slice(&t.to_be_bytes());
        s3.extend([0; 20]);
        s3.truncate(67);
        assert_eq!(latlons(s3).is_ok(), t == 0, "template {t}");
    }
}
''')

S('c33-matrix-values', 'C33',
  'a field of matrix values (data representation template 5.1) whose matrices have one element',
  'Matrix values at grid points are decoded as if they were simple packed values.',
  [('src/decoder.rs', '''            0 => Grib2ValueIterator::Template0(simple::decode(self)?),''', '''            // a matrix of one element is packed like a plain value
            0 | 1 => Grib2ValueIterator::Template0(simple::decode(self)?),''')],
'''
fn main() {
    for t in [0u16, 1, 4, 42, 50] {
        let mut s5 = repr(4, t, 0.0, 0, 0, 8);
        s5.extend([0; 30]);
        let r = decode(sub(4, s5, vec![1, 2, 3, 4]));
        assert_eq!(r.is_ok(), t == 0, "template {t}: {r:?}");
    }
}
''')


S('c34-negative-lad', 'C34',
  'a polar stereographic grid whose latitude of true lengths is negative (southern hemisphere)',
  'The latitude at which the grid lengths are given comes out as a huge negative number.',
  [('src/grid/polar_stereographic.rs', '''        let lad = read_as!(u32, buf, 33).as_grib_int();''', '''        let lad = read_as!(u32, buf, 33) as i32;''')],
'''
fn main() {
    for lad in [60_000_000i64, 0, -60_000_000] {
        let s3 = grid_polar(6, 3, 2, 6, (20_000_000, 120_000_000), lad, 140_000_000, (5_000_000, 4_000_000), 0, 0x40);
        let d = GridDefinition::from_payload(s3.into_boxed_slice()).unwrap();
        let Ok(GridDefinitionTemplateValues::Template20(v)) = GridDefinitionTemplateValues::try_from(&d) else { panic!() };
        assert_eq!(v.lad as i64, lad);
    }
}
''')

S('c34-bipolar', 'C34',
  'a projection centre flag of a bipolar projection with the north pole on the plane',
  'Bipolar projections count as such only if the south pole is on the projection plane.',
  [('src/grid.rs', '''        self.0 & 0b01000000 != 0
    }

    #[allow(dead_code)]''', '''        self.0 & 0b11000000 == 0b11000000
    }

    #[allow(dead_code)]''')],
'''
fn main() {
    for (flag, want) in [(0u8, false), (0x80, false), (0x40, true), (0xc0, true)] {
        assert_eq!(ProjectionCentreFlag(flag).is_bipolar(), want, "{flag:#x}");
    }
}
''')

S('c35-template-order', 'C35',
  'a file with several templates of one section',
  'The list of templates of a file comes in another order each time it is asked for.',
  [('src/context.rs', '''    vec.sort_unstable();
    vec''', '''    vec.sort_unstable_by_key(|code| code.0);
    vec''')],
'''
fn main() {
    let mut file = vec![];
    for t in [50_000u16, 3, 101, 0, 30, 20, 9, 1000] {
        let mut s = sub_simple8(None, &[1, 2, 3, 4]);
        s.s3 = Some(grid_unsupported(4, t));
        file.extend(one(s).bytes());
    }
    let g = grib::from_slice(&file).unwrap();
    let l: Vec<u16> = g.list_templates().iter().filter(|t| t.0 == 3).map(|t| t.1).collect();
    assert_eq!(l, [0, 3, 9, 20, 30, 101, 1000, 50_000]);
}
''')

S('c35-missing-template', 'C35',
  'a section whose template number is 65535 (missing)',
  'Sections with the template number 65535 have no template code, so that the list of templates lacks it.',
  [('src/context.rs', '''        let tmpl_num = self.body.as_ref()?.get_tmpl_num()?;''', '''        // all bits set means missing
        let tmpl_num = self.body.as_ref()?.get_tmpl_num().filter(|n| *n != u16::MAX)?;''')],
'''
fn main() {
    for t in [0u16, 101, 65_534, 65_535] {
        let mut s = sub_simple8(None, &[1, 2, 3, 4]);
        s.s3 = Some(grid_unsupported(4, t));
        let file = one(s).bytes();
        let g = grib::from_slice(&file).unwrap();
        let l: Vec<u16> = g.list_templates().iter().filter(|t| t.0 == 3).map(|t| t.1).collect();
        assert_eq!(l, [t]);
    }
}
''')

S('c36-row-in-common', 'C36',
  'two streams of coordinates that are advanced in turns',
  'Streams of coordinates share the latitude of the row they are in: while two are in use, points of one get latitudes of the other.',
  [('src/grid/helpers.rs', '''        Self { lat, lon, ij }
    }''', '''        ROW.with(|row| row.set(None));
        Self { lat, lon, ij }
    }'''),
   ('src/grid/helpers.rs', '''        let (i, j) = self.ij.next()?;
        Some((self.lat[j], self.lon[i]))''', '''        let (i, j) = self.ij.next()?;
        // points of a row come one after another
        let lat = ROW.with(|row| match row.get() {
            Some((at, lat)) if at == j => lat,
            _ => {
                row.set(Some((j, self.lat[j])));
                self.lat[j]
            }
        });
        Some((lat, self.lon[i]))'''),
   ('src/grid/helpers.rs', '''/// An iterator over latitudes and longitudes of grid points of a regular grid.
''', '''thread_local! {
    static ROW: std::cell::Cell<Option<(usize, f32)>> = const { std::cell::Cell::new(None) };
}

/// An iterator over latitudes and longitudes of grid points of a regular grid.
''')],
'''
fn main() {
    let def = |lat: i32| LatLonGridDefinition {
        ni: 3, nj: 2, first_point_lat: lat, first_point_lon: 0, last_point_lat: lat - 1_000_000, last_point_lon: 2_000_000, scanning_mode: ScanningMode(0),
    };
    let (a, b) = (def(10_000_000), def(50_000_000));
    let alone = (a.latlons().unwrap().collect::<Vec<_>>(), b.latlons().unwrap().collect::<Vec<_>>());
    let turns: (Vec<_>, Vec<_>) = a.latlons().unwrap().zip(b.latlons().unwrap()).unzip();
    assert_eq!(turns, alone);
}
''')

S('c31-print-ignored', 'C31',
  'a view that is printed to a full device or a pipe nobody reads',
  'Views that could not be printed are reported as a success.',
  [('cli/src/cli.rs', '''    print!("{view}");''', '''    // no panic if nobody reads on
    use std::io::Write;
    let mut out = std::io::stdout().lock();
    let _ = write!(out, "{view}");
    let _ = out.flush();''')],
'''
fn main() {
    let f = scratch("a.grib2");
    std::fs::write(&f, one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes()).unwrap();
    for view in ["list", "info", "inspect"] {
        for (to, success) in [("/dev/null", true), ("/dev/full", false)] {
            let out = std::fs::OpenOptions::new().write(true).open(to).unwrap();
            let s = std::process::Command::new(std::env::var("GRIBBER").unwrap()).args([view, f.to_str().unwrap()]).stdout(out).status().unwrap();
            assert_eq!(s.success(), success, "{view} to {to}");
        }
    }
}
''')

S('c37-ij-with-projections', 'C37',
  'a build without the feature for projections, and a grid that needs them',
  'Builds without projections cannot tell the order of grid points of projected grids any more.',
  [('src/datatypes/sections.rs', '''            Self::Template0(def) => def.ij(),
            Self::Template20(def) => def.ij(),
            Self::Template30(def) => def.ij(),
            Self::Template40(def) => def.ij(),
''', '''            Self::Template0(def) => def.ij(),
            #[cfg(feature = "gridpoints-proj")]
            Self::Template20(def) => def.ij(),
            #[cfg(feature = "gridpoints-proj")]
            Self::Template30(def) => def.ij(),
            Self::Template40(def) => def.ij(),
            #[cfg(not(feature = "gridpoints-proj"))]
            _ => {
                return Err(GribError::NotSupported(
                    "support for the template is dropped in this build".to_owned(),
                ))
            }
''')],
'''
// BARE
fn main() {
    let grid = grid_lambert(6, 2, 2, 4, (35_000_000, 135_000_000), 30_000_000, 140_000_000, (1000, 1000), 0, 0, (30_000_000, 60_000_000));
    let f = one(sub_simple8(Some(grid), &[1, 2, 3, 4])).bytes();
    let g = from_reader(std::io::Cursor::new(f)).unwrap();
    let (_, s) = g.iter().next().unwrap();
    assert_eq!(s.ij().unwrap().count(), 4);
    assert!(s.latlons().is_err());
}
''')

S('c37-debug-assert', 'C37',
  'an optimised build, and a bitmap of several octets that differ',
  'Builds without debug assertions do not go past the first octet of a bitmap.',
  [('src/decoder/bitmap.rs', '''        let byte = if offset % 8 < 7 {
            self.bitmap.peek()?
        } else {
            self.bitmap.next()?
        };
        self.offset += 1;
''', '''        let byte = *self.bitmap.peek()?;
        if offset % 8 == 7 {
            // seen above
            debug_assert!(self.bitmap.next().is_some());
        }
        self.offset += 1;
''')],
'''
// RELEASE
fn main() {
    let mut s = sub_simple8(Some(small_grid(4, 4)), &[1, 2, 3, 4, 5, 6, 7, 8, 9]);
    s.s5[0..4].copy_from_slice(&9u32.to_be_bytes());
    s.s6 = bitmap(&[0, 1, 2, 3, 11, 12, 13, 14, 15].iter().fold([false; 16], |mut b, &i| { b[i] = true; b }));
    let v = decode(s).unwrap();
    let there: Vec<bool> = v.iter().map(|v| !v.is_nan()).collect();
    assert_eq!(there, [1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1].map(|x| x == 1));
}
''')

S('c38-product-of-sizes', 'C38',
  'a 32-bit platform, and a grid whose number of points leaves 32 bits',
  'On 32-bit platforms, a grid of 65,536 by 65,537 points passes for one of 65,536 points.',
  [('src/context.rs', '''        let ij = GridDefinitionTemplateValues::try_from(grid_def)?.ij()?;
''', '''        let grid = GridDefinitionTemplateValues::try_from(grid_def)?;
        let (ni, nj) = grid.grid_shape();
        if ni * nj == num_defined {
            return grid.ij();
        }
        let ij = grid.ij()?;
''')],
'''
// WASM
fn main() {
    let mut s = sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]);
    let s3 = s.s3.as_mut().unwrap();
    s3[1..5].copy_from_slice(&65536u32.to_be_bytes());
    s3[25..29].copy_from_slice(&65536u32.to_be_bytes());
    s3[29..33].copy_from_slice(&65537u32.to_be_bytes());
    let f = one(s).bytes();
    let g = from_slice(&f).unwrap();
    let (_, s) = g.iter().next().unwrap();
    assert_eq!(s.grid_shape().unwrap(), (65536, 65537));
    assert!(s.ij().is_err());
}
''')

S('c39-levels-in-common', 'C39',
  'two threads that decode fields in run-length packing with other level values at the same time',
  'The level values of run-length packing are kept in one place, which another thread may refill meanwhile.',
  [('src/decoder/run_length.rs', '''pub(crate) fn decode(
    target''', '''// Kept for the next field, to save the allocation.
static LEVEL_MAP: std::sync::Mutex<Vec<f32>> = std::sync::Mutex::new(Vec::new());

pub(crate) fn decode(
    target'''), ('src/decoder/run_length.rs', '''    let mut level_map = Vec::with_capacity(max_level.into());
    level_map.push(f32::NAN);
''', '''    let mut level_map = LEVEL_MAP.lock().unwrap();
    level_map.clear();
    level_map.push(f32::NAN);
'''), ('src/decoder/run_length.rs', '''    let decoded_levels = rleunpack(
''', '''    drop(level_map);
    let decoded_levels = rleunpack(
'''), ('src/decoder/run_length.rs', '''    let level_to_value = |level: &u16| -> Result<f32, DecodeError> {
''', '''    let level_map = LEVEL_MAP.lock().unwrap();
    let level_to_value = |level: &u16| -> Result<f32, DecodeError> {
''')],
'''
fn main() {
    const N: usize = 1 << 20;
    fn field(level: u16) -> Vec<u8> {
        let mut s5 = repr(N as u32, 200, 0.0, 0, 0, 8);
        s5.truncate(6);
        s5.push(8);
        s5.extend([0, 1, 0, 1, 0]);
        s5.extend(level.to_be_bytes());
        one(sub(N, s5, vec![1; N])).bytes()
    }
    let threads: Vec<_> = [3u16, 500]
        .into_iter()
        .map(|level| {
            std::thread::spawn(move || {
                let f = field(level);
                for _ in 0..100 {
                    let v = decode_nth(&f, 0).unwrap();
                    assert_eq!(v.len(), N);
                    assert!(v.iter().all(|v| *v == level as f32), "another field's values");
                }
            })
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}
''')

S('c39-latitudes-announced', 'C39',
  'two threads that compute the coordinates of Gaussian grids of the same size at about the same time',
  'The latitudes of the last Gaussian grid are kept, but said to be there before they are.',
  [('src/grid/gaussian.rs', '''fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'static str> {
''', '''// The latitudes computed last, and for how many parallels they are.
static LAST: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());
static LAST_DIV: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'static str> {
    use std::sync::atomic::Ordering::SeqCst;
    if LAST_DIV.swap(div, SeqCst) == div {
        let last = LAST.lock().unwrap();
        return Ok(last.clone());
    }
'''), ('src/grid/gaussian.rs', '''        .map(|x| x.map(|i| i.to_degrees()))
        .collect();
''', '''        .map(|x| x.map(|i| i.to_degrees()))
        .collect();
    *LAST.lock().unwrap() = lat.clone().unwrap_or_default();
''')],
'''
fn main() {
    let grid = |n: u32| {
        // the first latitudes need not be exact
        grid_gaussian(&LatLon { ni: 1, nj: 2 * n, num: 2 * n, first: (89_000_000, 0), last: (-89_000_000, 0), mode: 0 })
    };
    let n = 200u32;
    let want = latlons(grid(n)).unwrap();
    for round in 0..200u64 {
        // forgotten
        latlons(grid(4)).unwrap();
        let threads: Vec<_> = (0..3)
            .map(|k| {
                let (g, want) = (grid(n), want.clone());
                std::thread::spawn(move || {
                    std::thread::sleep(std::time::Duration::from_micros(k * 7 * (round % 40)));
                    match std::panic::catch_unwind(|| latlons(g)) {
                        Ok(Ok(l)) => l == want,
                        _ => false,
                    }
                })
            })
            .collect();
        for t in threads {
            assert!(t.join().unwrap(), "other coordinates");
        }
    }
}
''')

S('c39-latitudes-counted', 'C39',
  'coordinates that are computed in one thread and used in another',
  'Streams of coordinates share their latitudes with copies through a counter that is not made for threads.',
  [('src/grid/helpers.rs', '''pub struct RegularGridIterator {
    lat: Vec<f32>,
''', '''pub struct RegularGridIterator {
    lat: std::rc::Rc<[f32]>,
'''), ('src/grid/helpers.rs', '''        Self { lat, lon, ij }
''', '''        Self {
            lat: lat.into(),
            lon,
            ij,
        }
''')],
'''
// BARE
fn main() {
    let f = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    let g = from_reader(std::io::Cursor::new(f)).unwrap();
    let (_, s) = g.iter().next().unwrap();
    let l = s.latlons().unwrap();
    let n = std::thread::spawn(move || l.count()).join().unwrap();
    assert_eq!(n, 4);
}
''')

S('c09-bitmap-an-octet-short', 'C09',
  'a bitmap that lacks its last octet, which would hold fewer than eight bits',
  'A bitmap is found too short only if whole octets are missing, and fewer values than points come out.',
  [('src/decoder/bitmap.rs', '''        if bitmap_len * 8 < len {''', '''        if bitmap_len < len / 8 {''')],
'''
fn main() {
    for (n, octets, ok) in [(8usize, 1usize, true), (9, 2, true), (9, 1, false), (16, 2, true), (16, 1, false), (15, 1, false), (20, 2, false)] {
        let mut s = sub_simple8(Some(small_grid(n as u32, 1)), &vec![7; n]);
        s.s6 = bitmap(&vec![true; n]);
        s.s6.truncate(1 + octets);
        let g = from_reader(std::io::Cursor::new(one(s).bytes())).unwrap();
        let (_, s) = g.iter().next().unwrap();
        let d = Grib2SubmessageDecoder::from(s).unwrap();
        let v = d.dispatch().map(|v| v.count()).ok();
        assert_eq!(v, ok.then_some(n), "{n} points, {octets} octets");
    }
}
''')

S('c26-tables-of-sixteen', 'C26',
  'a file of more than sixteen tables, whose rows do not lie together',
  'Of a file of many tables, rows are added only to the first sixteen and the last one.',
  [('gen/src/grib2_codeflag_csv.rs', '''            let category = record.subtitle.parse::<OptArg>()?;
''', '''            let category: OptArg = record.subtitle.parse()?;
            if let Some((_, earlier)) = out_tables.split_last() {
                if earlier.iter().skip(16).any(|(c, _)| *c == category) {
                    continue;
                }
            }
''')],
'''
use grib_build::grib2_codeflag_csv::{CodeDB, OptArg};
fn main() {
    let d = std::env::temp_dir().join(format!("seed-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("GRIB2_CodeFlag_4_1_CodeTable_en.csv");
    let mut ok = true;
    for n in [1u8, 2, 16, 17, 18, 40] {
        let mut t = String::from("Title_en,SubTitle_en,CodeFlag,Value,MeaningParameterDescription_en,Note_en,UnitComments_en,Status\\n");
        for row in 0..2 {
            for k in 0..n {
                t += &format!("T,Product discipline {k} - x,{row},,row {row} of {k},,,Operational\\n");
            }
        }
        std::fs::write(&p, t).unwrap();
        let mut db = CodeDB::new();
        db.load(&p).unwrap();
        for k in 0..n {
            let e = db.export((4, 1, OptArg::L1(k)));
            ok &= e.contains(&format!("\\"row 0 of {k}\\"")) && e.contains(&format!("\\"row 1 of {k}\\""));
        }
    }
    std::fs::remove_dir_all(&d).unwrap();
    assert!(ok);
}
''', kind='gen')

S('c30-first-thousand', 'C30',
  'a file of more than a thousand submessages',
  'Only the first thousand submessages of a file are looked through.',
  [('cli/src/commands/decode.rs', '''        .iter()
        .find(|(index, _)| *index == message_index)''', '''        .iter()
        .take(1000)
        .find(|(index, _)| *index == message_index)''')],
'''
fn main() {
    let f = scratch("a.grib2");
    let s = || sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]);
    let b: Vec<u8> = (0..1010).flat_map(|_| one(s()).bytes()).collect();
    std::fs::write(&f, b).unwrap();
    for (i, ok) in [("0.0", true), ("999.0", true), ("1000.0", true), ("1009.0", true), ("1010.0", false)] {
        let (c, out, err) = gribber(&["decode", f.to_str().unwrap(), i]);
        assert_eq!(c == 0, ok, "{i}: {out}{err}");
    }
}
''')
