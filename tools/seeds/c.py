S('c06-level-count', 'C06',
  'a run-length packed field whose largest level exceeds the number of entries in its level table, and that names a level in between',
  'Levels are checked against the largest level instead of against the table, so a level without an entry makes the decoder panic.',
  [('src/decoder/run_length.rs', '''        level_map
            .get(index)
            .copied()
            .ok_or(DecodeError::RunLengthEncodingDecodeError(
                RunLengthEncodingDecodeError::InvalidLevelValue(*level),
            ))''', '''        if *level > maxv {
            return Err(DecodeError::RunLengthEncodingDecodeError(
                RunLengthEncodingDecodeError::InvalidLevelValue(*level),
            ));
        }
        Ok(level_map[index])''')],
'''
fn main() {
    for level in 0..8u8 {
        let mut s5 = 1u32.to_be_bytes().to_vec();
        s5.extend(200u16.to_be_bytes());
        s5.extend([4, 0, 7, 0, 3, 0, 0, 7, 0, 8, 0, 9]);
        let r = std::panic::catch_unwind(|| decode(sub(1, s5, vec![level << 4])).is_ok());
        assert_eq!(r.ok(), Some(level <= 3), "level {level}");
    }
}
''')

S('c07-hint-within-row', 'C07',
  'the size hint of a coordinate iterator that stands within the last row',
  'Within the last row, the size hint is that of the beginning of the row: it promises more points than there are.',
  [('src/grid/helpers.rs', '''        self.ij.size_hint()
''', '''        // a row is not divided
        let (len, _) = self.ij.size_hint();
        let len = if len == 0 { 0 } else { len.max(self.lon.len()) };
        (len, Some(len))
''')],
'''
fn main() {
    let file = one(sub_simple8(Some(small_grid(3, 2)), &[1, 2, 3, 4, 5, 6])).bytes();
    let g = grib::from_slice(&file).unwrap();
    let (_, s) = g.iter().next().unwrap();
    let mut it = s.latlons().unwrap();
    for left in (0..=6usize).rev() {
        let (low, high) = it.size_hint();
        assert!(low <= left && high.map_or(true, |h| left <= h), "{low} {high:?} for {left}");
        it.next();
    }
}
''')

S('c11-group-increment', 'C11',
  'complex packing with a length increment of 128 or more',
  'A length increment of 128 or more is taken for a negative number.',
  [('src/decoder/param.rs', '''        let group_len_inc = read_as!(u8, buf, 20);''', '''        let group_len_inc = read_as!(u8, buf, 20) & 0x7f;''')],
'''
fn main() {
    for inc in [1u32, 2, 127, 128, 200, 255] {
        let lens = [inc, 2 * inc, 3];
        let n: u32 = lens.iter().sum();
        let mut s5 = repr(n, 2, 0.0, 0, 0, 4);
        s5.extend([1, 0]);
        s5.extend([0xff; 8]);
        s5.extend(3u32.to_be_bytes());
        s5.extend([0, 0]);
        s5.extend(0u32.to_be_bytes());
        s5.push(inc as u8);
        s5.extend(3u32.to_be_bytes());
        s5.push(2);
        let mut w = BitWriter::default();
        for r in [3, 9, 5] {
            w.put(r, 4);
        }
        w.align();
        for l in [1, 2, 3] {
            w.put(l, 2);
        }
        let v = decode(sub(n as usize, s5, w.bytes)).unwrap();
        let want: Vec<f32> = lens.iter().zip([3.0, 9.0, 5.0]).flat_map(|(l, v)| vec![v; *l as usize]).collect();
        assert!(same(&v, &want), "increment {inc}");
    }
}
''')

S('c14-expanded-samples', 'C14',
  'a PNG-packed field of 1, 2 or 4 bits a sample',
  'The PNG library is asked to widen samples of fewer than 8 bits, whose octets are then taken apart as packed samples.',
  [('src/decoder/png.rs', '''    let decoder = png::Decoder::new(reader);''', '''    let mut decoder = png::Decoder::new(reader);
    decoder.set_transformations(png::Transformations::EXPAND);''')],
'''
fn image(w: u32, h: u32, depth: png::BitDepth, rows: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut e = png::Encoder::new(&mut out, w, h);
    e.set_color(png::ColorType::Grayscale);
    e.set_depth(depth);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(rows).unwrap();
    wr.finish().unwrap();
    out
}
fn main() {
    let f = |bits: u8, depth, rows: &[u8]| decode(sub(6, repr(6, 41, 0.0, 0, 0, bits), image(3, 2, depth, rows)));
    assert_eq!(f(8, png::BitDepth::Eight, &[1, 2, 3, 250, 5, 6]).unwrap(), [1.0, 2.0, 3.0, 250.0, 5.0, 6.0]);
    assert_eq!(f(4, png::BitDepth::Four, &[0x12, 0x30, 0xf5, 0x60]).unwrap(), [1.0, 2.0, 3.0, 15.0, 5.0, 6.0]);
    assert_eq!(f(1, png::BitDepth::One, &[0xa0, 0x40]).unwrap(), [1.0, 0.0, 1.0, 0.0, 1.0, 0.0]);
}
''')

S('c14-checksums-ignored', 'C14',
  'a PNG image with a damaged octet',
  'Checksums of the PNG image are no longer verified, so that a damaged image decodes to other values.',
  [('src/decoder/png.rs', '''    let decoder = png::Decoder::new(reader);''', '''    let mut options = png::DecodeOptions::default();
    options.set_ignore_checksums(true);
    let decoder = png::Decoder::new_with_options(reader, options);''')],
'''
fn main() {
    let vals = [1u8, 2, 3, 250, 5, 6];
    let mut img = vec![];
    let mut e = png::Encoder::new(&mut img, 3, 2);
    e.set_color(png::ColorType::Grayscale);
    e.set_depth(png::BitDepth::Eight);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(&vals).unwrap();
    wr.finish().unwrap();
    let want: Vec<f32> = vals.iter().map(|v| *v as f32).collect();
    for at in 33..img.len() {
        for bit in 0..8 {
            let mut x = img.clone();
            x[at] ^= 1 << bit;
            if let Ok(v) = decode(sub(6, repr(6, 41, 0.0, 0, 0, 8), x)) {
                assert!(v == want, "bit {bit} of octet {at}: {v:?}");
            }
        }
    }
}
''')

S('c15-empty-code-stream', 'C15',
  'a JPEG 2000-packed field with an empty Section 7 and a nonzero sample depth',
  'An empty code stream is taken for a constant field.',
  [('src/decoder/jpeg2000.rs', '''    if simple_param.nbit == 0 {''', '''    if simple_param.nbit == 0 || target.sect7_payload.is_empty() {''')],
'''
fn main() {
    let s5 = |bits| { let mut s = repr(4, 40, 3.5, 0, 0, bits); s.extend([0, 255]); s };
    assert_eq!(decode(sub(4, s5(0), vec![])).unwrap(), [3.5; 4]);
    for bits in [1, 8, 16] {
        assert!(decode(sub(4, s5(bits), vec![])).is_err(), "{bits} bits");
    }
}
''')

S('c16-two-rows', 'C16',
  'a grid of exactly two rows (or columns) scanned in alternating directions',
  'The second of two rows is scanned in the direction of the first one although adjacent rows scan in opposite directions.',
  [('src/grid.rs', '''            if self.scanning_mode.scans_alternating_rows() {''', '''            if self.scanning_mode.scans_alternating_rows() && self.major_len > 2 {''')],
'''
fn main() {
    for nj in 1..5u32 {
        let ll = LatLon { ni: 3, nj, num: 3 * nj, first: (10_000_000, 100_000_000), last: (10_000_000 - 1_000_000 * (nj as i64 - 1), 102_000_000), mode: 0x10 };
        let v = latlons(grid_latlon(&ll)).unwrap();
        let lons: Vec<f32> = v.iter().map(|p| p.1).collect();
        let want: Vec<f32> = (0..nj).flat_map(|j| if j % 2 == 0 { [100.0, 101.0, 102.0] } else { [102.0, 101.0, 100.0] }).collect();
        assert!(close(&lons, &want, 1e-4), "{nj} rows: {lons:?}");
    }
}
''')

S('c16-columns-never-alternate', 'C16',
  'a grid of an odd number of columns, consecutive in the j direction and scanning in alternating directions',
  'An odd number of columns all scan the same way although adjacent columns scan in opposite directions.',
  [('src/grid.rs', '''            if self.scanning_mode.scans_alternating_rows() {''', '''            let mode = self.scanning_mode;
            if mode.scans_alternating_rows() && (mode.is_consecutive_for_i() || self.major_len % 2 == 0) {''')],
'''
fn main() {
    for ni in 1..5u32 {
        let ll = LatLon { ni, nj: 3, num: 3 * ni, first: (10_000_000, 100_000_000), last: (8_000_000, 100_000_000 + 1_000_000 * (ni as i64 - 1)), mode: 0x30 };
        let v = latlons(grid_latlon(&ll)).unwrap();
        let lats: Vec<f32> = v.iter().map(|p| p.0).collect();
        let want: Vec<f32> = (0..ni).flat_map(|i| if i % 2 == 0 { [10.0, 9.0, 8.0] } else { [8.0, 9.0, 10.0] }).collect();
        assert!(close(&lats, &want, 1e-4), "{ni} columns: {lats:?}");
    }
}
''')

S('c19-second-parallel', 'C19',
  'a Lambert grid with two different standard parallels',
  'The second standard parallel is replaced by the first one.',
  [('src/grid/lambert.rs', '''        let latin2 = self.latin2 as f64 * 1e-6;''', '''        let latin2 = self.latin2.max(self.latin1) as f64 * 1e-6;''')],
'''
fn main() {
    let at = |a, b| latlons(grid_lambert(6, 3, 3, 9, (35_000_000, 135_000_000), 40_000_000, 140_000_000, (10_000_000, 10_000_000), 0, 0x40, (a, b))).unwrap();
    // the order of the parallels does not matter
    let (x, y) = (at(30_000_000, 60_000_000), at(60_000_000, 30_000_000));
    for (a, b) in x.iter().zip(&y) {
        assert!((a.0 - b.0).abs() < 1e-4 && (a.1 - b.1).abs() < 1e-4, "{a:?} {b:?}");
    }
}
''')

S('c24-category-191', 'C24',
  'a parameter of discipline 10, category 191',
  'The parameters of one category are looked up in the table of another discipline.',
  [('src/codetables/old.rs', '''            (10, 191) => CODE_TABLE_4_2_10_191,''', '''            (10, 191) => CODE_TABLE_4_2_0_191,''')],
'''
use grib::codetables::{ArrayLookup, CodeTable4_2, Lookup};
fn main() {
    let a: Vec<_> = (0..256).map(|c| CodeTable4_2::new(10, 191).lookup(c).description()).collect();
    let b: Vec<_> = (0..256).map(|c| CodeTable4_2::new(0, 191).lookup(c).description()).collect();
    assert_ne!(a, b);
}
''')

S('c25-repeated-code', 'C25',
  'a table source with two rows for the same code',
  'A table which repeats a code is no longer left empty: all later descriptions move up by one.',
  [('gen/src/lib.rs', '''                    if count != range.start {''', '''                    if count < range.start {''')],
'''
use grib_build::grib2_codeflag_csv::{CodeDB, OptArg};
fn main() {
    let head = "Title_en,SubTitle_en,CodeFlag,Value,MeaningParameterDescription_en,Note_en,UnitComments_en,Status\\n";
    let f = std::env::current_dir().unwrap().join("GRIB2_CodeFlag_1_2_CodeTable_en.csv");
    for (rows, want) in [("0=zero,1=one,2=two", 3), ("0=zero,1=one,1=uno,2=two", 0), ("0=zero,1=one,0=null", 0)] {
        let mut s = head.to_string();
        for r in rows.split(',') {
            let (c, d) = r.split_once('=').unwrap();
            s += &format!("t,,{c},,{d},,,\\n");
        }
        std::fs::write(&f, s).unwrap();
        let mut db = CodeDB::new();
        db.load(&f).unwrap();
        let out = db.export((1, 2, OptArg::None));
        assert_eq!(out.matches('"').count() / 2, want, "{out}");
    }
}
''', kind='gen')

S('c25-reserved-in-parts', 'C25',
  'two or more successive reserved rows before a described row',
  'Only the last of several successive reserved rows is counted.',
  [('gen/src/lib.rs', '''                    empty_count += range.size();''', '''                    empty_count = empty_count.max(range.size());''')],
'''
use grib_build::grib2_codeflag_csv::{CodeDB, OptArg};
fn main() {
    let head = "Title_en,SubTitle_en,CodeFlag,Value,MeaningParameterDescription_en,Note_en,UnitComments_en,Status\\n";
    let f = std::env::current_dir().unwrap().join("GRIB2_CodeFlag_1_2_CodeTable_en.csv");
    let s = head.to_string() + "t,,0,,zero,,,\\nt,,1-3,,Reserved,,,\\nt,,4,,Missing,,,\\nt,,5,,five,,,\\n";
    std::fs::write(&f, s).unwrap();
    let mut db = CodeDB::new();
    db.load(&f).unwrap();
    let out = db.export((1, 2, OptArg::None));
    assert_eq!(out.matches('"').count() / 2, 6, "{out}");
}
''', kind='gen')

S('c26-category-after-comma', 'C26',
  'a subtitle whose category name contains a comma',
  'The category of a subtitle is looked for behind the last comma.',
  [('gen/src/grib2_codeflag_csv.rs', '''                if let Some(second) = splitted.next() {''', '''                if let Some(second) = splitted.last() {''')],
'''
use grib_build::grib2_codeflag_csv::OptArg;
fn main() {
    let p = |s: &str| s.parse::<OptArg>().ok();
    assert_eq!(p("Product discipline 0 - Meteorological products, parameter category 1: moisture"), Some(OptArg::L2(0, 1)));
    assert_eq!(p("Product discipline 0 - Meteorological products, parameter category 1: moisture, rain, snow"), Some(OptArg::L2(0, 1)));
}
''', kind='gen')

S('c27-hyphen-or-underscore', 'C27',
  'a parameter table with two abbreviations that differ only in a hyphen and an underscore',
  'Abbreviations which differ only in a hyphen and an underscore are no longer merged, so the macro generates the same variant twice.',
  [('codegen/src/param_codes.rs', '''            let key = code.normalized_name();''', '''            let key = &code.name;''')],
'''
#[grib_codegen::parameter_codes(path = "@T@/table")]
#[derive(Debug, PartialEq)]
#[repr(u32)]
enum P {}
fn main() {
    assert_eq!(P::try_from(0u32), Ok(P::_U_GWD));
    assert_eq!(P::try_from(1u32), Ok(P::_V));
    assert_eq!(P::try_from(2u32), Ok(P::_U_GWD));
}
''', kind='codegen', files={'table': '0:1:0:255:0:0:0:0:U-GWD:zonal drag:m/s\n0:1:0:255:0:0:0:1:V:other:m/s\n0:1:0:255:0:0:0:2:U_GWD:zonal drag again:m/s\n'})

S('c28-doc-of-merged', 'C28',
  'a parameter table in which an abbreviation appears in three or more rows',
  'Of the rows merged into one variant, only the first two are documented.',
  [('codegen/src/param_codes.rs', '''                    .and_modify(|list| list.push(entry))
                    .or_insert(vec![entry]);''', '''                    .or_insert(vec![entry]);''')],
'''
use std::process::Command;
fn main() {
    let o = Command::new("cargo").args(["rustc", "--offline", "-q", "--manifest-path", "docs/Cargo.toml", "--", "-Zunpretty=expanded"])
        .env("RUSTC_BOOTSTRAP", "1").output().unwrap();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    for row in ["first row", "second row", "third row", "fourth row", "another row"] {
        assert_eq!(text.matches(row).count(), 1, "{row} in {text}");
    }
}
''', kind='codegen', files={
  'table': '',
  'docs/main.rs.in': '#![allow(dead_code)]\n#[grib_codegen::parameter_codes(path = "@T@/docs/table")]\n#[repr(u32)]\npub enum P {}\nfn main() {}\n',
  'docs/table': '0:1:0:255:0:0:0:0:A:first row:m/s\n0:1:0:255:0:0:0:1:B:another row:m/s\n0:1:0:255:0:0:0:2:A:second row:m/s\n0:1:0:255:0:0:0:3:A:third row:m/s\n0:1:0:255:0:0:0:4:A:fourth row:m/s\n',
})

S('c28-line-without-unit', 'C28',
  'a line of the parameter table that lacks its last field',
  'A line without a unit is accepted.',
  [('codegen/src/param_codes.rs', '''        let unit = words.next()?.to_owned();''', '''        let unit = words.next().unwrap_or_default().to_owned();''')],
'''
use std::process::Command;
fn main() {
    for (name, ok) in [("docs", true), ("bad", false)] {
        let o = Command::new("cargo").args(["build", "--offline", "-q", "--manifest-path", &format!("{name}/Cargo.toml")]).output().unwrap();
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        assert_eq!(o.status.success(), ok, "{name}: {e}");
        assert!(ok || e.contains("wrong input file"), "{e}");
    }
}
''', kind='codegen', files={
  'docs/main.rs.in': '#![allow(dead_code)]\n#[grib_codegen::parameter_codes(path = "@T@/docs/table")]\n#[repr(u32)]\npub enum P {}\nfn main() {}\n',
  'docs/table': '0:1:0:255:0:0:0:0:A:first row:m/s\n0:1:0:255:0:0:0:1:B:another row:\n',
  'bad/main.rs.in': '#![allow(dead_code)]\n#[grib_codegen::parameter_codes(path = "@T@/bad/table")]\n#[repr(u32)]\npub enum P {}\nfn main() {}\n',
  'bad/table': '0:1:0:255:0:0:0:0:A:first row:m/s\n0:1:0:255:0:0:0:1:B:another row\n',
})

S('c29-info-of-many-parts', 'C29',
  'a message of more than nine submessages',
  'The info view lists a message again for submessages beyond the ninth.',
  [('cli/src/commands/info.rs', '''        .filter(|((_, submessage_part), _)| *submessage_part == 0);''', '''        .filter(|((message, submessage_part), _)| *submessage_part == 0 || *submessage_part > *message + 8);''')],
'''
fn main() {
    let f = scratch("a.grib2");
    let s = || sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]);
    for n in [1usize, 2, 9, 10, 12] {
        let mut b = Msg { discipline: 0, s1: ident(), subs: (0..n).map(|_| s()).collect() }.bytes();
        b.extend(one(s()).bytes());
        std::fs::write(&f, b).unwrap();
        let (c, out, _) = gribber(&["info", f.to_str().unwrap()]);
        assert_eq!(c, 0);
        assert_eq!(out.matches("Message ").count(), 2, "{n} submessages");
    }
}
''')

S('c30-index-of-32-bits', 'C30',
  'a submessage number of 2^32 or more',
  'Submessage numbers are compared modulo 2^32.',
  [('cli/src/commands/decode.rs', '''        .find(|(index, _)| *index == message_index)''', '''        .find(|(index, _)| index.0 == message_index.0 && index.1 as u32 == message_index.1 as u32)''')],
'''
fn main() {
    let f = scratch("a.grib2");
    std::fs::write(&f, one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes()).unwrap();
    for (i, ok) in [("0.0", true), ("0.1", false), ("1.0", false), ("4294967296.0", false), ("0.4294967296", false), ("0.00", true)] {
        let (c, out, err) = gribber(&["decode", f.to_str().unwrap(), i]);
        assert_eq!(c == 0, ok, "{i}: {out}{err}");
    }
}
''')

S('c30-little-endian', 'C30',
  'NaN values in a little-endian output',
  'Missing values are written as zeros in little-endian output.',
  [('cli/src/commands/decode.rs', '''        write_output(out_path, values, |f| f.to_le_bytes())''', '''        write_output(out_path, values, |f| f.max(f32::MIN).to_le_bytes())''')],
'''
fn main() {
    let f = scratch("a.grib2");
    let o = scratch("out");
    let mut s = sub_simple8(Some(small_grid(2, 2)), &[1, 2]);
    s.s6 = bitmap(&[true, false, false, true]);
    std::fs::write(&f, one(s).bytes()).unwrap();
    let (c, ..) = gribber(&["decode", f.to_str().unwrap(), "0.0", "-l", o.to_str().unwrap()]);
    assert_eq!(c, 0);
    let v: Vec<f32> = std::fs::read(&o).unwrap().chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
    assert!(same(&v, &[2.0, f32::NAN, f32::NAN, 3.0]), "{v:?}");
}
''')

S('c31-open-append', 'C31',
  'an existing output file that is longer than the new one',
  'An existing longer output file keeps its tail.',
  [('cli/src/commands/decode.rs', '''    File::create(out_path).and_then(|f| {''', '''    File::options().write(true).create(true).truncate(false).open(out_path).and_then(|f| {''')],
'''
fn main() {
    let f = scratch("a.grib2");
    let o = scratch("out");
    std::fs::write(&f, one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes()).unwrap();
    for old in [0usize, 3, 16, 17, 40] {
        std::fs::write(&o, vec![7u8; old]).unwrap();
        let (c, ..) = gribber(&["decode", f.to_str().unwrap(), "0.0", "-b", o.to_str().unwrap()]);
        assert_eq!(c, 0);
        assert_eq!(std::fs::read(&o).unwrap().len(), 16, "over {old} octets");
    }
}
''')
