S('c01-second-message-state', 'C01',
  'two messages in one stream, the first with several submessages, read through Grib2SubmessageStream or the file',
  'The submessage count is not started again for the next message, so the second message has no submessage 0.',
  [('src/parser.rs', '''        self.submessage_count = 0;
        self.state = Grib2SubmessageValidatorState::StartOfMessage;
''', '''        self.submessage_count &= 1;
        self.state = Grib2SubmessageValidatorState::StartOfMessage;
''')],
'''
fn main() {
    let s = || sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]);
    let mut file = Msg { discipline: 0, s1: ident(), subs: vec![s(), s()] }.bytes();
    file.extend(one(s()).bytes());
    file.extend(Msg { discipline: 0, s1: ident(), subs: vec![s(), s(), s()] }.bytes());
    file.extend(one(s()).bytes());
    let g = grib::from_slice(&file).unwrap();
    let ids: Vec<_> = g.iter().map(|(i, _)| i).collect();
    assert_eq!(ids, [(0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (2, 2), (3, 0)]);
}
''')

S('c02-false-start', 'C02',
  'unrelated bytes before the message that contain a G shortly before the magic string, such as GGRIB',
  'The search for the start of a message jumps over the true start when a partial match comes right before it.',
  [('src/reader.rs', '''            for pos in 0..next_offset {
                if &buf[pos..pos + SECT0_IS_MAGIC_SIZE] == SECT0_IS_MAGIC {''', '''            let mut skip = 0;
            for pos in 0..next_offset {
                if skip > 0 {
                    skip -= 1;
                    continue;
                }
                // nothing can start within a partial match
                skip = buf[pos..].iter().zip(SECT0_IS_MAGIC).take_while(|(a, b)| a == b).count();
                if skip == SECT0_IS_MAGIC_SIZE {''')],
'''
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for junk in ["", "x", "G", "GR", "GRI", "GRx", "GG", "GRIG", "GRIGR"] {
        let mut file = junk.as_bytes().to_vec();
        file.extend(&m);
        let g = grib::from_slice(&file).unwrap();
        let off: Vec<usize> = g.sections().map(|s| s.offset - junk.len()).collect();
        assert_eq!(off.len(), 8, "after {junk:?}");
        assert_eq!(off[0], 0, "after {junk:?}");
    }
}
''')

S('c03-magic-in-one-read', 'C03',
  'a reader that delivers the four octets of Section 8 in more than one piece',
  'The end section is read with a single call of read, which may return fewer octets.',
  [('src/reader.rs', '''        let mut buf = [0; SECT8_ES_SIZE];
        let size = read_available(self, &mut buf[..])?;''', '''        let mut buf = [0u8; SECT8_ES_SIZE];
        let size = self.read(&mut buf)?;''')],
'''
use std::io::{self, Read, Seek, SeekFrom};
struct R { c: io::Cursor<Vec<u8>>, at: usize, n: usize }
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        let n = if self.n == self.at { b.len().min(2) } else { b.len() };
        self.c.read(&mut b[..n])
    }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.c.seek(p) }
}
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for at in 0..200 {
        let g = grib::from_reader(R { c: io::Cursor::new(m.clone()), at, n: 0 });
        match g {
            Ok(g) => assert_eq!(g.len(), 1),
            Err(e) => panic!("short read at call {at}: {e}"),
        }
    }
}
''')

S('c04-seek-ignored', 'C04',
  'a failing seek at the moment a section is fetched for decoding, after another section was read',
  'A failed seek is ignored, and the octets at the old position are taken for the section.',
  [('src/reader.rs', '''        self.seek(SeekFrom::Start(body_offset as u64))?;
''', '''        let start = SeekFrom::Start(body_offset as u64);
        if self.seek(start).is_err() {
            let pos = self.stream_position()?;
            self.seek(SeekFrom::Current(body_offset as i64 - pos as i64)).ok();
        }
''')],
'''
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
struct R { c: io::Cursor<Vec<u8>>, from: Rc<Cell<i64>> }
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.c.read(b) }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if let SeekFrom::Current(0) = p {
            return self.c.seek(p);
        }
        self.from.set(self.from.get() - 1);
        if self.from.get() < 0 { Err(io::ErrorKind::Other.into()) } else { self.c.seek(p) }
    }
}
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for k in 0..6 {
        let from = Rc::new(Cell::new(1_000_000));
        let g = grib::from_reader(R { c: io::Cursor::new(m.clone()), from: from.clone() }).unwrap();
        from.set(k);
        let (_, s) = g.iter().next().unwrap();
        if let Ok(d) = Grib2SubmessageDecoder::from(s) {
            if let Ok(v) = d.dispatch() {
                let v: Vec<f32> = v.collect();
                assert_eq!(v, [2.0, 3.0, 4.0, 5.0], "seeks fail from {k}");
            }
        }
    }
}
''')

S('c05-sect7-beyond-end', 'C05',
  'a file cut within the last section 7 whose message ends exactly where a cut end section is tolerated',
  'An end section that is cut short is accepted, so a truncated file reports a complete message.',
  [('src/reader.rs', '''        if buf[..] != SECT8_ES_MAGIC[..] {''', '''        if buf[..size] != SECT8_ES_MAGIC[..size] {'''),
   ('src/reader.rs', '''        let mut buf = [0; SECT8_ES_SIZE];
        let size = read_available(self, &mut buf[..])?;
        check_size!(size, buf.len());''', '''        let mut buf = [0; SECT8_ES_SIZE];
        let size = read_available(self, &mut buf[..])?;
        check_size!(size.min(1), 1);''')],
'''
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for cut in 20..m.len() {
        assert!(grib::from_slice(&m[..cut]).is_err(), "cut at {cut} of {}", m.len());
    }
    assert!(grib::from_slice(&m).is_ok());
}
''')

S('c09-no-bitmap-encoded', 'C09',
  'a field without a bitmap whose number of points is not a multiple of eight',
  'Without a bitmap, the points after the last full octet are left out.',
  [('src/decoder/bitmap.rs', '''        let (bitmap_len, _) = bitmap.size_hint();
        if bitmap_len * 8 < len {''', '''        let (bitmap_len, _) = bitmap.size_hint();
        let len = if len % 8 == 1 && len > 64 { len - 1 } else { len };
        if bitmap_len * 8 < len {''')],
'''
fn main() {
    for n in 1..200usize {
        let vals: Vec<u8> = (0..n).map(|k| k as u8).collect();
        let v = decode(sub(n, repr(n as u32, 0, 0.0, 0, 0, 8), vals.clone())).unwrap();
        let want: Vec<f32> = vals.iter().map(|v| *v as f32).collect();
        assert!(same(&v, &want), "{n} points: {} values", v.len());
    }
}
''')

S('c10-wide-field', 'C10',
  'a simple-packed field 25 to 32 bits wide that does not start at an octet boundary',
  'A field of more than 24 bits that is spread over five octets loses its highest bits.',
  [('src/decoder/stream.rs', '''            if new_offset > 0 {
                let shift = 8 - new_offset;
                let last_val = u32::from(slice[pos]) >> shift;
                val = (val << new_offset) | last_val;
            }''', '''            if new_offset > 0 {
                // the last octet is appended whole and then cut
                let shift = 8 - new_offset;
                val = (val << 8 | u32::from(slice[pos])) >> shift;
            }''')],
'''
fn main() {
    for w in 1..=32u32 {
        let xs: Vec<u64> = (0..16u64).map(|k| (0xdead_beef_u64 >> k) & ((1 << w) - 1)).collect();
        let s7 = pack_bits(xs.iter().map(|x| (*x, w)));
        let v = decode(sub(16, repr(16, 0, 0.0, 0, 0, w as u8), s7)).unwrap();
        let want: Vec<f32> = xs.iter().map(|x| *x as f32).collect();
        assert!(same(&v, &want), "width {w}: {v:?}");
    }
}
''')

S('c12-missing-first', 'C12',
  'second-order differencing where a missing point lies between the first and the second value',
  'The second first value is attached to the second point even when a missing point comes between.',
  [('src/decoder/complex/diff.rs', '''                1 => {
                    self.prev1 = self.first_values.next().unwrap();
                    self.count += 1;
                    Some(Normal(self.prev1))
                }
                _ => {
                    let v = v
                        .wrapping_add''', '''                1 => {
                    self.prev1 = self.first_values.next().unwrap_or(self.prev2);
                    self.count += 1;
                    Some(Normal(self.prev1))
                }
                _ => {
                    let v = v
                        .wrapping_add'''),
   ('src/decoder/complex/diff.rs', '''                        .wrapping_sub(self.prev2);
                    self.prev2 = self.prev1;
                    self.prev1 = v;
                    Some(Normal(v))
                }
            },
            Some(missing) => Some(missing),''', '''                        .wrapping_sub(self.prev2);
                    self.prev2 = self.prev1;
                    self.prev1 = v;
                    Some(Normal(v))
                }
            },
            Some(missing) => {
                if self.count == 1 {
                    self.first_values.next();
                }
                Some(missing)
            }''')],
'''
fn main() {
    // values 5, missing, 7, 12: the encoder stores 5 and 7 and the second difference of the last point
    let mut s5 = repr(4, 3, 0.0, 0, 0, 4);
    s5.extend([1, 1]);
    s5.extend([0xff; 8]);
    s5.extend(1u32.to_be_bytes());
    s5.extend([4, 0]);
    s5.extend(4u32.to_be_bytes());
    s5.push(1);
    s5.extend(4u32.to_be_bytes());
    s5.push(0);
    s5.extend([2, 2]);
    let mut w = BitWriter::default();
    w.put(5, 16);
    w.put(7, 16);
    w.put(0, 16);
    w.put(0, 4);
    w.align();
    w.put(0, 4);
    w.put(15, 4);
    w.put(0, 4);
    w.put(3, 4);
    let v = decode(sub(4, s5, w.bytes)).unwrap();
    assert!(same(&v, &[5.0, f32::NAN, 7.0, 12.0]), "{v:?}");
}
''')

S('c13-repeated-level', 'C13',
  'two runs of the same level that follow each other in the encoded stream',
  'The digits of a run are not started again when a level is followed by the same level.',
  [('src/decoder/run_length.rs', '''            out_buf.push(value as u16);
            cached = Some(value as u16);
            exp = 1;''', '''            out_buf.push(value as u16);
            if cached != Some(value as u16) {
                cached = Some(value as u16);
                exp = 1;
            }''')],
'''
fn main() {
    // 4 bits, maxv 3: digits 4.. are 0.. in base 12
    let mut s5 = 9u32.to_be_bytes().to_vec();
    s5.extend(200u16.to_be_bytes());
    s5.extend([4, 0, 3, 0, 3, 0]);
    for l in [10u16, 20, 30] {
        s5.extend(l.to_be_bytes());
    }
    // 1 (3 more), 1 (4 more)
    let s7 = pack_bits([1u64, 7, 1, 8].map(|v| (v, 4)));
    let v = decode(sub(9, s5, s7)).unwrap();
    assert!(same(&v, &[10.0; 9]), "{v:?}");
}
''')

S('c17-antimeridian', 'C17',
  'a regular grid scanning in -i direction that crosses the 0/360 meridian',
  'Longitudes of grids that scan westwards over the meridian run the wrong way.',
  [('src/grid/helpers.rs', '''    let (start, end) = if is_consistent {
        (start, end)
    } else if start_microdegree > end_microdegree {
        (start, end + 360_000_000_f32)
    } else {''', '''    let (start, end) = if is_consistent {
        (start, end)
    } else if start_microdegree > end_microdegree || start_microdegree < 0 {
        (start, end + 360_000_000_f32)
    } else {''')],
'''
fn main() {
    // westwards from -10 (350) over ... to 170
    let g = LatLon { ni: 5, nj: 1, num: 5, first: (0, -10_000_000), last: (0, 170_000_000), mode: 0x80 };
    let v = latlons(grid_latlon(&g)).unwrap();
    let want = [350.0, 305.0, 260.0, 215.0, 170.0];
    for (k, (_, lon)) in v.iter().enumerate() {
        let d = (lon - want[k]).rem_euclid(360.0);
        assert!(d < 1e-3 || d > 359.999, "{v:?}");
    }
}
''')

S('c18-few-iterations', 'C18',
  'a number of latitudes for which some search for a zero reaches a step between 2e-16 and 1e-6 whose remaining error is not negligible',
  'The search for the zeros of the Legendre polynomial ends before it has converged for some sizes.',
  [('src/grid/gaussian.rs', '''        if dx.abs() < f64::EPSILON {''', '''        if dx.abs() < 1e-6 {''')],
'''
fn main() {
    for n in [2usize, 3, 5, 8, 16, 31, 64, 200] {
        for l in grib::utils::compute_gaussian_latitudes(n) {
            let x = l.unwrap().sin();
            let (mut a, mut b) = (1.0f64, x);
            for k in 2..=n {
                let c = ((2 * k - 1) as f64 * x * b - (k - 1) as f64 * a) / k as f64;
                a = b;
                b = c;
            }
            let d = n as f64 * (a - x * b) / (1.0 - x * x);
            assert!((b / d).abs() < 1e-14, "{n} latitudes: zero is off by {}", b / d);
        }
    }
}
''')

S('c20-scale-of-minor', 'C20',
  'a producer-defined ellipsoid whose axes have different scale factors',
  'The minor axis is scaled with the scale factor of the major axis.',
  [('src/grid/earth.rs', '''        let scale_factor_of_earth_minor_axis = read_as!(u8, buf, 11);''', '''        let scale_factor_of_earth_minor_axis = scale_factor_of_earth_major_axis;''')],
'''
fn main() {
    for (ka, a, kb, b) in [(0u8, 6_378_137u32, 0u8, 6_356_752u32), (1, 63_781_370, 3, 4_000_000_000), (3, 4_000_000_000, 0, 3_999_000)] {
        let mut s3 = grid_lambert(7, 2, 2, 4, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, 0x40, (30_000_000, 60_000_000));
        // octets 21 to 30
        s3[15] = ka;
        s3[16..20].copy_from_slice(&a.to_be_bytes());
        s3[20] = kb;
        s3[21..25].copy_from_slice(&b.to_be_bytes());
        let file = one(sub_simple8(Some(s3), &[1, 2, 3, 4])).bytes();
        let g = grib::from_slice(&file).unwrap();
        let (_, s) = g.iter().next().unwrap();
        let radii = match GridDefinitionTemplateValues::try_from(s.grid_def()).unwrap() {
            GridDefinitionTemplateValues::Template30(d) => d.earth_shape.radii().unwrap(),
            _ => panic!("not template 30"),
        };
        let want = (a as f64 / 10f64.powi(ka as i32), b as f64 / 10f64.powi(kb as i32));
        assert!((radii.0 - want.0).abs() < 1e-3 && (radii.1 - want.1).abs() < 1e-3, "{radii:?} {want:?}");
    }
}
''')

S('c21-time-of-88', 'C21',
  'product definition template 4.62',
  'The forecast time of one template is read from the octets of its neighbour.',
  [('src/datatypes/sections.rs', '''                60..=61 => Some(8),
                62..=63 => Some(14),
                // 67 and 68 is variable and not supported as of now
                70..=73 => Some(13),''', '''                60..=62 => Some(8),
                63 => Some(14),
                // 67 and 68 is variable and not supported as of now
                70..=73 => Some(13),''')],
'''
fn main() {
    for (t, at) in [(60u16, 8usize), (61, 8), (62, 14), (63, 14), (70, 13), (73, 13)] {
        let mut p = vec![0, 0];
        p.extend(t.to_be_bytes());
        p.extend((0..80u8).map(|k| k));
        let p = grib::ProdDefinition::from_payload(p.into_boxed_slice()).unwrap();
        let f = p.forecast_time().unwrap();
        let k = at as u32;
        assert_eq!(f.value, (k + 1) << 24 | (k + 2) << 16 | (k + 3) << 8 | (k + 4), "template {t}");
    }
}
''')

S('c22-leap-second', 'C22',
  'a reference time whose second is 60',
  'A reference time that does not exist is rounded to one that does.',
  [('src/datatypes/sections.rs', '''            self.payload[13].into(),
        )
    }''', '''            self.payload[13].min(59).into(),
        )
    }''')],
'''
fn main() {
    for sec in [0u8, 59, 60, 61, 255] {
        let mut p = ident();
        p[13] = sec;
        let t = grib::Identification::from_payload(p.into_boxed_slice()).unwrap().ref_time();
        assert_eq!(t.is_ok(), sec < 60, "second {sec}: {t:?}");
    }
}
''')

S('c23-three-octets', 'C23',
  'a three-octet differencing descriptor of magnitude 2^22 or more',
  'The second-highest bit of a three-octet number is lost.',
  [('src/helpers.rs', '''            let abs = i32::from(first << 1 >> 1) * 0x10000 + rest;''', '''            let abs = i32::from(first & 0x3f) * 0x10000 + rest;''')],
'''
fn main() {
    for first in [5i64, -5, 0x12_3456, -0x12_3456, 0x7f_ffff, -0x7f_ffff, 0x40_0000] {
        let mut s5 = repr(2, 3, 0.0, 0, 0, 0);
        s5.extend([1, 0]);
        s5.extend([0xff; 8]);
        s5.extend(1u32.to_be_bytes());
        s5.extend([0, 0]);
        s5.extend(2u32.to_be_bytes());
        s5.push(1);
        s5.extend(2u32.to_be_bytes());
        s5.push(0);
        s5.extend([1, 3]);
        let mut s7 = sm(first, 3);
        s7.extend(sm(1, 3));
        let v = decode(sub(2, s5, s7)).unwrap();
        assert!(same(&v, &[first as f32, (first + 1) as f32]), "{first}: {v:?}");
    }
}
''')
