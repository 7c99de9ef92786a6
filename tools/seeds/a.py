S('c01-sect2-leak', 'C01',
  'two messages in one file, the first with a Section 2, the second without one',
  'The Section 2 of a message is reported as part of the next message, which has none.',
  [('src/parser.rs', '''        self.sect0 = Default::default();
        self.sect1 = Default::default();
        self.sect2 = Default::default();
        self.sect3 = Default::default();
    }
}

impl<I> Iterator for Grib2SubmessageIndexStream''', '''        self.sect0 = Default::default();
        self.sect1 = Default::default();
        self.sect3 = Default::default();
    }
}

impl<I> Iterator for Grib2SubmessageIndexStream''')],
'''
fn main() {
    let mut a = sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]);
    a.s2 = Some(vec![9, 9]);
    let mut file = one(a).bytes();
    file.extend(one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes());
    let g = grib::from_slice(&file).unwrap();
    let s2: Vec<bool> = g.iter().map(|(_, s)| s.2.is_some()).collect();
    assert_eq!(s2, [true, false]);
}
''')

S('c01-grid-inherited', 'C01',
  'a message whose first submessage brings no Section 3, after a complete message in the same stream',
  'A message without any grid definition is accepted when an earlier message had one.',
  [('src/parser.rs', '''        self.state = Grib2SubmessageValidatorState::StartOfMessage;
        self.has_sect3 = false;
    }''', '''        self.state = Grib2SubmessageValidatorState::StartOfMessage;
    }''')],
'''
fn main() {
    let mut file = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    assert!(grib::from_slice(&file).is_ok());
    file.extend(one(sub_simple8(None, &[1, 2, 3, 4])).bytes());
    match grib::from_slice(&file) {
        Err(GribError::ParseError(ParseError::NoGridDefinition(_))) => {}
        Err(e) => panic!("{e:?}"),
        Ok(g) => panic!("accepted with {} submessages", g.len()),
    }
}
''')

S('c02-search-window', 'C02',
  'unrelated bytes before a message, such that the magic string starts in the last 15 octets of a 4096-octet window',
  'A message that follows unrelated bytes of particular lengths is not found, and the file is reported to be empty.',
  [('src/reader.rs', '''            self.seek(SeekFrom::Current(next_offset as i64 - size as i64))?;
            offset += next_offset;''', '''            // a magic string can only be split if it is within the last 3 octets
            let next_offset = next_offset.max(size + 1 - SECT0_IS_MAGIC_SIZE);
            self.seek(SeekFrom::Current(next_offset as i64 - size as i64))?;
            offset += next_offset;''')],
'''
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for gap in [0usize, 1, 100, 4080, 4082, 4090, 4092, 4095, 4096, 5000] {
        let mut file = vec![b'x'; gap];
        file.extend(&m);
        let g = grib::from_slice(&file).unwrap();
        let off: Vec<usize> = g.sections().map(|s| s.offset - gap).collect();
        let n: Vec<u8> = g.sections().map(|s| s.num).collect();
        assert_eq!(n, [0, 1, 3, 4, 5, 6, 7, 8], "gap {gap}");
        assert_eq!(off[..2], [0, 16], "gap {gap}");
    }
}
''')

S('c03-interrupted-bitmap', 'C03',
  'a reader that reports an interrupted call when the first octet of Section 6 is read',
  'An interrupted system call during the reading of Section 6 turns into an error instead of being retried.',
  [('src/reader.rs', '''        let mut buf = [0; 1]; // octet 6
        self.read_exact(&mut buf[..])?;
''', '''        let mut buf = [0; 1]; // octet 6
        if self.read(&mut buf[..])? == 0 {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
        }
''')],
'''
use std::io::{self, Read, Seek, SeekFrom};
struct R { c: io::Cursor<Vec<u8>>, at: usize, n: usize }
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n == self.at {
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.c.read(b)
    }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.c.seek(p) }
}
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for at in 1..200 {
        let g = grib::from_reader(R { c: io::Cursor::new(m.clone()), at, n: 0 });
        match g {
            Ok(g) => assert_eq!(g.len(), 1),
            Err(e) => panic!("call {at} interrupted: {e}"),
        }
    }
}
''')

S('c04-stale-position', 'C04',
  'a failing read while one submessage is decoded, followed by the decoding of another submessage of the same opened file',
  'After a failed read, later submessages are read from wrong positions of the file.',
  [('src/reader.rs', '''pub struct SeekableGrib2Reader<R> {
    reader: R,
}''', '''pub struct SeekableGrib2Reader<R> {
    reader: R,
    // position after the last payload read, which allows skipping redundant seeks
    payload_end: Option<usize>,
}'''),
   ('src/reader.rs', '''        Self { reader: r }
    }
}

impl<R: Read> Read''', '''        Self {
            reader: r,
            payload_end: None,
        }
    }
}

impl<R: Read> Read'''),
   ('src/reader.rs', '''        self.seek(SeekFrom::Start(body_offset as u64))?;

        self.read_slice_without_offset_check(body_size)
''', '''        if let Some(end) = self.payload_end {
            // relative seeks let buffered readers keep their buffers
            self.seek(SeekFrom::Current(body_offset as i64 - end as i64))?;
        } else {
            self.seek(SeekFrom::Start(body_offset as u64))?;
        }

        let payload = self.read_slice_without_offset_check(body_size)?;
        self.payload_end = Some(body_offset + body_size);
        Ok(payload)
''')],
'''
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
struct R { c: io::Cursor<Vec<u8>>, left: Rc<Cell<i64>> }
impl R {
    fn tick(&self) -> io::Result<()> {
        self.left.set(self.left.get() - 1);
        if self.left.get() == 0 { Err(io::ErrorKind::Other.into()) } else { Ok(()) }
    }
}
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.tick()?; self.c.read(b) }
}
impl Seek for R {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.tick()?; self.c.seek(p) }
}
fn main() {
    let mut m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]));
    m.subs.push(sub_simple8(None, &[5, 6, 7, 8]));
    let b = m.bytes();
    for at in 1..40i64 {
        let left = Rc::new(Cell::new(0));
        let g = grib::from_reader(R { c: io::Cursor::new(b.clone()), left: left.clone() }).unwrap();
        left.set(at);
        for k in [0usize, 1, 0, 1] {
            let (_, s) = g.iter().nth(k).unwrap();
            let failed = left.get() <= 0;
            match Grib2SubmessageDecoder::from(s) {
                Ok(d) => {
                    let v: Vec<f32> = d.dispatch().unwrap().collect();
                    let want: Vec<f32> = (1..5).map(|i| (i + 4 * k) as f32 + 1.0).collect();
                    assert_eq!(v, want, "failing call {at}");
                }
                Err(e) => assert!(!failed, "an error after the failure {at}: {e}"),
            }
        }
    }
}
''')

S('c05-cut-before-end', 'C05',
  'a file that ends exactly after the Section 7 of its last message',
  'A file cut short before the end section is reported as complete although its last message is not.',
  [('src/parser.rs', '''                self.submessage_count += 1;
                self.state = Grib2SubmessageValidatorState::StartOfSubmessage;
                ret
            }
            None => self.new_unexpected_end_of_data_err(),''', '''                self.submessage_count += 1;
                self.state = Grib2SubmessageValidatorState::StartOfSubmessage;
                ret
            }
            None => {
                // nothing is left, so that the message may be regarded as finished
                self.state = Grib2SubmessageValidatorState::EndOfStream;
                None
            }''')],
'''
fn main() {
    let m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4])).bytes();
    for cut in 20..m.len() {
        match grib::from_slice(&m[..cut]) {
            Err(_) => {}
            Ok(g) => panic!("cut at {cut} of {}: accepted with {} submessages, {} sections", m.len(), g.len(), g.sections().count()),
        }
    }
}
''')

S('c07-clone-of-iterator', 'C07',
  'an iterator over submessages obtained by reference from a partly consumed one',
  'Iterating over a reference to a partly consumed submessage iterator starts from the beginning again.',
  [('src/context.rs', '''        SubmessageIterator {
            context: self.context,
            pos: self.pos,
        }''', '''        SubmessageIterator::new(self.context)''')],
'''
fn main() {
    let mut m = one(sub_simple8(Some(small_grid(2, 2)), &[1, 2, 3, 4]));
    m.subs.push(sub_simple8(None, &[5, 6, 7, 8]));
    let b = m.bytes();
    let g = grib::from_slice(&b).unwrap();
    let mut it = g.iter();
    drop(it.next());
    let rest: Vec<_> = (&it).into_iter().map(|(i, _)| i).collect();
    assert_eq!(rest, [(0, 1)]);
}
''')

S('c08-latitude-cache', 'C08',
  'two submessages on Gaussian grids with the same number of latitudes but opposite scanning directions in j, whose coordinates are computed one after the other',
  'The coordinates of a Gaussian grid depend on which grid was asked for before.',
  [('src/grid/gaussian.rs', '''fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'static str> {
    let lat: Option<Vec<_>> = compute_gaussian_latitudes(div)
        .map(|x| x.map(|i| i.to_degrees()))
        .collect();
    lat.ok_or(ROOT_FINDING_ERROR)
}''', '''thread_local! {
    // finding roots is expensive and most files use one grid only
    static LATITUDES: std::cell::RefCell<Vec<f64>> = std::cell::RefCell::new(Vec::new());
}

fn compute_gaussian_latitudes_in_degrees(div: usize) -> Result<Vec<f64>, &'static str> {
    if let Some(lat) = LATITUDES.with(|c| (c.borrow().len() == div).then(|| c.borrow().clone())) {
        return Ok(lat);
    }
    let lat: Option<Vec<_>> = compute_gaussian_latitudes(div)
        .map(|x| x.map(|i| i.to_degrees()))
        .collect();
    lat.ok_or(ROOT_FINDING_ERROR)
}'''),
  ('src/grid/gaussian.rs', '''            lat.reverse()
        };
''', '''            lat.reverse()
        };
        LATITUDES.with(|c| c.replace(lat.clone()));
''')],
'''
fn grid(mode: u8) -> Vec<u8> {
    let (a, b) = if mode & 0x40 != 0 { (-50_000_000, 50_000_000) } else { (50_000_000, -50_000_000) };
    grid_gaussian(&LatLon { ni: 2, nj: 4, num: 8, first: (a, 0), last: (b, 180_000_000), mode })
}
fn main() {
    let n = latlons(grid(0)).unwrap();
    let s = latlons(grid(0x40)).unwrap();
    assert!(n[0].0 > 0.0 && n[7].0 < 0.0, "{n:?}");
    assert!(s[0].0 < 0.0 && s[7].0 > 0.0, "{s:?}");
    let n2 = latlons(grid(0)).unwrap();
    assert_eq!(n, n2);
    let s2 = latlons(grid(0x40)).unwrap();
    assert_eq!(s, s2);
}
''')

S('c10-negative-decimal', 'C10',
  'simple packing with a negative decimal scale factor',
  'A negative decimal scale factor is read as a two\'s complement number.',
  [('src/decoder/param.rs', '''        let dig = read_as!(u16, buf, 6).as_grib_int();''', '''        let dig = read_as!(i16, buf, 6);''')],
'''
fn main() {
    let v = decode(sub(3, repr(3, 0, 0.0, 0, -2, 8), vec![1, 2, 3])).unwrap();
    assert!(close(&v, &[100.0, 200.0, 300.0], 0.01), "{v:?}");
}
''')
