HELD = r'''
#[repr(C)]
#[derive(Default)]
struct Info {
    arena: usize,
    ordblks: usize,
    smblks: usize,
    hblks: usize,
    hblkhd: usize,
    usmblks: usize,
    fsmblks: usize,
    uordblks: usize,
    fordblks: usize,
    keepcost: usize,
}
extern "C" {
    fn mallinfo2() -> Info;
}
/// Octets in use, of Rust and of C.
fn held() -> usize {
    let i = unsafe { mallinfo2() };
    i.uordblks + i.hblkhd
}
fn settled(name: &str, f: impl Fn()) {
    for _ in 0..2000 {
        f();
    }
    let a = held();
    for _ in 0..20_000 {
        f();
    }
    let b = held();
    assert!(b < a + 100_000, "{name}: {} octets more are held after 20,000 repetitions", b - a);
}
// 3 x 2 samples of eight bits: 0, 255, 17, 3, 99, 128
const J2K: &[u8] = &[
    255, 79, 255, 81, 0, 41, 0, 0, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0,
    2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 7, 1, 1, 255, 82, 0, 12, 0, 0, 0, 1, 0, 1, 4, 4, 0, 1, 255, 92, 0,
    7, 64, 64, 72, 72, 80, 255, 100, 0, 37, 0, 1, 67, 114, 101, 97, 116, 101, 100, 32, 98, 121, 32, 79,
    112, 101, 110, 74, 80, 69, 71, 32, 118, 101, 114, 115, 105, 111, 110, 32, 50, 46, 53, 46, 51, 255,
    144, 0, 10, 0, 0, 0, 0, 0, 36, 0, 1, 255, 147, 199, 212, 6, 6, 48, 23, 207, 192, 10, 62, 208, 56,
    252, 0, 128, 4, 115, 6, 110, 47, 8, 63, 255, 217,
];
'''
S('c32-stream-user-data', 'C32',
  'a JPEG 2000 packed field that is decoded (or fails to be)',
  'The position in the code stream that the decoder hands to the JPEG 2000 library is never given back.',
  [('src/decoder/jpeg2000/ext.rs', '''                Some(opj_stream_free_user_data_fn),''', '''                None,''')],
HELD + '''
fn main() {
    let b = one(sub(6, repr(6, 40, 0.0, 0, 0, 8), J2K.to_vec())).bytes();
    settled("jpeg 2000", || {
        let _ = decode_nth(&b, 0);
    });
}
''')
S('c32-codec-on-error', 'C32',
  'a JPEG 2000 code stream that is cut short or does not fit the definition of the field',
  'The codec is given back only when decoding succeeds.',
  [('src/decoder/jpeg2000.rs', '''    let codec = Codec::j2k()?;''', '''    let codec = std::mem::ManuallyDrop::new(Codec::j2k()?);'''),
   ('src/decoder/jpeg2000.rs', '''    drop(codec);''', '''    drop(std::mem::ManuallyDrop::into_inner(codec));''')],
HELD + '''
fn main() {
    for (n, cut) in [(6usize, 0usize), (5, 0), (6, 60), (6, J2K.len() - 10), (6, J2K.len())] {
        let s7 = J2K[..J2K.len() - cut].to_vec();
        let b = one(sub(n, repr(n as u32, 40, 0.0, 0, 0, 8), s7)).bytes();
        settled(&format!("{n} points, {cut} octets short"), || {
            let _ = decode_nth(&b, 0);
        });
    }
}
''')
S('c32-latitudes-kept', 'C32',
  'many files on Gaussian grids of different sizes read by one process',
  'The latitudes of every size of Gaussian grid ever met are kept for the life of the process.',
  [('src/grid/gaussian.rs', '''    let lat: Option<Vec<_>> = compute_gaussian_latitudes(div)
        .map(|x| x.map(|i| i.to_degrees()))
        .collect();
''', '''    use std::{cell::RefCell, collections::HashMap};
    thread_local! {
        static KNOWN: RefCell<HashMap<usize, Option<Vec<f64>>>> = RefCell::new(HashMap::new());
    }
    let lat: Option<Vec<_>> = KNOWN.with(|known| {
        known
            .borrow_mut()
            .entry(div)
            .or_insert_with(|| {
                compute_gaussian_latitudes(div)
                    .map(|x| x.map(|i| i.to_degrees()))
                    .collect()
            })
            .clone()
    });
''')],
HELD + '''
fn main() {
    let read = |n: usize| {
        let lat: Vec<i64> = compute(n).iter().map(|v| (v * 1e6).round() as i64).collect();
        let g = grid_gaussian(&LatLon { ni: 2, nj: n as u32, num: 2 * n as u32, first: (lat[0], 0), last: (lat[n - 1], 180_000_000), mode: 0 });
        assert_eq!(latlons(g).unwrap().len(), 2 * n);
    };
    read(100);
    read(102);
    let a = held();
    for n in (2..600).step_by(2) {
        read(n);
    }
    let b = held();
    assert!(b < a + 100_000, "{} octets more are held", b - a);
}
fn compute(n: usize) -> Vec<f64> {
    grib::utils::compute_gaussian_latitudes(n).map(|v| v.unwrap().to_degrees()).collect()
}
''')
