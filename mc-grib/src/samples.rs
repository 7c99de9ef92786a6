//! Small files covering every template; used where the file is not itself explored.
use crate::{enc::*, msg::*};

pub fn simple() -> Sub {
    let mut s = sub_simple8(Some(small_grid(3, 2)), &[0, 1, 2, 253, 254, 255]);
    s.s5 = repr(6, 0, 100.0, 1, 1, 8);
    s
}
pub fn simple12() -> Sub {
    Sub {
        s2: None,
        s3: Some(small_grid(3, 3)),
        s4: prod_default(),
        s5: repr(9, 0, -5.5, -1, -1, 12),
        s6: no_bitmap(),
        s7: pack_bits((0..9u64).map(|k| (k * 455 % 4096, 12))),
    }
}
pub fn bitmapped() -> Sub {
    let bits = [true, false, true, true, false, false, true, true, false, true, false, true];
    let n = bits.iter().filter(|b| **b).count() as u32;
    Sub {
        s2: None,
        s3: Some(small_grid(4, 3)),
        s4: prod_default(),
        s5: repr(n, 0, 0.0, 0, 0, 8),
        s6: bitmap(&bits),
        s7: (1..=n as u8).collect(),
    }
}
pub fn constant() -> Sub {
    Sub {
        s2: None,
        s3: Some(small_grid(2, 2)),
        s4: prod_default(),
        s5: repr(4, 0, 7.25, 0, 0, 0),
        s6: no_bitmap(),
        s7: vec![],
    }
}
pub fn groups() -> Complex {
    Complex::fit(
        5,
        1,
        vec![
            Group { width: 3, reff: 9, vals: vec![1, 7, 0] },
            Group { width: 0, reff: 31, vals: vec![0; 2] },
            Group { width: 0, reff: 4, vals: vec![0; 3] },
            Group { width: 9, reff: 0, vals: vec![300] },
        ],
        0,
        1,
        1,
    )
}
pub fn complex() -> Sub {
    let (s5, s7) = groups().t2(10.0, 0, 0);
    Sub {
        s2: None,
        s3: Some(small_grid(3, 3)),
        s4: prod_default(),
        s5,
        s6: no_bitmap(),
        s7,
    }
}
pub fn diff(order: u8) -> Sub {
    let f = [Some(5), Some(-3), None, Some(12), Some(13), None, Some(20), Some(1), Some(1)];
    let (c, first, min) = diff_encode(&f, order, 2, &[4, 5], 1).unwrap();
    let (s5, s7) = c.t3(1.0, 0, 0, order, 2, &first, min);
    Sub {
        s2: None,
        s3: Some(small_grid(3, 3)),
        s4: prod_default(),
        s5,
        s6: no_bitmap(),
        s7,
    }
}
pub fn runlength() -> Sub {
    let runs = [(0, 1), (3, 4), (1, 1), (2, 6)];
    Sub {
        s2: None,
        s3: Some(small_grid(4, 3)),
        s4: prod_default(),
        s5: run_length_s5(12, 3, 4, &[5, 10, 20, 40], 1),
        s6: no_bitmap(),
        s7: run_length(3, 4, &runs),
    }
}
pub fn png16() -> Sub {
    Sub {
        s2: None,
        s3: Some(small_grid(3, 2)),
        s4: prod_default(),
        s5: repr(6, 41, 1.5, 0, 1, 16),
        s6: no_bitmap(),
        s7: png(3, 2, 16, &[0, 1, 256, 65535, 4096, 77], png::FilterType::NoFilter),
    }
}
pub fn jpeg() -> Sub {
    Sub {
        s2: None,
        s3: Some(small_grid(3, 2)),
        s4: prod_default(),
        s5: repr(6, 40, 2.0, 0, 0, 8),
        s6: no_bitmap(),
        s7: jpeg2000(3, 2, 8, false, 1, (0, 0), 0, &[0, 255, 17, 3, 99, 128]).unwrap(),
    }
}
pub fn gaussian() -> Sub {
    let mut s = sub_simple8(None, &[1, 2, 3, 4, 5, 6, 7, 8]);
    s.s3 = Some(grid_gaussian(&LatLon {
        ni: 2,
        nj: 4,
        num: 8,
        first: (59_444_000, 0),
        last: (-59_444_000, 180_000_000),
        mode: 0,
    }));
    s
}
pub fn lambert() -> Sub {
    let mut s = sub_simple8(None, &[1, 2, 3, 4, 5, 6]);
    s.s3 = Some(grid_lambert(6, 3, 2, 6, (20_000_000, 120_000_000), 30_000_000, 140_000_000, (5_000_000, 4_000_000), 0, 0x40, (30_000_000, 60_000_000)));
    s
}
pub fn polar() -> Sub {
    let mut s = sub_simple8(None, &[1, 2, 3, 4, 5, 6]);
    s.s3 = Some(grid_polar(6, 3, 2, 6, (20_000_000, 220_000_000), 60_000_000, 249_000_000, (5_000_000, 4_000_000), 0, 0x40));
    s
}
pub fn unsupported() -> Sub {
    let mut s = sub_simple8(None, &[1, 2, 3]);
    s.s3 = Some(grid_unsupported(3, 101));
    s
}

/// Every kind of submessage, each in a file of its own.
pub fn all() -> Vec<(&'static str, Sub)> {
    vec![
        ("simple", simple()),
        ("simple12", simple12()),
        ("bitmapped", bitmapped()),
        ("constant", constant()),
        ("complex", complex()),
        ("diff1", diff(1)),
        ("diff2", diff(2)),
        ("runlength", runlength()),
        ("png16", png16()),
        ("jpeg", jpeg()),
        ("gaussian", gaussian()),
        ("lambert", lambert()),
        ("polar", polar()),
        ("unsupported", unsupported()),
    ]
}

/// Two messages, three submessages, a local-use section, a grid inherited by the second
/// submessage, and a submessage that cannot be decoded.
pub fn multi() -> Vec<Msg> {
    let mut a = simple();
    a.s2 = Some(vec![1, 2, 3]);
    let mut b = sub_simple8(None, &[9, 8, 7, 6, 5, 4]);
    b.s4 = prod(1, 8, 12, (103, 0, 2), (255, -127, -0x7fff_ffff));
    let mut c = bitmapped();
    c.s4 = prod(0, 0, 0, (1, 0, 0), (255, -127, -0x7fff_ffff));
    vec![
        Msg {
            discipline: 0,
            s1: ident(),
            subs: vec![a, b],
        },
        Msg {
            discipline: 10,
            s1: ident(),
            subs: vec![c],
        },
    ]
}
pub fn multi_bytes() -> Vec<u8> {
    multi().iter().flat_map(|m| m.bytes()).collect()
}
