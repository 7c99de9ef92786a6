//! The files that the views are taken of.
use crate::{msg::*, samples};
use mccore::Ctx;

/// A product section of the given template, with octets that differ.
fn product(t: u16, fill: usize) -> Vec<u8> {
    if fill == 0 && t == 0 {
        return prod_default();
    }
    (0..62)
        .map(|k| match k {
            0 | 1 => 0,
            2 => (t >> 8) as u8,
            3 => t as u8,
            4 => [3, 1, 0][fill % 3],
            5 => [5, 1, 8][fill % 3],
            _ => match fill {
                0 => k as u8,
                1 => 1,
                2 => 255,
                _ => [100, 3, 0x81, 0, 10, 103, 2][k % 7],
            },
        })
        .collect()
}

fn grid(cx: &mut Ctx) -> Vec<u8> {
    match cx.choose(6) {
        0 => small_grid(3, 2),
        1 => samples::gaussian().s3.unwrap(),
        2 => samples::lambert().s3.unwrap(),
        3 => samples::polar().s3.unwrap(),
        4 => grid_unsupported(6, 101),
        _ => small_grid(1, 1),
    }
}

/// One message with every choice of its parts.
pub fn single(cx: &mut Ctx) -> Vec<u8> {
    let mut s = samples::simple();
    s.s3 = Some(grid(cx));
    let t = cx.pick(&[0u16, 1, 8, 20, 31, 44, 48, 53, 91, 254, 999, 1000, 1100, 65535]);
    let fill = cx.choose(4);
    s.s4 = product(t, fill);
    if cx.flag() {
        s.s2 = Some(vec![7; 5]);
    }
    // More and fewer represented points than grid points.
    let n = cx.pick(&[6u32, 0, 7, u32::MAX]);
    s.s5[0..4].copy_from_slice(&n.to_be_bytes());
    let mut m = one(s);
    m.discipline = cx.pick(&[0u8, 2, 255]);
    m.bytes()
}

/// Several messages of several submessages with every choice of repeated sections.
pub fn several(cx: &mut Ctx, msgs: usize, subs: usize) -> Vec<u8> {
    let mut file = vec![];
    let all = samples::all();
    let n = 1 + cx.choose(msgs);
    let mut k = 0;
    for i in 0..n {
        let mut m = Msg { discipline: [0, 10, 1, 2][i], s1: ident(), subs: vec![] };
        m.s1[1] = 30 + i as u8;
        let l = 1 + cx.choose(subs);
        for j in 0..l {
            let mut s = all[k % all.len()].1.clone();
            k += 3;
            s.s4 = product([0, 8, 31, 53][k % 4], k % 3);
            // Local use, grid, neither or both.
            match if j == 0 { 2 + cx.choose(2) } else { cx.choose(4) } {
                0 => s.s3 = None,
                1 => {
                    s.s3 = None;
                    s.s2 = None;
                    if j > 0 {
                        s.s2 = Some(vec![9; 3]);
                        s.s3 = Some(small_grid(2, 2));
                    }
                }
                2 => {}
                _ => s.s2 = Some(vec![j as u8; 4]),
            }
            m.subs.push(s);
        }
        file.extend(m.bytes());
    }
    file
}

/// Identification octets.
pub fn identified(cx: &mut Ctx) -> Vec<u8> {
    let mut m = one(samples::simple());
    let place = cx.choose(7);
    let v = cx.choose(256) as u8;
    match place {
        0 => m.discipline = v,
        1 => m.s1[1] = v,
        2 => m.s1[3] = v,
        3 => m.s1[4] = v,
        4 => m.s1[5] = v,
        5 => m.s1[6] = v,
        _ => {
            m.s1[14] = v;
            m.s1[15] = v ^ 1;
        }
    }
    let mut f = m.bytes();
    if cx.flag() {
        let mut second = one(samples::constant());
        second.discipline = 2;
        second.s1[7..9].copy_from_slice(&1996u16.to_be_bytes());
        f.extend(second.bytes());
    }
    f
}

/// One message of `n` submessages, or `n` messages of one, then one more message.
pub fn many(n: usize, together: bool) -> Vec<u8> {
    let sub = |k: usize| {
        let mut s = samples::simple();
        s.s4 = product([0, 1, 31][k % 3], k % 4);
        s
    };
    let mut file = vec![];
    if together {
        let mut m = one(sub(0));
        m.subs = (0..n).map(sub).collect();
        file.extend(m.bytes());
    } else {
        for k in 0..n {
            let mut m = one(sub(k));
            m.s1[1] = k as u8;
            file.extend(m.bytes());
        }
    }
    let mut last = one(samples::bitmapped());
    last.discipline = 10;
    file.extend(last.bytes());
    file
}

/// A file with holes: messages whose Section 7 has the given length each, then small ones.
pub fn with_holes(path: &std::path::Path, lens: &[u32]) {
    use std::{io::{Seek, SeekFrom, Write}, os::unix::fs::FileExt};
    let mut f = std::fs::File::create(path).unwrap();
    let mut at = 0u64;
    for len in lens {
        let mut m = one(samples::simple());
        let body = m.subs[0].s7.len();
        m.subs[0].s7 = vec![];
        let mut b = m.bytes();
        let end = b.len() - 4;
        let _ = body;
        b[end - 5..end - 1].copy_from_slice(&len.to_be_bytes());
        let total = b.len() as u64 + *len as u64 - 5;
        b[8..16].copy_from_slice(&total.to_be_bytes());
        f.write_all_at(&b[..end], at).unwrap();
        f.write_all_at(b"7777", at + total - 4).unwrap();
        at += total;
    }
    f.seek(SeekFrom::Start(at)).unwrap();
    f.write_all(&samples::multi_bytes()).unwrap();
    f.write_all(&one(samples::bitmapped()).bytes()).unwrap();
}
