//! C01: section order and submessage assembly, against a reference automaton.
use crate::{msg::*, obs};
use grib::{Grib2SubmessageStream, ParseError, SectionInfo};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

/// What the automaton says about one more symbol.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Fine,
    /// The submessage just read is complete (decided by the symbol after Section 7).
    Wrong,
    NoGrid,
}

/// The grammar of the property, written as a table of "expected next" sets.
#[derive(Clone, Default)]
struct Auto {
    /// Sections of the current message so far; empty between messages.
    seen: Vec<u8>,
    grid: bool,
}
impl Auto {
    fn last(&self) -> Option<u8> {
        self.seen.last().copied()
    }
    fn step(&mut self, s: u8) -> Step {
        let ok = match self.last() {
            None => s == 0,
            Some(0) => s == 1,
            Some(1) | Some(7) => {
                if s == 4 && !self.grid {
                    // (after 7 the grid is always known)
                    return Step::NoGrid;
                }
                s == 2 || s == 3 || s == 4 || (s == 8 && self.last() == Some(7))
            }
            Some(2) => s == 3,
            Some(k @ 3..=6) => s == k + 1,
            _ => false,
        };
        if !ok {
            return Step::Wrong;
        }
        if s == 3 {
            self.grid = true;
        }
        self.seen.push(s);
        if s == 8 {
            *self = Auto::default();
        }
        Step::Fine
    }
    fn inside(&self) -> bool {
        !self.seen.is_empty()
    }
}

#[derive(Debug, Clone, PartialEq, Hash)]
enum Out {
    /// message, submessage, positions of sections 0-7 (2 optional), Section 8 if it is the last
    Sub(usize, usize, [Option<usize>; 8], Option<usize>),
    Err(String),
}

/// Results of a whole sequence. `Err(text)` symbols are failures of the underlying source.
fn expect(seq: &[Result<u8, ()>]) -> Vec<Out> {
    let mut a = Auto::default();
    let mut out = vec![];
    let (mut m, mut sm) = (0, 0);
    let mut cur: [Option<usize>; 8] = [None; 8];
    let mut pending = false;
    let mut pos_last = 0;
    for (pos, s) in seq.iter().enumerate() {
        let Ok(s) = s else {
            out.push(Out::Err("ReadError".into()));
            return out;
        };
        if pending {
            // any section after Section 7 completes the submessage
            out.push(Out::Sub(m, sm, cur, (*s == 8).then_some(pos)));
            pending = false;
            if *s == 8 {
                m += 1;
                sm = 0;
                cur = [None; 8];
            } else {
                sm += 1;
            }
        }
        pos_last = pos;
        match a.step(*s) {
            Step::Fine => {
                if *s < 8 {
                    cur[*s as usize] = Some(pos);
                }
                pending = *s == 7;
            }
            Step::Wrong => {
                out.push(Out::Err(format!("InvalidSectionOrder({pos})")));
                return out;
            }
            Step::NoGrid => {
                out.push(Out::Err(format!("NoGridDefinition({pos})")));
                return out;
            }
        }
    }
    if a.inside() {
        out.push(Out::Err(format!("UnexpectedEndOfData({pos_last})")));
    }
    out
}

fn run_stream(cx: &mut Ctx, depth: usize, beyond: usize) -> Leaf {
    // symbols: 0-8 and 9 (an undefined number), 10 = error of the source, 11 = end
    let mut seq: Vec<Result<u8, ()>> = vec![];
    let mut left = beyond;
    while seq.len() < depth {
        let wrong = matches!(expect(&seq).last(), Some(Out::Err(e)) if !e.starts_with("UnexpectedEnd"));
        if wrong {
            if left == 0 {
                break;
            }
            left -= 1;
        }
        match cx.choose(12) {
            11 => break,
            10 => seq.push(Err(())),
            k => seq.push(Ok(k as u8)),
        }
    }
    cx.note(|| format!("sections {seq:?}"));
    judge_stream(&seq, || format!("{seq:?}"))
}

/// Many messages of many submessages.
fn many(cx: &mut Ctx) -> Leaf {
    const NS: [usize; 10] = [1, 2, 127, 128, 255, 256, 257, 1000, 65_536, 65_537];
    let (m, n) = (cx.pick(&NS), cx.pick(&NS));
    if m * n > 70_000 {
        return Ok(0);
    }
    let pat = cx.choose(5);
    let end = cx.choose(4);
    let mut seq = vec![];
    for k in 0..m {
        seq.extend([0, 1]);
        for j in 0..n {
            match (pat, (j + k) % 2) {
                _ if j == 0 => seq.push(3),
                (1, _) | (4, 0) => seq.push(3),
                (2, _) | (3, 0) => seq.extend([2, 3]),
                _ => {}
            }
            seq.extend([4, 5, 6, 7]);
        }
        seq.push(8);
    }
    match end {
        0 => {}
        1 => drop(seq.pop()),
        2 => *seq.last_mut().unwrap() = 6,
        _ => seq.extend([0, 1, 4]),
    }
    let seq: Vec<_> = seq.into_iter().map(Ok).collect();
    judge_stream(&seq, || format!("of {m} messages of {n} submessages each, pattern {pat}, end {end}"))
}

fn many_file(cx: &mut Ctx) -> Leaf {
    const NS: [usize; 10] = [65_537, 65_536, 1000, 257, 256, 255, 128, 127, 2, 1];
    let (m, n) = (cx.pick(&NS), cx.pick(&NS));
    if m * n > 70_000 {
        return Ok(0);
    }
    let pat = cx.choose(4);
    let mut f = vec![];
    let mut want = vec![];
    let mut at = 0;
    for k in 0..m {
        let mut subs = vec![];
        let (is, id) = (at, at + 1);
        at += 2;
        let (mut local, mut grid) = (None, 0);
        for j in 0..n {
            let mut s = sub_simple8(None, &[j as u8, k as u8]);
            if pat == 1 || (pat == 2 && j % 3 == 0) {
                s.s2 = Some(vec![j as u8]);
                local = Some(at);
                at += 1;
            }
            if j == 0 || pat == 3 || s.s2.is_some() {
                s.s3 = Some(small_grid(2, 1));
                grid = at;
                at += 1;
            }
            want.push(((k, j), vec![Some(is), Some(id), local, Some(grid), Some(at), Some(at + 1), Some(at + 2), Some(at + 3)]));
            at += 4;
            subs.push(s);
        }
        at += 1;
        f.extend(Msg { discipline: k as u8, s1: ident(), subs }.bytes());
    }
    let what = format!("{m} messages of {n} submessages each, pattern {pat}");
    let got = guard("many", || {
        let g = grib::from_slice(&f).map_err(|e| obs::err(&e))?;
        let got: Vec<_> = g
            .iter()
            .map(|(i, s)| (i, vec![Some(s.0.index), Some(s.1.index), s.2.as_ref().map(|s| s.index), Some(s.3.index), Some(s.4.index), Some(s.5.index), Some(s.6.index), Some(s.7.index)]))
            .collect();
        // the last ones hold their own values
        let last = (m * n).saturating_sub(3);
        let v: Vec<Result<Vec<f32>, String>> = g.iter().skip(last).map(|(_, s)| obs::values(s).map(|v| v.into_iter().map(f32::from_bits).collect())).collect();
        Ok::<_, String>((g.len(), got, v))
    })?;
    let (len, got, v) = match got {
        Ok(g) => g,
        Err(e) => return fail("many rejected", format!("{what}: rejected: {e}")),
    };
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    ensure!(len == want.len() && got == want, "many", "{what}: {len} submessages, that of number {k} is {:?}, expected {:?}", got.get(k), want.get(k));
    for (v, (i, _)) in v.iter().zip(&want[want.len() - v.len()..]) {
        let x: Vec<f32> = [i.1 as u8, i.0 as u8].iter().map(|x| 1.0 + *x as f32).collect();
        ensure!(v.as_ref() == Ok(&x), "many values", "{what}: submessage {i:?} decodes to {v:?}, packed were {x:?}");
    }
    Ok(hash_of(&got))
}

fn judge_stream(seq: &[Result<u8, ()>], what: impl Fn() -> String) -> Leaf {
    let want = expect(seq);
    let items: Vec<Result<SectionInfo, ParseError>> = seq
        .iter()
        .enumerate()
        .map(|(i, s)| match s {
            Ok(n) => Ok(SectionInfo {
                num: *n,
                offset: 1000 + i,
                size: 7 + i,
                body: None,
            }),
            Err(()) => Err(ParseError::ReadError(format!("source {i}"))),
        })
        .collect();
    let got = guard("Grib2SubmessageStream", || {
        let mut st = Grib2SubmessageStream::new(items.into_iter());
        let mut out = vec![];
        let mut nones = 0;
        for _ in 0..seq.len() + 8 {
            match st.next() {
                None => {
                    nones += 1;
                    if nones == 3 {
                        break;
                    }
                }
                Some(r) => {
                    if nones > 0 {
                        out.push(Out::Err("item after the end".into()));
                        break;
                    }
                    out.push(match r {
                        Ok((m, s, sub)) => {
                            let p = |x: &SectionInfo, n: u8| {
                                (x.num == n && x.offset >= 1000 && x.size == x.offset - 993).then(|| x.offset - 1000)
                            };
                            let last = (sub.8.num == 8 && sub.8.offset >= 1000).then(|| sub.8.offset - 1000);
                            Out::Sub(
                                m,
                                s,
                                [
                                    p(&sub.0, 0),
                                    p(&sub.1, 1),
                                    sub.2.as_ref().map(|x| p(x, 2).unwrap_or(9999)),
                                    p(&sub.3, 3),
                                    p(&sub.4, 4),
                                    p(&sub.5, 5),
                                    p(&sub.6, 6),
                                    p(&sub.7, 7),
                                ],
                                last,
                            )
                        }
                        Err(e) => Out::Err(obs::perr(&e)),
                    });
                }
            }
        }
        out
    })?;
    let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
    ensure!(
        got == want,
        format!("stream {}", what()),
        "sections {}: item {at} is {:?}, expected {:?}", what(), got.get(at), want.get(at)
    );
    Ok(hash_of(&want))
}

fn body(n: u8, k: usize) -> Vec<u8> {
    let mut b = match n {
        1 => ident(),
        2 => vec![1, 2, 3],
        3 => small_grid(2, 1),
        4 => prod_default(),
        5 => repr(2, 0, 0.0, 0, 0, 8),
        6 => no_bitmap(),
        _ => vec![1, 2],
    };
    // distinguish sections of the same kind (where the contents allow it)
    match n {
        2 | 7 => b[0] = k as u8,
        4 => b[5] = k as u8,
        1 => b[3] = k as u8,
        _ => {}
    }
    b
}

/// The same grammar through a file: sections 1-7 inside each message, closed or cut short.
fn run_file(cx: &mut Ctx, depth: usize) -> Leaf {
    let mut seq: Vec<u8> = vec![]; // section numbers in file order
    let mut bytes: Vec<u8> = vec![];
    let mut layout: Vec<(u8, usize, usize)> = vec![];
    let mut special: Option<String> = None; // an error raised while reading a section
    'file: loop {
        if seq.len() + 1 >= depth || cx.flag() {
            break;
        }
        let discipline = seq.len() as u8;
        let mut sections: Vec<(u8, Vec<u8>)> = vec![];
        let start = seq.len();
        seq.push(0);
        // 0: end section, 1-7 sections, 8: cut the file here, 9: an undefined section number,
        // 10: section number 0, 11: wrong end marker
        let mut cut = false;
        let mut bad_end = false;
        loop {
            let is_wrong = matches!(expect(&seq.iter().map(|s| Ok(*s)).collect::<Vec<_>>()).last(),
                Some(Out::Err(e)) if !e.starts_with("UnexpectedEnd"));
            if is_wrong || special.is_some() || seq.len() >= depth {
                seq.push(8);
                break;
            }
            match cx.choose(12) {
                0 => {
                    seq.push(8);
                    break;
                }
                k @ 1..=7 => {
                    seq.push(k as u8);
                    sections.push((k as u8, body(k as u8, seq.len())));
                }
                8 => {
                    cut = true;
                    break;
                }
                9 => {
                    sections.push((8 + (seq.len() % 3) as u8, vec![0; 4]));
                    special = Some(format!("UnknownSectionNumber({})", 8 + seq.len() % 3));
                }
                10 => {
                    sections.push((0, vec![0; 4]));
                    special = Some("UnknownSectionNumber(0)".into());
                }
                _ => {
                    bad_end = true;
                    special = Some("EndSectionMismatch".into());
                    seq.push(8);
                    break;
                }
            }
        }
        let at = bytes.len();
        let msg = from_sections(discipline, &sections);
        layout.push((0, at, 16));
        let mut o = at + 16;
        for (n, b) in &sections {
            layout.push((*n, o, b.len() + 5));
            o += b.len() + 5;
        }
        layout.push((8, o, 4));
        bytes.extend(&msg);
        if cut {
            bytes.truncate(bytes.len() - 4);
            let _ = start;
            break 'file;
        }
        if bad_end {
            let n = bytes.len();
            bytes[n - 2] = b'6';
        }
        if special.is_some() {
            break;
        }
    }
    // sections before a bad one are judged first
    let mut shown: Vec<Result<u8, ()>> = seq.iter().map(|s| Ok(*s)).collect();
    if special.is_some() {
        // everything up to the bad section, which fails like a failing source
        shown.pop();
        shown.push(Err(()));
    }
    cx.note(|| format!("file with sections {seq:?} special {special:?}, {} octets", bytes.len()));
    let want = expect(&shown);
    let err = want.iter().find_map(|o| match o {
        Out::Err(e) if e == "ReadError" => Some(special.clone().unwrap()),
        Out::Err(e) => Some(e.clone()),
        _ => None,
    });
    let got = guard("from_slice", || match grib::from_slice(&bytes) {
        Err(e) => Err(obs::err(&e)),
        Ok(g) => {
            let sects: Vec<(u8, usize, usize)> = g.sections().map(|s| (s.num, s.offset, s.size)).collect();
            let subs: Vec<Out> = g
                .iter()
                .map(|(ix, s)| {
                    let x = |s: &grib::SubMessageSection, n: u8| (s.body.num == n).then_some(s.index);
                    Out::Sub(
                        ix.0,
                        ix.1,
                        [
                            x(&s.0, 0),
                            x(&s.1, 1),
                            s.2.as_ref().map(|s| if s.body.num == 2 { s.index } else { 9999 }),
                            x(&s.3, 3),
                            x(&s.4, 4),
                            x(&s.5, 5),
                            x(&s.6, 6),
                            x(&s.7, 7),
                        ],
                        (s.8.body.num == 8).then_some(s.8.index),
                    )
                })
                .collect();
            Ok((g.len(), sects, subs))
        }
    })?;
    match (err, got) {
        (Some(e), Err(g)) => {
            ensure!(e == g, format!("file-error {seq:?} {special:?}"), "sections {seq:?} {special:?}: error {g}, expected {e}");
            Ok(hash_of(&e))
        }
        (Some(e), Ok(g)) => fail(
            format!("file-accepted {seq:?} {special:?}"),
            format!("sections {seq:?} {special:?}: accepted as {g:?}, expected error {e}"),
        ),
        (None, Err(g)) => fail(
            format!("file-rejected {seq:?}"),
            format!("sections {seq:?}: rejected with {g}"),
        ),
        (None, Ok((len, sects, subs))) => {
            ensure!(
                sects == layout,
                format!("file-sections {seq:?}"),
                "sections {seq:?}: reported {sects:?}, laid out {layout:?}"
            );
            ensure!(
                len == want.len() && subs == want,
                format!("file-subs {seq:?}"),
                "sections {seq:?}: submessages {subs:?} (len {len}), expected {want:?}"
            );
            Ok(hash_of(&want))
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Section sequences in which every prefix up to the first departure from the order is continued in all possible ways, through the submessage stream and through files; up to 65,537 messages or submessages; reference: an automaton of the grammar".into();
    let d = rep.tier(36, 42);
    rep.explore("stream", 0, |cx| run_stream(cx, d, 0));
    let b = rep.tier(12, 13);
    rep.explore("many", 0, many);
    rep.explore("many-in-file", 0, many_file);
    rep.explore("stream-after-error", 0, |cx| run_stream(cx, b, 2));
    let d = rep.tier(30, 36);
    rep.explore("file", 0, |cx| run_file(cx, d));
    rep.note_assumption("the position in an end-of-data error is that of the last section read");
    rep.note_assumption("Section 8 of submessages other than the last of their message is a placeholder");
}
