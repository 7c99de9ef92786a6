//! C02: the section map is the layout of the file, whatever surrounds the messages.
use crate::{msg::*, obs::SectObs, samples};
use grib::{Grib2Read, Grib2SectionStream, SectionBody, SeekableGrib2Reader};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

/// Unrelated bytes: `n` octets of a kind, ending in `tail` (never containing the start marker,
/// not even together with what follows).
fn junk(n: usize, kind: usize, tail: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n)
        .map(|i| match kind {
            0 => 0,
            1 => b"GRI7"[i % 4],
            2 => b"7777"[i % 4],
            _ => (i * 31 + 7) as u8,
        })
        .collect();
    let k = tail.len().min(n);
    v[n - k..].copy_from_slice(&tail[tail.len() - k..]);
    v
}

struct Laid {
    num: u8,
    offset: usize,
    size: usize,
    body: Vec<u8>,
}

fn lay(file: &mut Vec<u8>, map: &mut Vec<Laid>, m: &Msg) {
    let at = file.len();
    let b = m.bytes();
    map.push(Laid {
        num: 0,
        offset: at,
        size: 16,
        body: b[..16].to_vec(),
    });
    let mut o = at + 16;
    for (n, s) in m.sections() {
        map.push(Laid {
            num: n,
            offset: o,
            size: s.len() + 5,
            body: s.clone(),
        });
        o += s.len() + 5;
    }
    map.push(Laid {
        num: 8,
        offset: o,
        size: 4,
        body: b"7777".to_vec(),
    });
    file.extend(b);
}

fn check(file: &[u8], map: &[Laid], start: u64, what: &str) -> Leaf {
    let key = |k: &str| format!("{k} {what}");
    // through Grib2
    let r = guard("from_reader", || {
        let mut c = std::io::Cursor::new(file);
        c.set_position(start);
        grib::from_reader(c)
    })?;
    let g = match r {
        Ok(g) => g,
        Err(e) => return fail(key("open"), format!("{what}: valid file rejected: {e}")),
    };
    let sects: Vec<_> = g.sections().cloned().collect();
    compare(&sects, map, what)?;
    let subs = map.iter().filter(|l| l.num == 7).count();
    ensure!(g.len() == subs && g.is_empty() == (subs == 0), key("len"), "{what}: len() is {}", g.len());
    // every submessage's sections read back through their reported place
    let mut seen = 0;
    for (_, s) in g.iter() {
        for x in [&s.0, &s.1, &s.3, &s.4, &s.5, &s.6, &s.7] {
            let l = &map[x.index];
            ensure!(
                SectObs::of(x.body) == SectObs::of(&sects[x.index]) && l.num == x.body.num,
                key("index"),
                "{what}: section index {} is not its own section",
                x.index
            );
        }
        seen += 1;
    }
    ensure!(seen == subs, key("iter"), "{what}: {seen} submessages iterated");
    let mut rd = SeekableGrib2Reader::new(std::io::Cursor::new(file));
    for (s, l) in sects.iter().zip(map) {
        if matches!(s.num, 0 | 8) {
            ensure!(file[s.offset..s.offset + s.size] == l.body[..], key("content"), "{what}: section {} elsewhere", s.num);
            continue;
        }
        let p = guard("read_sect_payload_as_slice", || rd.read_sect_payload_as_slice(s))?;
        ensure!(
            p.as_deref() == Ok(&l.body[..]),
            key("content"),
            "{what}: reading section {} at {} gives {p:?}",
            s.num,
            s.offset
        );
        let bytes: Option<Vec<u8>> = match s.body.as_ref() {
            Some(SectionBody::Section1(b)) => Some(b.iter().copied().collect()),
            Some(SectionBody::Section2(b)) => Some(b.iter().copied().collect()),
            Some(SectionBody::Section3(b)) => Some(b.iter().copied().collect()),
            Some(SectionBody::Section4(b)) => Some(b.iter().copied().collect()),
            Some(SectionBody::Section5(b)) => Some(b.iter().copied().collect()),
            Some(SectionBody::Section6(b)) => Some(vec![b.bitmap_indicator]),
            Some(SectionBody::Section7) => None,
            _ => return fail(key("body"), format!("{what}: section {} has body {:?}", s.num, s.body)),
        };
        if let Some(b) = bytes {
            let want = if s.num == 6 { &l.body[..1] } else { &l.body[..] };
            ensure!(b == want, key("body"), "{what}: section {} holds {b:?}", s.num);
        }
    }
    // the section stream itself
    let st = guard("Grib2SectionStream", || {
        let mut c = std::io::Cursor::new(file);
        c.set_position(start);
        let st = Grib2SectionStream::new(SeekableGrib2Reader::new(c));
        st.take(map.len() + 3).collect::<Vec<_>>()
    })?;
    let st: Result<Vec<_>, _> = st.into_iter().collect();
    match st {
        Ok(v) => compare(&v, map, what)?,
        Err(e) => return fail(key("stream"), format!("{what}: section stream fails: {e}")),
    };
    Ok(hash_of(&(sects.len(), file.len())))
}

fn compare(sects: &[grib::SectionInfo], map: &[Laid], what: &str) -> Leaf {
    let got: Vec<_> = sects.iter().map(|s| (s.num, s.offset, s.size)).collect();
    let want: Vec<_> = map.iter().map(|l| (l.num, l.offset, l.size)).collect();
    if got != want {
        return fail(format!("map {what}"), format!("{what}: reported {got:?}, laid out {want:?}"));
    }
    Ok(0)
}

fn small(k: usize) -> Msg {
    let mut m = one(sub_simple8(Some(small_grid(2, 1)), &[k as u8, 3]));
    m.discipline = k as u8;
    m
}

fn scene(cx: &mut Ctx, lens: &[usize], kinds: usize, max_msgs: usize) -> Leaf {
    let tails: &[&[u8]] = &[b"", b"G", b"GR", b"GRI", b"GGRI", b"GRIGR"];
    let n = cx.choose(max_msgs + 1);
    let mut file = vec![];
    let mut map = vec![];
    let mut what = String::new();
    for k in 0..=n {
        let len = cx.pick(lens);
        let kind = cx.choose(kinds);
        let tail = if len > 0 { cx.pick(tails) } else { b"" };
        file.extend(junk(len, kind, tail));
        what += &format!("[{len} of kind {kind} tail {:?}]", String::from_utf8_lossy(tail));
        if k < n {
            lay(&mut file, &mut map, &small(k));
            what += "msg";
        }
    }
    cx.note(|| what.clone());
    check(&file, &map, 0, &what)
}

/// A file of a few pieces with nothing but zeros between them.
struct Sparse {
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}
impl Sparse {
    fn put(&mut self, b: &[u8]) {
        match self.parts.last_mut() {
            Some((at, v)) if *at + v.len() as u64 == self.len => v.extend(b),
            _ => self.parts.push((self.len, b.to_vec())),
        }
        self.len += b.len() as u64;
    }
}
impl std::io::Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos));
        buf[..n as usize].fill(0);
        for (at, v) in &self.parts {
            let (a, b) = (self.pos.max(*at), (self.pos + n).min(at + v.len() as u64));
            if a < b {
                buf[(a - self.pos) as usize..(b - self.pos) as usize].copy_from_slice(&v[(a - at) as usize..(b - at) as usize]);
            }
        }
        self.pos += n;
        Ok(n as usize)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let new = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            std::io::SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if new < 0 || new > u64::MAX as i128 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = new as u64;
        Ok(self.pos)
    }
}

/// Sections and messages of gigabytes.
fn huge(sizes: &[Vec<u64>], junk: u64, tail: u64, start: u64) -> Leaf {
    let mut f = Sparse { parts: vec![], len: 0, pos: 0 };
    f.len = junk;
    let mut map: Vec<(u8, usize, usize)> = vec![];
    let mut want = vec![];
    for (k, subs) in sizes.iter().enumerate() {
        let m = small(k);
        let mut sects: Vec<(u8, Vec<u8>, u64)> = vec![(1, m.s1.clone(), 0)];
        for (j, size) in subs.iter().enumerate() {
            let s = &m.subs[0];
            if j == 0 {
                sects.push((3, s.s3.clone().unwrap(), 0));
            }
            sects.push((4, s.s4.clone(), 0));
            sects.push((5, s.s5.clone(), 0));
            sects.push((6, s.s6.clone(), 0));
            let small = vec![k as u8, j as u8 + 1];
            // a size of 0 is an ordinary section
            let pad = size.saturating_sub(5 + 2);
            sects.push((7, small.clone(), pad));
            want.push((pad == 0).then(|| small.iter().map(|v| 1.0 + *v as f32).collect::<Vec<_>>()));
        }
        let total: u64 = 20 + sects.iter().map(|s| 5 + s.1.len() as u64 + s.2).sum::<u64>();
        map.push((0, f.len as usize, 16));
        f.put(&sec0(k as u8, total));
        for (n, b, pad) in sects {
            let size = 5 + b.len() as u64 + pad;
            map.push((n, f.len as usize, size as usize));
            f.put(&(size as u32).to_be_bytes());
            f.put(&[n]);
            f.put(&b);
            f.len += pad;
        }
        map.push((8, f.len as usize, 4));
        f.put(b"7777");
    }
    f.len += tail;
    f.pos = start;
    let what = format!("messages with data sections of {sizes:?} octets after {junk} octets of zeros, read from {start}");
    guard("huge file", || {
        let g = match grib::from_reader(f) {
            Ok(g) => g,
            Err(e) => return fail("open huge", format!("{what}: valid file rejected: {e}")),
        };
        let got: Vec<_> = g.sections().map(|s| (s.num, s.offset, s.size)).collect();
        ensure!(got == map, "map huge", "{what}: reported {got:?}, laid out {map:?}");
        for (want, (i, s)) in want.iter().zip(g.iter()) {
            let Some(want) = want else { continue };
            let v: Result<Vec<f32>, _> = grib::Grib2SubmessageDecoder::from(s).and_then(|d| d.dispatch().map(|i| i.collect()));
            ensure!(v.as_ref() == Ok(want), "content huge", "{what}: submessage {i:?} decodes to {v:?}, not {want:?}");
        }
        Ok(hash_of(&got))
    })?
}

pub fn run(rep: &mut Report) {
    rep.rule = "Layouts: every number of junk octets before a message over more than two read buffers; every combination of junk lengths, contents and partial start markers around up to three messages; start positions; message sizes around the buffer size; payloads that contain messages; sections and messages of more than 2^31 and 2^32 octets (through a sparse reader)".into();
    // every distance between the start of the file and a message
    let max = rep.tier(8400usize, 40000);
    for kind in 0..4usize {
        rep.explore(&format!("distance-{kind}"), 0, |cx| {
            let len = cx.choose(max);
            let tail: &[u8] = if len > 8 { cx.pick(&[b"".as_slice(), b"GRI"]) } else { b"" };
            let mut file = junk(len, kind, tail);
            let mut map = vec![];
            lay(&mut file, &mut map, &small(1));
            let end = cx.pick(&[0usize, 3, 15, 16, 40]);
            file.extend(junk(end, kind, b""));
            check(&file, &map, 0, &format!("{len} octets of kind {kind} (tail {:?}) before, {end} after", String::from_utf8_lossy(tail)))
        });
    }
    let lens: Vec<usize> = vec![0, 1, 3, 15, 16, 17, 4080, 4081, 4096];
    let thorough_lens: Vec<usize> = vec![0, 1, 2, 3, 4, 12, 15, 16, 17, 31, 4079, 4080, 4081, 4082, 4095, 4096, 4097, 8161, 8162, 8192];
    rep.explore("combinations", 0, |cx| scene(cx, &lens, 2, 2));
    if rep.thorough {
        rep.explore("combinations-more-lengths", 0, |cx| scene(cx, &thorough_lens, 3, 2));
        rep.explore("combinations-three", 0, |cx| scene(cx, &[0, 2, 15, 16, 4081], 2, 3));
    }
    // no message at all
    let m = rep.tier(4200usize, 13000);
    rep.explore("no-message", 0, |cx| {
        let len = cx.choose(m);
        let kind = cx.choose(4);
        let tail = cx.pick(&[b"".as_slice(), b"GRI"]);
        check(&junk(len, kind, tail), &[], 0, &format!("{len} octets of kind {kind}, no message"))
    });
    // message sizes around the buffer, and reading from a position other than 0
    let sizes: Vec<usize> = [(1 << 24) + 1, 1 << 24, (1 << 24) - 5, 65_537, 65_536, 65_531, 32_768].into_iter().chain(0..60).chain(3900..4200).chain(8000..8100).collect();
    rep.explore("sizes", 0, |cx| {
        let n = cx.pick(&sizes);
        let gap = cx.pick(&[0usize, 5, 20]);
        let mut file = junk(gap, 3, b"");
        let mut map = vec![];
        let mut m = small(1);
        m.subs[0].s2 = Some(vec![7; n]);
        lay(&mut file, &mut map, &m);
        file.extend(junk(gap, 1, b"GRI"));
        let mut m = small(2);
        m.subs[0].s7 = vec![9; n];
        lay(&mut file, &mut map, &m);
        check(&file, &map, 0, &format!("messages with a section of {n} octets, gap {gap}"))
    });
    rep.explore("start", 0, |cx| {
        let mut file = vec![];
        let mut map = vec![];
        let gap = cx.pick(&[0usize, 7, 30]);
        file.extend(junk(gap, 3, b""));
        lay(&mut file, &mut map, &small(0));
        let first = file.len();
        let map1 = map.len();
        file.extend(junk(gap, 1, b"GRI"));
        lay(&mut file, &mut map, &small(1));
        let start = cx.choose(first + gap + 1);
        let map = if start <= gap {
            &map[..]
        } else {
            &map[map1..]
        };
        check(&file, map, start as u64, &format!("gap {gap}, reading from {start}"))
    });
    rep.explore("several-kinds", 0, |cx| {
        let all = samples::all();
        let i = cx.choose(all.len());
        let j = cx.choose(all.len());
        let gap = cx.pick(&[0usize, 1, 19, 5000]);
        let mut file = vec![];
        let mut map = vec![];
        let mut m = one(all[i].1.clone());
        let mut second = all[j].1.clone();
        if cx.flag() {
            second.s2 = Some(vec![1; 9]);
        } else if cx.flag() {
            second.s3 = None;
        }
        m.subs.push(second);
        lay(&mut file, &mut map, &m);
        file.extend(junk(gap, 2, b"GR"));
        lay(&mut file, &mut map, &one(all[j].1.clone()));
        check(&file, &map, 0, &format!("{}+{}, gap {gap}", all[i].0, all[j].0))
    });
    // payloads that look like messages, ends and starts of messages
    rep.explore("look-alikes", 0, |cx| {
        let whole = small(7).bytes();
        let looks: Vec<Vec<u8>> = vec![
            b"7777".to_vec(),
            b"GRIB".to_vec(),
            b"77777777GRIB7777".to_vec(),
            whole.clone(),
            [b"xx7777".as_slice(), &whole].concat(),
            whole[16..].to_vec(),
            [&whole[..], &whole[..], b"GRIB"].concat(),
            vec![0, 0, 0, 5, 7, 0x37, 0x37, 0x37, 0x37],
            [b"GRIB".as_slice(), &[0; 4090], b"7777GRIB"].concat(),
        ];
        let gap = cx.pick(&[0usize, 3]);
        let mut file = junk(gap, 3, b"");
        let mut map = vec![];
        let mut m = small(1);
        let second = m.subs[0].clone();
        m.subs.push(second);
        let mut what = String::new();
        for at in 0..5 {
            let k = cx.choose(looks.len() + 1);
            let Some(l) = looks.get(k) else { continue };
            what += &format!("look-alike {k} at place {at}; ");
            match at {
                0 => m.subs[0].s2 = Some(l.clone()),
                1 => m.subs[0].s7 = l.clone(),
                2 => m.subs[1].s7 = l.clone(),
                3 => m.subs[1].s6.extend(l),
                _ => m.subs[1].s4.extend(l),
            }
        }
        lay(&mut file, &mut map, &m);
        lay(&mut file, &mut map, &small(2));
        check(&file, &map, 0, &what)
    });
    const G: u64 = 1 << 30;
    let big = [0u64, 7, 2 * G - 1, 2 * G, 2 * G + 1, 4 * G - 2, 4 * G - 1];
    rep.explore("gigabytes", 0, |cx| {
        let n = 1 + cx.choose(3);
        let subs: Vec<u64> = (0..n).map(|_| cx.pick(&big)).collect();
        let (second, last) = (vec![cx.pick(&big), 0], vec![0]);
        let tail = cx.pick(&[0u64, 9]);
        huge(&[subs, second, last], cx.pick(&[0, 1, 5000]), tail, 0)
    });
    // searching through gigabytes takes seconds
    rep.explore("gigabytes-before", 0, |cx| huge(&[vec![0, 4 * G - 1], vec![0]], [2 * G - 3, 4 * G - 9, 4 * G + 1][cx.choose(3)], 0, 0));
    rep.explore("gigabytes-skipped", 0, |cx| {
        let at = cx.pick(&[2 * G, 4 * G, 8 * G, G << 10, 1 << 62]) - cx.pick(&[0, 1, 9, 4096]);
        let back = cx.pick(&[0u64, 1, 30, 5000]);
        let size = cx.pick(&[0, 4 * G - 1]);
        huge(&[vec![size, 0], vec![0, size]], at, 0, at - back)
    });
    rep.note_assumption("unrelated bytes do not themselves contain the start marker GRIB");
}
