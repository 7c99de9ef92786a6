//! C05: every prefix of a valid file is an error or exactly its complete messages.
use crate::{c03, msg::*, obs, rdr::*, samples};
use mccore::{ensure, guard, hash_of, Ctx, Leaf, Report};
use std::collections::BTreeSet;

struct File {
    f: c03::File,
    /// (start, end, number of sections, number of submessages) of each message
    msgs: Vec<(usize, usize, usize, usize)>,
}

fn build(name: &str, parts: &[Part]) -> File {
    let mut bytes = vec![];
    let mut msgs = vec![];
    for p in parts {
        match p {
            Part::Junk(j) => bytes.extend_from_slice(j),
            Part::Msg(m) => {
                let b = m.bytes();
                let at = bytes.len();
                bytes.extend(&b);
                msgs.push((at, bytes.len(), m.sections().len() + 2, m.subs.len()));
            }
        }
    }
    File {
        f: c03::File::new(name.into(), bytes, true),
        msgs,
    }
}
enum Part {
    Junk(Vec<u8>),
    Msg(Msg),
}

fn files() -> Vec<File> {
    let mut v = vec![];
    for (n, s) in samples::all() {
        v.push(build(n, &[Part::Msg(one(s))]));
    }
    let m = samples::multi();
    v.push(build("multi", &[Part::Msg(m[0].clone()), Part::Msg(m[1].clone())]));
    v.push(build(
        "spread",
        &[
            Part::Junk(vec![b'x'; 37]),
            Part::Msg(m[1].clone()),
            Part::Junk(b"GRIGRI junk".to_vec()),
            Part::Msg(m[0].clone()),
            Part::Junk(b"trailing GRIB".to_vec()),
        ],
    ));
    v.push(build(
        "three",
        &[Part::Msg(one(samples::simple())), Part::Msg(m[0].clone()), Part::Msg(one(samples::complex()))],
    ));
    for (k, m) in c03::echoes().into_iter().enumerate() {
        v.push(build(&format!("echo{k}"), &[Part::Msg(m.clone()), Part::Msg(one(samples::constant()))]));
    }
    v.push(build(
        "far",
        &[
            Part::Junk(vec![b'G'; 4090]),
            Part::Msg(m[1].clone()),
            Part::Junk(vec![b'R'; 4111]),
            Part::Msg(one(samples::constant())),
        ],
    ));
    v
}

/// Could a message start in `b`?
fn may_start(b: &[u8]) -> bool {
    b.windows(16).any(|w| &w[..4] == b"GRIB")
}

fn run_cut(cx: &mut Ctx, fs: &[File], dev: bool) -> Leaf {
    let k = cx.choose(fs.len());
    let File { f, msgs } = &fs[k];
    let whole = f.valid()?;
    let cut = cx.choose(f.bytes.len() + 1);
    let env = Env::new(cx, if dev { Policy::Deliver } else { Policy::Faithful });
    let got: c03::Want = guard("open and observe", || {
        if dev {
            let g = grib::from_reader(Rdr::new(env.clone(), &f.bytes[..cut])).map_err(|e| obs::err(&e))?;
            Ok(obs::observe(&g))
        } else {
            obs::open_and_observe(&f.bytes[..cut])
        }
    })?;
    let complete: Vec<_> = msgs.iter().take_while(|m| m.1 <= cut).collect();
    let end = complete.last().map_or(0, |m| m.1);
    let rest = &f.bytes[end..cut];
    let key = || format!("prefix {} {cut}{}", f.name, env.borrow().log.join(";"));
    match &got {
        Err(_) => {
            ensure!(
                cut < f.bytes.len(),
                key(),
                "the whole file {} is rejected: {got:?}",
                f.name
            );
        }
        Ok(o) => {
            ensure!(
                !may_start(rest),
                key(),
                "file {} cut at {cut}: a message is cut short but {} is reported",
                f.name,
                c03::brief(&got)
            );
            let ns: usize = complete.iter().map(|m| m.3).sum();
            let nsect: usize = complete.iter().map(|m| m.2).sum();
            let want = obs::Obs {
                len: ns,
                sections: whole.sections[..nsect].to_vec(),
                subs: whole.subs[..ns].to_vec(),
                templates: templates(&f.bytes, &whole.sections[..nsect]),
            };
            ensure!(
                *o == want,
                key(),
                "file {} cut at {cut}: {} instead of {} ({} submessages and {} sections expected)",
                f.name,
                c03::brief(&got),
                c03::brief(&Ok(want)),
                ns,
                nsect
            );
        }
    }
    Ok(hash_of(&(k, got.map(|o| o.len))))
}

pub fn templates(bytes: &[u8], sects: &[obs::SectObs]) -> Vec<(u8, u16)> {
    let set: BTreeSet<(u8, u16)> = sects
        .iter()
        .filter_map(|s| {
            let o = match s.num {
                3 => 12,
                4 => 7,
                5 => 9,
                _ => return None,
            } + s.offset;
            Some((s.num, u16::from_be_bytes([bytes[o], bytes[o + 1]])))
        })
        .collect();
    set.into_iter().collect()
}

/// The bytes after the cut are lost in the middle of the life of an opened file: later decodings
/// may fail but not give other values.
fn shrink(cx: &mut Ctx, fs: &[File]) -> Leaf {
    use std::{cell::RefCell, io, rc::Rc};
    struct Sh<'d> {
        d: Rc<RefCell<&'d [u8]>>,
        pos: u64,
    }
    impl io::Read for Sh<'_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let d = self.d.borrow();
            let s = self.pos.min(d.len() as u64) as usize;
            let n = buf.len().min(d.len() - s);
            buf[..n].copy_from_slice(&d[s..s + n]);
            self.pos += n as u64;
            Ok(n)
        }
    }
    impl io::Seek for Sh<'_> {
        fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
            self.pos = match p {
                io::SeekFrom::Start(n) => n,
                io::SeekFrom::Current(n) => (self.pos as i64 + n) as u64,
                io::SeekFrom::End(n) => (self.d.borrow().len() as i64 + n) as u64,
            };
            Ok(self.pos)
        }
    }
    let k = cx.choose(fs.len());
    let f = &fs[k].f;
    let whole = f.valid()?;
    let cut = cx.choose(f.bytes.len() + 1);
    let d = Rc::new(RefCell::new(&f.bytes[..]));
    let d2 = d.clone();
    let got = guard("observe", move || -> c03::Want {
        let g = grib::from_reader(Sh { d: d2.clone(), pos: 0 }).map_err(|e| obs::err(&e))?;
        *d2.borrow_mut() = &f.bytes[..cut];
        Ok(obs::observe(&g))
    })?;
    let o = match got {
        Ok(o) => o,
        Err(e) => return mccore::fail(format!("shrink-open {}", f.name), format!("file {} rejected: {e}", f.name)),
    };
    let mut kinds = vec![];
    for (s, w) in o.subs.iter().zip(&whole.subs) {
        ensure!(
            s.values == w.values || (s.values.is_err() && w.values.is_ok()) || s.values == Err("ReadError".into()),
            format!("shrink {} {cut}", f.name),
            "file {} cut at {cut} after opening: submessage {:?} decodes to {:?} instead of {:?}",
            f.name,
            s.index,
            s.values,
            w.values
        );
        kinds.push(s.values.is_ok());
    }
    ensure!(o.len == whole.len && o.subs.len() == whole.subs.len(), format!("shrink-len {} {cut}", f.name), "submessages lost");
    Ok(hash_of(&(k, kinds)))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every prefix of the sample files (every template, several messages, unrelated bytes around them), observed completely; also with one departure of the reader, and with the file shrinking after it was opened".into();
    let fs = files();
    rep.explore("prefixes", 0, |cx| run_cut(cx, &fs, false));
    rep.explore("shrink", 0, |cx| shrink(cx, &fs));
    let some: Vec<File> = files()
        .into_iter()
        .filter(|f| f.f.name != "far")
        .collect();
    rep.explore("prefixes-one-departure", 1, |cx| run_cut(cx, &some, true));
    {
        // every pair of samples, one after the other
        let all = samples::all();
        let pairs: Vec<File> = all
            .iter()
            .flat_map(|(a, x)| {
                all.iter()
                    .map(move |(b, y)| build(&format!("{a}+{b}"), &[Part::Msg(one(x.clone())), Part::Msg(one(y.clone()))]))
            })
            .collect();
        rep.explore("pairs", 0, |cx| run_cut(cx, &pairs, false));
        let many = rep.tier(4, 64);
        rep.explore("prefixes-two-departures", 2, |cx| {
            run_cut(cx, &some[..some.len().min(many)], true)
        });
    }
}
