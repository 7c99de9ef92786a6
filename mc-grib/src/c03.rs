//! C03: results do not depend on how the reader delivers its bytes.
use crate::{msg::*, obs, rdr::*, samples};
use mccore::{ensure, guard, hash_of, Ctx, Leaf, Report};
use std::io::{self, Read, Seek, SeekFrom};

pub type Want = Result<obs::Obs, String>;

/// Name, bytes and what a faithful reader gives.
pub struct File {
    pub name: String,
    pub bytes: Vec<u8>,
    pub want: Want,
    /// The file is well-formed.
    pub is_valid: bool,
}
impl File {
    pub fn new(name: String, bytes: Vec<u8>, is_valid: bool) -> Self {
        let want = guard("open and observe", || obs::open_and_observe(&bytes)).unwrap_or_else(|f| Err(f.msg));
        File {
            name,
            bytes,
            want,
            is_valid,
        }
    }
    pub fn valid(&self) -> Result<&obs::Obs, mccore::Fail> {
        match &self.want {
            Ok(o) => Ok(o),
            Err(e) => mccore::fail(format!("baseline {}", self.name), format!("well-formed file {}: {e}", self.name)),
        }
    }
}

/// Messages whose Section 7 (and a Section 2 in the second one) looks like the end of the message,
/// like the rest of it, or like more messages.
pub fn echoes() -> Vec<Msg> {
    let whole = one(samples::simple()).bytes();
    let looks: Vec<Vec<u8>> = vec![
        b"7777".to_vec(),
        [b"7777".as_slice(), &whole].concat(),
        [b"7777".as_slice(), &whole, b"7777", &whole].concat(),
        whole[16 + 21..].to_vec(),
        whole.clone(),
    ];
    let mut v = vec![];
    for l in looks {
        let mut s = sub_simple8(Some(small_grid(l.len() as u32, 1)), &l);
        s.s3 = Some(grid_unsupported(l.len() as u32, 101));
        let mut m = one(s.clone());
        s.s2 = Some(l.clone());
        m.subs.push(s);
        v.push(m);
    }
    v
}

pub fn files() -> Vec<File> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for (n, s) in samples::all() {
        v.push((n.into(), one(s).bytes()));
    }
    let m = samples::multi_bytes();
    v.push(("multi".into(), m.clone()));
    let msgs: Vec<Vec<u8>> = samples::multi().iter().map(|m| m.bytes()).collect();
    let mut spread = vec![b'x'; 37];
    spread.extend(&msgs[0]);
    spread.extend([b'G', b'R', b'I', 0, b'G']);
    spread.extend(&msgs[1]);
    spread.extend(b"trailing GRIB");
    v.push(("spread".into(), spread));
    let mut far = vec![b'G'; 4090];
    far.extend(&msgs[1]);
    far.extend(vec![b'R'; 5003]);
    far.extend(&msgs[1]);
    v.push(("far".into(), far));
    // payloads that look like the end of the message and what may follow it
    for (k, e) in echoes().into_iter().enumerate() {
        v.push((format!("echo{k}"), e.bytes()));
    }
    // files that end in an error of every kind
    for cut in [3, 10, 16, 18, 21, 36, 40, m.len() - 5, m.len() - 4, m.len() - 2] {
        v.push((format!("cut{cut}"), m[..cut].to_vec()));
    }
    let mut bad = msgs[0].clone();
    let n = bad.len();
    bad[n - 1] = b'8';
    v.push(("badend".into(), bad));
    let mut bad = msgs[0].clone();
    bad[7] = 1;
    v.push(("version1".into(), bad));
    let mut bad = msgs[0].clone();
    bad[20] = 9;
    v.push(("number9".into(), bad));
    let mut bad = samples::simple();
    bad.s3 = None;
    v.push(("nogrid".into(), one(bad).bytes()));
    v.push(("empty".into(), vec![]));
    v.into_iter()
        .map(|(name, bytes)| {
            let valid = !["cut", "bad", "version1", "number9", "nogrid"].iter().any(|p| name.starts_with(p));
            File::new(name, bytes, valid)
        })
        .collect()
}

fn deliver(cx: &mut Ctx, fs: &[File]) -> Leaf {
    let k = cx.choose(fs.len());
    let f = &fs[k];
    let env = Env::new(cx, Policy::Deliver);
    let got = guard("from_reader", || -> Want {
        let g = grib::from_reader(Rdr::new(env.clone(), &f.bytes)).map_err(|e| obs::err(&e))?;
        Ok(obs::observe(&g))
    })?;
    let log = {
        let mut e = env.borrow_mut();
        std::mem::take(&mut e.log)
    };
    let cx = &mut *env.borrow_mut();
    cx.cx.note(|| format!("file {} ({} octets): {log:?}", f.name, f.bytes.len()));
    ensure!(
        got == f.want,
        format!("deliver {} {}", f.name, log.join("; ")),
        "file {}: {}: got {}, a faithful reader gives {}",
        f.name,
        log.join("; "),
        brief(&got),
        brief(&f.want)
    );
    Ok(hash_of(&(k, got)))
}

pub fn brief(w: &Want) -> String {
    match w {
        Err(e) => format!("error {e}"),
        Ok(o) => {
            let v: Vec<String> = o
                .subs
                .iter()
                .map(|s| match &s.values {
                    Ok(v) => format!("{:?} {} values", s.index, v.len()),
                    Err(e) => format!("{:?} {e}", s.index),
                })
                .collect();
            format!("{} submessages {v:?}, {} sections", o.len, o.sections.len())
        }
    }
}

/// Never more than `most` bytes at a time; every `every`-th call is interrupted first.
struct Uniform<'a> {
    c: io::Cursor<&'a [u8]>,
    most: usize,
    every: usize,
    n: usize,
}
impl Read for Uniform<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.every > 0 && self.n % self.every == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let k = buf.len().min(self.most);
        self.c.read(&mut buf[..k])
    }
}
impl Seek for Uniform<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}

fn uniform(cx: &mut Ctx, fs: &[File]) -> Leaf {
    let k = cx.choose(fs.len());
    let f = &fs[k];
    let most = cx.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 16, 17, 21, 34, 100, 512, 4095, 4096, 4097, 8192]);
    let every = cx.pick(&[0, 2, 3, 5]);
    let got = guard("from_reader", || -> Want {
        let g = grib::from_reader(Uniform {
            c: io::Cursor::new(&f.bytes),
            most,
            every,
            n: 0,
        })
        .map_err(|e| obs::err(&e))?;
        Ok(obs::observe(&g))
    })?;
    ensure!(
        got == f.want,
        format!("uniform {} {most} {every}", f.name),
        "file {}: at most {most} bytes per read, every {every}th read interrupted: got {}, a faithful reader gives {}",
        f.name,
        brief(&got),
        brief(&f.want)
    );
    Ok(hash_of(&(k, got)))
}

/// Every way of cutting the deliveries of a short file into 1, 2 or "all" bytes.
fn all_splits(cx: &mut Ctx, f: &File, budget_reads: usize) -> Leaf {
    struct Split<'c, 'd> {
        env: std::rc::Rc<std::cell::RefCell<Env<'c>>>,
        c: io::Cursor<&'d [u8]>,
        left: usize,
        log: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    }
    impl Read for Split<'_, '_> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let mut k = buf.len();
            if self.left > 0 && k > 1 {
                self.left -= 1;
                let c = self.env.borrow_mut().cx.choose(4);
                self.log.borrow_mut().push(c as u8);
                match c {
                    0 => {}
                    1 => k = 1,
                    2 => k = (k - 1).min(13),
                    _ => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                }
            }
            self.c.read(&mut buf[..k])
        }
    }
    impl Seek for Split<'_, '_> {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            self.c.seek(p)
        }
    }
    let env = Env::new(cx, Policy::Faithful);
    let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let r = Split {
        env: env.clone(),
        c: io::Cursor::new(&f.bytes),
        left: budget_reads,
        log: log.clone(),
    };
    let got = guard("from_reader", || -> Want {
        let g = grib::from_reader(r).map_err(|e| obs::err(&e))?;
        Ok(obs::observe(&g))
    })?;
    ensure!(
        got == f.want,
        format!("splits {:?}", log.borrow()),
        "file {}: deliveries {:?}: got {}, a faithful reader gives {}",
        f.name,
        log.borrow(),
        brief(&got),
        brief(&f.want)
    );
    Ok(hash_of(&got))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every execution of open, list, describe, coordinates and decode over the sample files in which up to the given number of reads are short (1 byte, half, all but one, 15, 16) or interrupted, plus uniformly slow readers; compared with a faithful reader".into();
    let fs = files();
    rep.explore("one-departure", 1, |cx| deliver(cx, &fs));
    rep.explore("uniform", 0, |cx| uniform(cx, &fs));
    let rep_quick = rep.quick();
    let some: Vec<File> = files().into_iter().filter(|f| ["bitmapped", "multi", "far", "cut40", "badend"].contains(&f.name.as_str())).collect();
    rep.explore("two-departures", 2, |cx| deliver(cx, &fs));
    let tiny: Vec<File> = files().into_iter().filter(|f| ["constant"].contains(&f.name.as_str())).collect();
    rep.explore("three-departures", 3, |cx| deliver(cx, if rep_quick { &tiny } else { &some }));
    let f = files().into_iter().find(|f| f.name == "constant").unwrap();
    let n = rep.tier(10, 11);
    rep.explore("all-splits", 0, |cx| all_splits(cx, &f, n));
    rep.note_assumption("errors are compared by kind, not by their free text");
}
