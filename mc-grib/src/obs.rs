//! Everything a user can see of an opened file, in comparable form.
use grib::{Grib2, Grib2Read, Grib2SubmessageDecoder, GribError, ParseError, SectionInfo, SubMessage};

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct SectObs {
    pub num: u8,
    pub offset: usize,
    pub size: usize,
    pub body: String,
}
impl SectObs {
    pub fn of(s: &SectionInfo) -> Self {
        SectObs {
            num: s.num,
            offset: s.offset,
            size: s.size,
            body: format!("{:?}", s.body),
        }
    }
}

/// An error without its free text.
pub fn err(e: &GribError) -> String {
    match e {
        GribError::ParseError(p) => perr(p),
        GribError::InternalDataError => "InternalDataError".into(),
        GribError::DecodeError(d) => {
            let s = format!("{d:?}");
            s.split('"').next().unwrap().to_string()
        }
        GribError::InvalidValueError(_) => "InvalidValueError".into(),
        GribError::NotSupported(_) => "NotSupported".into(),
        GribError::Unknown(_) => "Unknown".into(),
    }
}
pub fn perr(p: &ParseError) -> String {
    match p {
        ParseError::ReadError(_) => "ReadError".into(),
        p => format!("{p:?}"),
    }
}

pub type Vals = Result<Vec<u32>, String>;

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct SubObs {
    pub index: (usize, usize),
    pub sects: Vec<Option<(usize, SectObs)>>,
    pub describe: String,
    pub parameter: String,
    pub shape: Result<(usize, usize), String>,
    pub ij: Result<Vec<(usize, usize)>, String>,
    pub latlons: Result<Vec<(u32, u32)>, String>,
    pub values: Vals,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Obs {
    pub len: usize,
    pub sections: Vec<SectObs>,
    pub templates: Vec<(u8, u16)>,
    pub subs: Vec<SubObs>,
}

/// No more items than this are taken from any iterator.
pub const CAP: usize = 5000;

pub fn meta<R>(index: (usize, usize), s: &SubMessage<R>) -> SubObs {
    fn so(s: &grib::SubMessageSection) -> Option<(usize, SectObs)> {
        Some((s.index, SectObs::of(s.body)))
    }
    SubObs {
        index,
        sects: vec![
            so(&s.0),
            so(&s.1),
            s.2.as_ref().and_then(so),
            so(&s.3),
            so(&s.4),
            so(&s.5),
            so(&s.6),
            so(&s.7),
            so(&s.8),
        ],
        describe: s.describe(),
        parameter: format!("{:?}", s.parameter()),
        shape: s.grid_shape().map_err(|e| err(&e)),
        ij: s.ij().map(|i| i.take(CAP).collect()).map_err(|e| err(&e)),
        latlons: s
            .latlons()
            .map(|i| i.take(CAP).map(|(a, b)| (a.to_bits(), b.to_bits())).collect())
            .map_err(|e| err(&e)),
        values: Err("not decoded".into()),
    }
}

pub fn values<R: Grib2Read>(s: SubMessage<R>) -> Vals {
    let d = Grib2SubmessageDecoder::from(s).map_err(|e| err(&e))?;
    let it = d.dispatch().map_err(|e| err(&e))?;
    Ok(it.take(CAP).map(bits).collect())
}
/// All NaNs are alike.
pub fn bits(v: f32) -> u32 {
    if v.is_nan() {
        f32::NAN.to_bits()
    } else {
        v.to_bits()
    }
}

pub fn observe<R: Grib2Read>(g: &Grib2<R>) -> Obs {
    let mut subs: Vec<SubObs> = vec![];
    for (index, s) in g {
        let mut m = meta(index, &s);
        m.values = values(s);
        subs.push(m);
    }
    Obs {
        len: g.len(),
        sections: g.sections().map(SectObs::of).collect(),
        templates: g.list_templates().iter().map(|t| (t.0, t.1)).collect(),
        subs,
    }
}

pub fn open_and_observe(bytes: &[u8]) -> Result<Obs, String> {
    let g = grib::from_slice(bytes).map_err(|e| err(&e))?;
    Ok(observe(&g))
}

/// A submessage irrespective of where in its file it is.
pub fn placeless(s: &SubObs) -> String {
    let sects: Vec<_> = s.sects.iter().enumerate().filter(|(k, _)| (1..8).contains(k)).map(|(_, s)| s.as_ref().map(|s| (s.1.num, s.1.size, &s.1.body))).collect();
    format!("{:?}", (sects, &s.describe, &s.parameter, &s.shape, &s.ij, &s.latlons, &s.values))
}

/// Submessage `k` of a file.
pub fn kth(bytes: &[u8], k: usize) -> Result<String, String> {
    let g = grib::from_slice(bytes).map_err(|e| err(&e))?;
    let mut it = g.iter();
    for _ in 0..k {
        it.next();
    }
    let (i, s) = it.next().ok_or("no such submessage")?;
    let mut m = meta(i, &s);
    m.values = values(s);
    Ok(placeless(&m))
}

/// What builds without projections (`projections`) and without JPEG 2000 (`jpeg`) cannot see is
/// left out. A build that `lacks` them must say that it does not support it.
pub fn mask(f: &[u8], o: &mut Obs, lacks: bool, jpeg: bool) {
    for s in &mut o.subs {
        let tmpl = |k: usize, skip: usize| s.sects[k].as_ref().and_then(|x| f.get(x.1.offset + skip..x.1.offset + skip + 2)).map(|b| b[0] as u16 * 256 + b[1] as u16);
        let (projected, jpeg2000) = (matches!(tmpl(3, 12), Some(20 | 30)), tmpl(5, 9) == Some(40));
        if projected && s.ij.is_ok() && (!lacks || s.latlons == Err("NotSupported".into())) {
            s.latlons = Err("projected".into());
        }
        if let (true, Some(40), Ok(l)) = (jpeg, tmpl(3, 12), &s.latlons) {
            // sines and cosines may differ in the last bits from platform to platform
            s.latlons = Err(format!("{} coordinates", l.len()));
        }
        if jpeg && jpeg2000 && (!lacks || s.values.is_err()) {
            s.values = Err("JPEG 2000".into());
        }
    }
}

#[cfg(not(target_arch = "wasm32"))]
pub use alone::*;
#[cfg(not(target_arch = "wasm32"))]
mod alone {
use super::*;
/// The child's side of `alone`: the file is read from standard input.
pub fn serve_alone() -> ! {
    use std::io::{Read, Write};
    let k = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(0);
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    mccore::install_hooks();
    let Ok(r) = mccore::guard("alone", || format!("{:?}", kth(&b, k))) else { std::process::exit(1) };
    std::io::stdout().write_all(r.as_bytes()).unwrap();
    std::process::exit(0);
}

/// Submessage `k` of a file as seen by a process that does nothing else; None if it dies.
pub fn alone(bytes: &[u8], k: usize) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("--alone")
        .arg(k.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| mccore::engine_error(&format!("cannot start a process: {e}")));
    c.stdin.take().unwrap().write_all(bytes).ok();
    let o = c.wait_with_output().ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).into_owned())
}

/// `alone` for many files at once.
pub fn alone_all(files: &[(Vec<u8>, usize)]) -> Vec<Option<String>> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![None; files.len()]);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((b, k)) = files.get(i) else { break };
                let r = alone(b, *k);
                out.lock().unwrap()[i] = r;
            });
        }
    });
    out.into_inner().unwrap()
}
}
