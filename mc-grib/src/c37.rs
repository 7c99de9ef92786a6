//! C37: an optimised build without optional features reads the same.
use crate::{c35, msg::*, obs::*, samples};
use mccore::{engine_error, fail, guard, hash_of, Ctx, Leaf, Report};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::process::{Child, Command, Stdio};

/// What is seen of a file, without what the other build does not support.
fn seen(f: &[u8], jpeg: bool) -> Result<String, String> {
    let mut o = match guard("reading", || open_and_observe(f)) {
        Err(e) if e.key.starts_with("memory") => return Ok("memory".into()),
        Err(e) => return Err(e.key),
        Ok(Err(e)) => return Ok(e),
        Ok(Ok(o)) => o,
    };
    mask(f, &mut o, !cfg!(feature = "proj"), jpeg);
    Ok(format!("{o:?}"))
}

/// The side of the other build: files come one after another on the standard input.
pub fn serve() -> ! {
    mccore::install_hooks();
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut n = [0; 4];
    while i.read_exact(&mut n).is_ok() {
        let mut f = vec![0; u32::from_be_bytes(n) as usize];
        if i.read_exact(&mut f).is_err() {
            break;
        }
        let t = seen(&f, false).unwrap_or_else(|e| format!("failed: {e}"));
        if o.write_all(&(t.len() as u32).to_be_bytes()).and_then(|_| o.write_all(t.as_bytes())).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
    std::process::exit(0);
}

static WASM: AtomicBool = AtomicBool::new(false);
fn wasm() -> bool {
    WASM.load(Ordering::SeqCst)
}

struct Other(Child);
impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
}

/// What the other build sees; None if it died of the file.
fn elsewhere(f: &[u8]) -> Option<String> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let c = o.get_or_insert_with(|| {
            let dir = mccore::verif_dir();
            let mut c = if wasm() {
                let mut c = Command::new("node");
                c.arg(dir.join("mc-wasm/serve.mjs")).arg(dir.join("target/wasm32-unknown-unknown/release/mc_wasm.wasm"));
                c
            } else {
                let mut c = Command::new(dir.join("target/release/mc-grib"));
                c.arg("--serve");
                c
            };
            let r = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            Other(r.unwrap_or_else(|e| engine_error(&format!("{c:?} cannot be run: {e}"))))
        });
        let mut talk = || -> std::io::Result<String> {
            let i = c.0.stdin.as_mut().unwrap();
            i.write_all(&(f.len() as u32).to_be_bytes())?;
            i.write_all(f)?;
            i.flush()?;
            let r = c.0.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            r.read_exact(&mut n)?;
            let mut t = vec![0; u32::from_be_bytes(n) as usize];
            r.read_exact(&mut t)?;
            Ok(String::from_utf8_lossy(&t).into_owned())
        };
        let r = talk().ok();
        if r.is_none() {
            *o = None;
        }
        r
    })
}

fn both(f: &[u8], what: impl Fn() -> String) -> Leaf {
    let here = seen(f, wasm()).unwrap_or_else(|e| format!("failed: {e}"));
    if here == "memory" {
        return Ok(0);
    }
    let name = if wasm() { "32-bit WebAssembly" } else { "optimised, without options" };
    let Some(there) = elsewhere(f) else { return fail("the other build dies", format!("{}: {name}", what())) };
    if here == there || there == "memory" {
        return Ok(hash_of(&here));
    }
    // a length may be found wrong earlier where it does not fit
    let refused = |s: &str| !s.starts_with("Obs ") && !s.starts_with("failed");
    if wasm() && refused(&here) && refused(&there) {
        return Ok(hash_of(&here));
    }
    let k = here.bytes().zip(there.bytes()).take_while(|(a, b)| a == b).count();
    let part = |s: &str| s.chars().skip(k.saturating_sub(60)).take(160).collect::<String>();
    fail("builds disagree", format!("{}: {name}: ..{:?}.., else ..{:?}..", what(), part(&there), part(&here)))
}

fn cuts(cx: &mut Ctx, fs: &[(String, Vec<u8>)]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let n = f.len() - cx.choose(f.len() + 1);
    both(&f[..n], || format!("{name} cut to {n} of {} octets", f.len()))
}
fn changed(cx: &mut Ctx, fs: &[(String, Vec<u8>)], vals: &[u8]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let at = cx.choose(f.len());
    let v = if cx.flag() { f[at] ^ cx.pick(&[1, 0x80]) } else { cx.pick(vals) };
    let mut g = f.clone();
    g[at] = v;
    both(&g, || format!("{name} with octet {at} changed from {} to {v}", f[at]))
}
fn windows(cx: &mut Ctx, fs: &[(String, Vec<u8>)]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let n = cx.pick(&[2usize, 4, 8]).min(f.len());
    let at = cx.choose(f.len() + 1 - n);
    let (head, rest) = cx.pick(&[(0xff, 0xff), (0x7f, 0xff), (0x80, 0), (0, 0), (0x80, 1)]);
    let mut g = f.clone();
    g[at..at + n].fill(rest);
    g[at] = head;
    both(&g, || format!("{name} with octets {at} to {} set to {head:#x}, {rest:#x} ..", at + n - 1))
}
/// Files of several messages and submessages.
fn layouts(cx: &mut Ctx, most: usize) -> Leaf {
    let subs = samples::all();
    let mut f = vec![];
    let mut names = vec![];
    for _ in 0..1 + cx.choose(most) {
        let (n, s) = &subs[cx.choose(subs.len())];
        names.push(*n);
        let mut m = one(s.clone());
        if cx.flag() {
            m.subs.push(Sub { s3: None, ..s.clone() });
        }
        f.extend(m.bytes());
    }
    both(&f, || format!("messages {names:?}"))
}
/// Packed values of every width.
fn widths(cx: &mut Ctx) -> Leaf {
    let nbit = cx.choose(34) as u8;
    let (e, d) = (cx.pick(&[-40i64, -1, 0, 1, 40]), cx.pick(&[-30i64, -1, 0, 1, 30]));
    let r = cx.pick(&[0.0f32, -1.5, 1e30, f32::MAX, f32::MIN_POSITIVE]);
    let fill = cx.pick(&[0u8, 1, 0x55, 0x80, 0xff]);
    let mut s = sub_simple8(Some(grid_unsupported(9, 101)), &[0; 9]);
    s.s5 = repr(9, 0, r, e, d, nbit);
    s.s7 = vec![fill; (9 * nbit as usize).div_ceil(8)];
    both(&one(s).bytes(), || format!("{nbit}-bit values, R {r}, E {e}, D {d}, filled with {fill:#x}"))
}

/// Sizes of grids and numbers of points that leave 32 bits when multiplied.
fn sizes(cx: &mut Ctx) -> Leaf {
    const SIZES: &[u32] = &[0, 1, 2, 3, 4, 255, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let (name, s) = cx.pick(&samples::all());
    let Some(mut s3) = s.s3.clone() else { return Ok(0) };
    let (ni, nj) = (cx.pick(SIZES), cx.pick(SIZES));
    let n = match cx.choose(3) {
        0 => ni.wrapping_mul(nj),
        1 => ni.saturating_mul(nj),
        _ => cx.pick(SIZES),
    };
    if ni as u64 * nj as u64 == n as u64 && n > 1 << 20 {
        // they may take memory for so many points
        return Ok(0);
    }
    s3[1..5].copy_from_slice(&n.to_be_bytes());
    if s3.len() >= 33 {
        s3[25..29].copy_from_slice(&ni.to_be_bytes());
        s3[29..33].copy_from_slice(&nj.to_be_bytes());
    }
    let mut s = s.clone();
    s.s3 = Some(s3);
    // values of so many points are not decoded
    s.s6 = vec![1];
    both(&one(s).bytes(), || format!("{name} of {ni} x {nj} points, {n} declared"))
}
/// So many groups that the lengths of their descriptors leave 32 bits.
fn groups(cx: &mut Ctx) -> Leaf {
    let mut s = cx.pick(&[samples::complex(), samples::diff(1), samples::diff(2)]);
    let n: u32 = 1 << cx.pick(&[27, 28, 29, 30]);
    let w = cx.pick(&[[8u8, 0, 0], [16, 0, 0], [32, 0, 0], [16, 16, 0], [32, 32, 0], [32, 0, 32], [0, 32, 0], [0, 0, 32], [0, 32, 32], [32, 32, 32], [16, 16, 32]]);
    s.s3 = Some(grid_unsupported(n, 101));
    s.s5[..4].copy_from_slice(&n.to_be_bytes());
    s.s5[26..30].copy_from_slice(&n.to_be_bytes());
    (s.s5[14], s.s5[31], s.s5[41]) = (w[0], w[1], w[2]);
    // of one value of no bits each
    s.s5[30] = 0;
    s.s5[32..36].copy_from_slice(&1u32.to_be_bytes());
    s.s5[36] = 0;
    s.s5[37..41].copy_from_slice(&1u32.to_be_bytes());
    both(&one(s).bytes(), || format!("{n} groups with descriptors of {w:?} bits"))
}
/// Lengths of messages and sections that leave 32 bits when added.
fn lengths(cx: &mut Ctx, fs: &[(String, Vec<u8>)]) -> Leaf {
    let (name, f) = &fs[cx.choose(fs.len())];
    let mut g = f.clone();
    let n = g.len() as u64;
    let len = (cx.pick(&[0u64, 1, 2, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])) << cx.pick(&[0, 16, 32]);
    let len = cx.pick(&[len, n.wrapping_add(len), n.wrapping_sub(len), len.wrapping_sub(n)]);
    g[8..16].copy_from_slice(&len.to_be_bytes());
    // what precedes a message counts as well
    let before = cx.pick(&[0usize, 1, 16, 4000]);
    let mut h = vec![b'-'; before];
    h.extend(&g);
    if cx.flag() {
        h.extend(f);
    }
    both(&h, || format!("{name} at {before} said to be {len:#x} octets long"))
}

fn explore(rep: &mut Report) {
    let fs = c35::files();
    let small: Vec<_> = fs.iter().filter(|f| rep.tier(f.1.len() < 260, true)).cloned().collect();
    rep.explore("cuts", 0, |cx| cuts(cx, &fs));
    let vals: &[u8] = rep.tier(&[0, 1, 127, 128, 255], &[0, 1, 2, 3, 4, 8, 9, 16, 20, 30, 31, 32, 40, 41, 48, 63, 64, 127, 128, 129, 200, 254, 255]);
    rep.explore("changed", 0, |cx| changed(cx, &small, vals));
    rep.explore("windows", 0, |cx| windows(cx, &small));
    let n = rep.tier(2, 3);
    rep.explore("layouts", 0, |cx| layouts(cx, n));
    rep.explore("widths", 0, widths);
    rep.explore("sizes", 0, sizes);
    rep.explore("groups", 0, groups);
    rep.explore("lengths", 0, |cx| lengths(cx, &fs));
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every sample, cut, single changed octet, window of extremes, sequence of messages, packing, size and length, read by this build (checks of arithmetic on, with projections) and by a process of an optimised build (checks off, no optional features); the two must see the same but for coordinates of projected grids, which the latter must call unsupported".into();
    rep.note_assumption("the other build is that of the release profile of the harness (opt-level 3, overflow and debug assertions off)");
    explore(rep);
}

#[cfg(feature = "c38")]
pub fn run_wasm(rep: &mut Report) {
    WASM.store(true, Ordering::SeqCst);
    rep.rule = "The explorations of C37, read by this 64-bit build and by a WebAssembly module of the library (32-bit addresses and sizes, no overflow checks) run by node; the two must see the same but for coordinates of projected grids and values in JPEG 2000, which the latter must call unsupported".into();
    rep.note_assumption("the standard library is built from the toolchain's sources for wasm32-unknown-unknown; a 32-bit build for another target is not run");
    explore(rep);
}
