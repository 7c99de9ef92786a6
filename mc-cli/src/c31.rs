//! C31: output files that cannot be written in full.
use crate::{cut, family, gribber, gribber_to, msg::*, s, Scratch};
use mccore::{ensure, hash_of, Ctx, Leaf, Report};

fn field(n: usize) -> (Vec<u8>, Vec<f32>) {
    let vals: Vec<u8> = (0..n).map(|k| (k * 37 % 251) as u8).collect();
    let mut sub = sub_simple8(Some(grid_unsupported(n as u32, 101)), &vals);
    sub.s5 = repr(n as u32, 0, 0.5, 0, 0, 8);
    (one(sub).bytes(), vals.iter().map(|v| *v as f32 + 0.5).collect())
}

fn bytes_of(v: &[f32], big: bool) -> Vec<u8> {
    v.iter().flat_map(|x| if big { x.to_be_bytes() } else { x.to_le_bytes() }).collect()
}

#[derive(Clone, Copy, Debug)]
enum Old {
    None,
    Shorter,
    Longer,
}

/// One run with files that cannot grow beyond `limit`.
fn attempt(sc: &Scratch, n: usize, big: bool, limit: Option<u64>, old: Old) -> Leaf {
    let (file, vals) = field(n);
    let want = bytes_of(&vals, big);
    let what = format!("{n} values, big endian {big}, limit {limit:?}, {old:?} old file");
    let input = sc.write("in.grib2", &file);
    let out = sc.path("out.bin");
    let _ = std::fs::remove_file(&out);
    match old {
        Old::None => {}
        Old::Shorter => std::fs::write(&out, [0xee; 3]).unwrap(),
        Old::Longer => std::fs::write(&out, vec![0xee; want.len() + 10_000]).unwrap(),
    }
    let r = gribber(&["decode", s(&input), "0.0", if big { "-b" } else { "-l" }, s(&out)], limit)?;
    let got = std::fs::read(&out).unwrap_or_default();
    if limit.is_some_and(|l| l < want.len() as u64) {
        ensure!(r.status != 0, "success reported for an incomplete output", "{what}: {} of {} octets", got.len(), want.len());
        r.failed(&what)?;
    } else {
        ensure!(r.status == 0, "failure without a fault", "{what}: {} {:?}", r.status, cut(&r.stderr));
    }
    if r.status == 0 {
        ensure!(got == want, "success reported for an incomplete output", "{what}: {} of {} octets", got.len(), want.len());
    }
    Ok(hash_of(&(r.status, got.len())))
}

/// Every limit up to the size of the output and beyond it.
fn limits(cx: &mut Ctx, sc: &Scratch, sizes: &[usize], step: usize) -> Leaf {
    let n = cx.pick(sizes);
    let big = cx.flag();
    let total = 4 * n;
    // All limits near the ends and near multiples of the buffer size, and every `step`th of the rest.
    let ls: Vec<usize> = (0..=total + 4).filter(|l| l % step == 0 || *l < 24 || total.abs_diff(*l) < 24 || (l + 12) % 4096 < 24).collect();
    let l = cx.pick(&ls);
    attempt(sc, n, big, Some(l as u64), Old::None)
}

/// Large outputs: around every power of two and the end.
fn larger(cx: &mut Ctx, sc: &Scratch, sizes: &[usize]) -> Leaf {
    let n = cx.pick(sizes);
    let big = cx.flag();
    let total = 4 * n as i64;
    let mut ls: Vec<i64> = (12..24).map(|p| 1i64 << p).chain((1..=8).map(|k| total * k / 8)).flat_map(|x| [x - 4, x - 1, x, x + 1, x + 4]).filter(|l| *l <= total + 4).collect();
    ls.sort();
    ls.dedup();
    let l = cx.pick(&ls);
    attempt(sc, n, big, Some(l as u64), Old::None)
}

/// Old files, no fault or a fault.
fn old_files(cx: &mut Ctx, sc: &Scratch) -> Leaf {
    let n = cx.pick(&[1usize, 2, 100, 2047, 2048, 2049, 4096, 5000, 20_000]);
    let big = cx.flag();
    let old = cx.pick(&[Old::None, Old::Shorter, Old::Longer]);
    let limit = match cx.choose(4) {
        0 => None,
        1 => Some(4 * n as u64),
        2 => Some(4 * n as u64 - 1),
        _ => Some(0),
    };
    attempt(sc, n, big, limit, old)
}

/// Outputs that cannot be created or never take anything.
fn places(cx: &mut Ctx, sc: &Scratch) -> Leaf {
    let n = cx.pick(&[1usize, 2, 2047, 2048, 2049, 5000]);
    let big = cx.flag();
    let (file, _) = field(n);
    let input = sc.write("in.grib2", &file);
    let k = cx.choose(4);
    let out = match k {
        0 => "/dev/full".to_string(),
        1 => s(&sc.path("no-such-dir").join("out.bin")).to_string(),
        2 => s(sc.path("x").parent().unwrap()).to_string(),
        _ => {
            let link = sc.path("link");
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink("/dev/full", &link).unwrap();
            s(&link).to_string()
        }
    };
    let r = gribber(&["decode", s(&input), "0.0", if big { "-b" } else { "-l" }, &out], None)?;
    let what = format!("{n} values to {}", ["/dev/full", "a missing directory", "a directory", "a link to /dev/full"][k]);
    ensure!(r.status != 0, "success reported for an incomplete output", "{what}");
    r.failed(&what)?;
    Ok(hash_of(&k))
}

const SHELLS: [&str; 5] = ["bash", "elvish", "fish", "powershell", "zsh"];
/// Everything that goes to the standard output.
fn commands(input: &str) -> Vec<Vec<&str>> {
    let mut v: Vec<Vec<&str>> = [
        &["list"][..],
        &["list", "-d"],
        &["info"],
        &["inspect"],
        &["inspect", "-s"],
        &["inspect", "-m"],
        &["inspect", "-t"],
        &["inspect", "-s", "-t"],
    ]
    .iter()
    .map(|c| [c, &[input][..]].concat())
    .collect();
    v.push(vec!["decode", input, "0.0"]);
    v.extend(SHELLS.map(|s| vec!["completions", s]));
    v
}

/// Where the standard output of a command goes.
fn stdouts(cx: &mut Ctx, sc: &Scratch, step: usize) -> Leaf {
    let input = sc.write("views.grib2", &family::many(3, true));
    let cs = commands(s(&input));
    let c = &cs[cx.choose(cs.len())];
    let what = |k: &str| format!("{:?} to {k}", &c[..c.len().min(3)]);
    let full = gribber(c, None)?;
    ensure!(full.status == 0 && !full.stdout.is_empty(), "failure without a fault", "{}: {} {:?}", what("a pipe"), full.status, cut(&full.stderr));
    let n = full.stdout.len();
    match cx.choose(3) {
        // a file which stops growing
        0 => {
            let ls: Vec<usize> = (0..=n + 1).filter(|l| l % step == 0 || *l < 2 || n.abs_diff(*l) < 4 || full.stdout.as_bytes().get(*l).is_some_and(|b| *b == b'\n') || (l + 2) % 1024 < 4).collect();
            let l = cx.pick(&ls);
            let out = sc.path("stdout.txt");
            let f = std::fs::File::create(&out).unwrap();
            let r = gribber_to(c, Some(l as u64), Some(f))?;
            let got = std::fs::read(&out).unwrap();
            let whole = got == full.stdout.as_bytes();
            ensure!(r.status != 0 || whole, "success reported for an incomplete output", "{}: {} of {n} octets", what(&format!("a file of at most {l} octets")), got.len());
            ensure!(r.status == 0 || l < n, "failure without a fault", "{}: {} {:?}", what(&format!("a file of at most {l} octets")), r.status, cut(&r.stderr));
            Ok(hash_of(&(r.status == 0, l == n)))
        }
        1 => {
            let r = gribber_to(c, None, Some(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()))?;
            ensure!(r.status != 0, "success reported for an incomplete output", "{}", what("/dev/full"));
            Ok(hash_of(&r.status))
        }
        // a pipe nobody reads
        _ => {
            use std::os::fd::FromRawFd;
            let mut ends = [0; 2];
            if unsafe { libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                mccore::engine_error("no pipe");
            }
            let (read, write) = unsafe { (std::fs::File::from_raw_fd(ends[0]), std::fs::File::from_raw_fd(ends[1])) };
            drop(read);
            let r = gribber_to(c, None, Some(write))?;
            ensure!(r.status != 0, "success reported for an incomplete output", "{}", what("a pipe nobody reads"));
            Ok(hash_of(&r.status))
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.set_hang_limit(30_000);
    rep.rule = "Outputs of sizes below, at and above the buffer size, in both byte orders, with the file refusing to grow at every octet (quick: at every octet of small outputs and around every buffer boundary and the end of large ones); old output files; outputs that cannot be created or are always full".into();
    rep.note_assumption("write failures are injected by the kernel (RLIMIT_FSIZE with the signal ignored, /dev/full)");
    let sc = &Scratch::new("c31");
    rep.explore("small", 0, |cx| limits(cx, sc, &[1, 2, 3, 16, 100], 1));
    let step = rep.tier(128, 1);
    rep.explore("large", 0, |cx| limits(cx, sc, &[2047, 2048, 2049, 4096, 4097, 5000], step));
    let ns = rep.tier(vec![10_000, 65_537, 300_000], vec![10_000, 16_384, 65_535, 65_536, 65_537, 300_000, 1_048_577]);
    rep.explore("larger", 0, |cx| larger(cx, sc, &ns));
    rep.explore("old files", 0, |cx| old_files(cx, sc));
    let step = rep.tier(64, 1);
    rep.explore("standard output", 0, |cx| stdouts(cx, sc, step));
    rep.explore("places", 0, |cx| places(cx, sc));
}
