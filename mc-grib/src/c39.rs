//! C39: threads that read at the same time, or hand files over, do not disturb one another.
use crate::{msg::*, obs::*, samples};
use grib::{Grib2, Grib2SubmessageDecoder, SeekableGrib2Reader};
use mccore::{engine_error, fail, hash_of, Ctx, Leaf, Report};
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

// ---- the scheduler: one of two threads runs at a time, the turn changes at points ----

struct State {
    turn: usize,
    done: [bool; 2],
    progress: u64,
}
static S: Mutex<State> = Mutex::new(State { turn: 0, done: [false; 2], progress: 0 });
static C: Condvar = Condvar::new();
/// How many points each turn lasts; afterwards turns end only with a thread.
static SEGS: Mutex<(usize, [u32; 4])> = Mutex::new((0, [u32::MAX; 4]));

thread_local! {
    static ME: Cell<usize> = const { Cell::new(9) };
    static FINE: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u32> = const { Cell::new(u32::MAX) };
    static SEEN: Cell<u32> = const { Cell::new(0) };
}

/// An allocation of the library is a point if points are fine.
pub fn allocation() {
    if FINE.try_with(|f| f.get()) == Ok(true) {
        point();
    }
}
pub fn point() {
    let me = ME.with(|m| m.get());
    if me > 1 {
        return;
    }
    SEEN.with(|n| n.set(n.get() + 1));
    let left = LEFT.with(|l| {
        l.set(l.get().saturating_sub(1));
        l.get()
    });
    if left == 0 {
        let s = S.lock().unwrap();
        if !s.done[1 - me] {
            pass(s, me);
        } else {
            drop(s);
            LEFT.with(|l| l.set(u32::MAX));
        }
    }
}
/// Gives the turn away and waits for it.
fn pass(mut s: std::sync::MutexGuard<'static, State>, me: usize) {
    s.turn = 1 - me;
    s.progress += 1;
    C.notify_all();
    wait(s, me);
}
fn wait(mut s: std::sync::MutexGuard<'static, State>, me: usize) {
    while s.turn != me {
        let (t, late) = C.wait_timeout(s, Duration::from_millis(300)).unwrap();
        s = t;
        if late.timed_out() && s.turn != me {
            // the other one waits for something this one holds
            s.turn = me;
        }
    }
    drop(s);
    let mut g = SEGS.lock().unwrap();
    let k = g.0;
    g.0 += 1;
    LEFT.with(|l| l.set(g.1.get(k).copied().unwrap_or(u32::MAX)));
}
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let (fine, me) = (FINE.with(|x| x.replace(false)), ME.with(|x| x.replace(9)));
    let r = f();
    FINE.with(|x| x.set(fine));
    ME.with(|x| x.set(me));
    r
}

/// Runs both, with the given turns; what each returns, and how many points it passed.
fn together<'s>(fine: bool, first: usize, segs: [u32; 4], f: [Box<dyn FnOnce() -> String + Send + 's>; 2]) -> [(String, u32); 2] {
    *SEGS.lock().unwrap() = (0, segs);
    *S.lock().unwrap() = State { turn: first, done: [false; 2], progress: 0 };
    std::thread::scope(|sc| {
        let hs: Vec<_> = f
            .into_iter()
            .enumerate()
            .map(|(me, f)| {
                sc.spawn(move || {
                    // the first turn is taken before anything is counted
                    let s = S.lock().unwrap();
                    wait(s, me);
                    ME.with(|m| m.set(me));
                    FINE.with(|m| m.set(fine));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    FINE.with(|m| m.set(false));
                    ME.with(|m| m.set(9));
                    let mut s = S.lock().unwrap();
                    s.done[me] = true;
                    s.turn = 1 - me;
                    C.notify_all();
                    drop(s);
                    (r.unwrap_or_else(|_| "panic".into()), SEEN.with(|n| n.get()))
                })
            })
            .collect();
        let mut r = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| ("panic".into(), 0)));
        [r.next().unwrap(), r.next().unwrap()]
    })
}

// ---- what the threads do ----

/// Every call is a point.
struct Pausing(Cursor<Vec<u8>>);
impl Read for Pausing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        point();
        self.0.read(b)
    }
}
impl Seek for Pausing {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        point();
        self.0.seek(p)
    }
}
type File = Grib2<SeekableGrib2Reader<Pausing>>;

fn open(f: &[u8]) -> Result<File, String> {
    let r = quiet(|| Pausing(Cursor::new(f.to_vec())));
    grib::from_reader(r).map_err(|e| quiet(|| err(&e)))
}
#[derive(Default)]
struct Log(Vec<String>);
impl Log {
    fn say(&mut self, s: impl FnOnce() -> String) {
        quiet(|| self.0.push(s()));
        point();
    }
    fn text(self) -> String {
        self.0.join("; ")
    }
}
/// An abstract of the items; each is a point.
fn abstract_of<T: std::hash::Hash>(it: impl Iterator<Item = T>) -> String {
    let (mut n, mut h) = (0, 0u64);
    for x in it.take(200) {
        n += 1;
        h = h.rotate_left(7) ^ hash_of(&x);
        point();
    }
    quiet(|| format!("{n} of {h:x}"))
}
fn geo(x: (f32, f32)) -> (u32, u32) {
    (x.0.to_bits(), x.1.to_bits())
}
fn look<R>(i: (usize, usize), s: &grib::SubMessage<R>, log: &mut Log) {
    let t = s.describe();
    log.say(|| format!("{i:?} described {:x}", hash_of(&t)));
    let t = s.parameter();
    log.say(|| format!("parameter {t:?}"));
    let t = s.grid_shape();
    log.say(|| format!("shape {:?}", t.map_err(|e| err(&e))));
    let t = s.ij().map(abstract_of);
    log.say(|| format!("ij {:?}", t.map_err(|e| err(&e))));
    let t = s.latlons().map(|l| abstract_of(l.map(geo)));
    log.say(|| format!("latlons {:?}", t.map_err(|e| err(&e))));
}
fn decode<R: grib::Grib2Read>(s: grib::SubMessage<R>, log: &mut Log) {
    let d = match Grib2SubmessageDecoder::from(s) {
        Err(e) => return log.say(|| format!("no decoder: {}", err(&e))),
        Ok(d) => d,
    };
    point();
    let t = d.dispatch().map(|v| abstract_of(v.map(bits)));
    log.say(|| format!("values {:?}", t.map_err(|e| err(&e))));
}
fn read_all(f: &[u8]) -> String {
    let mut log = Log::default();
    match open(f) {
        Err(e) => log.say(|| format!("not opened: {e}")),
        Ok(g) => {
            let t: Vec<_> = g.list_templates();
            log.say(|| format!("{} {:?}", g.len(), t));
            for (i, s) in &g {
                look(i, &s, &mut log);
                decode(s, &mut log);
            }
        }
    }
    quiet(|| log.text())
}

/// The files the threads read.
fn tasks() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = samples::all().into_iter().map(|(n, s)| (n.to_string(), one(s).bytes())).collect();
    // others of the same kind
    for (n, s) in samples::all() {
        let mut s = s;
        match n {
            "gaussian" => {
                let s3 = s.s3.as_mut().unwrap();
                // as many points in other rows: refused, or other latitudes
                s3[49] ^= 1;
            }
            _ => {
                let k = s.s7.len();
                if k > 0 && !matches!(n, "png16" | "jpeg") {
                    s.s7[k - 1] ^= 0x5a;
                }
                if n == "runlength" {
                    // another level value
                    *s.s5.last_mut().unwrap() ^= 5;
                } else {
                    s.s5[6..10].copy_from_slice(&(-3.5f32).to_be_bytes());
                }
                if let Some(s3) = s.s3.as_mut().filter(|s3| s3.len() > 50) {
                    s3[46] ^= 3;
                }
            }
        }
        v.push((format!("another {n}"), one(s).bytes()));
    }
    let mut s = samples::gaussian();
    s.s3 = Some(grid_gaussian(&LatLon { ni: 4, nj: 2, num: 8, first: (35_264_000, 0), last: (-35_264_000, 180_000_000), mode: 0 }));
    v.push(("gaussian of two rows".into(), one(s).bytes()));
    v.push(("multi".into(), samples::multi_bytes()));
    // broken ones
    let (_, f) = &v[0].clone();
    v.push(("cut".into(), f[..f.len() - 9].to_vec()));
    let mut g = f.clone();
    let at = g.len() - 4;
    g[at] = b'8';
    v.push(("without end".into(), g));
    v
}
/// Samples that differ in an octet of their grid or packing, with the number of the sample.
fn neighbours() -> Vec<(usize, String, Vec<u8>)> {
    let mut v = vec![];
    for (k, (n, s)) in samples::all().into_iter().enumerate() {
        for sect in [3, 5] {
            // most samples have grids of one kind
            if sect == 3 && !matches!(n, "simple" | "gaussian" | "lambert" | "polar") {
                continue;
            }
            for at in [1, 6][sect / 5].. {
                let mut s = s.clone();
                let Some(b) = (if sect == 3 { s.s3.as_mut() } else { Some(&mut s.s5) }).and_then(|p| p.get_mut(at)) else { break };
                *b ^= 1;
                v.push((k, format!("{n} with octet {} of Section {sect} changed", at + 6), one(s).bytes()));
            }
        }
    }
    v
}

// ---- a file handed over ----

/// What the library lends or gives is moved although the compiler might not allow it (`sendable`
/// reports that).
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&mut self) -> &mut T {
        &mut self.0
    }
    fn see(&self) -> &T {
        &self.0
    }
}

type Job = Box<dyn FnOnce() + Send>;
struct Worker(std::sync::mpsc::Sender<Job>);
impl Worker {
    fn new() -> Self {
        let (tx, rx) = std::sync::mpsc::channel::<Job>();
        std::thread::spawn(move || {
            for j in rx {
                j();
            }
        });
        Worker(tx)
    }
    fn run(&self, f: impl FnOnce() -> String + Send + 'static) -> String {
        let (tx, rx) = std::sync::mpsc::channel();
        let _ = self.0.send(Box::new(move || {
            let _ = tx.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into()));
        }));
        rx.recv().unwrap_or_else(|_| "lost".into())
    }
}
struct Handed {
    file: Option<File>,
    decoder: Option<&'static Grib2SubmessageDecoder>,
    values: Option<Box<dyn Iterator<Item = f32>>>,
    points: Option<grib::GridPointIterator>,
}
/// Operations on file `a`, with operations on `b` between them.
pub const STEPS: usize = 11;
fn handed(a: &[u8], b: &[u8], mask: usize) -> String {
    let w = [Worker::new(), Worker::new()];
    let blank = || Handed { file: None, decoder: None, values: None, points: None };
    // never dropped: threads may still hold them
    let st: &'static Mutex<[Force<Handed>; 2]> = Box::leak(Box::new(Mutex::new([Force(blank()), Force(blank())])));
    let mut out = [vec![], vec![]];
    for k in 0..STEPS {
        let (on, what) = [(0, 0), (1, 0), (0, 1), (0, 2), (1, 2), (0, 3), (1, 1), (0, 4), (0, 5), (0, 4), (0, 6)][k];
        let bytes = [a, b][on].to_vec();
        let r = w[mask >> k & 1].run(move || {
            let mut st = st.lock().unwrap_or_else(|e| e.into_inner());
            let h = st[on].get();
            let mut log = Log::default();
            if what == 0 {
                match open(&bytes) {
                    Ok(f) => h.file = Some(f),
                    Err(e) => return format!("not opened: {e}"),
                }
                return "opened".into();
            }
            let Some(f) = h.file.as_ref() else { return "no file".into() };
            match what {
                1 => {
                    for (i, s) in f {
                        look(i, &s, &mut log);
                    }
                }
                // a decoder and coordinates of the last submessage; half of the values
                2 => {
                    let Some((_, s)) = f.iter().last() else { return "none".into() };
                    h.points = s.latlons().ok();
                    match Grib2SubmessageDecoder::from(s) {
                        Ok(d) => h.decoder = Some(Box::leak(Box::new(d))),
                        Err(e) => return err(&e),
                    }
                    return "a decoder".into();
                }
                3 => {
                    let Some(d) = h.decoder else { return "no decoder".into() };
                    match d.dispatch() {
                        Ok(v) => h.values = Some(Box::new(v)),
                        Err(e) => return err(&e),
                    }
                    return "a stream".into();
                }
                4 => {
                    if let Some(v) = &mut h.values {
                        log.say(|| abstract_of(v.take(4).map(bits)));
                    }
                    if let Some(v) = &mut h.points {
                        log.say(|| abstract_of(v.take(4).map(geo)));
                    }
                }
                5 => {
                    for (_, s) in f {
                        decode(s, &mut log);
                    }
                }
                _ => {
                    if let Some(v) = h.values.take() {
                        log.say(|| abstract_of(v.map(bits)));
                    }
                    if let Some(v) = h.points.take() {
                        log.say(|| abstract_of(v.map(geo)));
                    }
                    h.decoder = None;
                    h.file = None;
                }
            }
            log.text()
        });
        out[on].push(r);
    }
    format!("{out:?}")
}

// ---- a decoder used by two threads ----

fn shared(f: &[u8], fine: bool, first: usize, segs: [u32; 4]) -> String {
    let Ok(g) = open(f) else { return "not opened".into() };
    let Some((_, s)) = g.iter().last() else { return "none".into() };
    let Ok(d) = Grib2SubmessageDecoder::from(s) else { return "no decoder".into() };
    let d = Force(d);
    let read = || {
        let r = d.see().dispatch().map(|v| abstract_of(v.map(bits)));
        quiet(|| format!("{:?}", r.map_err(|e| err(&e))))
    };
    let r = together(fine, first, segs, [Box::new(read), Box::new(read)]);
    format!("{:?} points {} {}", [&r[0].0, &r[1].0], r[0].1, r[1].1)
}

// ---- processes of their own, one per execution ----

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn alarm(n: u32) -> u32;
    fn _exit(n: i32) -> !;
}

/// Requests come as lines of numbers; each is answered by a forked process.
pub fn serve() -> ! {
    use std::os::fd::FromRawFd;
    std::panic::set_hook(Box::new(|_| ()));
    let mut ts = tasks();
    ts.extend(neighbours().into_iter().map(|(_, n, f)| (n, f)));
    let (i, mut o) = (std::io::stdin(), std::io::stdout());
    let mut line = String::new();
    while i.lock().read_line(&mut line).is_ok_and(|n| n > 0) {
        let q: Vec<u32> = line.split_whitespace().map(|w| w.parse().unwrap_or(0)).collect();
        line.clear();
        let mut fd = [0; 2];
        let text = unsafe {
            if pipe(fd.as_mut_ptr()) != 0 {
                std::process::exit(1);
            }
            let p = fork();
            if p < 0 {
                std::process::exit(1);
            }
            if p == 0 {
                alarm(20);
                let r = answer(&ts, &q);
                let mut w = std::fs::File::from_raw_fd(fd[1]);
                let _ = w.write_all(r.as_bytes());
                _exit(0);
            }
            drop(std::fs::File::from_raw_fd(fd[1]));
            let mut t = vec![];
            let _ = std::fs::File::from_raw_fd(fd[0]).read_to_end(&mut t);
            let mut s = 0;
            waitpid(p, &mut s, 0);
            match s {
                0 => String::from_utf8_lossy(&t).replace('\n', " "),
                s => format!("died of {s}"),
            }
        };
        if writeln!(o, "{text}").and_then(|_| o.flush()).is_err() {
            break;
        }
    }
    std::process::exit(0);
}
fn answer(ts: &[(String, Vec<u8>)], q: &[u32]) -> String {
    let f = |k: usize| &ts[q[k] as usize].1[..];
    let segs = |k: usize| [q[k], q[k + 1], q[k + 2], u32::MAX];
    match q[0] {
        // alone, in a thread of its own
        0 => {
            let r = together(q[2] == 1, 0, [u32::MAX; 4], [Box::new(|| read_all(f(1))), Box::new(String::new)]);
            format!("{}|{}", r[0].1, r[0].0)
        }
        1 => {
            let r = together(q[3] == 1, q[4] as usize, segs(5), [Box::new(|| read_all(f(1))), Box::new(|| read_all(f(2)))]);
            format!("{}|{}", r[0].0, r[1].0)
        }
        2 => handed(f(1), f(2), q[3] as usize),
        _ => shared(f(1), q[2] == 1, q[3] as usize, segs(4)),
    }
}

struct Server(Child, ChildStdin, BufReader<ChildStdout>);
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
fn ask(q: &[u32]) -> String {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let c = s.get_or_insert_with(|| {
            let me = std::env::current_exe().unwrap_or_else(|e| engine_error(&e.to_string()));
            let c = Command::new(me).arg("--threads").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            let mut c = c.unwrap_or_else(|e| engine_error(&format!("cannot start a process: {e}")));
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            Server(c, i, o)
        });
        let l: String = q.iter().map(|n| format!("{n} ")).collect();
        let mut t = String::new();
        let r = writeln!(c.1, "{l}").and_then(|_| c.1.flush()).and_then(|_| c.2.read_line(&mut t));
        if !r.is_ok_and(|n| n > 0) {
            engine_error("the process that reads is gone");
        }
        t.pop();
        t
    })
}

/// Which of the library's objects may be moved to, or used from, other threads.
fn sendable(cx: &mut Ctx) -> Leaf {
    struct P<T>(std::marker::PhantomData<T>);
    trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> No for P<T> {}
    struct Q<T>(std::marker::PhantomData<T>);
    impl<T> No for Q<T> {}
    impl<T: Send> P<T> {
        const SEND: bool = true;
    }
    impl<T: Sync> Q<T> {
        const SYNC: bool = true;
    }
    macro_rules! both {
        ($($t:ty),*) => { [$((stringify!($t), P::<$t>::SEND, Q::<$t>::SYNC)),*] };
    }
    type Opened = Grib2<SeekableGrib2Reader<Cursor<Vec<u8>>>>;
    let l = both!(Opened, grib::SectionInfo, grib::GridPointIterator, grib::GridPointIndexIterator, Grib2SubmessageDecoder, grib::GridDefinition, grib::ProdDefinition, grib::GribError, grib::LambertGridDefinition, grib::GridDefinitionTemplateValues);
    let (name, send, sync) = l[cx.choose(l.len())];
    if !send {
        return fail("not Send", format!("{name} cannot be moved to another thread"));
    }
    if name != "Opened" && !sync {
        return fail("not Sync", format!("{name} cannot be used from several threads"));
    }
    Ok(hash_of(&name))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Two threads read files, switched at every reader call, item and operation, or at every allocation, up to two preemptions; a file, its decoders and streams handed between threads at every operation; a decoder used by two threads; each execution in a process of its own, compared with what a process that reads the file alone sees".into();
    rep.explore("sendable", 0, sendable);
    let rep_quick = rep.quick();
    let mut ts = tasks();
    let main = ts.len();
    let of: Vec<usize> = neighbours().iter().map(|n| n.0).collect();
    ts.extend(neighbours().into_iter().map(|(_, n, f)| (n, f)));
    // alone, with few and with many points
    let alone: Vec<[(u32, String); 2]> = (0..ts.len() as u32)
        .map(|k| {
            [0, 1].map(|fine| {
                let t = ask(&[0, k, fine]);
                let (n, t) = t.split_once('|').unwrap_or_else(|| engine_error(&format!("{} alone: {t}", ts[k as usize].0)));
                (n.parse().unwrap_or(0), t.to_string())
            })
        })
        .collect();
    rep.note_assumption(&format!("points: {:?}", alone.iter().zip(&ts[..main]).map(|(a, t)| format!("{} {}/{}", t.0, a[0].0, a[1].0)).collect::<Vec<_>>()));
    let judge = |a: usize, b: usize, q: &[u32]| -> Leaf {
        let r = ask(q);
        if r == format!("{}|{}", alone[a][0].1, alone[b][0].1) {
            return Ok(hash_of(&r));
        }
        fail("threads disturb one another", format!("{} and {}, turns {:?}: {r}, alone: {}|{}", ts[a].0, ts[b].0, &q[4..], alone[a][0].1, alone[b][0].1))
    };
    rep.explore("one-preemption", 0, |cx| {
        let (a, b) = (cx.choose(main), cx.choose(main));
        let i = cx.choose(alone[a][1].0 as usize) as u32 + 1;
        judge(a, b, &[1, a as u32, b as u32, 1, 0, i, u32::MAX, u32::MAX])
    });
    rep.explore("neighbours", 0, |cx| {
        let k = cx.choose(of.len());
        let (mut a, mut b) = (main + k, of[k]);
        if cx.flag() {
            (a, b) = (b, a);
        }
        let i = cx.choose(alone[a][1].0 as usize) as u32 + 1;
        judge(a, b, &[1, a as u32, b as u32, 1, 0, i, u32::MAX, u32::MAX])
    });
    // of the same kind; then also itself and some others
    let kin = |a: usize| ts.iter().position(|t| t.0 == format!("another {}", ts[a].0)).unwrap_or(0);
    let named = |n: &str| ts.iter().position(|t| t.0 == n).unwrap_or(0);
    let (g, m) = (named("gaussian of two rows"), named("multi"));
    let partners = |a: usize| if rep_quick { vec![kin(a)] } else { vec![kin(a), a, g, m] };
    rep.explore("two-preemptions", 0, |cx| {
        let a = cx.choose(main);
        let b = cx.pick(&partners(a));
        let first = cx.choose(2);
        let (n, m) = if first == 0 { (alone[a][0].0, alone[b][0].0) } else { (alone[b][0].0, alone[a][0].0) };
        let (i, j) = (cx.choose(n as usize) as u32 + 1, cx.choose(m as usize) as u32 + 1);
        judge(a, b, &[1, a as u32, b as u32, 0, first as u32, i, j, u32::MAX])
    });
    rep.explore("handed", 0, |cx| {
        let a = cx.choose(main);
        let b = cx.pick(&partners(a)) as u32;
        let a = a as u32;
        let t = ask(&[2, a, b, 0]);
        if t.contains("panic") {
            return fail("panic", format!("{} and {}: {t}", ts[a as usize].0, ts[b as usize].0));
        }
        // the first operation is in the first thread
        let mask = cx.choose(1 << (STEPS - 1)) as u32 * 2;
        let r = ask(&[2, a, b, mask]);
        if r == t {
            return Ok(hash_of(&r));
        }
        fail("depends on the thread", format!("{} and {}, threads {mask:b}: {r}, in one thread: {t}", ts[a as usize].0, ts[b as usize].0))
    });
    rep.explore("shared", 0, |cx| {
        let a = cx.choose(main) as u32;
        let fine = cx.choose(2) as u32;
        let t = ask(&[3, a, fine, 0, u32::MAX, u32::MAX, u32::MAX]);
        let Some((t, n)) = t.split_once(" points ") else { return Ok(hash_of(&t)) };
        let n: usize = n.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0);
        let i = cx.choose(n.max(1)) as u32 + 1;
        let j = if fine == 1 { u32::MAX } else { cx.choose(n.max(1)) as u32 + 1 };
        let r = ask(&[3, a, fine, 0, i, j, u32::MAX]);
        if r.split_once(" points ").is_some_and(|r| r.0 == t) {
            return Ok(hash_of(&r));
        }
        fail("threads disturb one another", format!("a decoder of {}, turns {i} {j}: {r}, one after the other: {t}", ts[a as usize].0))
    });
}
