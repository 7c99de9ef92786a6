//! C29-C31: the gribber command (/repo/cli), run as a process on files in a scratch directory.
use mccore::{guard, Fail};
use std::{
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

#[path = "../../mc-grib/src/enc.rs"]
#[allow(dead_code)]
pub mod enc;
#[path = "../../mc-grib/src/msg.rs"]
#[allow(dead_code)]
pub mod msg;
#[path = "../../mc-grib/src/samples.rs"]
#[allow(dead_code)]
pub mod samples;

mod c29;
mod c30;
mod c31;
mod family;

#[global_allocator]
static A: mccore::alloc::Watch = mccore::alloc::Watch;

fn main() {
    mccore::main_with(&[("C29", c29::run), ("C30", c30::run), ("C31", c31::run)]);
}

/// A scratch directory in memory if possible; a directory per thread.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        for base in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
            let d = base.join(format!("mc-{tag}-{}", std::process::id()));
            if std::fs::create_dir_all(&d).is_ok() {
                return Scratch(d);
            }
        }
        panic!("no scratch directory");
    }
    pub fn path(&self, name: &str) -> PathBuf {
        let t = format!("{:?}", std::thread::current().id());
        let t: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
        let d = self.0.join(t);
        if !d.exists() {
            std::fs::create_dir_all(&d).unwrap();
        }
        d.join(name)
    }
    pub fn write(&self, name: &str, bytes: &[u8]) -> PathBuf {
        let p = self.path(name);
        std::fs::write(&p, bytes).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone)]
pub struct Out {
    /// Exit status, or minus the signal.
    pub status: i32,
    pub stdout: String,
    pub stderr: String,
}
impl Out {
    /// An orderly failure: a status from 1 to 100 (a panic gives 101), a message and no view.
    pub fn failed(&self, what: &str) -> Result<(), Fail> {
        mccore::ensure!(self.status != 0, "success reported for a failure", "{what}: status 0, {:?}", cut(&self.stdout));
        mccore::ensure!((1..=100).contains(&self.status), "not an orderly failure", "{what}: status {}, {:?}", self.status, cut(&self.stderr));
        mccore::ensure!(!self.stderr.trim().is_empty(), "no message about a failure", "{what}: {self:?}");
        mccore::ensure!(self.stdout.is_empty(), "a view in spite of a failure", "{what}: {:?}", cut(&self.stdout));
        Ok(())
    }
    pub fn succeeded(&self, what: &str) -> Result<(), Fail> {
        mccore::ensure!(self.status == 0, "failure on a good file", "{what}: status {}, {:?}", self.status, cut(&self.stderr));
        Ok(())
    }
}
pub fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Runs gribber; `limit` is the size at which no file can grow any more.
pub fn gribber(args: &[&str], limit: Option<u64>) -> Result<Out, Fail> {
    gribber_to(args, limit, None)
}

/// With its standard output going to a file or device of choice.
pub fn gribber_to(args: &[&str], limit: Option<u64>, stdout: Option<std::fs::File>) -> Result<Out, Fail> {
    let bin = mccore::verif_dir().join("target/debug/gribber");
    guard("gribber", || {
        let mut c = Command::new(&bin);
        c.args(args).env_clear().env("PATH", "/usr/bin:/bin").env("TERM", "dumb").stdin(Stdio::null());
        if let Some(f) = stdout {
            c.stdout(f).stderr(Stdio::piped());
        }
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let Some(n) = limit {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                    if libc::setrlimit(libc::RLIMIT_FSIZE, &r) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => mccore::engine_error(&format!("gribber cannot be run: {e}")),
        };
        Out {
            status: o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(0)),
            stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
            stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        }
    })
}

pub fn s(p: &Path) -> &str {
    p.to_str().unwrap()
}

/// Runs gribber on a terminal of its own with `height` lines. The pager, if it finds one, is a
/// script that copies its input. Gives the exit status and the text without styling.
pub fn on_terminal(args: &[&str], height: u16, sc: &Scratch, pager: bool) -> Result<(i32, String), Fail> {
    use std::{
        io::Read,
        os::fd::{FromRawFd, OwnedFd},
    };
    let bin = mccore::verif_dir().join("target/debug/gribber");
    let dir = sc.path("bin");
    let _ = std::fs::create_dir_all(&dir);
    let name = |n: &str| dir.join(n);
    for n in ["less", "more"] {
        let _ = std::fs::remove_file(name(n));
        if n == "more" || pager {
            std::os::unix::fs::symlink("/bin/cat", name(n)).unwrap();
        }
    }
    // `less -R` is run; cat knows no such option
    if pager {
        std::fs::remove_file(name("less")).unwrap();
        std::fs::write(name("less"), "#!/bin/sh\nexec /bin/cat\n").unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(name("less"), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    guard("gribber on a terminal", || {
        let (mut main, mut side) = (0, 0);
        let mut size = libc::winsize { ws_row: height, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        let r = unsafe { libc::openpty(&mut main, &mut side, std::ptr::null_mut(), std::ptr::null_mut(), &mut size) };
        if r != 0 {
            mccore::engine_error("no terminal can be opened");
        }
        let (main, side) = unsafe {
            libc::fcntl(main, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(side, libc::F_SETFD, libc::FD_CLOEXEC);
            (std::fs::File::from_raw_fd(main), OwnedFd::from_raw_fd(side))
        };
        let mut c = Command::new(&bin);
        c.args(args).env_clear().env("PATH", &dir).env("TERM", "xterm").stdin(Stdio::null()).stdout(side).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(e) => mccore::engine_error(&format!("gribber cannot be run: {e}")),
        };
        drop(c);
        // Reading fails with EIO when nobody has the other end any more.
        let mut text = vec![];
        let mut main = main;
        let mut buf = [0; 4096];
        while let Ok(n) = main.read(&mut buf) {
            if n == 0 {
                break;
            }
            text.extend_from_slice(&buf[..n]);
        }
        let status = child.wait().map(|s| s.code().unwrap_or_else(|| -s.signal().unwrap_or(0))).unwrap_or(-1000);
        (status, unstyled(&String::from_utf8_lossy(&text)))
    })
}

/// Text without the escape sequences that style it.
fn unstyled(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else if c != '\r' {
            out.push(c);
        }
    }
    out
}
