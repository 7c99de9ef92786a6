//! Fatal signals raised inside a guarded call are violations; outside they are engine errors.
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SA_ONSTACK: i32 = 0x0800_0000;
const SIGILL: i32 = 4;
const SIGABRT: i32 = 6;
const SIGBUS: i32 = 7;
const SIGFPE: i32 = 8;
const SIGSEGV: i32 = 11;

/// Leaves at once, without running destructors or waiting for other threads.
pub fn exit_now(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        signal(sig, 0);
    }
    if crate::in_guard() {
        crate::emergency_for_this_thread(&format!("call died with signal {sig}"));
    }
    println!("ENGINE-ERROR: signal {sig} outside the code under test");
    unsafe { _exit(2) }
}

pub fn install() {
    for s in [SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV] {
        let act = SigAction {
            handler: on_signal as *const () as usize,
            mask: [0; 16],
            flags: SA_ONSTACK,
            restorer: 0,
        };
        unsafe {
            sigaction(s, &act, std::ptr::null_mut());
        }
    }
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

/// Sends everything written to stderr from now on to /dev/null.
pub fn silence_stderr() {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            dup2(f.as_raw_fd(), 2);
        }
    }
}
