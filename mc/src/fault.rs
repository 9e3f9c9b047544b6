//! What a load asks of the file system, under control: every opening and every read of a file
//! below a chosen directory is announced before it happens, and may be shortened, fail, or find the
//! file replaced. The standard library's calls end here, because the executable defines them.

use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Open,
    /// the n-th read of the file opened last (all descriptors together), and how much it asks for
    Read(usize),
}

#[derive(Clone, Copy, Debug)]
pub enum Act {
    Go,
    Short(usize),
    Fail(i32),
}

struct Plan {
    dir: Vec<u8>,
    fds: Vec<i32>,
    next: &'static mut dyn FnMut(Ev) -> Act,
    events: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}

/// Runs `body`, asking `next` before every event, and says how many there were.
pub fn with<T>(dir: &Path, next: &mut dyn FnMut(Ev) -> Act, body: impl FnOnce() -> T) -> (T, usize) {
    // `next` outlives its use: the plan is removed below, also when `body` panics
    let next: &'static mut dyn FnMut(Ev) -> Act = unsafe { std::mem::transmute(next) };
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { dir: dir.as_os_str().as_bytes().to_vec(), fds: Vec::new(), next, events: 0 }));
    ON.with(|o| o.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    ON.with(|o| o.set(false));
    let plan = PLAN.with(|p| p.borrow_mut().take());
    match r {
        Ok(r) => (r, plan.map_or(0, |p| p.events)),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Nothing done while the answer is found counts as an event.
fn ask(ev: Ev, ours: impl FnOnce(&Plan) -> bool) -> Act {
    let Ok(Some(mut plan)) = PLAN.try_with(|p| p.borrow_mut().take()) else { return Act::Go };
    let mut act = Act::Go;
    if ours(&plan) {
        plan.events += 1;
        act = (plan.next)(ev);
    }
    let _ = PLAN.try_with(|p| *p.borrow_mut() = Some(plan));
    act
}

fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

unsafe fn fail(errno: i32) {
    *libc::__errno_location() = errno;
}

unsafe fn opened(dirfd: i32, path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    if on() {
        let p = CStr::from_ptr(path).to_bytes();
        let mut ours = false;
        let act = ask(Ev::Open, |plan| {
            // relative paths are below the directory as well: nothing else is opened by one
            ours = p.starts_with(&plan.dir) || p.first() != Some(&b'/');
            ours
        });
        if let Act::Fail(e) = act {
            fail(e);
            return -1;
        }
        let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as i32;
        if fd >= 0 {
            PLAN.with(|p| {
                if let Some(plan) = p.borrow_mut().as_mut() {
                    plan.fds.retain(|f| *f != fd);
                    if ours {
                        plan.fds.push(fd);
                    }
                }
            });
        }
        return fd;
    }
    libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as i32
}

/// # Safety
/// Called as in C; without a mode, the argument is not looked at.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    opened(libc::AT_FDCWD, path, flags, mode)
}
/// # Safety
/// As above.
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: i32, path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    opened(dirfd, path, flags, mode)
}

/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let mut n = n;
    if on() {
        match ask(Ev::Read(n), |plan| plan.fds.contains(&fd)) {
            Act::Go => {}
            Act::Short(k) => n = n.min(k),
            Act::Fail(e) => {
                fail(e);
                return -1;
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

/// # Safety
/// As in C; one buffer is filled at a time, which a read may always do.
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    for i in 0..n.max(0) as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
