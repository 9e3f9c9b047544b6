//! Preemption of one call by another at machine-instruction granularity, on the real code.
//!
//! The process single-steps thread A (trap flag) through its call. Before each chosen instruction
//! of the program text it forks; in the fork a second thread runs call B until it is done or blocked,
//! then A continues at full speed. So every schedule with one preemption of A is executed, each
//! exactly once; with `twice`, also every schedule in which B is preempted back by A at each of its
//! own points and ends after A. Instructions inside libc (memory copies, the allocator) are not preempted.

use serde::{Deserialize, Serialize};
use std::io::Read;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Default, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub instructions: u64,
    pub points: u64,
    pub schedules: u64,
    pub blocked: u64,
    /// schedules left out because the pair took too long
    pub left_out: u64,
}

extern "C" {
    fn _Fork() -> i32;
}

static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static INSTR: AtomicU64 = AtomicU64::new(0);
static POINTS: AtomicU64 = AtomicU64::new(0);
static SCHED: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
static LEFT_OUT: AtomicU64 = AtomicU64::new(0);
static END: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static SHARD: AtomicU64 = AtomicU64::new(0);
static NSHARDS: AtomicU64 = AtomicU64::new(1);
static DATA_LO: AtomicUsize = AtomicUsize::new(0);
static DATA_HI: AtomicUsize = AtomicUsize::new(0);
static CUT: AtomicUsize = AtomicUsize::new(0);
/// Whether B may be preempted back.
static TWICE: AtomicBool = AtomicBool::new(false);
/// In a child: how many points B had.
static B_POINTS: AtomicU64 = AtomicU64::new(0);
static B_PAUSED: AtomicBool = AtomicBool::new(false);
static A_DONE: AtomicBool = AtomicBool::new(false);
/// In a child: the instruction before which B stops, and how often it runs before that.
static BP_RIP: AtomicUsize = AtomicUsize::new(0);
static BP_LEFT: AtomicU64 = AtomicU64::new(0);
static BP_BYTE: AtomicUsize = AtomicUsize::new(0);
static BP_OVER: AtomicBool = AtomicBool::new(false);
const MAX_POINTS: usize = 4096;
/// In a child: the instructions at B's points.
static mut B_RIPS: [u64; MAX_POINTS] = [0; MAX_POINTS];
static BAD_B: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static CHILD: AtomicBool = AtomicBool::new(false);
static PIPE_W: AtomicI32 = AtomicI32::new(-1);
static PIPE_R: AtomicI32 = AtomicI32::new(-1);
static B_TID: AtomicI32 = AtomicI32::new(0);
static B_DONE: AtomicBool = AtomicBool::new(false);
type Call<'a> = &'a mut dyn FnMut() -> String;
static mut B_CALL: Option<*mut (dyn FnMut() -> String + 'static)> = None;
static mut B_THREAD: Option<std::thread::JoinHandle<String>> = None;

/// How closely a call is cut: where a preemption may happen.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cut {
    /// before every instruction that is atomic or touches static data
    Shared,
    /// also before every call and return
    Calls,
    /// before every instruction
    Every,
}

/// Whether the instruction belongs to the cut. Memory operands are decoded, so static data is
/// recognised when it is reached through registers too.
unsafe fn interesting(u: *mut libc::ucontext_t, cut: Cut) -> bool {
    let g = &(*u).uc_mcontext.gregs;
    let reg = |n: usize| -> usize {
        use libc::*;
        let at = [REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15];
        g[at[n] as usize] as usize
    };
    let p = g[libc::REG_RIP as usize] as usize as *const u8;
    let mut i = 0;
    loop {
        match *p.add(i) {
            0xF0 => return true,
            0x66 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 | 0x67 => i += 1,
            0x64 | 0x65 => return false, // thread-local
            _ => break,
        }
        if i > 8 {
            return true;
        }
    }
    let mut rex = 0usize;
    if *p.add(i) & 0xF0 == 0x40 {
        rex = *p.add(i) as usize;
        i += 1;
    }
    let stat = |a: usize| a.wrapping_add(8) > DATA_LO.load(Relaxed) && a < DATA_HI.load(Relaxed);
    // `imm`: bytes behind the operand, which matter for addresses relative to the next instruction
    let mem = |at: usize, imm: usize| -> bool {
        let m = *p.add(at) as usize;
        let (md, rm) = (m >> 6, m & 7);
        if md == 3 {
            return false;
        }
        let mut k = at + 1;
        let mut a = 0usize;
        let mut disp = [0, 1, 4][md];
        if rm == 4 {
            let s = *p.add(k) as usize;
            k += 1;
            let idx = (s >> 3 & 7) | (rex & 2) << 2;
            if idx != 4 {
                a = a.wrapping_add(reg(idx) << (s >> 6));
            }
            let base = s & 7;
            if base == 5 && md == 0 {
                disp = 4;
            } else {
                a = a.wrapping_add(reg(base | (rex & 1) << 3));
            }
        } else if rm == 5 && md == 0 {
            disp = 4;
            a = p as usize + k + 4 + imm;
        } else {
            a = a.wrapping_add(reg(rm | (rex & 1) << 3));
        }
        a = match disp {
            1 => a.wrapping_add(*(p.add(k) as *const i8) as isize as usize),
            4 => a.wrapping_add((p.add(k) as *const i32).read_unaligned() as isize as usize),
            _ => a,
        };
        stat(a)
    };
    let op = *p.add(i);
    let calls = cut == Cut::Calls;
    match op {
        0xE8 | 0xC3 | 0xC2 => calls,
        0x0F => match *p.add(i + 1) {
            0x05 | 0x0B | 0x31 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF => false,
            0x38 => mem(i + 3, 0),
            0x3A => mem(i + 3, 1),
            0x70..=0x73 | 0xA4 | 0xAC | 0xBA | 0xC2 | 0xC4..=0xC6 => mem(i + 2, 1),
            _ => mem(i + 2, 0),
        },
        0x86 | 0x87 => *p.add(i + 1) & 0xC0 != 0xC0,
        0xFF => {
            let r = (*p.add(i + 1) >> 3) & 7;
            (calls && (2..=5).contains(&r)) || mem(i + 1, 0)
        }
        0x8D => false,
        0x00..=0x3F => op & 7 < 4 && mem(i + 1, 0),
        0x69 | 0x81 | 0xC7 => mem(i + 1, 4),
        0x6B | 0x80 | 0x83 | 0xC0 | 0xC1 | 0xC6 => mem(i + 1, 1),
        0xF6 if *p.add(i + 1) & 0x30 == 0 => mem(i + 1, 1),
        0xF7 if *p.add(i + 1) & 0x30 == 0 => mem(i + 1, 4),
        0x63 | 0x84 | 0x85 | 0x88..=0x8F | 0xD0..=0xD3 | 0xD8..=0xDF | 0xF6 | 0xF7 | 0xFE => mem(i + 1, 0),
        0xA0..=0xA3 => true,
        0xA4..=0xA7 | 0xAA..=0xAF => {
            let n = reg(1).min(1 << 20);
            let hit = |a: usize| stat(a) || (a <= DATA_LO.load(Relaxed) && a.wrapping_add(n) > DATA_LO.load(Relaxed));
            hit(reg(6)) || hit(reg(7))
        }
        _ => false,
    }
}

unsafe fn clear_trap(ctx: *mut libc::c_void) {
    let u = ctx as *mut libc::ucontext_t;
    (*u).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
}

/// One pair of calls is explored no longer than this.
const MAX_S: u64 = 20;

fn cut() -> Cut {
    [Cut::Shared, Cut::Calls, Cut::Every][CUT.load(Relaxed)]
}

unsafe extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let child = CHILD.load(Relaxed);
    if child && BP_RIP.load(Relaxed) != 0 {
        on_breakpoint(ctx as *mut libc::ucontext_t);
        return;
    }
    if STOP.load(Relaxed)  || child && !TWICE.load(Relaxed) {
        clear_trap(ctx);
        return;
    }
    let u = ctx as *mut libc::ucontext_t;
    let rip = (*u).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    if !child {
        INSTR.fetch_add(1, Relaxed);
    }
    if rip < LO.load(Relaxed) || rip >= HI.load(Relaxed) {
        return;
    }
    if cut() != Cut::Every && !interesting(u, cut()) {
        return;
    }
    if child {
        // B's step
        let q = B_POINTS.fetch_add(1, Relaxed) as usize;
        if q < MAX_POINTS {
            B_RIPS[q] = rip as u64;
        }
        return;
    }
    let point = POINTS.fetch_add(1, Relaxed) + 1;
    if point % NSHARDS.load(Relaxed) != SHARD.load(Relaxed) {
        return;
    }
    let now = || {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64
    };
    if END.load(Relaxed) == 0 {
        END.store(now() + MAX_S, Relaxed);
    }
    let mut q = 0;
    let mut rips: *mut u8 = std::ptr::null_mut();
    let mut max_q = q;
    loop {
        if now() > END.load(Relaxed) {
            LEFT_OUT.fetch_add(max_q + 1 - q, Relaxed);
            return;
        }
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = _Fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            PIPE_W.store(fds[1], Relaxed);
            if q > 0 && !rips.is_null() {
                let at = |k: u64| (rips as *const u64).add(k as usize - 1).read();
                let rip = at(q);
                BP_LEFT.store((1..q).filter(|k| at(*k) == rip).count() as u64, Relaxed);
                BP_RIP.store(rip as usize, Relaxed);
            }
            CHILD.store(true, Relaxed);
            clear_trap(ctx);
            run_b();
            return;
        }
        libc::close(fds[1]);
        let mut st = 0;
        let mut msg = [0u8; 4096];
        // tag, number of B's points, their instructions, message
        let head = read_all(fds[0], msg.as_mut_ptr(), 9);
        let nb = u64::from_le_bytes(msg[1..9].try_into().unwrap_or([0; 8])).min(MAX_POINTS as u64);
        let blocked = msg[0] == b'B';
        if head == 9 && nb > 0 {
            max_q = nb;
            if rips.is_null() {
                rips = libc::mmap(std::ptr::null_mut(), MAX_POINTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            }
            read_all(fds[0], rips, nb as usize * 8);
        }
        let n = read_all(fds[0], msg.as_mut_ptr(), msg.len());
        libc::close(fds[0]);
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        SCHED.fetch_add(1, Relaxed);
        let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && head == 9;
        if head == 9 && blocked {
            BLOCKED.fetch_add(1, Relaxed);
        }
        if !ok {
            // stop; the message is read by explore()
            let mut fds = [0i32; 2];
            libc::pipe(fds.as_mut_ptr());
            libc::write(fds[1], msg.as_ptr() as *const _, n);
            libc::close(fds[1]);
            PIPE_R.store(fds[0], Relaxed);
            BAD.store(point, Relaxed);
            BAD_B.store(q, Relaxed);
            STOP.store(true, Relaxed);
            clear_trap(ctx);
            return;
        }
        q += 1;
        if q > max_q {
            if !rips.is_null() {
                libc::munmap(rips as *mut _, MAX_POINTS * 8);
            }
            return;
        }
    }
}

unsafe fn read_all(fd: i32, to: *mut u8, max: usize) -> usize {
    let mut n = 0;
    while n < max {
        let r = libc::read(fd, to.add(n) as *mut _, max - n);
        if r <= 0 {
            break;
        }
        n += r as usize;
    }
    n
}

unsafe fn put_byte(at: usize, b: u8) {
    (at as *mut u8).write_volatile(b);
}

/// Makes B stop at the instruction chosen by its parent.
unsafe fn set_breakpoint() {
    let rip = BP_RIP.load(Relaxed);
    let page = rip & !4095;
    libc::mprotect(page as *mut _, 8192, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
    BP_BYTE.store(*(rip as *const u8) as usize, Relaxed);
    put_byte(rip, 0xCC);
}

unsafe fn on_breakpoint(u: *mut libc::ucontext_t) {
    let g = &mut (*u).uc_mcontext.gregs;
    let rip = BP_RIP.load(Relaxed);
    if BP_OVER.swap(false, Relaxed) {
        // the instruction itself has been executed
        put_byte(rip, 0xCC);
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    if g[libc::REG_RIP as usize] as usize != rip + 1 {
        g[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    put_byte(rip, BP_BYTE.load(Relaxed) as u8);
    g[libc::REG_RIP as usize] = rip as i64;
    if libc::syscall(libc::SYS_gettid) as i32 == libc::getpid() {
        // A: B is waiting for it
        return;
    }
    let left = BP_LEFT.load(Relaxed);
    if left > 0 {
        BP_LEFT.store(left - 1, Relaxed);
        BP_OVER.store(true, Relaxed);
        g[libc::REG_EFL as usize] |= 0x100;
        return;
    }
    pause_b();
}

/// B waits until A is done, or until A waits for something only B can give.
unsafe fn pause_b() {
    B_PAUSED.store(true, Release);
    let pid = libc::getpid();
    let t = Instant::now();
    let mut asleep = 0;
    while !A_DONE.load(Acquire) && t.elapsed() < Duration::from_secs(10) {
        if t.elapsed() < Duration::from_micros(300) {
            libc::sched_yield();
            continue;
        }
        libc::usleep(100);
        asleep = if sleeping(pid) { asleep + 1 } else { 0 };
        if asleep >= 4 {
            break;
        }
    }
}

/// Whether a thread of this process waits for something. Callable in a signal handler.
unsafe fn sleeping(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for k in (16..26).rev() {
        path[k] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    // drop leading zeros
    let first = (16..25).find(|k| path[*k] != b'0').unwrap_or(25);
    path.copy_within(first.., 16);
    let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY);
    if fd < 0 {
        return false;
    }
    let mut buf = [0u8; 256];
    let r = libc::read(fd, buf.as_mut_ptr() as *mut _, 256);
    libc::close(fd);
    let b = &buf[..r.max(0) as usize];
    b.iter().rposition(|c| *c == b')').and_then(|i| b.get(i + 2)) == Some(&b'S')
}

/// Runs B on a new thread until it finishes or waits for something.
unsafe fn run_b() {
    struct P(*mut (dyn FnMut() -> String + 'static));
    unsafe impl Send for P {}
    #[allow(static_mut_refs)]
    let p = P(B_CALL.unwrap());
    let h = std::thread::spawn(move || {
        let p = p;
        B_TID.store(libc::syscall(libc::SYS_gettid) as i32, Release);
        let r = crate::core::guard(|| (*p.0)()).unwrap_or_else(|e| e);
        if TWICE.load(Relaxed) {
            std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
        }
        B_DONE.store(true, Release);
        r
    });
    let t = Instant::now();
    let mut asleep = 0;
    while !B_DONE.load(Acquire) && !B_PAUSED.load(Acquire) && t.elapsed() < Duration::from_secs(2) {
        if t.elapsed() < Duration::from_micros(300) {
            std::thread::yield_now();
            continue;
        }
        std::thread::sleep(Duration::from_micros(100));
        let tid = B_TID.load(Acquire);
        if tid != 0 {
            asleep = if sleeping(tid) { asleep + 1 } else { 0 };
            if asleep >= 4 {
                break;
            }
        }
    }
    B_THREAD = Some(h);
}

/// Called by B where the part begins in which it may be preempted.
pub fn preemptible() {
    if !CHILD.load(Relaxed) || !TWICE.load(Relaxed) {
        return;
    }
    // the signal is inherited blocked from the handler
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut m);
        libc::sigaddset(&mut m, libc::SIGTRAP);
        libc::pthread_sigmask(libc::SIG_UNBLOCK, &m, std::ptr::null_mut());
        if BP_RIP.load(Relaxed) != 0 {
            set_breakpoint();
            return;
        }
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}

/// The program text, and its static data (with the zeroed part, mapped right behind it).
fn ranges() -> (usize, usize, usize, usize) {
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut lo = usize::MAX;
    let mut hi = 0;
    let (mut dlo, mut dhi) = (0, 0);
    for l in maps.lines() {
        let (a, b) = l.split_whitespace().next().unwrap().split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if l.split_whitespace().nth(1).is_some_and(|p| p.contains('w')) {
            if l.ends_with(exe) {
                (dlo, dhi) = (if dlo == 0 { a } else { dlo }, b);
            } else if dhi == a && !l.contains('[') {
                dhi = b;
            }
        }
        if l.ends_with(exe) && l.split_whitespace().nth(1).is_some_and(|p| p.contains('x')) {
            lo = lo.min(a);
            hi = hi.max(b);
        }
    }
    (lo, hi, dlo, dhi)
}

/// To be called in a single-threaded process that is thrown away afterwards. `shard` of `nshards`
/// takes every nshards-th point.
pub fn explore(
    a: Call,
    b: Call,
    cut: Cut,
    twice: bool,
    (shard, nshards): (u64, u64),
    judge: &dyn Fn(&str, &str) -> Result<(), String>,
) -> Result<Stats, String> {
    let (lo, hi, dlo, dhi) = ranges();
    if lo >= hi || dlo >= dhi {
        return Err("the program text was not found".into());
    }
    DATA_LO.store(dlo, Relaxed);
    DATA_HI.store(dhi, Relaxed);
    TWICE.store(twice, Relaxed);
    LO.store(lo, Relaxed);
    HI.store(hi, Relaxed);
    CUT.store(cut as usize, Relaxed);
    SHARD.store(shard, Relaxed);
    NSHARDS.store(nshards, Relaxed);
    unsafe {
        #[allow(clippy::transmute_ptr_to_ptr)]
        let p: *mut (dyn FnMut() -> String + '_) = b;
        B_CALL = Some(std::mem::transmute::<*mut (dyn FnMut() -> String + '_), *mut (dyn FnMut() -> String + 'static)>(p));
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let ra = crate::core::guard(a).unwrap_or_else(|e| e);
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
    }
    if CHILD.load(Relaxed) {
        A_DONE.store(true, Release);
        let mut out = String::from("D");
        let mut code = 0;
        unsafe {
            if !B_DONE.load(Acquire) && !B_PAUSED.load(Acquire) {
                out = "B".into();
            }
            let t = Instant::now();
            while !B_DONE.load(Acquire) && t.elapsed() < Duration::from_secs(20) {
                std::thread::sleep(Duration::from_micros(100));
            }
            let r = if !B_DONE.load(Acquire) {
                Err("the preempting call never ends".to_string())
            } else {
                #[allow(static_mut_refs)]
                let rb = B_THREAD.take().unwrap().join().unwrap_or_default();
                judge(&ra, &rb)
            };
            if let Err(e) = r {
                out.push_str(&e.chars().take(900).collect::<String>());
                code = 1;
            }
            let mut out = out.into_bytes();
            let nb = B_POINTS.load(Relaxed);
            let mut pre = nb.to_le_bytes().to_vec();
            #[allow(static_mut_refs)]
            pre.extend(B_RIPS[..MAX_POINTS.min(nb as usize)].iter().flat_map(|x| x.to_le_bytes()));
            out.splice(1..1, pre);
            libc::write(PIPE_W.load(Relaxed), out.as_ptr() as *const _, out.len());
            libc::_exit(code);
        }
    }
    let bad = BAD.load(Relaxed);
    if bad != 0 {
        let mut s = Vec::new();
        let mut f = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(PIPE_R.load(Relaxed)) };
        let _ = f.read_to_end(&mut s);
        let s = String::from_utf8_lossy(&s).into_owned();
        let s = if s.is_empty() { "the process died".to_string() } else { s };
        let back = BAD_B.load(Relaxed);
        let back = if back > 0 { format!(", resumed at point {back} of the other") } else { String::new() };
        return Err(format!("preempted at point {bad}{back} ({cut:?}): {s}"));
    }
    let rb = unsafe {
        // the undisturbed sequential order, B after A
        #[allow(static_mut_refs)]
        (*B_CALL.unwrap())()
    };
    judge(&ra, &rb)?;
    Ok(Stats { instructions: INSTR.load(Relaxed), points: POINTS.load(Relaxed), schedules: SCHED.load(Relaxed), blocked: BLOCKED.load(Relaxed), left_out: LEFT_OUT.load(Relaxed) })
}
