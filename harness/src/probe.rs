//! Instruments on the process itself: memory taken and given back by this thread, and the effects
//! (output, files, network, processes, threads, waiting, settings) that code asks libc for.
use std::cell::{Cell, RefCell};

// ------------------------------------------------------------------ memory

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Memory {
    /// taken and not given back
    pub kept: i64,
    /// the most that was held at one time
    pub peak: i64,
    pub largest: usize,
}

/// What this thread does with memory while `f` runs.
pub fn memory<T>(f: impl FnOnce() -> T) -> (T, Memory) {
    let before = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(before));
    LARGEST.with(|l| l.set(0));
    let t = f();
    let m = Memory { kept: LIVE.with(Cell::get) - before, peak: PEAK.with(Cell::get) - before, largest: LARGEST.with(Cell::get) };
    (t, m)
}

#[cfg(not(any(miri, no_virtual_clock)))]
mod allocator {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};

    struct Counting;
    #[global_allocator]
    static ALLOCATOR: Counting = Counting;

    fn change(by: i64, block: usize) {
        let _ = LIVE.try_with(|l| {
            let n = l.get() + by;
            l.set(n);
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n);
                }
            });
        });
        let _ = LARGEST.try_with(|l| {
            if block > l.get() {
                l.set(block);
            }
        });
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                change(l.size() as i64, l.size());
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                change(l.size() as i64, l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l);
            change(-(l.size() as i64), 0);
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                change(n as i64 - l.size() as i64, n);
            }
            q
        }
    }
}

// ------------------------------------------------------------------ effects

thread_local! {
    static WATCHED: Cell<u32> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
}

/// Run `f` and note every effect that this thread asks for meanwhile.
pub fn watch<T>(f: impl FnOnce() -> T) -> T {
    struct Watch;
    impl Drop for Watch {
        fn drop(&mut self) {
            WATCHED.with(|w| w.set(w.get() - 1));
        }
    }
    if WATCHED.with(|w| w.replace(w.get() + 1)) == 0 {
        READS.with(|r| r.set(0));
    }
    let _w = Watch;
    f()
}

/// So many readings of the clock in one call are no measurement of time but waiting for it.
pub const CLOCK_READS: u64 = 500;

/// The clock is read.
#[cfg_attr(any(miri, no_virtual_clock), allow(dead_code))]
pub fn clock_read() {
    if WATCHED.try_with(Cell::get).unwrap_or(0) != 0 {
        let n = READS.try_with(|r| r.replace(r.get() + 1)).unwrap_or(0);
        if n == CLOCK_READS {
            note("waits");
        }
    }
}

/// The effects noted since the last call of this function.
pub fn effects() -> Vec<&'static str> {
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

#[cfg_attr(any(miri, no_virtual_clock), allow(dead_code))]
fn note(what: &'static str) {
    if WATCHED.try_with(Cell::get).unwrap_or(0) == 0 {
        return;
    }
    let _ = SEEN.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.len() < 100 {
                s.push(what);
            }
        }
    });
}

#[cfg(not(any(miri, no_virtual_clock)))]
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod hooks {
    use super::note;
    use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
    use std::sync::atomic::{AtomicUsize, Ordering};
    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    }
    const NEXT: *mut c_void = -1isize as *mut c_void;
    type P = *const c_void;

    macro_rules! hooks {
        ($($what:literal: $($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*)*) => {$($(
            /// # Safety
            /// Called by users of libc, on whose arguments this passes.
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
                static REAL: AtomicUsize = AtomicUsize::new(0);
                note($what);
                let mut p = REAL.load(Ordering::Relaxed);
                if p == 0 {
                    p = dlsym(NEXT, concat!(stringify!($name), "\0").as_ptr().cast()) as usize;
                    REAL.store(p, Ordering::Relaxed);
                }
                let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
                f($($a),*)
            }
        )*)*};
    }

    hooks! {
        "writes":
            write(a: c_int, b: P, c: usize) -> isize;
            writev(a: c_int, b: P, c: c_int) -> isize;
            pwrite64(a: c_int, b: P, c: usize, d: i64) -> isize;
            syslog(a: c_int, b: P, c: P) -> ();
        "opens a file":
            open(a: P, b: c_int, c: c_uint) -> c_int;
            open64(a: P, b: c_int, c: c_uint) -> c_int;
            openat(a: c_int, b: P, c: c_int, d: c_uint) -> c_int;
            openat64(a: c_int, b: P, c: c_int, d: c_uint) -> c_int;
            creat(a: P, b: c_uint) -> c_int;
            fopen(a: P, b: P) -> P;
            fopen64(a: P, b: P) -> P;
            opendir(a: P) -> P;
        "looks at a file":
            stat(a: P, b: P) -> c_int;
            stat64(a: P, b: P) -> c_int;
            lstat64(a: P, b: P) -> c_int;
            fstatat64(a: c_int, b: P, c: P, d: c_int) -> c_int;
            statx(a: c_int, b: P, c: c_int, d: c_uint, e: P) -> c_int;
            access(a: P, b: c_int) -> c_int;
            faccessat(a: c_int, b: P, c: c_int, d: c_int) -> c_int;
            getcwd(a: P, b: usize) -> P;
            readlink(a: P, b: P, c: usize) -> isize;
            realpath(a: P, b: P) -> P;
        "reads":
            read(a: c_int, b: P, c: usize) -> isize;
            readv(a: c_int, b: P, c: c_int) -> isize;
        "changes files":
            unlink(a: P) -> c_int;
            rename(a: P, b: P) -> c_int;
            mkdir(a: P, b: c_uint) -> c_int;
            rmdir(a: P) -> c_int;
            symlink(a: P, b: P) -> c_int;
            unlinkat(a: c_int, b: P, c: c_int) -> c_int;
            linkat(a: c_int, b: P, c: c_int, d: P, e: c_int) -> c_int;
            mkstemp64(a: P) -> c_int;
            ftruncate64(a: c_int, b: i64) -> c_int;
            fchmod(a: c_int, b: c_uint) -> c_int;
            utimensat(a: c_int, b: P, c: P, d: c_int) -> c_int;
            fsync(a: c_int) -> c_int;
            memfd_create(a: P, b: c_uint) -> c_int;
            shm_open(a: P, b: c_int, c: c_uint) -> c_int;
            link(a: P, b: P) -> c_int;
            chmod(a: P, b: c_uint) -> c_int;
            truncate64(a: P, b: i64) -> c_int;
        "uses the network":
            socket(a: c_int, b: c_int, c: c_int) -> c_int;
            socketpair(a: c_int, b: c_int, c: c_int, d: P) -> c_int;
            connect(a: c_int, b: P, c: c_uint) -> c_int;
            bind(a: c_int, b: P, c: c_uint) -> c_int;
            send(a: c_int, b: P, c: usize, d: c_int) -> isize;
            sendto(a: c_int, b: P, c: usize, d: c_int, e: P, f: c_uint) -> isize;
            recv(a: c_int, b: P, c: usize, d: c_int) -> isize;
            sendmsg(a: c_int, b: P, c: c_int) -> isize;
            listen(a: c_int, b: c_int) -> c_int;
            accept4(a: c_int, b: P, c: P, d: c_int) -> c_int;
            pipe2(a: P, b: c_int) -> c_int;
            getaddrinfo(a: P, b: P, c: P, d: P) -> c_int;
        "starts a process":
            fork() -> c_int;
            posix_spawn(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int;
            posix_spawnp(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int;
            execve(a: P, b: P, c: P) -> c_int;
            execvp(a: P, b: P) -> c_int;
            system(a: P) -> c_int;
        "sends a signal":
            kill(a: c_int, b: c_int) -> c_int;
            raise(a: c_int) -> c_int;
        "starts a thread":
            pthread_create(a: P, b: P, c: P, d: P) -> c_int;
        "waits":
            nanosleep(a: P, b: P) -> c_int;
            clock_nanosleep(a: c_int, b: c_int, c: P, d: P) -> c_int;
            usleep(a: c_uint) -> c_int;
            sleep(a: c_uint) -> c_uint;
            poll(a: P, b: u64, c: c_int) -> c_int;
            epoll_wait(a: c_int, b: P, c: c_int, d: c_int) -> c_int;
            sched_yield() -> c_int;
            select(a: c_int, b: P, c: P, d: P, e: P) -> c_int;
            pause() -> c_int;
            pthread_cond_timedwait(a: P, b: P, c: P) -> c_int;
        "changes a setting of the process":
            setenv(a: P, b: P, c: c_int) -> c_int;
            unsetenv(a: P) -> c_int;
            putenv(a: P) -> c_int;
            chdir(a: P) -> c_int;
            umask(a: c_uint) -> c_uint;
            setlocale(a: c_int, b: P) -> P;
            sigaction(a: c_int, b: P, c: P) -> c_int;
            signal(a: c_int, b: P) -> P;
            setrlimit64(a: c_int, b: P) -> c_int;
            setrlimit(a: c_int, b: P) -> c_int;
            alarm(a: c_uint) -> c_uint;
            setitimer(a: c_int, b: P, c: P) -> c_int;
            dup2(a: c_int, b: c_int) -> c_int;
            fchdir(a: c_int) -> c_int;
            pthread_sigmask(a: c_int, b: P, c: P) -> c_int;
            sigprocmask(a: c_int, b: P, c: P) -> c_int;
            sched_setaffinity(a: c_int, b: usize, c: P) -> c_int;
            mlockall(a: c_int) -> c_int;
            nice(a: c_int) -> c_int;
            mallopt(a: c_int, b: c_int) -> c_int;
            atexit(a: P) -> c_int;
            tzset() -> ();
            setpriority(a: c_int, b: c_long, c: c_int) -> c_int;
    }
}

/// Waiting for a time with a futex (parking, condition variables, channels), which std asks for with
/// `syscall`, and reading the clock over and over, which is waiting too.
#[cfg(not(any(miri, no_virtual_clock)))]
#[allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod kernel {
    use std::os::raw::{c_char, c_long, c_void};
    use std::sync::atomic::{AtomicUsize, Ordering};
    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    }
    /// # Safety
    /// Called by users of libc, on whose arguments this passes.
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
        static REAL: AtomicUsize = AtomicUsize::new(0);
        // FUTEX_WAIT and FUTEX_WAIT_BITSET, until some time
        if n == 202 && matches!(b & 127, 0 | 9) && d != 0 {
            super::note("waits");
        }
        let mut p = REAL.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(-1isize as *mut c_void, c"syscall".as_ptr()) as usize;
            REAL.store(p, Ordering::Relaxed);
        }
        let real: unsafe extern "C" fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long = std::mem::transmute(p);
        real(n, a, b, c, d, e, f)
    }
}

/// Proof that the instruments are in effect.
pub fn self_test() -> Result<(), String> {
    if !crate::clock::ENABLED {
        return Ok(());
    }
    let (v, m) = memory(|| {
        drop(std::hint::black_box(vec![0u8; 100_000]));
        std::hint::black_box(vec![0u8; 1000])
    });
    if m != (Memory { kept: 1000, peak: 100_000, largest: 100_000 }) || v.len() != 1000 {
        return Err(format!("the memory counters are not in effect: {m:?}"));
    }
    effects();
    let name = format!("VMON_{}", std::process::id());
    watch(|| {
        let _ = std::io::Write::write(&mut std::fs::File::options().write(true).open("/dev/null").expect("/dev/null"), b"x");
        let _ = std::fs::metadata("/dev/null");
        let _ = std::fs::read("/dev/null");
        std::thread::spawn(|| ()).join().ok();
        std::thread::sleep(std::time::Duration::from_nanos(1));
        let _ = std::env::current_dir();
        let _ = std::fs::remove_file("/nonexistent/file");
        std::env::set_var(&name, "1");
        std::env::remove_var(&name);
        let _ = std::net::UdpSocket::bind("127.0.0.1:0");
        let _ = std::process::Command::new("/nonexistent/program").status();
        let _ = std::fs::remove_dir("/nonexistent/directory");
    });
    let seen = effects();
    watch(|| std::thread::park_timeout(std::time::Duration::from_nanos(1)));
    let parked = effects();
    if !parked.contains(&"waits") {
        return Err(format!("the effect hooks are not in effect: parking not seen, only {parked:?}"));
    }
    watch(|| (0..CLOCK_READS + 1).for_each(|_| { let _ = std::hint::black_box(std::time::Instant::now()); }));
    let spun = effects();
    if !spun.contains(&"waits") {
        return Err(format!("the effect hooks are not in effect: spinning not seen, only {spun:?}"));
    }
    let outside = {
        let _ = std::fs::metadata("/dev/null");
        effects()
    };
    for w in [
        "writes", "opens a file", "looks at a file", "reads", "changes files", "uses the network", "starts a process", "starts a thread", "waits",
        "changes a setting of the process",
    ] {
        if !seen.contains(&w) {
            return Err(format!("the effect hooks are not in effect: {w} not seen, only {seen:?}"));
        }
    }
    if outside.is_empty() {
        Ok(())
    } else {
        Err(format!("effects were noted outside a watch: {outside:?}"))
    }
}
