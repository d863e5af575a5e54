//! Panics, runaway loops, hangs and runaway allocation become observations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);
// bytes this thread holds
thread_local!(static NET: Cell<isize> = const { Cell::new(0) });
fn net(d: isize) {
    let _ = NET.try_with(|n| n.set(n.get() + d));
}
/// a single process never legitimately needs this much
const HARD_CAP: usize = 2 << 30;

fn die(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(live, Ordering::Relaxed);
        if l.size() > HARD_CAP || live > HARD_CAP {
            die(77);
        }
        net(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        net(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let live = if n > l.size() {
            LIVE.fetch_add(n - l.size(), Ordering::Relaxed) + n - l.size()
        } else {
            LIVE.fetch_sub(l.size() - n, Ordering::Relaxed) - (l.size() - n)
        };
        PEAK.fetch_max(live, Ordering::Relaxed);
        if n > HARD_CAP || live > HARD_CAP {
            die(77);
        }
        net(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// peak bytes allocated above the starting level while running f
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (usize, T) {
    let start = LIVE.load(Ordering::Relaxed);
    PEAK.store(start, Ordering::Relaxed);
    let t = f();
    (PEAK.load(Ordering::Relaxed).saturating_sub(start), t)
}

/// bytes f leaves allocated; what is set up lazily is so in the first of two runs
pub fn left_by(mut f: impl FnMut()) -> isize {
    let mut d = 0;
    for _ in 0..2 {
        let start = NET.with(|n| n.get());
        f();
        d = NET.with(|n| n.get()) - start;
        if d == 0 {
            break;
        }
    }
    d
}

thread_local!(static PANIC: Cell<Option<String>> = const { Cell::new(None) });

/// run f, turning a panic into its message
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BEAT.fetch_add(1, Ordering::Relaxed);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC.with(|p| p.take()).unwrap_or_default()),
    }
}

/// quiet panics; a case that takes longer than `secs` ends the process with 78
pub fn install(secs: u64) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| p.set(Some(m.chars().take(160).collect())));
    }));
    std::thread::spawn(move || {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last {
                same += 1;
            } else {
                same = 0;
            }
            last = b;
            if b != 0 && same >= secs * 2 {
                die(78);
            }
        }
    });
}
