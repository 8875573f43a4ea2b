//! Runs the real rudis server / placement driver of /repo in this process, with a wall clock that can be
//! frozen and moved from stdin. Nothing of the code under test is replaced: only `clock_gettime(CLOCK_REALTIME)`
//! is interposed by defining the libc symbol in this executable (CLOCK_MONOTONIC, used by timers, stays real unless asked for).
//! With VNODE_NOISE=n about every n-th allocation, release of memory and reading of the clock pauses its thread for some
//! microseconds, so that threads meet in many more ways than they would on their own.
use std::{
    io::{BufRead, Write},
    sync::atomic::{AtomicI64, Ordering},
};

/// < 0: real clock; otherwise frozen at that many nanoseconds since the epoch
static FROZEN_NS: AtomicI64 = AtomicI64::new(-1);
/// < 0: real monotonic clock; otherwise it stands still at that many nanoseconds and moves only on the control command `mono`,
/// which makes every timer of the runtime fire exactly when the driver says so
static MONO_NS: AtomicI64 = AtomicI64::new(-1);
/// added to the real clock when not frozen
static OFFSET_NS: AtomicI64 = AtomicI64::new(0);

/// 0: no noise; otherwise one in so many
static NOISE: AtomicI64 = AtomicI64::new(0);
static NOISE_SEED: AtomicI64 = AtomicI64::new(1);
thread_local! {
    static RNG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

#[inline]
fn noise() {
    let n = NOISE.load(Ordering::Relaxed);
    if n <= 0 {
        return;
    }
    let _ = RNG.try_with(|c| {
        let mut x = c.get();
        if x == 0 {
            x = (NOISE_SEED.fetch_add(1, Ordering::Relaxed) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        if (x >> 20) % (n as u64) == 0 {
            for _ in 0..((x >> 45) % 1500) {
                std::hint::spin_loop();
            }
        }
    });
}

struct NoisyAlloc;
unsafe impl std::alloc::GlobalAlloc for NoisyAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        noise();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        noise();
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: NoisyAlloc = NoisyAlloc;

/// # Safety
/// called by libc users with a valid pointer
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        noise();
    }
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        let f = FROZEN_NS.load(Ordering::SeqCst);
        if f >= 0 {
            (*ts).tv_sec = f / 1_000_000_000;
            (*ts).tv_nsec = f % 1_000_000_000;
            return 0;
        }
    }
    if id == libc::CLOCK_MONOTONIC {
        let f = MONO_NS.load(Ordering::SeqCst);
        if f >= 0 {
            (*ts).tv_sec = f / 1_000_000_000;
            (*ts).tv_nsec = f % 1_000_000_000;
            return 0;
        }
    }
    let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    if r == 0 && id == libc::CLOCK_REALTIME {
        let off = OFFSET_NS.load(Ordering::SeqCst);
        if off != 0 {
            let n = (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec + off;
            (*ts).tv_sec = n / 1_000_000_000;
            (*ts).tv_nsec = n % 1_000_000_000;
        }
    }
    r
}

/// lets every task that is ready, and every timer that is due, run. Exact with one worker thread: a task that yields goes to the
/// back of the queue, and the worker polls its drivers every few dozen tasks.
fn settle(rt: &tokio::runtime::Handle) {
    let (tx, rx) = std::sync::mpsc::channel();
    rt.spawn(async move {
        for _ in 0..400 {
            tokio::task::yield_now().await;
        }
        let _ = tx.send(());
    });
    let _ = rx.recv();
}

fn control_loop(rt: tokio::runtime::Handle) {
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(0) | Err(_) => std::process::exit(0),
            Ok(_) => {}
        }
        let mut it = line.split_whitespace();
        let cmd = it.next().unwrap_or("");
        let num = || -> i64 { it.clone().next().and_then(|t| t.parse().ok()).unwrap_or(0) };
        match cmd {
            "freeze" => FROZEN_NS.store(num() * 1_000_000, Ordering::SeqCst),
            "adv" => {
                FROZEN_NS.fetch_add(num() * 1_000_000, Ordering::SeqCst);
            }
            "real" => FROZEN_NS.store(-1, Ordering::SeqCst),
            "offset" => OFFSET_NS.store(num() * 1_000_000, Ordering::SeqCst),
            "mono" => {
                MONO_NS.fetch_add(num() * 1_000_000, Ordering::SeqCst);
                settle(&rt);
            }
            "settle" => settle(&rt),
            "ping" => {}
            "exit" => std::process::exit(0),
            _ => {
                println!("err unknown control command");
                continue;
            }
        }
        println!("ok");
        let _ = std::io::stdout().flush();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map_or("server", |s| s.as_str()).to_owned();
    let bind = args.get(2).map_or("127.0.0.1:0", |s| s.as_str()).to_owned();
    // die with the driver
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    if let Ok(t) = std::env::var("VNODE_FREEZE") {
        if let Ok(ms) = t.parse::<i64>() {
            FROZEN_NS.store(ms * 1_000_000, Ordering::SeqCst);
        }
    }
    if std::env::var("VNODE_MONO").is_ok() {
        MONO_NS.store(1_000_000_000_000, Ordering::SeqCst);
    }
    if let Some(n) = std::env::var("VNODE_NOISE").ok().and_then(|t| t.parse().ok()) {
        NOISE.store(n, Ordering::SeqCst);
    }
    if std::env::var("VNODE_LOG").is_ok() {
        let _ = tracing_subscriber::fmt::Subscriber::builder()
            .with_max_level(tracing::Level::WARN)
            .with_writer(std::io::stderr)
            .try_init();
    }
    let workers = std::env::var("VNODE_WORKERS").ok().and_then(|t| t.parse().ok()).unwrap_or(4);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(workers)
        .enable_all()
        .build()
        .expect("runtime");
    let handle = rt.handle().clone();
    rt.block_on(async move {
        let listener = tokio::net::TcpListener::bind(&bind).await.expect("bind");
        println!("listening {}", listener.local_addr().expect("addr"));
        let _ = std::io::stdout().flush();
        std::thread::spawn(move || control_loop(handle));
        match mode.as_str() {
            "server" => server::run(listener, std::future::pending::<()>()).await,
            "pd" => {
                if let Err(e) = pd::run(listener).await {
                    eprintln!("pd ended: {e:?}");
                }
            }
            m => panic!("unknown mode {m}"),
        }
    });
}
