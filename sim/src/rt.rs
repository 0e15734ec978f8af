//! Rust face of the simulation runtime: simulated threads, fork-isolated runs, schedules.
use serde_json::{json, Value};
use std::os::raw::{c_char, c_int, c_long};

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Event {
    pub step: u64,
    pub kind: u32,
    pub arg: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub nthreads: u64,
    pub overflow: u64,
    pub mmap_calls: u64,
    pub mmap_failed: u64,
    pub malloc_calls: u64,
    pub malloc_failed: u64,
    pub io_ops: u64,
    pub io_faults: u64,
    pub rmw_ops: u64,
    pub nevents: u64,
    pub contended: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
struct Cfg {
    seed: u64,
    policy: u32,
    log2p: u32,
    quantum: u32,
    replay: u32,
    max_steps: u64,
    spurious: u32,
    stall: u32,
    nevents_in: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct IoFault {
    pub op: u32,
    pub action: u32,
}
extern "C" {
    fn sim_begin(cfg: *const Cfg, st: *mut Stats, out: *mut Event, cap: u64, inp: *const Event);
    fn sim_end();
    fn sim_thread_faults(at: c_long);
    fn sim_thread_failed() -> c_long;
    fn sim_now() -> u64;
    fn sim_point();
    fn sim_mmap_faults(at: c_long, n: c_long);
    fn sim_mmap_count() -> c_long;
    fn sim_malloc_arm(on: c_int);
    fn sim_malloc_plan(at: c_long, n: c_long);
    fn sim_malloc_stop() -> c_long;
    fn sim_malloc_hits() -> c_long;
    fn sim_io_watch(dir: *const c_char, plan: *const IoFault, n: c_int);
    fn sim_io_ops() -> u32;
    fn sim_io_kinds() -> *const c_char;
}
pub fn now() -> u64 {
    unsafe { sim_now() }
}
pub fn point() {
    unsafe { sim_point() }
}
pub fn thread_faults(at: i64) {
    unsafe { sim_thread_faults(at as c_long) }
}
pub fn thread_failed() -> i64 {
    unsafe { sim_thread_failed() as i64 }
}
pub fn mmap_faults(at: i64, n: i64) {
    unsafe { sim_mmap_faults(at as c_long, n as c_long) }
}
pub fn mmap_count() -> i64 {
    unsafe { sim_mmap_count() as i64 }
}
pub fn malloc_arm(on: bool) {
    unsafe { sim_malloc_arm(on as c_int) }
}
/// The `at`-th allocation (and the n-1 after it) of the simulated threads fails; at < 0 only counts.
pub fn malloc_plan(at: i64, n: i64) {
    unsafe { sim_malloc_plan(at as c_long, n as c_long) }
}
pub fn malloc_stop() -> i64 {
    unsafe { sim_malloc_stop() as i64 }
}
pub fn malloc_hits() -> i64 {
    unsafe { sim_malloc_hits() as i64 }
}
pub fn io_watch(dir: &str, plan: &[IoFault]) {
    let c = std::ffi::CString::new(dir).unwrap();
    unsafe { sim_io_watch(c.as_ptr(), plan.as_ptr(), plan.len() as c_int) }
}
pub fn io_ops() -> u32 {
    unsafe { sim_io_ops() }
}
pub fn io_kinds() -> String {
    unsafe { std::ffi::CStr::from_ptr(sim_io_kinds()).to_string_lossy().into_owned() }
}

/// How the scheduler of one run decides.
#[derive(Clone, Debug)]
pub struct Sched {
    pub seed: u64,
    pub policy: u32,
    pub log2p: u32,
    pub quantum: u32,
    pub spurious: bool,
    pub stall: bool,
    pub max_steps: u64,
    /// Some: play this back instead of drawing from the seed.
    pub replay: Option<Vec<Event>>,
}
impl Sched {
    pub fn serial() -> Sched {
        Sched { seed: 0, policy: 3, log2p: 0, quantum: 1, spurious: false, stall: false, max_steps: 400_000_000, replay: None }
    }
    pub fn random(rng: &mut crate::field::Rng) -> Sched {
        let policy = [0, 0, 0, 1, 1, 2][rng.below(6)];
        Sched {
            seed: rng.next(),
            policy,
            log2p: match policy {
                0 => [2, 4, 6, 8, 10, 13][rng.below(6)],
                1 => [6, 8, 10, 12, 14][rng.below(5)],
                _ => 4,
            },
            quantum: [1, 2, 3, 7, 50, 500][rng.below(6)],
            spurious: rng.chance(1, 2),
            stall: rng.chance(1, 2),
            max_steps: 400_000_000,
            replay: None,
        }
    }
    pub fn name(&self) -> String {
        if self.replay.is_some() {
            return "replay".into();
        }
        match self.policy {
            0 => format!("random/2^-{}", self.log2p),
            1 => format!("pct/2^-{}", self.log2p),
            2 => format!("round-robin/{}", self.quantum),
            _ => "serial".into(),
        }
    }
}

/// Shared memory between a worker process and the runs it forks.
pub struct Shm {
    base: *mut u8,
}
const STATS_SZ: usize = 4096;
const EV_CAP: usize = 3 << 20;
const DATA_CAP: usize = 24 << 20;
impl Shm {
    pub fn new() -> Shm {
        let sz = STATS_SZ + EV_CAP * 16 + DATA_CAP;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shm { base: p as *mut u8 }
    }
    fn stats(&self) -> *mut Stats {
        self.base as *mut Stats
    }
    fn events(&self) -> *mut Event {
        unsafe { self.base.add(STATS_SZ) as *mut Event }
    }
    fn data(&self) -> *mut u8 {
        unsafe { self.base.add(STATS_SZ + EV_CAP * 16) }
    }
    fn put(&self, b: &[u8]) {
        assert!(b.len() + 8 <= DATA_CAP);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.data().add(8), b.len());
            *(self.data() as *mut u64) = b.len() as u64;
        }
    }
    fn get(&self) -> Vec<u8> {
        unsafe {
            let n = *(self.data() as *mut u64) as usize;
            std::slice::from_raw_parts(self.data().add(8), n).to_vec()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Done,
    Deadlock,
    StepLimit,
    IoCrash,
    Signal(i32),
    CpuLimit,
    Other(i32),
}
#[derive(Clone, Debug)]
pub struct Run {
    pub exit: Exit,
    pub out: Value,
    pub stats: Stats,
    pub events: Vec<Event>,
}

/// Run `f` in a forked child process; its JSON result comes back through shared memory.
pub fn forked(shm: &Shm, cpu_s: u64, keep_events: bool, f: &mut dyn FnMut(&Shm) -> Value) -> Run {
    unsafe {
        *shm.stats() = Stats::default();
        *(shm.data() as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            if std::env::var_os("ZKPSIM_STDERR").is_none() {
                let null = libc::open(b"/dev/null\0".as_ptr() as *const c_char, libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(shm)));
            let v = match r {
                Ok(v) => v,
                Err(e) => json!({ "panic": panic_text(&e) }),
            };
            sim_end();
            let s = serde_json::to_vec(&v).unwrap();
            shm.put(&s);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let exit = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => Exit::CpuLimit,
                s => Exit::Signal(s),
            }
        } else {
            match libc::WEXITSTATUS(st) {
                0 => Exit::Done,
                77 => Exit::Deadlock,
                78 => Exit::StepLimit,
                66 => Exit::IoCrash,
                c => Exit::Other(c),
            }
        };
        let stats = *shm.stats();
        let events = if keep_events { std::slice::from_raw_parts(shm.events(), (stats.nevents as usize).min(EV_CAP)).to_vec() } else { vec![] };
        let out = serde_json::from_slice(&shm.get()).unwrap_or(Value::Null);
        Run { exit, out, stats, events }
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Inside a forked child: run `f` as simulated thread 0.
pub fn simulate<T>(shm: &Shm, s: &Sched, f: impl FnOnce() -> T) -> T {
    let (n, p) = match &s.replay {
        Some(v) => (v.len() as u64, v.as_ptr()),
        None => (0, std::ptr::null()),
    };
    let cfg = Cfg {
        seed: s.seed,
        policy: s.policy,
        log2p: s.log2p,
        quantum: s.quantum.max(1),
        replay: s.replay.is_some() as u32,
        max_steps: s.max_steps,
        spurious: s.spurious as u32,
        stall: s.stall as u32,
        nevents_in: n,
    };
    unsafe { sim_begin(&cfg, shm.stats(), shm.events(), EV_CAP as u64, p) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { sim_end() };
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Start a simulated thread (every thread made by a simulated thread is simulated). Its panics are contained.
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("thread")
}
/// The process-wide worker pool, made of simulated threads.
pub fn global_pool(n: usize) {
    rayon::ThreadPoolBuilder::new().num_threads(n).build_global().expect("pool");
}
pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}
pub fn events_to_json(ev: &[Event]) -> Value {
    Value::Array(ev.iter().map(|e| json!([e.step, e.kind, e.arg])).collect())
}
pub fn events_from_json(v: &Value) -> Vec<Event> {
    v.as_array()
        .map(|a| a.iter().map(|e| Event { step: e[0].as_u64().unwrap(), kind: e[1].as_u64().unwrap() as u32, arg: e[2].as_u64().unwrap() as u32 }).collect())
        .unwrap_or_default()
}
