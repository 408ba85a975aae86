//! Running checks: cases, parallelism, violations, replays, evidence.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::HashSet,
    hash::{DefaultHasher, Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Mutex, OnceLock,
    },
    time::Instant,
};

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub type Check = Result<(), String>;

pub struct Run {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub calls: AtomicU64,
    pub stop: AtomicBool,
    pub notes: Mutex<serde_json::Map<String, Value>>,
    pub samples: Mutex<Vec<Value>>,
    pub assumptions: Mutex<Vec<String>>,
    pub findings: Mutex<Vec<String>>,
    /// Set when replaying: the case to be checked.
    pub replay: Option<Value>,
    pub threads: usize,
    phase: Mutex<(String, u64)>,
    seen: Mutex<HashSet<u64>>,
}

static RUN: OnceLock<&'static Run> = OnceLock::new();

struct Slot {
    case: *const (),
    to_json: fn(*const ()) -> Value,
    kind: &'static str,
    since: Instant,
}

static SLOTS: [Mutex<Option<Slot>>; 64] = [const { Mutex::new(None) }; 64];
unsafe impl Send for Slot {}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(63) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    /// Bytes allocated by this thread, and those now live (which may be freed by other threads).
    pub static ALLOCATED: Cell<usize> = const { Cell::new(0) };
    pub static BIGGEST: Cell<usize> = const { Cell::new(0) };
    /// Calls of the code being checked.
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn called() {
    CALLS.with(|c| c.set(c.get() + 1));
}

/// Counts allocations, and ends the run if one is absurd.
pub struct Counting;

const ABSURD: usize = 2 << 30;

/// How many states are told apart at most.
pub const COUNTED: usize = 100_000_000;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        count(new_size.saturating_sub(layout.size()));
        System.realloc(ptr, layout, new_size)
    }
}

fn count(size: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get().wrapping_add(size)));
    let _ = BIGGEST.try_with(|a| a.set(a.get().max(size)));
    if size >= ABSURD {
        if let Some(run) = RUN.get() {
            let me = SLOT.try_with(|s| s.get()).unwrap_or(63);
            run.report_slot(me, &format!("tried to allocate {} bytes", size));
        }
    }
}

impl Run {
    pub fn new(id: &'static str, thorough: bool, replay: Option<Value>) -> &'static Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let run: &'static Run = Box::leak(Box::new(Run {
            id,
            thorough,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            calls: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            notes: Default::default(),
            samples: Default::default(),
            assumptions: Default::default(),
            findings: Default::default(),
            replay,
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
            phase: Mutex::new((String::new(), 0)),
            seen: Default::default(),
        }));
        let _ = RUN.set(run);
        std::panic::set_hook(Box::new(|info| {
            let msg = format!("{}", info);
            if QUIET.with(|q| q.get()) {
                PANIC.with(|p| *p.borrow_mut() = Some(msg));
            } else {
                eprintln!("{}", msg);
            }
        }));
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, slot) in SLOTS.iter().enumerate() {
                let stuck = slot
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .as_ref()
                    .is_some_and(|s| s.since.elapsed().as_secs() > 100);
                if stuck {
                    run.report_slot(i, "does not end");
                }
            }
        });
        run
    }

    pub fn note(&self, key: &str, value: impl Serialize) {
        self.notes.lock().unwrap().insert(key.into(), json!(value));
    }

    pub fn add(&self, key: &str, n: u64) {
        let mut notes = self.notes.lock().unwrap();
        let old = notes.get(key).and_then(|v| v.as_u64()).unwrap_or(0);
        notes.insert(key.into(), json!(old + n));
    }

    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.into());
    }

    /// Names the phase cases belong to, counting those of each one.
    pub fn phase(&self, name: &str) {
        let mut phase = self.phase.lock().unwrap();
        let now = self.validated.load(Relaxed);
        if !phase.0.is_empty() {
            let n = now - phase.1;
            self.notes.lock().unwrap().insert(format!("cases_{}", phase.0), json!(n));
            eprintln!("{}: {} {} cases, {:.1}s", self.id, phase.0, n, self.start.elapsed().as_secs_f64());
        }
        *phase = (name.into(), now);
    }

    fn report_slot(&self, i: usize, msg: &str) -> ! {
        let slot = SLOTS[i].lock().unwrap_or_else(|e| e.into_inner());
        let (kind, case) = match &*slot {
            Some(s) => (s.kind, (s.to_json)(s.case)),
            None => ("unknown", Value::Null),
        };
        drop(slot);
        self.violation(kind, case, msg);
        std::process::exit(1)
    }

    /// Reports a violation (the first one only).
    pub fn violation(&self, kind: &str, case: Value, msg: &str) {
        if self.stop.swap(true, SeqCst) {
            return;
        }
        let text = json!({"property": self.id, "kind": kind, "case": case, "what": msg});
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()) + "/replays";
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, self.id);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&text).unwrap());
        eprintln!("{}", serde_json::to_string(&text).unwrap().chars().take(4000).collect::<String>());
        println!("VIOLATION property={} replay={}", self.id, path);
        self.finish_evidence(1);
    }

    /// Reports a finding: a violation, unless it is listed as a known one.
    pub fn finding(&self, id: &str, what: &str, kind: &str, case: Value) {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
        let known = std::fs::read_to_string(dir + "/known_findings.jsonl").unwrap_or_default();
        let listed = known.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).any(|k| {
            k["status"] == "known" && k["property"] == self.id && k["id"] == id
        });
        if listed {
            let mut findings = self.findings.lock().unwrap();
            if !findings.iter().any(|f| f == what) {
                findings.push(what.into());
            }
        } else {
            self.violation(kind, case, what);
        }
    }

    /// Checks one case, panics being failures.
    pub fn case<C: Serialize + DeserializeOwned>(
        &self,
        kind: &'static str,
        case: &C,
        check: impl FnOnce(&C) -> Check,
    ) {
        fn to_json<C: Serialize>(p: *const ()) -> Value {
            json!(unsafe { &*(p as *const C) })
        }
        let me = SLOT.with(|s| s.get());
        *SLOTS[me].lock().unwrap() = Some(Slot {
            case: case as *const C as *const (),
            to_json: to_json::<C>,
            kind,
            since: Instant::now(),
        });
        if trace() {
            let text = json!({"property": self.id, "kind": kind, "case": case, "what": "ends the process"});
            let dir = std::env::var("MC_TRACE").unwrap();
            std::fs::write(format!("{}/{}.json", dir, me), text.to_string()).unwrap();
        }
        let res = guard(|| check(case));
        *SLOTS[me].lock().unwrap() = None;
        self.validated.fetch_add(1, Relaxed);
        if let Err(msg) = res {
            if msg.contains("harness:") {
                eprintln!("{} {}", msg, json!(case));
                std::process::exit(3);
            }
            self.violation(kind, json!(case), &msg);
        }
    }

    /// Counts distinct states, given by hashes.
    pub fn states_seen(&self, hashes: HashSet<u64>) {
        let mut seen = self.seen.lock().unwrap();
        // Beyond that, states are explored without being counted.
        if seen.len() + hashes.len() < COUNTED {
            seen.extend(hashes);
        }
        self.states.store(seen.len() as u64, Relaxed);
    }

    pub fn sample(&self, case: &impl Serialize) {
        let mut samples = self.samples.lock().unwrap();
        if samples.len() < 6 {
            samples.push(json!(case));
        }
    }

    /// If replaying a case of this kind, checks it.
    pub fn replaying<C: Serialize + DeserializeOwned>(
        &self,
        kind: &'static str,
        check: impl FnOnce(&C) -> Check,
    ) -> bool {
        match &self.replay {
            None => false,
            Some(r) => {
                if r["kind"] == kind {
                    let case: C = serde_json::from_value(r["case"].clone()).expect("harness: bad replay");
                    self.case(kind, &case, check);
                }
                true
            }
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Handles items with all threads, in order.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|scope| {
            for t in 0..self.threads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        SLOT.with(|s| s.set(t));
                        while !self.stopped() {
                            let i = next.fetch_add(1, SeqCst);
                            match items.get(i) {
                                Some(item) => f(item),
                                None => break,
                            }
                        }
                        self.calls.fetch_add(CALLS.with(|c| c.take()), Relaxed);
                    })
                    .unwrap();
            }
        });
    }

    fn finish_evidence(&self, violations: u64) {
        let mut coverage = self.notes.lock().unwrap().clone();
        coverage.insert("states".into(), json!(self.states.load(Relaxed)));
        // Where nothing else is a transition, calls of the code are.
        match (self.transitions.load(Relaxed), self.calls.load(Relaxed)) {
            (0, calls) => coverage.insert("transitions".into(), json!(calls)),
            (n, _) => coverage.insert("transitions".into(), json!(n)),
        };
        coverage.insert("traces_validated_against_impl".into(), json!(self.validated.load(Relaxed)));
        coverage.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        let evidence = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        if self.replay.is_none() {
            let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()) + "/evidence";
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}.json", dir, self.id);
            let text = serde_json::to_string_pretty(&evidence).unwrap();
            std::fs::write(path, text).expect("harness: cannot write evidence");
        }
    }

    pub fn finish(&self) -> ! {
        self.phase("");
        if self.stopped() {
            std::process::exit(1);
        }
        for finding in self.findings.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, finding);
        }
        self.finish_evidence(0);
        eprintln!(
            "{}: held on {} states, {} transitions, {} cases ({:.1}s)",
            self.id,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed).max(self.calls.load(Relaxed)),
            self.validated.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }
}

fn trace() -> bool {
    static TRACE: OnceLock<bool> = OnceLock::new();
    *TRACE.get_or_init(|| std::env::var("MC_TRACE").is_ok())
}

/// Runs a function, a panic being an error.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let res = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match res {
        Ok(res) => res,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow_mut().take());
            Err(msg.unwrap_or_else(|| "panicked".into()))
        }
    }
}

/// Reports that the case of this thread is stuck, which ends the process.
pub fn report_stuck(msg: &str) -> ! {
    RUN.get().expect("harness: no run").report_slot(my_slot(), msg)
}

pub fn my_slot() -> usize {
    SLOT.with(|s| s.get())
}

pub fn set_slot(i: usize) {
    SLOT.with(|s| s.set(i));
}

pub fn quiet(on: bool) {
    QUIET.with(|q| q.set(on));
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

pub fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
