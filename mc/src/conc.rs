//! A scheduler deciding how threads running the real code interleave, and the exploration of its schedules.
//!
//! Threads stop at each synchronization operation (reported by the crate being checked, see
//! `steit::rt::sync`) and wherever the harness yields, and only one runs at a time. Which one runs on is a
//! choice. Schedules are enumerated depth first by rerunning everything with other choices.

use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering::Relaxed},
        mpsc::{channel, Sender},
        Arc, Condvar, Mutex, MutexGuard,
    },
    time::{Duration, Instant},
};

use steit::rt::sync::Op;

use crate::run::{guard, quiet, report_stuck, Check};

/// A choice among `n` threads, `k` being taken, the first one being the one running on if `same`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Choice {
    n: u8,
    k: u8,
    same: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Locking(usize),
    Done,
    /// Blocked in something not known to the scheduler.
    Outside,
}

const NONE: usize = usize::MAX;
/// Points one thread goes through in a row before others get their turn, as it may be spinning.
const PATIENCE: u32 = 300;
/// Points of all threads after which they're said not to end.
const HORIZON: u64 = 20_000;

struct Inner {
    current: usize,
    row: u32,
    status: Vec<Status>,
    owners: HashMap<usize, usize>,
    prefix: Vec<u8>,
    trace: Vec<Choice>,
    points: u64,
    stalls: u32,
    stuck: Option<String>,
}

pub struct Sched {
    inner: Mutex<Inner>,
    wake: Vec<Condvar>,
    main: Condvar,
    atomics: bool,
}

thread_local! {
    static ME: Cell<Option<(*const Sched, usize)>> = const { Cell::new(None) };
    /// Whether a thread is being asked not to yield.
    static STEADY: Cell<bool> = const { Cell::new(false) };
}

/// To be installed as the hook of the crate being checked.
pub fn hook(op: Op) {
    let Ok(Some((sched, me))) = ME.try_with(|m| m.get()) else {
        return;
    };
    let sched = unsafe { &*sched };
    match op {
        Op::Lock(a) => sched.point(me, Status::Locking(a)),
        Op::TryLock(_) => sched.point(me, Status::Ready),
        Op::Locked(a) => drop(sched.lock().owners.insert(a, me)),
        Op::Unlocked(a) => drop(sched.lock().owners.remove(&a)),
        Op::Load(_) | Op::Store(_) | Op::ReadModifyWrite(_) => {
            if sched.atomics {
                sched.point(me, Status::Ready);
            }
        }
    }
}

/// Lets other threads run, if there is a scheduler.
pub fn yield_now() {
    if let Some((sched, me)) = ME.with(|m| m.get()) {
        unsafe { &*sched }.point(me, Status::Ready);
    }
}

impl Sched {
    fn lock(&self) -> MutexGuard<Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Waits for the turn of a thread about to do something.
    fn point(&self, me: usize, status: Status) {
        if STEADY.with(|s| s.get()) && status == Status::Ready {
            return;
        }
        let mut inner = self.lock();
        inner.points += 1;
        if inner.points > HORIZON && inner.stuck.is_none() {
            inner.stuck = Some("threads don't end".into());
            self.main.notify_one();
        }
        let was = inner.status[me];
        inner.status[me] = status;
        if was != Status::Outside || inner.current == NONE {
            self.choose(&mut inner);
        }
        self.turn(inner, me);
    }

    fn turn(&self, mut inner: MutexGuard<Inner>, me: usize) {
        while inner.current != me || inner.stuck.is_some() {
            inner = self.wake[me].wait(inner).unwrap_or_else(|e| e.into_inner());
        }
        if let Status::Locking(a) = inner.status[me] {
            inner.owners.insert(a, me);
            inner.status[me] = Status::Ready;
        }
    }

    fn finish(&self, me: usize) {
        let mut inner = self.lock();
        let was = inner.status[me];
        inner.status[me] = Status::Done;
        inner.owners.retain(|_, t| *t != me);
        if was != Status::Outside || inner.current == NONE {
            self.choose(&mut inner);
        }
    }

    /// Decides which thread runs on.
    fn choose(&self, inner: &mut Inner) {
        let can = |inner: &Inner, t: usize| match inner.status[t] {
            Status::Ready => true,
            Status::Locking(a) => !inner.owners.contains_key(&a),
            Status::Done | Status::Outside => false,
        };
        let before = inner.current;
        let mut able = [0u8; 8];
        let mut n = 0;
        let same = before != NONE && can(inner, before) && inner.row < PATIENCE;
        if same {
            able[0] = before as u8;
            n = 1;
        }
        for t in 0..inner.status.len() {
            if t != before && can(inner, t) {
                able[n] = t as u8;
                n += 1;
            }
        }
        if n == 0 && before != NONE && can(inner, before) {
            able[0] = before as u8;
            n = 1;
        }
        let next = match n {
            0 => NONE,
            1 => able[0] as usize,
            _ => {
                let k = inner.prefix.get(inner.trace.len()).copied().unwrap_or(0).min(n as u8 - 1);
                inner.trace.push(Choice { n: n as u8, k, same });
                able[k as usize] as usize
            }
        };
        inner.row = if next == before { inner.row + 1 } else { 0 };
        inner.current = next;
        if next == NONE {
            let waits = inner.status.iter().any(|s| matches!(s, Status::Locking(_)));
            let outside = inner.status.contains(&Status::Outside);
            if waits && !outside && inner.stuck.is_none() {
                inner.stuck = Some(format!("deadlock: {:?}", inner.status));
            }
            self.main.notify_one();
        } else if next != before {
            self.wake[next].notify_one();
        }
    }
}

pub struct Outcome {
    pub trace: Vec<Choice>,
    pub results: Vec<Check>,
    pub points: u64,
}

type Job = Box<dyn FnOnce() + Send>;

thread_local! {
    static POOL: RefCell<Vec<Sender<Job>>> = const { RefCell::new(Vec::new()) };
}

fn worker() -> Sender<Job> {
    let (sender, jobs) = channel::<Job>();
    std::thread::spawn(move || {
        for job in jobs {
            job();
        }
    });
    sender
}

/// How often the scheduler has had to let a thread block in something it doesn't know.
pub static STALLS: AtomicU64 = AtomicU64::new(0);

/// Runs threads under a schedule, being the given choices and then as few switches as possible.
pub fn run_threads<'a>(
    prefix: &[u8],
    atomics: bool,
    bodies: Vec<Box<dyn FnOnce() -> Check + Send + 'a>>,
) -> Outcome {
    let n = bodies.len();
    let sched = Arc::new(Sched {
        inner: Mutex::new(Inner {
            current: NONE,
            row: 0,
            status: vec![Status::Ready; n],
            owners: HashMap::new(),
            prefix: prefix.to_vec(),
            trace: Vec::new(),
            points: 0,
            stalls: 0,
            stuck: None,
        }),
        wake: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        atomics,
    });
    let me = crate::run::my_slot();
    let results = Arc::new(Mutex::new(vec![Ok(()); n]));
    for (t, body) in bodies.into_iter().enumerate() {
        let (sched, results) = (sched.clone(), results.clone());
        let job: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
            crate::run::set_slot(me);
            quiet(true);
            sched.turn(sched.lock(), t);
            ME.with(|m| m.set(Some((&*sched, t))));
            let result = guard(body);
            ME.with(|m| m.set(None));
            results.lock().unwrap()[t] = result;
            sched.finish(t);
        });
        // This function doesn't return before the job has called its body.
        let job: Job = unsafe { std::mem::transmute(job) };
        POOL.with(|pool| {
            let mut pool = pool.borrow_mut();
            if pool.len() <= t {
                pool.push(worker());
            }
            pool[t].send(job).unwrap();
        });
    }
    {
        let mut inner = sched.lock();
        sched.choose(&mut inner);
        let (mut seen, mut since) = (inner.points, Instant::now());
        while inner.status.iter().any(|s| *s != Status::Done) {
            if let Some(stuck) = &inner.stuck {
                let stuck = stuck.clone();
                drop(inner);
                report_stuck(&stuck);
            }
            inner = sched
                .main
                .wait_timeout(inner, Duration::from_millis(500))
                .unwrap_or_else(|e| e.into_inner())
                .0;
            if inner.points != seen {
                (seen, since) = (inner.points, Instant::now());
            } else if since.elapsed() > Duration::from_secs(20) {
                let stuck = format!("threads neither run nor end: {:?}", inner.status);
                drop(inner);
                report_stuck(&stuck);
            } else if inner.current != NONE && since.elapsed() > Duration::from_secs(2) {
                // It may be blocked by a thread waiting for its turn.
                let t = inner.current;
                if inner.status[t] == Status::Ready {
                    inner.status[t] = Status::Outside;
                    inner.current = NONE;
                    inner.stalls += 1;
                    STALLS.fetch_add(1, Relaxed);
                    sched.choose(&mut inner);
                }
            }
        }
    }
    let inner = sched.lock();
    let results = results.lock().unwrap().clone();
    Outcome {
        trace: inner.trace.clone(),
        results,
        points: inner.points,
    }
}

/// The next schedule in depth-first order, if any, with at most so many preemptions.
pub fn next(trace: &[Choice], bound: u32) -> Option<Vec<u8>> {
    let mut cost = trace.iter().filter(|c| c.same && c.k > 0).count() as u32;
    for i in (0..trace.len()).rev() {
        let c = trace[i];
        if c.same && c.k > 0 {
            cost -= 1;
        }
        if c.k + 1 < c.n && (!c.same || cost < bound) {
            let mut prefix: Vec<u8> = trace[..i].iter().map(|c| c.k).collect();
            prefix.push(c.k + 1);
            return Some(prefix);
        }
    }
    None
}

/// Keeps this thread and those it starts on one processor, as only one of them runs at a time anyway.
pub fn pin(i: usize) {
    extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut mask = [0u64; 16];
    let size = std::mem::size_of_val(&mask);
    if unsafe { sched_getaffinity(0, size, mask.as_mut_ptr()) } < 0 {
        return;
    }
    let able: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
    if able.is_empty() {
        return;
    }
    let cpu = able[i % able.len()];
    let mut one = [0u64; 16];
    one[cpu / 64] = 1 << (cpu % 64);
    unsafe { sched_setaffinity(0, size, one.as_ptr()) };
}
