//! C14, C15: properties of concurrent use, over all schedules within bounds.

use std::{
    any::Any,
    collections::HashSet,
    io,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::*},
        Arc,
    },
};

use serde::{Deserialize, Serialize};
use steit::{
    log::{loggers::BufferLogger, LogEntry, Logger},
    rt::Runtime,
    ser::Serialize as _,
    types::{Bytes, List, Map, Maybe},
};

use crate::{
    conc::{next, pin, run_threads, yield_now, Choice, STALLS},
    dynamic::{root, Dyn, DynState, Root},
    ensure,
    gen::{self, Level},
    hist::act,
    live::{Live, Model},
    model::*,
    run::{hash, my_slot, Check, Run, COUNTED},
    schemas::*,
};

/// Something to be run by several threads, which then may be sent and shared whatever its type.
pub struct Sent<T>(pub T);
unsafe impl<T> Send for Sent<T> {}
unsafe impl<T> Sync for Sent<T> {}
impl<T> Sent<T> {
    pub fn get(self) -> T {
        self.0
    }
}

/// Tells whether a type can be sent or shared, without requiring it.
macro_rules! auto_trait {
    ($name:ident, $t:ty: $bound:path) => {{
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        trait No {
            fn $name(&self) -> bool {
                false
            }
        }
        impl<T: ?Sized> No for &Probe<T> {}
        impl<T: ?Sized + $bound> Probe<T> {
            fn $name(&self) -> bool {
                true
            }
        }
        (&Probe::<$t>(std::marker::PhantomData)).$name()
    }};
}

// ---------------------------------------------------------------- schedules

/// Explores all schedules of a scenario, given how to run one of them.
pub fn schedules<C: Serialize + serde::de::DeserializeOwned>(
    run: &Run,
    kind: &'static str,
    bound: u32,
    with: impl Fn(Vec<u8>) -> C,
    check: impl Fn(&C, &mut Vec<Choice>, &mut u64) -> Check,
    seen: &mut HashSet<u64>,
) {
    let mut prefix = Vec::new();
    let mut count = 0;
    loop {
        let case = with(prefix.clone());
        let (mut trace, mut points) = (Vec::new(), 0);
        run.case(kind, &case, |c| check(c, &mut trace, &mut points));
        run.transitions.fetch_add(points, Relaxed);
        if seen.len() < COUNTED / 10 {
            seen.insert(hash(&prefix));
        }
        count += 1;
        if STALLS.load(Relaxed) > 30 {
            run.note("uncontrolled", "threads block in something the scheduler doesn't know");
            return;
        }
        if run.stopped() {
            return;
        }
        match next(&trace, bound) {
            Some(p) => prefix = p,
            None => break,
        }
    }
    run.add(&format!("schedules_{}", kind), count);
}

// ---------------------------------------------------------------- C14

/// A sink yielding while it logs.
struct Sink {
    inner: BufferLogger,
    inside: Arc<AtomicBool>,
    overlap: Arc<AtomicBool>,
}

impl Logger for Sink {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        if self.inside.swap(true, SeqCst) {
            self.overlap.store(true, SeqCst);
        }
        yield_now();
        let res = self.inner.log(entry);
        self.inside.store(false, SeqCst);
        res
    }
}

/// A type of states with parts which may be changed by different threads.
pub struct Split {
    pub root: Root,
    pub parts: fn(&mut dyn Any) -> Vec<(u32, &mut dyn DynState)>,
    sent: bool,
}

fn part<T: Live>(tag: u32, part: &mut T) -> (u32, &mut dyn DynState) {
    (tag, part)
}

fn of<T: 'static>(any: &mut dyn Any) -> &mut T {
    any.downcast_mut().expect("harness: wrong root")
}

pub fn splits() -> Vec<Split> {
    fn list<T: Live>(any: &mut dyn Any) -> Vec<(u32, &mut dyn DynState)> {
        let items = of::<List<T>>(any).iter_mut();
        items.enumerate().map(|(i, x)| part(i as u32, x)).collect()
    }
    vec![
        Split {
            root: root::<Par>("Par"),
            parts: |any| {
                let Par { p, l, q, n, k, b, .. } = of::<Par>(any);
                vec![part(0, p), part(1, l), part(2, q), part(3, n), part(16, k), part(5, b)]
            },
            sent: auto_trait!(is, Par: Send),
        },
        Split {
            root: root::<List<Pt>>("List<Pt>"),
            parts: list::<Pt>,
            sent: auto_trait!(is, List<Pt>: Send),
        },
        Split {
            root: root::<List<Quad>>("List<Quad>"),
            parts: list::<Quad>,
            sent: auto_trait!(is, List<Quad>: Send),
        },
        Split {
            root: root::<Map<u8, List<Pt>>>("Map<u8,List<Pt>>"),
            parts: |any| {
                let values = of::<Map<u8, List<Pt>>>(any).iter_mut();
                values.map(|(k, x)| part(k as u32, x)).collect()
            },
            sent: auto_trait!(is, List<Pt>: Send),
        },
        Split {
            root: root::<Maybe<List<List<Pt>>>>("Maybe<List<List<Pt>>>"),
            parts: |any| match of::<Maybe<List<List<Pt>>>>(any) {
                Maybe::Some { value, .. } => value
                    .iter_mut()
                    .enumerate()
                    .map(|(i, x)| part(i as u32, x))
                    .collect(),
                Maybe::None { .. } => vec![],
            },
            sent: auto_trait!(is, Maybe<List<List<Pt>>>: Send),
        },
    ]
}

/// Where the part with the given tag is.
pub fn prefix_of(root: &str, tag: u32) -> Vec<u32> {
    match root {
        "Maybe<List<List<Pt>>>" => vec![1, 0, tag],
        _ => vec![tag],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Reading {
    /// Takes all records so far.
    Drain,
    /// Looks at all records so far.
    Peek,
}

#[derive(Clone, Hash, Debug, Serialize, Deserialize)]
struct Parallel {
    root: String,
    start: Val,
    /// What each thread does to the part with the given tag.
    threads: Vec<(u32, Vec<Step>)>,
    /// What one more thread does to the log.
    readings: Vec<Reading>,
    atomics: bool,
    schedule: Vec<u8>,
}

fn split_named<'a>(splits: &'a [Split], name: &str) -> &'a Split {
    splits.iter().find(|s| s.root.name == name).expect("harness: unknown root")
}

/// The value of the part with the given tag.
pub fn part_val<'a>(ty: Ty, v: &'a mut Val, at: &[u32]) -> (Ty, &'a mut Val) {
    let Some((tag, rest)) = at.split_first() else {
        return (ty, v);
    };
    let (ty, v) = match (&**ty, v) {
        (TyDef::Struct(_, fields), Val::Struct(values)) => {
            let i = fields.iter().position(|f| f.tag == *tag).unwrap();
            (fields[i].ty, &mut values[i])
        }
        (TyDef::Enum(_, variants), Val::Enum(now, values)) => {
            assert_eq!(now, tag);
            let fields = &variant(variants, *tag).unwrap().fields;
            let i = fields.iter().position(|f| f.tag == rest[0]).unwrap();
            return part_val(fields[i].ty, &mut values[i], &rest[1..]);
        }
        (TyDef::List(t), Val::Seq(items)) => (*t, &mut items[*tag as usize]),
        (TyDef::Map(_, t), Val::Map(pairs)) => {
            (*t, &mut pairs.iter_mut().find(|p| p.0 == *tag).unwrap().1)
        }
        _ => panic!("harness: no such part"),
    };
    part_val(ty, v, rest)
}

fn parallel(splits: &[Split], case: &Parallel, trace: &mut Vec<Choice>, points: &mut u64) -> Check {
    let split = split_named(splits, &case.root);
    let ty = (split.root.ty)();
    // What is to be expected.
    let mut model = case.start.clone();
    let mut expected: Vec<Vec<(Ret, Vec<Rec>)>> = Vec::new();
    for (tag, steps) in &case.threads {
        let at = prefix_of(&case.root, *tag);
        let (pty, part) = part_val(ty, &mut model, &at);
        let mut all = Vec::new();
        for step in steps {
            let (ret, recs) = perform(pty, part, step).ok_or("harness: step doesn't apply")?;
            let recs = recs.into_iter().map(|rec| under(&at, rec)).collect();
            all.push((ret, recs));
        }
        expected.push(all);
    }
    let (inside, overlap) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let (rt, log) = Runtime::with_logger_returned(Sink {
        inner: BufferLogger::new(),
        inside,
        overlap: overlap.clone(),
    });
    let s: Box<dyn DynState> = (split.root.build)(rt, &case.start);
    log.lock().map_err(|_| "poisoned")?.inner.clear();
    let mut any = s.into_std_any();
    let mut drained: Vec<Vec<u8>> = Vec::new();
    let outcome = {
        let mut parts = (split.parts)(&mut *any);
        let mut bodies: Vec<Box<dyn FnOnce() -> Check + Send>> = Vec::new();
        let mut picked = Vec::new();
        for (tag, _) in &case.threads {
            let i = parts.iter().position(|p| p.0 == *tag).ok_or("harness: no part")?;
            picked.push(Sent(parts.swap_remove(i).1));
        }
        for ((part, (_, steps)), expected) in picked.into_iter().zip(&case.threads).zip(&expected) {
            let expected = Sent(expected);
            bodies.push(Box::new(move || {
                let (part, expected) = (part.get(), expected.get());
                for (step, (ret, _)) in steps.iter().zip(expected) {
                    let done = part.act(&step.path, &step.op).ok_or("a mutator doesn't apply")?;
                    ensure!(done.ret == *ret, "{:?} returned {:?}, not {:?}", step, done.ret, ret);
                }
                Ok(())
            }));
        }
        let sent = Sent((&log, &mut drained));
        if !case.readings.is_empty() {
            bodies.push(Box::new(move || {
                let (log, drained) = sent.get();
                for reading in &case.readings {
                    let mut log = log.lock().map_err(|_| "poisoned")?;
                    match reading {
                        Reading::Drain => drained.push(log.inner.pluck_bytes()),
                        Reading::Peek => {
                            let (x, y) = (log.inner.bytes(), log.inner.bytes());
                            ensure!(x == y, "the log changed while held");
                        }
                    }
                }
                Ok(())
            }));
        }
        run_threads(&case.schedule, case.atomics, bodies)
    };
    *trace = outcome.trace;
    *points = outcome.points;
    for res in outcome.results {
        res?;
    }
    ensure!(!overlap.load(SeqCst), "the sink was called by two threads at once");
    drained.push(log.lock().map_err(|_| "poisoned")?.inner.pluck_bytes());
    // Records, with the drain they're from.
    let mut recs: Vec<(usize, Rec)> = Vec::new();
    for (i, bytes) in drained.iter().enumerate() {
        let some = decode_log(bytes).map_err(|e| format!("garbled log {:?}: {:?}", bytes, e))?;
        recs.extend(some.into_iter().map(|r| (i, r)));
    }
    let mut left = recs.len();
    for ((tag, steps), expected) in case.threads.iter().zip(&expected) {
        let at = prefix_of(&case.root, *tag);
        let mine: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].1.path().starts_with(&at)).collect();
        left -= mine.len();
        let got: Vec<&Rec> = mine.iter().map(|i| &recs[*i].1).collect();
        let want: Vec<&Rec> = expected.iter().flat_map(|e| &e.1).collect();
        ensure!(got == want, "thread of part {} logged {:?} instead of {:?}", tag, got, want);
        let mut i = 0;
        for (step, (_, recs_)) in steps.iter().zip(expected) {
            if matches!(step.op, Op::SwapRemove(_)) && recs_.len() == 2 {
                let (x, y) = (mine[i], mine[i + 1]);
                ensure!(y == x + 1, "records of {:?} aren't adjacent: {:?}", step, recs);
                ensure!(recs[x].0 == recs[y].0, "records of {:?} are drained apart: {:?}", step, recs);
            }
            i += recs_.len();
        }
    }
    ensure!(left == 0, "logged records of no thread: {:?}", recs);
    // The state, and its log.
    let value = (split.root.take)(any);
    let end = value.val();
    ensure!(end == model, "ends as {:?} instead of {:?}", end, model);
    let bytes = value.bytes();
    ensure!(bytes == encode(ty, &model), "encoded as {:?}", bytes);
    let mut copy = (split.root.build)(Runtime::new(), &case.start);
    let all: Vec<u8> = drained.concat();
    copy.replay(&mut &all[..]).map_err(|e| format!("cannot replay the log: {}", e))?;
    ensure!(copy.val() == model, "replayed as {:?} instead of {:?}", copy.val(), model);
    ensure!(copy.equals(value.as_dyn()), "not equal once replayed");
    Ok(())
}

pub fn under(at: &[u32], rec: Rec) -> Rec {
    let path = |p: Vec<u32>| [at, &p].concat();
    match rec {
        Rec::Update(p, v) => Rec::Update(path(p), v),
        Rec::Push(p, v) => Rec::Push(path(p), v),
        Rec::Pop(p) => Rec::Pop(path(p)),
        Rec::Remove(p, k) => Rec::Remove(path(p), k),
    }
}

/// Programs of one mutation.
pub fn singles(ty: Ty, v: &Val) -> Vec<Vec<Step>> {
    gen::ops(ty, v, Level::Tiny).into_iter().map(|s| vec![s]).collect()
}

/// Whether a mutation logs several records, or calls a closure.
pub fn complex(ty: Ty, v: &Val, step: &Step) -> bool {
    let closure = match &step.op {
        Op::Set(_, how) | Op::Push(_, how) | Op::Insert(_, _, how) => *how == How::WithMut,
        _ => false,
    };
    let recs = perform(ty, &mut v.clone(), step).map_or(0, |r| r.1.len());
    closure || recs > 1
}

/// Programs of two mutations, the first one of which or the second one isn't simple.
fn doubles(ty: Ty, v: &Val) -> Vec<Vec<Step>> {
    let mut out = Vec::new();
    for x in gen::ops(ty, v, Level::Tiny) {
        let mut w = v.clone();
        if perform(ty, &mut w, &x).is_none() {
            continue;
        }
        let first = complex(ty, v, &x);
        for y in gen::ops(ty, &w, Level::Tiny) {
            if first || complex(ty, &w, &y) {
                out.push(vec![x.clone(), y]);
            }
        }
    }
    out
}

/// At most `n` of them, evenly spread.
fn spread<T: Clone>(all: &[T], n: usize) -> Vec<T> {
    if all.len() <= n {
        return all.to_vec();
    }
    (0..n).map(|i| all[i * all.len() / n].clone()).collect()
}

pub fn par_starts(ty: Ty) -> Vec<Val> {
    (0..2).map(|n| gen::rich_n(ty, gen::FUEL, n)).collect()
}

/// The tags of parts of a value, with what they are.
pub fn parts_of(split: &Split, v: &Val) -> Vec<(u32, Ty, Val)> {
    let ty = (split.root.ty)();
    let mut any = (split.root.make)(v).into_std_any();
    let tags: Vec<u32> = (split.parts)(&mut *any).iter().map(|p| p.0).collect();
    let part = |tag| {
        let mut v = v.clone();
        let (ty, v) = part_val(ty, &mut v, &prefix_of(split.root.name, tag));
        (tag, ty, v.clone())
    };
    tags.into_iter().map(part).collect()
}

pub fn c14(run: &Run) {
    let splits = splits();
    for split in &splits {
        (split.root.ty)();
    }
    const KIND: &str = "parallel";
    if run.replaying(KIND, |c: &Parallel| parallel(&splits, c, &mut Vec::new(), &mut 0)) {
        return;
    }
    for split in splits.iter().filter(|s| !s.sent) {
        let case = serde_json::json!({"root": split.root.name});
        run.violation("send", case, "cannot be sent to another thread");
    }
    run.assume("Threads interleave at operations on locks and atomics, in the sink and in closures; memory is sequentially consistent.");
    let explore = |name: &str, cases: Vec<(Parallel, u32)>| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        run.add("scenarios", cases.len() as u64);
        run.par(&cases, |(case, bound)| {
            pin(my_slot());
            let mut seen = HashSet::new();
            let with = |schedule| Parallel { schedule, ..case.clone() };
            schedules(run, KIND, *bound, with, |c, t, p| parallel(&splits, c, t, p), &mut seen);
            let base = hash(case);
            run.states_seen(seen.into_iter().map(|h| h ^ base).collect());
            if base % 997 == 3 {
                run.sample(case);
            }
        });
    };
    let mut alone = Vec::new();
    let mut drained = Vec::new();
    let mut atomics = Vec::new();
    let mut longer = Vec::new();
    let mut three = Vec::new();
    let t = run.thorough;
    for split in &splits {
        let ty = (split.root.ty)();
        for (n, start) in par_starts(ty).into_iter().enumerate() {
            let parts = parts_of(split, &start);
            let case = |threads, readings: &[Reading], atomics| Parallel {
                root: split.root.name.into(),
                start: start.clone(),
                threads,
                readings: readings.to_vec(),
                atomics,
                schedule: vec![],
            };
            use Reading::*;
            for (i, (a, aty, av)) in parts.iter().enumerate() {
                for (b, bty, bv) in &parts[i + 1..] {
                    let (xs, ys) = (singles(*aty, av), singles(*bty, bv));
                    let few = if t { 40 } else { 12 };
                    for (k, x) in spread(&xs, few).iter().enumerate() {
                        for (l, y) in spread(&ys, few).iter().enumerate() {
                            let threads = vec![(*a, x.clone()), (*b, y.clone())];
                            alone.push((case(threads.clone(), &[], false), 99));
                            if t || (k + l) % 3 == 0 {
                                drained.push((case(threads.clone(), &[Drain], false), if t { 99 } else { 3 }));
                            }
                            if t || (k + l + n) % 4 == 0 {
                                atomics.push((case(threads.clone(), &[], true), if t { 3 } else { 1 }));
                            }
                            if t || (k + l + n) % 8 == 1 {
                                longer.push((case(threads, &[Drain, Peek, Drain], false), if t { 4 } else { 2 }));
                            }
                        }
                    }
                    let (xs, ys) = (doubles(*aty, av), doubles(*bty, bv));
                    let few = if t { 12 } else { 4 };
                    for x in spread(&xs, few) {
                        for y in spread(&ys, few) {
                            let threads = vec![(*a, x.clone()), (*b, y.clone())];
                            longer.push((case(threads.clone(), &[], false), if t { 99 } else { 4 }));
                            longer.push((case(threads, &[Drain, Drain], false), if t { 4 } else { 2 }));
                        }
                    }
                }
            }
            // Three at a time.
            for i in 0..parts.len() {
                for j in i + 1..parts.len() {
                    for k in j + 1..parts.len() {
                        let pick = |p: &(u32, Ty, Val)| {
                            let mut some = singles(p.1, &p.2);
                            some.sort_by_key(|s| !complex(p.1, &p.2, &s[0]));
                            some.truncate(if t { 3 } else { 1 });
                            (p.0, some)
                        };
                        let (x, y, z) = (pick(&parts[i]), pick(&parts[j]), pick(&parts[k]));
                        for a in &x.1 {
                            for b in &y.1 {
                                for c in &z.1 {
                                    let threads = vec![(x.0, a.clone()), (y.0, b.clone()), (z.0, c.clone())];
                                    three.push((case(threads.clone(), &[], false), if t { 6 } else { 2 }));
                                    three.push((case(threads, &[Drain], false), if t { 3 } else { 1 }));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    explore("two_threads", alone);
    explore("two_threads_and_reader", drained);
    explore("longer_threads", longer);
    explore("three_threads", three);
    explore("atomics", atomics);
}


// ---------------------------------------------------------------- C15

/// A type of values shared by threads.
struct Shared {
    name: &'static str,
    ty: fn() -> Ty,
    make: fn(&Val) -> Box<dyn Dyn>,
    sync: bool,
}

fn shared() -> Vec<Shared> {
    macro_rules! shared {
        ($($t:ty),* $(,)?) => { vec![$(Shared {
            name: stringify!($t),
            ty: <$t as Model>::ty,
            make: |v| Box::new(<$t as Model>::make(v)),
            sync: auto_trait!(is, $t: Sync),
        }),*] };
    }
    shared![
        Pt,
        Wide,
        Quad,
        List<Pt>,
        List<List<u8>>,
        Maybe<List<Pt>>,
        Box<Quad>,
        Gen2,
        Pp,
        C1,
        C3,
        C4,
        C5,
        Vec<Pp>,
        Option<Pp>,
        Blob,
        Bytes,
    ]
}

type Gen2 = Maybe<Maybe<Pt>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Use {
    Bytes,
    ComputeSize,
    CacheSize,
    /// Encodes nested, with the given field number, and whether it may be omitted.
    Nested(Option<u32>, bool),
    CloneBytes,
    /// Encodes to a writer which lets others run.
    Write,
    /// Compares with a clone.
    Clone,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Warmth {
    Cold,
    Warm,
    /// Encoded when its contents were others.
    Stale,
}

#[derive(Clone, Hash, Debug, Serialize, Deserialize)]
struct Sharing {
    ty: String,
    val: Val,
    warmth: Warmth,
    threads: Vec<Vec<Use>>,
    schedule: Vec<u8>,
}

/// A writer which lets other threads run.
struct Slow(Vec<u8>);

impl io::Write for Slow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        yield_now();
        self.0.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn warmed(shared: &Shared, val: &Val, warmth: Warmth) -> Result<(Box<dyn Dyn>, Val), String> {
    let ty = (shared.ty)();
    let mut x = (shared.make)(val);
    let mut model = val.clone();
    match warmth {
        Warmth::Cold => (),
        Warmth::Warm => drop(x.bytes()),
        Warmth::Stale => {
            let more = encode(ty, &gen::rich_n(ty, gen::FUEL, 5));
            x.bytes();
            x.merge(&mut &more[..]).map_err(|e| e.to_string())?;
            merge(ty, &mut model, &mut In::new(&more)).map_err(|e| format!("harness: {:?}", e))?;
        }
    }
    ensure!(x.val() == model, "is {:?} instead of {:?}", x.val(), model);
    Ok((x, model))
}

fn number(use_: Use) -> (Option<u32>, bool) {
    match use_ {
        Use::Nested(number, omissible) => (number, omissible),
        _ => (None, false),
    }
}

/// What a use gives.
fn used(x: &dyn Dyn, use_: Use) -> Result<(Vec<u8>, u32), String> {
    let io = |e: io::Error| e.to_string();
    Ok(match use_ {
        Use::Bytes => (x.bytes(), 0),
        Use::ComputeSize => (vec![], x.compute_size()),
        Use::CacheSize => (vec![], x.cache_size()),
        Use::Nested(..) => {
            let (number, omissible) = number(use_);
            let size = x.size_nested(number, omissible).map_err(io)?;
            // Sizes of what is nested have to be cached first.
            x.cache_size();
            let mut out = Vec::new();
            x.write_nested(number, omissible, &mut out).map_err(io)?;
            (out, size)
        }
        Use::CloneBytes => {
            let y = x.boxed();
            (y.bytes(), y.cache_size())
        }
        Use::Write => {
            let mut slow = Slow(Vec::new());
            x.write(&mut slow).map_err(io)?;
            (slow.0, 0)
        }
        Use::Clone => {
            let y = x.boxed();
            ensure!(x.equals(&*y) && y.equals(x), "a clone differs");
            (vec![], y.compute_size())
        }
    })
}

fn sharing(all: &[Shared], case: &Sharing, trace: &mut Vec<Choice>, points: &mut u64) -> Check {
    let shared = all.iter().find(|s| s.name == case.ty).ok_or("harness: unknown type")?;
    let ty = (shared.ty)();
    let (x, model) = warmed(shared, &case.val, case.warmth)?;
    let bytes = encode(ty, &model);
    let len = bytes.len() as u32;
    let mut expected = Vec::new();
    for uses in &case.threads {
        let alone = |use_: &Use| -> Result<(Vec<u8>, u32), String> {
            Ok(match use_ {
                Use::Bytes | Use::Write => (bytes.clone(), 0),
                Use::ComputeSize | Use::CacheSize | Use::Clone => (vec![], len),
                Use::CloneBytes => (bytes.clone(), len),
                Use::Nested(..) => used(&*(shared.make)(&model), *use_)?,
            })
        };
        expected.push(uses.iter().map(alone).collect::<Result<Vec<_>, _>>()?);
    }
    let mut bodies: Vec<Box<dyn FnOnce() -> Check + Send>> = Vec::new();
    for (uses, expected) in case.threads.iter().zip(&expected) {
        let sent = Sent(&*x);
        bodies.push(Box::new(move || {
            let x = sent.get();
            for (use_, expected) in uses.iter().zip(expected) {
                let got = used(x, *use_)?;
                ensure!(got == *expected, "{:?} gave {:?} instead of {:?}", use_, got, expected);
            }
            Ok(())
        }));
    }
    let outcome = run_threads(&case.schedule, true, bodies);
    *trace = outcome.trace;
    *points = outcome.points;
    for res in outcome.results {
        res?;
    }
    for use_ in [Use::ComputeSize, Use::Bytes, Use::CacheSize, Use::CloneBytes] {
        let want = match use_ {
            Use::Bytes => (bytes.clone(), 0),
            Use::CloneBytes => (bytes.clone(), len),
            _ => (vec![], len),
        };
        let got = used(&*x, use_)?;
        ensure!(got == want, "later, {:?} gave {:?} instead of {:?}", use_, got, want);
    }
    ensure!(x.val() == model, "became {:?} instead of {:?}", x.val(), model);
    Ok(())
}

pub fn c15(run: &Run) {
    let all = shared();
    for s in &all {
        (s.ty)();
    }
    const KIND: &str = "sharing";
    if run.replaying(KIND, |c: &Sharing| sharing(&all, c, &mut Vec::new(), &mut 0)) {
        return;
    }
    for s in all.iter().filter(|s| !s.sync) {
        run.violation("sync", serde_json::json!({"ty": s.name}), "cannot be shared by threads");
    }
    run.assume("Threads interleave at operations on locks and atomics and at writes; memory is sequentially consistent. Maps cannot be shared by threads at all.");
    let explore = |name: &str, cases: Vec<(Sharing, u32)>| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        run.add("scenarios", cases.len() as u64);
        run.par(&cases, |(case, bound)| {
            pin(my_slot());
            let mut seen = HashSet::new();
            let with = |schedule| Sharing { schedule, ..case.clone() };
            schedules(run, KIND, *bound, with, |c, t, p| sharing(&all, c, t, p), &mut seen);
            let base = hash(case);
            run.states_seen(seen.into_iter().map(|h| h ^ base).collect());
            if base % 997 == 3 {
                run.sample(case);
            }
        });
    };
    use Use::*;
    let uses = [Bytes, ComputeSize, CacheSize, Nested(None, false), Nested(Some(3), true), CloneBytes, Write, Clone];
    let t = run.thorough;
    let (mut pairs, mut longer, mut three, mut unbounded) = (vec![], vec![], vec![], vec![]);
    for s in &all {
        let ty = (s.ty)();
        let mut vals = vec![gen::rich_n(ty, gen::FUEL, 0), default(ty)];
        vals.extend(gen::small(ty, Level::Lean).into_iter().skip(1).take(if t { 4 } else { 1 }));
        vals.dedup();
        for (n, val) in vals.iter().enumerate() {
            for warmth in [Warmth::Cold, Warmth::Warm, Warmth::Stale] {
                let case = |threads| Sharing {
                    ty: s.name.into(),
                    val: val.clone(),
                    warmth,
                    threads,
                    schedule: vec![],
                };
                for (i, a) in uses.iter().enumerate() {
                    for b in &uses[i..] {
                        pairs.push((case(vec![vec![*a], vec![*b]]), if t { 3 } else if n == 0 && i % 2 == 0 { 2 } else { 1 }));
                        for c in [Bytes, CacheSize, Write] {
                            if n == 0 && (t || i % 2 == 0 || c == Write) {
                                longer.push((case(vec![vec![*a, c], vec![*b]]), if t { 2 } else { 1 }));
                                three.push((case(vec![vec![*a], vec![*b], vec![c]]), if t { 2 } else { 1 }));
                            }
                        }
                    }
                }
                // All interleavings of small values.
                if n > 0 && ["Pt", "Pp", "Blob", "List<Pt>", "Quad"].contains(&s.name) && encode(ty, val).len() <= 3 {
                    for (i, a) in [Bytes, CacheSize, Clone].iter().enumerate() {
                        for b in &[Bytes, CacheSize, Clone][i..] {
                            unbounded.push((case(vec![vec![*a], vec![*b]]), if t { 99 } else { 8 }));
                        }
                    }
                }
            }
        }
    }
    explore("two_threads", pairs);
    explore("longer_threads", longer);
    explore("three_threads", three);
    explore("all_interleavings", unbounded);
}
