//! C13, C23: pausing, and log sinks.

use std::{
    cell::RefCell,
    io,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{atomic::Ordering::Relaxed, Arc, Mutex},
};

use serde::{Deserialize, Serialize};
use steit::{
    log::{
        loggers::{BufferLogger, NoopLogger, PanicLogger, WriterLogger},
        LogEntry, Logger,
    },
    rt::{LoggerHandle, PausableLogger, Runtime},
    ser::Serialize as _,
};

use crate::{
    conc::{pin, run_threads, Choice},
    ensure,
    gen::{self, Level},
    hist::*,
    live::INSIDE,
    model::*,
    props_conc::*,
    run::{hash, my_slot, Check, Run},
};

// ---------------------------------------------------------------- C13

/// Through what a logger is paused.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Via {
    /// A node of one of the trees.
    Node(usize, Vec<u32>),
    /// A runtime derived from that of a node, as those of children and parents.
    Derived(usize, Vec<u32>),
    /// The handle of the logger.
    Handle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Act {
    Pause(Via),
    Unpause(Via),
    Do(usize, Step),
    /// A mutation with a closure, and what the closure does first.
    With(usize, Step, Box<Act>),
    Panic,
    /// Replaces the sink.
    Replace,
    /// Reads, encodes, decodes and replays.
    Look(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Paused {
    roots: Vec<String>,
    starts: Vec<Val>,
    acts: Vec<Act>,
}

struct World {
    roots: Vec<&'static crate::dynamic::Root>,
    trees: Vec<Option<State>>,
    rt: Runtime,
    log: Log,
    models: Vec<Val>,
    paused: u32,
    recs: Vec<Rec>,
}

/// The runtime of the node at a path, which may have been removed in the meantime.
fn runtime_at(s: &mut State, path: &[u32]) -> Runtime {
    let mut found = None;
    s.at(path, &mut |node| {
        if is_state(node.ty()) && wire(node.ty()) == SIZED {
            found = Some(node.get_runtime())
        }
    });
    found.unwrap_or_else(|| s.get_runtime())
}

impl World {
    fn pausing(&mut self, via: &Via, pause: bool) -> Check {
        let count = match via {
            Via::Handle => {
                let mut log = self.log.lock().map_err(|_| "poisoned")?;
                if pause { log.pause() } else { log.unpause() }
            }
            Via::Node(tree, path) | Via::Derived(tree, path) => {
                let rt = match &mut self.trees[*tree] {
                    Some(s) => runtime_at(s, path),
                    None => return Ok(()),
                };
                let rt = match via {
                    Via::Derived(..) => rt.nested(3).sibling(1).parent(),
                    _ => rt,
                };
                if pause { rt.pause_logger() } else { rt.unpause_logger() }
            }
        };
        match pause {
            true => self.paused += 1,
            false => self.paused = self.paused.saturating_sub(1),
        }
        ensure!(count == self.paused, "{} paused, {} returned", self.paused, count);
        Ok(())
    }

    fn log(&mut self, recs: impl IntoIterator<Item = Rec>) {
        if self.paused == 0 {
            self.recs.extend(recs);
        }
    }

    fn check(&self) -> Check {
        let bytes = self.log.lock().map_err(|_| "the logger is poisoned")?.bytes();
        let logged = decode_log(&bytes).map_err(|e| format!("garbled log: {}", e.0))?;
        ensure!(
            logged == self.recs,
            "with {} pauses, logged {:?} instead of {:?}",
            self.paused,
            logged,
            self.recs
        );
        Ok(())
    }
}

fn perform_act(world: &Rc<RefCell<World>>, act_: &Act) -> Check {
    let mut w = world.borrow_mut();
    match act_ {
        Act::Pause(via) => w.pausing(via, true),
        Act::Unpause(via) => w.pausing(via, false),
        Act::Do(tree, step) => {
            let ty = (w.roots[*tree].ty)();
            let Some((want, recs)) = perform(ty, &mut w.models[*tree], step) else {
                return Ok(());
            };
            w.log(recs);
            let Some(s) = &mut w.trees[*tree] else {
                return Err("harness: busy tree".into());
            };
            let done = act(s, step).ok_or("a mutator doesn't apply")?;
            let val = s.val();
            ensure!(done.0 == want, "{:?} returned {:?} instead of {:?}", step, done.0, want);
            ensure!(val == w.models[*tree], "{:?} made {:?} instead of {:?}", step, val, w.models[*tree]);
            w.check()
        }
        Act::With(tree, step, inside) => {
            let ty = (w.roots[*tree].ty)();
            let before = w.models[*tree].clone();
            let mut after = before.clone();
            let Some((want, mut recs)) = perform(ty, &mut after, step) else {
                return Ok(());
            };
            // Switching the variant comes first.
            if recs.len() == 2 {
                let first = recs.remove(0);
                let mut switched = before.clone();
                apply(ty, &mut switched, &first).0.map_err(|_| "harness: cannot switch")?;
                w.models[*tree] = switched;
                w.log([first]);
            }
            let mut s = w.trees[*tree].take().ok_or("harness: busy tree")?;
            drop(w);
            let failed = Rc::new(RefCell::new(Ok(())));
            let (world_, inside_, failed_) = (world.clone(), inside.clone(), failed.clone());
            let hook = move || {
                if let Act::Panic = *inside_ {
                    panic!("on purpose");
                }
                *failed_.borrow_mut() = perform_act(&world_, &inside_);
            };
            INSIDE.with(|i| *i.borrow_mut() = Some(Box::new(hook)));
            let done = catch_unwind(AssertUnwindSafe(|| act(&mut s, step)));
            INSIDE.with(|i| *i.borrow_mut() = None);
            let mut w = world.borrow_mut();
            let val = s.val();
            w.trees[*tree] = Some(s);
            failed.replace(Ok(()))?;
            match (&**inside, done) {
                (Act::Panic, Err(_)) => (),
                (Act::Panic, Ok(_)) => return Err("a panic of a closure was swallowed".into()),
                (_, Err(_)) => return Err(format!("{:?} panicked", step)),
                (_, Ok(done)) => {
                    let done = done.ok_or("a mutator doesn't apply")?;
                    ensure!(done.0 == want, "{:?} returned {:?} instead of {:?}", step, done.0, want);
                    w.models[*tree] = after;
                    w.log(recs);
                }
            }
            ensure!(val == w.models[*tree], "{:?} made {:?} instead of {:?}", step, val, w.models[*tree]);
            w.check()
        }
        Act::Panic => Err("harness: misplaced panic".into()),
        Act::Replace => {
            w.log.lock().map_err(|_| "poisoned")?.replace(BufferLogger::new());
            w.recs.clear();
            w.check()
        }
        Act::Look(tree) => {
            let (root, rt) = (w.roots[*tree], w.rt.clone());
            if let Some(s) = &mut w.trees[*tree] {
                let bytes = s.bytes();
                let mut other = (root.with_runtime)(rt);
                decode_into(&mut other, &bytes)?;
                let rec = Rec::Update(vec![], bytes);
                replay(&mut other, &rec.encode_nested())?;
                replay(s, &rec.encode_nested())?;
                drop(s.boxed_state());
            }
            w.check()
        }
    }
}

fn paused(case: &Paused) -> Check {
    set_access(0);
    let (rt, log) = logger();
    let roots: Vec<_> = case.roots.iter().map(|r| root_named(r)).collect();
    let mut trees = Vec::new();
    for (i, (root, v)) in roots.iter().zip(&case.starts).enumerate() {
        let how = if i % 2 == 0 { Start::Built(v.clone()) } else { Start::Decoded(v.clone()) };
        trees.push(Some(start(root, &how, rt.clone())?));
    }
    log.lock().unwrap().clear();
    // Another logger, which mustn't be affected.
    let (other_rt, other_log) = logger();
    let mut other = start(roots[0], &Start::Built(case.starts[0].clone()), other_rt)?;
    other_log.lock().unwrap().clear();
    let world = Rc::new(RefCell::new(World {
        roots,
        trees,
        rt,
        log,
        models: case.starts.clone(),
        paused: 0,
        recs: vec![],
    }));
    for act in &case.acts {
        perform_act(&world, act)?;
    }
    let mut w = world.borrow_mut();
    // Once unpaused, everything is logged again.
    while w.paused > 0 {
        w.pausing(&Via::Handle, false)?;
    }
    w.pausing(&Via::Node(0, vec![]), false)?;
    drop(w);
    for tree in 0..case.roots.len() {
        let (ty, v) = {
            let w = world.borrow();
            ((w.roots[tree].ty)(), w.models[tree].clone())
        };
        if let Some(step) = gen::ops(ty, &v, Level::Tiny).into_iter().last() {
            perform_act(&world, &Act::Do(tree, step))?;
        }
    }
    let w = world.borrow();
    for (s, v) in w.trees.iter().zip(&w.models) {
        ensure!(s.as_ref().unwrap().val() == *v, "contents are wrong in the end");
    }
    let mut v = case.starts[0].clone();
    let ty = (w.roots[0].ty)();
    if let Some(step) = gen::ops(ty, &v, Level::Tiny).into_iter().next() {
        let (_, recs) = perform(ty, &mut v, &step).ok_or("harness: step doesn't apply")?;
        act(&mut other, &step);
        let logged = decode_log(&bytes_of(&other_log)).map_err(|e| e.0)?;
        ensure!(logged == recs, "another logger logged {:?} instead of {:?}", logged, recs);
    }
    Ok(())
}

/// Pausing concurrently.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Piece {
    Pause,
    Unpause,
    Do(Step),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Pausing {
    root: String,
    start: Val,
    threads: Vec<(u32, Vec<Piece>)>,
    schedule: Vec<u8>,
}

/// What a thread does to the logger: an atomic step, with what's been observed.
#[derive(Clone, Debug)]
enum Atom {
    Pause(u32),
    Unpause(u32),
    /// Records logged at once.
    Log(Vec<Rec>),
}

/// Whether some order of atomic steps explains the log and the counts returned.
fn explained(threads: &[Vec<Atom>], at: &mut Vec<usize>, paused: u32, log: &[Rec]) -> bool {
    if threads.iter().zip(at.iter()).all(|(t, i)| t.len() == *i) {
        return log.is_empty();
    }
    for t in 0..threads.len() {
        let Some(atom) = threads[t].get(at[t]) else {
            continue;
        };
        let (paused, rest) = match atom {
            Atom::Pause(n) if *n == paused + 1 => (paused + 1, log),
            Atom::Unpause(n) if *n == paused.saturating_sub(1) => (*n, log),
            Atom::Log(_) if paused > 0 => (paused, log),
            Atom::Log(recs) => match log.strip_prefix(&recs[..]) {
                Some(rest) => (paused, rest),
                None => continue,
            },
            _ => continue,
        };
        at[t] += 1;
        let ok = explained(threads, at, paused, rest);
        at[t] -= 1;
        if ok {
            return true;
        }
    }
    false
}

fn pausing(splits: &[Split], case: &Pausing, trace: &mut Vec<Choice>, points: &mut u64) -> Check {
    let split = splits.iter().find(|s| s.root.name == case.root).ok_or("harness: unknown root")?;
    let ty = (split.root.ty)();
    let mut model = case.start.clone();
    // Mutations, with what they log in each atomic step.
    let mut atoms: Vec<Vec<Vec<Atom>>> = Vec::new();
    for (tag, pieces) in &case.threads {
        let at = prefix_of(&case.root, *tag);
        let (pty, part) = part_val(ty, &mut model, &at);
        let mut all = Vec::new();
        for piece in pieces {
            all.push(match piece {
                Piece::Pause => vec![Atom::Pause(0)],
                Piece::Unpause => vec![Atom::Unpause(0)],
                Piece::Do(step) => {
                    let (_, recs) = perform(pty, part, step).ok_or("harness: step doesn't apply")?;
                    let recs: Vec<Rec> = recs.into_iter().map(|r| under(&at, r)).collect();
                    match step.op {
                        Op::SwapRemove(_) => vec![Atom::Log(recs)],
                        _ => recs.into_iter().map(|r| Atom::Log(vec![r])).collect(),
                    }
                }
            });
        }
        atoms.push(all);
    }
    let (rt, log) = logger();
    let s = (split.root.build)(rt.clone(), &case.start);
    log.lock().map_err(|_| "poisoned")?.clear();
    let mut any = s.into_std_any();
    {
        let mut parts = (split.parts)(&mut *any);
        let mut bodies: Vec<Box<dyn FnOnce() -> Check + Send>> = Vec::new();
        let mut picked = Vec::new();
        for (tag, _) in &case.threads {
            let i = parts.iter().position(|p| p.0 == *tag).ok_or("harness: no part")?;
            picked.push(Sent(parts.swap_remove(i).1));
        }
        for ((part, (_, pieces)), atoms) in picked.into_iter().zip(&case.threads).zip(&mut atoms) {
            let sent = Sent((atoms, rt.clone()));
            bodies.push(Box::new(move || {
                let (part, (atoms, rt)) = (part.get(), sent.get());
                for (piece, atoms) in pieces.iter().zip(atoms) {
                    match piece {
                        Piece::Pause => atoms[0] = Atom::Pause(rt.pause_logger()),
                        Piece::Unpause => atoms[0] = Atom::Unpause(rt.unpause_logger()),
                        Piece::Do(step) => {
                            part.act(&step.path, &step.op).ok_or("a mutator doesn't apply")?;
                        }
                    }
                }
                Ok(())
            }));
        }
        let outcome = run_threads(&case.schedule, false, bodies);
        *trace = outcome.trace;
        *points = outcome.points;
        for res in outcome.results {
            res?;
        }
    }
    let logged = decode_log(&bytes_of(&log)).map_err(|e| format!("garbled log: {}", e.0))?;
    let threads: Vec<Vec<Atom>> = atoms.into_iter().map(|t| t.into_iter().flatten().collect()).collect();
    let mut at = vec![0; threads.len()];
    ensure!(
        explained(&threads, &mut at, 0, &logged),
        "no order of {:?} logs {:?}",
        threads,
        logged
    );
    let value = (split.root.take)(any);
    ensure!(value.val() == model, "ends as {:?} instead of {:?}", value.val(), model);
    Ok(())
}

pub fn c13(run: &Run) {
    const KIND: &str = "paused";
    const KIND2: &str = "pausing";
    let splits = splits();
    for split in &splits {
        (split.root.ty)();
    }
    if run.replaying(KIND, paused) {
        run.replaying(KIND2, |c: &Pausing| pausing(&splits, c, &mut Vec::new(), &mut 0));
        return;
    }
    run.phase("sequences");
    let pairs = [
        ("Deep", "List<Sh>"),
        ("Tree", "Map<u8,List<Sh>>"),
        ("Opts", "EnR"),
        ("Nest", "Maybe<Pt>"),
        ("List<List<u8>>", "Ns"),
        ("Map<u8,Tree>", "Box<Sh>"),
        ("Gen<Sh>", "Map<u16,Pt>"),
        ("List<Map<u8,Pt>>", "NsEnum"),
    ];
    let depth = if run.thorough { 5 } else { 4 };
    let mut items = Vec::new();
    for (a, b) in pairs {
        let roots = [a, b];
        let starts: Vec<Val> = roots.iter().map(|r| gen::rich_n((root_named(r).ty)(), gen::FUEL, 1)).collect();
        let variants = if run.thorough { 12 } else { 6 };
        for variant in 0..variants {
            items.push((roots, starts.clone(), variant));
        }
        // Shapes of nothing but defaults.
        items.push((roots, roots.iter().map(|r| default((root_named(r).ty)())).collect(), 0));
    }
    run.par(&items, |(roots, starts, variant)| {
        let acts = alphabet(roots, starts, *variant, run.thorough);
        let mut case = Paused {
            roots: roots.iter().map(|r| r.to_string()).collect(),
            starts: starts.clone(),
            acts: vec![],
        };
        let mut seen = std::collections::HashSet::new();
        sequences(run, KIND, &acts, depth, &mut case, &mut seen);
        run.states_seen(seen);
    });
    run.phase("schedules");
    let mut cases = Vec::new();
    let t = run.thorough;
    for split in &splits {
        let ty = (split.root.ty)();
        for start in par_starts(ty).into_iter().take(if t { 2 } else { 1 }) {
            let parts = parts_of(split, &start);
            for (i, (a, aty, av)) in parts.iter().enumerate() {
                for (b, bty, bv) in &parts[i + 1..] {
                    let pick = |ty, v: &Val, n: usize| {
                        let mut all: Vec<Step> = singles(ty, v).into_iter().map(|mut s| s.remove(0)).collect();
                        all.sort_by_key(|s| !complex(ty, v, s));
                        all.truncate(n);
                        all
                    };
                    use Piece::*;
                    for x in pick(*aty, av, if t { 8 } else { 4 }) {
                        for y in pick(*bty, bv, if t { 8 } else { 4 }) {
                            let (x, y) = (Do(x.clone()), Do(y.clone()));
                            let mut add = |p: Vec<Piece>, q: Vec<Piece>| {
                                cases.push(Pausing {
                                    root: split.root.name.into(),
                                    start: start.clone(),
                                    threads: vec![(*a, p), (*b, q)],
                                    schedule: vec![],
                                })
                            };
                            add(vec![Pause, Unpause], vec![y.clone()]);
                            add(vec![Pause, x.clone(), Unpause], vec![y.clone()]);
                            add(vec![x.clone(), Pause, Unpause], vec![Pause, y.clone(), Unpause]);
                            add(vec![Unpause, Pause], vec![Pause, y.clone()]);
                        }
                    }
                }
            }
        }
    }
    run.par(&cases, |case| {
        pin(my_slot());
        let mut seen = Default::default();
        let with = |schedule| Pausing { schedule, ..case.clone() };
        let bound = if t { 99 } else { 4 };
        schedules(run, KIND2, bound, with, |c, t, p| pausing(&splits, c, t, p), &mut seen);
        let base = hash(case);
        run.states_seen(seen.into_iter().map(|h| h ^ base).collect());
    });
}

/// What may be done next, differing by variant.
fn alphabet(roots: &[&str; 2], starts: &[Val], variant: usize, thorough: bool) -> Vec<Act> {
    let mut acts = Vec::new();
    let mut steps: Vec<Vec<Step>> = Vec::new();
    let mut nodes: Vec<Vec<Vec<u32>>> = Vec::new();
    for (root, v) in roots.iter().zip(starts) {
        let ty = (root_named(root).ty)();
        steps.push(gen::ops(ty, v, if thorough { Level::Lean } else { Level::Tiny }));
        nodes.push(crate::props_hist::nodes(ty, v).into_iter().map(|n| n.0).collect());
    }
    let node = |tree: usize, n: usize| nodes[tree][(variant * 3 + n) % nodes[tree].len()].clone();
    acts.push(Act::Pause(Via::Node(0, node(0, 0))));
    acts.push(Act::Unpause(Via::Node(1, node(1, 1))));
    if variant % 2 == 0 {
        acts.push(Act::Pause(Via::Handle));
        acts.push(Act::Unpause(Via::Derived(0, node(0, 2))));
    } else {
        acts.push(Act::Pause(Via::Derived(1, node(1, 2))));
        acts.push(Act::Unpause(Via::Handle));
    }
    let step = |tree: usize, n: usize| steps[tree][(variant * 5 + n * 3) % steps[tree].len()].clone();
    let with = |tree: usize, n: usize| -> Option<Step> {
        let able: Vec<&Step> = steps[tree]
            .iter()
            .filter(|s| match &s.op {
                Op::Set(_, how) | Op::Push(_, how) | Op::Insert(_, _, how) => {
                    !matches!(how, How::Value | How::Hand)
                }
                _ => false,
            })
            .collect();
        able.get((variant + n) % able.len().max(1)).map(|s| (*s).clone())
    };
    acts.push(Act::Do(0, step(0, 0)));
    acts.push(Act::Do(1, step(1, 1)));
    if let Some(several) = steps[variant % 2].iter().find(|s| matches!(s.op, Op::SwapRemove(0))) {
        acts.push(Act::Do(variant % 2, several.clone()));
    }
    if let Some(s) = with(0, 0) {
        acts.push(Act::With(0, s.clone(), Box::new(Act::Panic)));
        acts.push(Act::With(0, s.clone(), Box::new(Act::Do(1, step(1, 2)))));
        match variant % 3 {
            0 => acts.push(Act::With(0, s, Box::new(Act::Pause(Via::Handle)))),
            1 => acts.push(Act::With(0, s, Box::new(Act::Unpause(Via::Handle)))),
            _ => {
                if let Some(t) = with(1, 1) {
                    let inner = Act::With(1, t, Box::new(Act::Look(1)));
                    acts.push(Act::With(0, s, Box::new(inner)));
                }
            }
        }
    }
    if let Some(s) = with(1, 1) {
        acts.push(Act::With(1, s.clone(), Box::new(Act::Panic)));
    }
    acts.push(Act::Replace);
    if variant % 2 == 0 {
        acts.push(Act::Look(0));
    }
    acts
}

fn sequences(
    run: &Run,
    kind: &'static str,
    acts: &[Act],
    depth: usize,
    case: &mut Paused,
    seen: &mut std::collections::HashSet<u64>,
) {
    if run.stopped() {
        return;
    }
    run.case(kind, case, paused);
    seen.insert(hash(case));
    run.transitions.fetch_add(case.acts.len() as u64, Relaxed);
    if hash(case) % 40009 == 5 {
        run.sample(case);
    }
    if case.acts.len() < depth {
        for act in acts {
            case.acts.push(act.clone());
            sequences(run, kind, acts, depth, case, seen);
            case.acts.pop();
        }
    }
}


// ---------------------------------------------------------------- C23

/// How a sink fails.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Failure {
    Never,
    /// On the record with the given number, leaving it out.
    Error(usize),
    /// On the record with the given number, having kept it.
    LateError(usize),
    Panic(usize),
}

type Kept = Arc<Mutex<Vec<Vec<u8>>>>;

/// A sink keeping encoded records, and failing.
struct Tap {
    kept: Kept,
    calls: usize,
    failure: Failure,
}

impl Logger for Tap {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        let mut bytes = Vec::new();
        entry.cache_size();
        entry.serialize_nested(None, false, &mut bytes)?;
        let me = self.calls;
        self.calls += 1;
        crate::conc::yield_now();
        match self.failure {
            Failure::Error(n) if n == me => return Err(io::Error::new(io::ErrorKind::Other, "on purpose")),
            Failure::LateError(n) if n == me => {
                self.kept.lock().unwrap().push(bytes);
                return Err(io::Error::new(io::ErrorKind::Other, "on purpose"));
            }
            Failure::Panic(n) if n == me => panic!("on purpose"),
            _ => (),
        }
        self.kept.lock().unwrap().push(bytes);
        Ok(())
    }
}

fn tap(failure: Failure) -> (Tap, Kept) {
    let kept = Kept::default();
    let tap = Tap {
        kept: kept.clone(),
        calls: 0,
        failure,
    };
    (tap, kept)
}

fn kept(kept: &Kept) -> Result<Vec<Rec>, String> {
    let all = kept.lock().unwrap_or_else(|e| e.into_inner()).concat();
    decode_log(&all).map_err(|e| format!("garbled records {:?}: {}", all, e.0))
}

/// What a mutation comes to if logging its record with the given number fails.
struct Failed {
    /// What the contents may be.
    vals: Vec<Val>,
    recs: Vec<Rec>,
}

fn failed(ty: Ty, before: &Val, recs: &[Rec], at: usize, late: bool) -> Failed {
    let mut vals = vec![before.clone()];
    // Switching a variant is logged and made before its field is set.
    if at == 1 && matches!(recs[0], Rec::Update(..)) {
        let mut switched = before.clone();
        if apply(ty, &mut switched, &recs[0]).0.is_ok() {
            vals.push(switched);
        }
    }
    Failed {
        vals,
        recs: recs[..at + late as usize].to_vec(),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Failing {
    hist: Hist,
    failure: Failure,
}

fn failing(case: &Failing) -> Check {
    let root = root_named(&case.hist.root);
    let ty = (root.ty)();
    set_access(case.hist.access);
    let (sink, all) = tap(Failure::Never);
    let (rt, log) = Runtime::with_logger_returned(sink);
    let mut s = start(root, &case.hist.start, rt)?;
    {
        let mut log = log.lock().unwrap();
        all.lock().unwrap().clear();
        log.calls = 0;
        log.failure = case.failure;
    }
    let mut model = case.hist.start.val(ty);
    let mut recs: Vec<Rec> = Vec::new();
    let mut calls = 0;
    let mut poisoned = false;
    let (fails, late, panics) = match case.failure {
        Failure::Never => (usize::MAX, false, false),
        Failure::Error(n) => (n, false, false),
        Failure::LateError(n) => (n, true, false),
        Failure::Panic(n) => (n, false, true),
    };
    for step in &case.hist.steps {
        let before = model.clone();
        let mut after = before.clone();
        let Some((want, new)) = perform(ty, &mut after, step) else {
            continue;
        };
        let done = catch_unwind(AssertUnwindSafe(|| act(&mut s, step)));
        let val = s.val();
        if poisoned && !new.is_empty() {
            // Either refuses, or works again.
            match done {
                Err(_) => ensure!(val == before, "{:?} panicked, but made {:?}", step, val),
                Ok(_) => {
                    ensure!(val == after, "{:?} made {:?}", step, val);
                    recs.extend(new);
                    model = after;
                }
            }
            continue;
        }
        if fails >= calls && fails < calls + new.len() {
            ensure!(done.is_err(), "a failure of the sink to log {:?} was silent", step);
            let failed = failed(ty, &before, &new, fails - calls, late);
            ensure!(
                failed.vals.contains(&val),
                "{:?} made {:?} though the sink failed",
                step,
                val
            );
            calls = fails + 1;
            model = val;
            recs.extend(failed.recs);
            poisoned = panics;
        } else {
            let done = done.map_err(|_| format!("{:?} panicked", step))?;
            let done = done.ok_or("a mutator doesn't apply")?;
            ensure!(done.0 == want, "{:?} returned {:?} instead of {:?}", step, done.0, want);
            ensure!(val == after, "{:?} made {:?} instead of {:?}", step, val, after);
            calls += new.len();
            recs.extend(new);
            model = after;
        }
        let got = kept(&all)?;
        ensure!(got == recs, "the sink got {:?} instead of {:?}", got, recs);
    }
    let got = kept(&all)?;
    ensure!(got == recs, "the sink got {:?} instead of {:?} in the end", got, recs);
    // Everything else keeps working.
    ensure!(s.bytes() == encode(ty, &model), "encoded wrongly after a failure");
    s.audit()?;
    let copy = s.boxed_state();
    ensure!(copy.equals(s.as_dyn()), "a clone differs after a failure");
    let rec = Rec::Update(vec![], encode(ty, &model));
    replay(&mut s, &rec.encode_nested())?;
    let reachable = log.lock().unwrap_or_else(|e| e.into_inner()).calls;
    ensure!(reachable == calls || poisoned, "{} records reached the sink, not {}", reachable, calls);
    let (sink, all) = tap(Failure::Never);
    if !poisoned {
        log.lock().map_err(|_| "the logger is poisoned")?.replace(sink);
    } else {
        s.set_runtime(Runtime::with_logger(sink));
    }
    for step in gen::ops(ty, &model, Level::Tiny).into_iter().take(3) {
        let Some((_, recs)) = perform(ty, &mut model, &step) else {
            continue;
        };
        all.lock().unwrap().clear();
        act(&mut s, &step);
        let got = kept(&all)?;
        ensure!(got == recs, "with another sink, {:?} logged {:?} instead of {:?}", step, got, recs);
        ensure!(s.val() == model, "with another sink, {:?} made {:?}", step, s.val());
    }
    Ok(())
}

/// What is done to a buffering sink.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Buffer {
    Do(usize),
    Bytes,
    Clear,
    Pluck,
    PluckBytes,
    Replace,
    /// Has another sink take over, without losing what there is.
    Swap,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Buffering {
    root: String,
    start: Val,
    acts: Vec<Buffer>,
}

fn encoded_entries(entries: &[LogEntry]) -> Vec<u8> {
    let mut bytes = Vec::new();
    for entry in entries {
        entry.cache_size();
        entry.serialize_nested(None, false, &mut bytes).unwrap();
    }
    bytes
}

fn buffering(case: &Buffering) -> Check {
    set_access(0);
    let root = root_named(&case.root);
    let ty = (root.ty)();
    let (rt, log) = logger();
    let mut s = start(root, &Start::Built(case.start.clone()), rt)?;
    let mut model = case.start.clone();
    log.lock().unwrap().clear();
    let mut recs: Vec<Rec> = Vec::new();
    let same = |what: &str, bytes: &[u8], recs: &[Rec]| -> Check {
        let got = decode_log(bytes).map_err(|e| format!("{}: garbled log: {}", what, e.0))?;
        ensure!(got == recs, "{}: {:?} instead of {:?}", what, got, recs);
        Ok(())
    };
    for a in case.acts.iter().chain([&Buffer::Bytes]) {
        match a {
            Buffer::Do(n) => {
                let steps = gen::ops(ty, &model, Level::Tiny);
                let step = &steps[n % steps.len()];
                let (_, new) = perform(ty, &mut model, step).ok_or("harness: step doesn't apply")?;
                act(&mut s, step);
                recs.extend(new);
            }
            Buffer::Bytes => same("bytes", &log.lock().unwrap().bytes(), &recs)?,
            Buffer::Clear => {
                log.lock().unwrap().clear();
                recs.clear();
            }
            Buffer::Pluck => {
                let entries = log.lock().unwrap().pluck();
                ensure!(entries.len() == recs.len(), "plucked {} records, not {}", entries.len(), recs.len());
                same("pluck", &encoded_entries(&entries), &recs)?;
                recs.clear();
            }
            Buffer::PluckBytes => {
                same("pluck_bytes", &log.lock().unwrap().pluck_bytes(), &recs)?;
                recs.clear();
            }
            Buffer::Replace => {
                log.lock().unwrap().replace(BufferLogger::new());
                recs.clear();
            }
            Buffer::Swap => {
                let old = std::mem::take(&mut **log.lock().unwrap());
                same("the sink taken away", &old.bytes(), &recs)?;
                recs.clear();
            }
        }
        ensure!(s.val() == model, "contents are wrong");
    }
    Ok(())
}

/// A writer keeping its input, which is cut short, interrupted or fails.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Env {
    chunk: usize,
    interrupt: Option<usize>,
    fail: Option<usize>,
    /// Whether failing means accepting nothing, rather than an error.
    zero: bool,
}

struct Out {
    env: Env,
    calls: usize,
    text: Arc<Mutex<Vec<u8>>>,
    failures: Arc<Mutex<usize>>,
    count: Arc<Mutex<usize>>,
}

impl io::Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let me = self.calls;
        self.calls += 1;
        *self.count.lock().unwrap() = self.calls;
        if self.env.interrupt == Some(me) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.env.fail == Some(me) {
            *self.failures.lock().unwrap() += 1;
            if self.env.zero {
                return Ok(0);
            }
            return Err(io::Error::new(io::ErrorKind::Other, "on purpose"));
        }
        let n = buf.len().min(self.env.chunk);
        self.text.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The records written as lines ending in `=> [...]`.
fn lines(text: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let text = std::str::from_utf8(text).map_err(|_| "not text")?;
    let mut out = Vec::new();
    for (i, _) in text.match_indices("=> [") {
        let rest = &text[i + 4..];
        let Some(end) = rest.find(']') else {
            continue;
        };
        if rest[end + 1..].starts_with('\n') {
            let nums = rest[..end].split(',').map(|n| n.trim()).filter(|n| !n.is_empty());
            let bytes: Result<Vec<u8>, _> = nums.map(|n| n.parse::<u8>()).collect();
            if let Ok(bytes) = bytes {
                out.push(bytes);
            }
        }
    }
    Ok(out)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Writing {
    hist: Hist,
    env: Env,
}

fn writing(case: &Writing, calls: &mut usize) -> Check {
    let root = root_named(&case.hist.root);
    let ty = (root.ty)();
    set_access(case.hist.access);
    let text = Arc::new(Mutex::new(Vec::new()));
    let failures = Arc::new(Mutex::new(0));
    let count = Arc::new(Mutex::new(0));
    let mut s = start(root, &case.hist.start, Runtime::new())?;
    // Mutations only get to the writer from here on.
    let (rt, _log) = Runtime::with_logger_returned(WriterLogger::new(Out {
        env: case.env,
        calls: 0,
        text: text.clone(),
        failures: failures.clone(),
        count: count.clone(),
    }));
    s.set_runtime(rt);
    let mut model = case.hist.start.val(ty);
    let mut recs: Vec<Vec<u8>> = Vec::new();
    let mut had = 0;
    for step in &case.hist.steps {
        let before = model.clone();
        let mut after = before.clone();
        let Some((_, new)) = perform(ty, &mut after, step) else {
            continue;
        };
        let done = catch_unwind(AssertUnwindSafe(|| act(&mut s, step)));
        let val = s.val();
        let got = lines(&text.lock().unwrap())?;
        if *failures.lock().unwrap() > had {
            had += 1;
            ensure!(done.is_err(), "a failure to write {:?} was silent", step);
            let n = got.len().checked_sub(recs.len()).ok_or("records have gone")?;
            ensure!(n < new.len().max(1), "all of {:?} is written though writing failed", step);
            let failed = failed(ty, &before, &new, n, false);
            ensure!(failed.vals.contains(&val), "{:?} made {:?} though writing failed", step, val);
            recs.extend(failed.recs.iter().map(|r| r.encode_nested()));
            model = val;
        } else {
            ensure!(done.is_ok(), "{:?} panicked", step);
            ensure!(val == after, "{:?} made {:?} instead of {:?}", step, val, after);
            recs.extend(new.iter().map(|r| r.encode_nested()));
            model = after;
        }
        ensure!(got == recs, "wrote {:?} instead of {:?}", got, recs);
    }
    *calls = *count.lock().unwrap();
    Ok(())
}

/// All ways writing may go wrong once.
fn written(run: &Run, h: &Hist, thorough: bool) {
    for chunk in [usize::MAX, 1, 7] {
        let env = Env {
            chunk,
            interrupt: None,
            fail: None,
            zero: false,
        };
        let mut calls = 0;
        let mut case = Writing { hist: h.clone(), env };
        run.case("writing", &case, |c| writing(c, &mut calls));
        let step = if chunk == usize::MAX { 1 } else if thorough { 3 } else { 37 };
        for at in (0..calls).step_by(step).chain(calls.checked_sub(1)) {
            for (interrupt, fail, zero) in [(Some(at), None, false), (None, Some(at), false), (None, Some(at), true)] {
                case.env = Env { chunk, interrupt, fail, zero };
                run.case("writing", &case, |c| writing(c, &mut 0));
            }
        }
    }
}

/// Other sinks: those doing nothing, panicking, boxed.
fn others(h: &Hist, models: &[Val]) -> Check {
    let root = root_named(&h.root);
    let ty = (root.ty)();
    set_access(h.access);
    let fresh = |rt: Runtime| -> Result<State, String> {
        let mut s = start(root, &h.start, Runtime::new())?;
        s.set_runtime(rt);
        Ok(s)
    };
    let mut quiet = fresh(Runtime::with_logger(NoopLogger::new()))?;
    let (sink, all) = tap(Failure::Never);
    let mut boxed = fresh(Runtime::with_logger::<Box<dyn Logger>>(Box::new(sink)))?;
    let (sink, twice) = tap(Failure::Never);
    let mut doubly = fresh(Runtime::with_logger(Box::new(Box::new(sink))))?;
    let mut recs = Vec::new();
    for (i, step) in h.steps.iter().enumerate() {
        let mut v = models[i].clone();
        let (_, new) = perform(ty, &mut v, step).ok_or("harness: step doesn't apply")?;
        // A sink which always panics lets nothing happen, unless nothing is logged.
        let mut strict = start(root, &Start::Built(models[i].clone()), Runtime::new())?;
        strict.set_runtime(Runtime::with_logger(PanicLogger::new()));
        let done = catch_unwind(AssertUnwindSafe(|| act(&mut strict, step)));
        ensure!(done.is_err() != new.is_empty(), "{:?} with a panicking sink: {}", step, done.is_err());
        if done.is_err() {
            ensure!(strict.val() == models[i], "{:?} made {:?} though the sink panicked", step, strict.val());
        }
        recs.extend(new);
        for s in [&mut quiet, &mut boxed, &mut doubly] {
            act(s, step);
            ensure!(s.val() == models[i + 1], "{:?} made {:?} with some sink", step, s.val());
        }
    }
    for all in [&all, &twice] {
        let got = kept(all)?;
        ensure!(got == recs, "a boxed sink got {:?} instead of {:?}", got, recs);
    }
    Ok(())
}

/// What a thread does to a sink while others log to it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Meddling {
    Replace,
    Inspect,
    Take,
}

#[derive(Clone, Hash, Debug, Serialize, Deserialize)]
struct Meddled {
    root: String,
    start: Val,
    threads: Vec<(u32, Vec<Step>)>,
    meddling: Vec<Meddling>,
    failure: Failure,
    schedule: Vec<u8>,
}

fn meddled(splits: &[Split], case: &Meddled, trace: &mut Vec<Choice>, points: &mut u64) -> Check {
    let split = splits.iter().find(|s| s.root.name == case.root).ok_or("harness: unknown root")?;
    let ty = (split.root.ty)();
    let (sink, first) = tap(case.failure);
    let (rt, log): (Runtime, LoggerHandle<Tap>) = Runtime::with_logger_returned(sink);
    let s = (split.root.build)(Runtime::new(), &case.start);
    let mut s = s;
    s.set_runtime(rt);
    let mut any = s.into_std_any();
    let mut taken: Vec<Kept> = vec![first];
    // For each thread, the steps which have failed.
    let mut failures: Vec<Vec<usize>> = vec![Vec::new(); case.threads.len()];
    {
        let mut parts = (split.parts)(&mut *any);
        let mut bodies: Vec<Box<dyn FnOnce() -> Check + Send>> = Vec::new();
        let mut picked = Vec::new();
        for (tag, _) in &case.threads {
            let i = parts.iter().position(|p| p.0 == *tag).ok_or("harness: no part")?;
            picked.push(Sent(parts.swap_remove(i).1));
        }
        for ((part, (_, steps)), failures) in picked.into_iter().zip(&case.threads).zip(&mut failures) {
            bodies.push(Box::new(move || {
                let part = part.get();
                for (i, step) in steps.iter().enumerate() {
                    let done = catch_unwind(AssertUnwindSafe(|| part.act(&step.path, &step.op).is_some()));
                    match done {
                        Ok(true) => (),
                        Ok(false) => return Err("a mutator doesn't apply".into()),
                        Err(_) => failures.push(i),
                    }
                }
                Ok(())
            }));
        }
        let sent = Sent((&log, &mut taken));
        if !case.meddling.is_empty() {
            bodies.push(Box::new(move || {
                let (log, taken) = sent.get();
                for meddling in &case.meddling {
                    let mut log = log.lock().map_err(|_| "poisoned")?;
                    match meddling {
                        Meddling::Replace => {
                            let (sink, more) = tap(Failure::Never);
                            taken.push(more);
                            log.replace(sink);
                        }
                        Meddling::Take => {
                            let (sink, more) = tap(Failure::Never);
                            taken.push(more);
                            let old = std::mem::replace(&mut **log, sink);
                            drop(old);
                        }
                        Meddling::Inspect => {
                            let now = log.kept.lock().unwrap().len();
                            crate::conc::yield_now();
                            ensure!(now == log.kept.lock().unwrap().len(), "the sink changed while held");
                        }
                    }
                }
                Ok(())
            }));
        }
        let outcome = run_threads(&case.schedule, false, bodies);
        *trace = outcome.trace;
        *points = outcome.points;
        for res in outcome.results {
            res?;
        }
    }
    let mut recs = Vec::new();
    for some in &taken {
        recs.extend(kept(some)?);
    }
    // Each thread has logged and made everything but what has failed.
    let mut model = case.start.clone();
    let mut left = recs.len();
    let mut failed_ = 0;
    for ((tag, steps), failures) in case.threads.iter().zip(&failures) {
        let at = prefix_of(&case.root, *tag);
        let got: Vec<&Rec> = recs.iter().filter(|r| r.path().starts_with(&at)).collect();
        left -= got.len();
        let mut i = 0;
        failed_ += failures.len();
        for (n, step) in steps.iter().enumerate() {
            let (pty, part) = part_val(ty, &mut model, &at);
            let before = part.clone();
            let Some((_, new)) = perform(pty, part, step) else {
                continue;
            };
            let new: Vec<Rec> = new.into_iter().map(|r| under(&at, r)).collect();
            if failures.contains(&n) {
                // Only one of them fails, so at most the first of two has been kept.
                let late = matches!(case.failure, Failure::LateError(_)) as usize;
                let some = (0..new.len()).find(|k| {
                    let m = k + late;
                    got.len() >= i + m && got[i..i + m].iter().zip(&new).all(|(x, y)| *x == y)
                        && got.get(i + m).map_or(true, |x| m >= new.len() || **x != new[m])
                });
                let Some(k) = some else {
                    return Err(format!("{:?} has failed, but logged {:?}", step, got));
                };
                *part = before;
                if k == 1 && matches!(step.op, Op::Set(..)) {
                    // The variant has been switched.
                    apply(ty, &mut model, &new[0]).0.map_err(|_| "harness: cannot switch")?;
                }
                i += k + late;
            } else {
                let all = got.len() >= i + new.len() && got[i..i + new.len()].iter().zip(&new).all(|(x, y)| *x == y);
                ensure!(all, "thread of part {} logged {:?}, not {:?}", tag, got, new);
                i += new.len();
            }
        }
        ensure!(i == got.len(), "thread of part {} logged too much: {:?}", tag, got);
    }
    ensure!(left == 0, "logged records of no thread: {:?}", recs);
    let most = (case.failure != Failure::Never) as usize;
    ensure!(failed_ <= most, "{} mutations failed", failed_);
    let value = (split.root.take)(any);
    ensure!(value.val() == model, "ends as {:?} instead of {:?}", value.val(), model);
    Ok(())
}

fn buffers(run: &Run, depth: usize, case: &mut Buffering, seen: &mut std::collections::HashSet<u64>) {
    if run.stopped() {
        return;
    }
    run.case("buffering", case, buffering);
    run.transitions.fetch_add(case.acts.len() as u64, Relaxed);
    seen.insert(hash(case));
    if case.acts.len() < depth {
        use Buffer::*;
        for act in [Do(0), Do(1), Do(7), Bytes, Clear, Pluck, PluckBytes, Replace, Swap] {
            case.acts.push(act);
            buffers(run, depth, case, seen);
            case.acts.pop();
        }
    }
}

fn fails(h: &Hist, models: &[Val]) -> Check {
    let ty = (root_named(&h.root).ty)();
    let mut before = 0;
    for (step, v) in h.steps.iter().zip(models) {
        before += perform(ty, &mut v.clone(), step).map_or(0, |r| r.1.len());
    }
    // Failures on records of the last step, and on the very first ones.
    for n in 0..before {
        for failure in [Failure::Error(n), Failure::LateError(n), Failure::Panic(n)] {
            failing(&Failing { hist: h.clone(), failure })
                .map_err(|e| format!("{:?}: {}", failure, e))?;
        }
    }
    failing(&Failing { hist: h.clone(), failure: Failure::Never })
}

pub fn c23(run: &Run) {
    let splits = splits();
    for split in &splits {
        (split.root.ty)();
    }
    if run.replaying("failing", failing) {
        run.replaying("buffering", buffering);
        run.replaying("writing", |c: &Writing| writing(c, &mut 0));
        run.replaying("failures", |h: &Hist| fails(h, &models(h)));
        run.replaying("others", |h: &Hist| others(h, &models(h)));
        run.replaying("meddled", |c: &Meddled| meddled(&splits, c, &mut Vec::new(), &mut 0));
        return;
    }
    use Level::*;
    let t = run.thorough;
    let core = crate::props_hist::CORE.to_vec();
    let plan = |roots, starts, depths: &[Level]| Plan {
        roots,
        starts,
        depths: depths.to_vec(),
        accesses: vec![0],
        logged: false,
    };
    run.phase("failing_sinks");
    let mut plans = vec![
        plan(crate::props_hist::all_roots(), Starts::Few, &[Lean, Tiny]),
        plan(core.clone(), Starts::New, &[Tiny, Tiny, Tiny]),
    ];
    if t {
        plans.push(plan(crate::props_hist::all_roots(), Starts::Many, &[Full, Tiny]));
        plans.push(plan(core.clone(), Starts::Few, &[Lean, Tiny, Tiny]));
    }
    for plan in &plans {
        explore(run, "failures", plan, fails);
    }
    run.phase("other_sinks");
    explore(run, "others", &plan(crate::props_hist::all_roots(), Starts::Few, &[Lean]), others);
    explore(run, "others", &plan(core.clone(), Starts::New, &[Lean, Tiny]), others);
    run.phase("writing_sinks");
    let hists = Mutex::new(Vec::new());
    let keep = |h: &Hist, _: &[Val]| {
        hists.lock().unwrap().push(h.clone());
        Ok(())
    };
    explore(run, "histories", &plan(core.clone(), Starts::New, if t { &[Lean, Tiny] } else { &[Tiny, Tiny] }), keep);
    explore(run, "histories", &plan(core, Starts::Few, &[Tiny]), keep);
    let hists = hists.into_inner().unwrap();
    run.par(&hists, |h| written(run, h, t));
    run.phase("buffering_sinks");
    let mut items = Vec::new();
    for root in ["Deep", "Tree", "List<Sh>", "Map<u8,List<Sh>>", "Opts", "EnR"] {
        let ty = (root_named(root).ty)();
        for n in 0..2 {
            items.push(Buffering {
                root: root.into(),
                start: gen::rich_n(ty, gen::FUEL, n),
                acts: vec![],
            });
        }
    }
    run.par(&items, |item| {
        let mut seen = Default::default();
        buffers(run, if t { 6 } else { 4 }, &mut item.clone(), &mut seen);
        run.states_seen(seen);
    });
    run.phase("schedules");
    let mut cases = Vec::new();
    for split in &splits {
        let ty = (split.root.ty)();
        let start = par_starts(ty).remove(0);
        let parts = parts_of(split, &start);
        for (i, (a, aty, av)) in parts.iter().enumerate() {
            for (b, bty, bv) in &parts[i + 1..] {
                let pick = |ty, v: &Val| {
                    let mut all: Vec<Step> = singles(ty, v).into_iter().map(|mut s| s.remove(0)).collect();
                    all.sort_by_key(|s| !complex(ty, v, s));
                    all.truncate(if t { 6 } else { 3 });
                    all
                };
                for x in pick(*aty, av) {
                    for y in pick(*bty, bv) {
                        let mut add = |meddling: &[Meddling], failure| {
                            cases.push(Meddled {
                                root: split.root.name.into(),
                                start: start.clone(),
                                threads: vec![(*a, vec![x.clone()]), (*b, vec![y.clone()])],
                                meddling: meddling.to_vec(),
                                failure,
                                schedule: vec![],
                            })
                        };
                        use Meddling::*;
                        add(&[Replace], Failure::Never);
                        add(&[Take, Inspect], Failure::Never);
                        add(&[Replace, Inspect, Replace], Failure::Never);
                        for n in 0..2 {
                            add(&[], Failure::Error(n));
                            add(&[Replace], Failure::LateError(n));
                        }
                    }
                }
            }
        }
    }
    run.par(&cases, |case| {
        pin(my_slot());
        let mut seen = Default::default();
        let with = |schedule| Meddled { schedule, ..case.clone() };
        let bound = if t { 5 } else { 2 };
        schedules(run, "meddled", bound, with, |c, t, p| meddled(&splits, c, t, p), &mut seen);
        let base = hash(case);
        run.states_seen(seen.into_iter().map(|h| h ^ base).collect());
    });
}
