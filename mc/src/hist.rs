//! Histories of mutations of a state, and their exploration.

use std::{collections::HashSet, sync::atomic::Ordering::Relaxed};

use serde::{Deserialize, Serialize};
use steit::{
    log::loggers::BufferLogger,
    rt::{LoggerHandle, Runtime},
};

use crate::{
    dynamic::{DynState, Root},
    ensure,
    gen::{self, Level},
    live::ACCESS,
    model::*,
    run::{hash, Check, Run},
};

/// How the contents of a root come about.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Start {
    New,
    Built(Val),
    BuiltMut(Val),
    Decoded(Val),
    Replayed(Val),
}

impl Start {
    pub fn val(&self, ty: Ty) -> Val {
        match self {
            Start::New => default(ty),
            Start::Built(v) | Start::BuiltMut(v) | Start::Decoded(v) | Start::Replayed(v) => v.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub root: String,
    pub start: Start,
    pub steps: Vec<Step>,
    pub access: u8,
}

pub type State = Box<dyn DynState>;
pub type Log = LoggerHandle<BufferLogger>;

pub fn roots() -> &'static [Root] {
    use crate::schemas::*;
    use std::sync::OnceLock;
    use steit::types::{List, Map, Maybe};
    static ROOTS: OnceLock<Vec<Root>> = OnceLock::new();
    macro_rules! roots {
        ($(($name:literal, $ty:ty))*) => { vec![$(crate::dynamic::root::<$ty>($name)),*] };
    }
    ROOTS.get_or_init(|| {
        let roots: Vec<Root> = crate::for_roots!(roots);
        for root in &roots {
            (root.ty)();
        }
        roots
    })
}

/// Roots whose fields opt out of equality or hashing.
pub fn eq_roots() -> &'static [Root] {
    use crate::schemas::*;
    use std::sync::OnceLock;
    use steit::types::{List, Map, Maybe};
    static ROOTS: OnceLock<Vec<Root>> = OnceLock::new();
    macro_rules! roots {
        ($(($name:literal, $ty:ty))*) => { vec![$(crate::dynamic::root::<$ty>($name)),*] };
    }
    ROOTS.get_or_init(|| {
        let roots: Vec<Root> = crate::for_eqs!(roots);
        for root in &roots {
            (root.ty)();
        }
        roots
    })
}

/// Roots of which there are other versions.
pub fn version_roots() -> &'static [Root] {
    use crate::{dynamic::root, schemas::*};
    use std::sync::OnceLock;
    use steit::types::{List, Map, Maybe};
    static ROOTS: OnceLock<Vec<Root>> = OnceLock::new();
    ROOTS.get_or_init(|| {
        let roots = vec![
            root::<Sv15>("Sv15"),
            root::<Sv9>("Sv9"),
            root::<Sv6>("Sv6"),
            root::<List<Sv15>>("List<Sv15>"),
            root::<Map<u8, Sv15>>("Map<u8,Sv15>"),
            root::<Maybe<Sv15>>("Maybe<Sv15>"),
            root::<GenE<Sv15>>("GenE<Sv15>"),
        ];
        for root in &roots {
            (root.ty)();
        }
        roots
    })
}

pub fn root_named(name: &str) -> &'static Root {
    roots().iter().chain(eq_roots()).chain(version_roots()).find(|r| r.name == name).expect("harness: unknown root")
}

pub fn logger() -> (Runtime, Log) {
    Runtime::with_logger_returned(BufferLogger::new())
}

pub fn bytes_of(log: &Log) -> Vec<u8> {
    log.lock().unwrap_or_else(|e| e.into_inner()).bytes()
}

pub fn drain(log: &Log) -> Vec<u8> {
    log.lock().unwrap_or_else(|e| e.into_inner()).pluck_bytes()
}

pub fn start(root: &Root, start: &Start, rt: Runtime) -> Result<State, String> {
    Ok(match start {
        Start::New => (root.with_runtime)(rt),
        Start::Built(v) => (root.build)(rt, v),
        Start::BuiltMut(v) => (root.build_mut)(rt, v),
        Start::Decoded(v) => {
            let mut s = (root.with_runtime)(rt);
            decode_into(&mut s, &encode((root.ty)(), v))?;
            s
        }
        Start::Replayed(v) => {
            let mut s = (root.with_runtime)(rt);
            let rec = Rec::Update(vec![], encode((root.ty)(), v));
            replay(&mut s, &rec.encode_nested())?;
            s
        }
    })
}

/// Starts, and forgets what has been logged by that.
pub fn start_logged(root: &Root, st: &Start) -> Result<(State, Log), String> {
    let (s, log, _) = start_with(root, st)?;
    Ok((s, log))
}

pub fn start_with(root: &Root, st: &Start) -> Result<(State, Log, Runtime), String> {
    let (rt, log) = logger();
    let s = start(root, st, rt.clone())?;
    log.lock().unwrap().clear();
    Ok((s, log, rt))
}

pub fn decode_into(s: &mut State, bytes: &[u8]) -> Check {
    match s.merge(&mut &*bytes) {
        Ok(true) => Ok(()),
        Ok(false) => Err("decoding left some input".into()),
        Err(e) => Err(format!("cannot decode {:?}: {}", bytes, e)),
    }
}

pub fn replay(s: &mut State, log: &[u8]) -> Check {
    s.replay(&mut &*log)
        .map_err(|e| format!("cannot replay {:?}: {}", log, e))
}

/// Checks that two states are equal in all ways.
pub fn same_state(what: &str, a: &State, b: &State) -> Check {
    let (x, y) = (a.val(), b.val());
    ensure!(x == y, "{}: {:?} instead of {:?}", what, x, y);
    let equal = a.equals(b.as_dyn()) && b.equals(a.as_dyn());
    ensure!(equal, "{}: not equal to the source {:?}", what, x);
    let (x, y) = (a.bytes(), b.bytes());
    ensure!(x == y, "{}: encoded as {:?} instead of {:?}", what, x, y);
    Ok(())
}

/// Performs a step, giving what is returned if it applies.
pub fn act(s: &mut State, step: &Step) -> Option<(Ret, Option<State>)> {
    s.act(&step.path, &step.op).map(|d| (d.ret, d.removed))
}

/// What an exploration covers.
pub struct Plan {
    pub roots: Vec<&'static str>,
    /// Alphabet of starts.
    pub starts: Starts,
    /// Alphabets of the first, second, ... mutation.
    pub depths: Vec<Level>,
    /// Item accesses to try.
    pub accesses: Vec<u8>,
    /// Whether to leave out mutations which aren't logged, as those of unlogged fields.
    pub logged: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Starts {
    New,
    /// Some values, by turns built, built through mutators, decoded and replayed.
    Few,
    /// More values, brought about in all ways.
    Many,
    /// Large and deep values.
    Large,
}

pub fn starts(ty: Ty, which: Starts) -> Vec<Start> {
    let all = |v: Val| {
        [
            Start::Built(v.clone()),
            Start::BuiltMut(v.clone()),
            Start::Decoded(v.clone()),
            Start::Replayed(v),
        ]
    };
    let turns = |vs: Vec<Val>| -> Vec<Start> {
        vs.into_iter()
            .enumerate()
            .map(|(i, v)| all(v)[i % 4].clone())
            .collect()
    };
    match which {
        Starts::New => vec![Start::New],
        Starts::Few => turns(gen::small(ty, Level::Lean)[1..].to_vec()),
        Starts::Many => {
            let mut vs = gen::small(ty, Level::Full);
            vs.extend((0..3).map(|n| gen::rich_n(ty, gen::FUEL, n)));
            vs.dedup();
            vs.into_iter().flat_map(all).collect()
        }
        Starts::Large => {
            let mut vs = gen::grown(ty, &[129, 128, 127, 40]);
            vs.extend(gen::deep(ty, 12));
            vs.extend(gen::deep(ty, 70));
            turns(vs)
        }
    }
}

/// Explores all histories of a plan, checking each one of them (so that checks may look at the last step
/// only). The check is told the model before and after the last step, with what it returns and logs.
pub fn explore(
    run: &Run,
    kind: &'static str,
    plan: &Plan,
    check: impl Fn(&Hist, &[Val]) -> Check + Sync,
) {
    let mut items = Vec::new();
    for name in &plan.roots {
        let root = root_named(name);
        let ty = (root.ty)();
        for st in starts(ty, plan.starts) {
            let v = st.val(ty);
            for access in &plan.accesses {
                items.push((root, st.clone(), *access, None));
                if let Some(level) = plan.depths.first() {
                    for step in gen::ops(ty, &v, *level) {
                        items.push((root, st.clone(), *access, Some(step)));
                    }
                }
            }
        }
    }
    run.par(&items, |(root, st, access, first)| {
        let ty = (root.ty)();
        let mut hist = Hist {
            root: root.name.into(),
            start: st.clone(),
            steps: vec![],
            access: *access,
        };
        let mut models = vec![st.val(ty)];
        let mut count = (Default::default(), 0);
        if let Some(step) = first {
            rec(run, kind, ty, plan, step, &mut hist, &mut models, &check, &mut count);
        } else {
            run.case(kind, &hist, |h| check(h, &models));
            count.0.insert(hash(&(root.name, &models[0])));
        }
        run.states_seen(count.0);
        run.transitions.fetch_add(count.1, Relaxed);
    });
}

#[allow(clippy::too_many_arguments)]
fn rec(
    run: &Run,
    kind: &'static str,
    ty: Ty,
    plan: &Plan,
    step: &Step,
    hist: &mut Hist,
    models: &mut Vec<Val>,
    check: &(impl Fn(&Hist, &[Val]) -> Check + Sync),
    count: &mut (HashSet<u64>, u64),
) {
    if run.stopped() {
        return;
    }
    let mut v = models.last().unwrap().clone();
    let Some((_, recs)) = perform(ty, &mut v, step) else {
        return;
    };
    if plan.logged && !fully_logged(step, &recs) {
        return;
    }
    hist.steps.push(step.clone());
    models.push(v);
    run.case(kind, hist, |h| check(h, models));
    count.0.insert(hash(&(&hist.root, models.last())));
    count.1 += hist.steps.len() as u64;
    if hash(hist) % 20011 == 7 {
        run.sample(hist);
    }
    if let Some(level) = plan.depths.get(hist.steps.len()) {
        for step in gen::ops(ty, models.last().unwrap(), *level) {
            rec(run, kind, ty, plan, &step, hist, models, check, count);
        }
    }
    models.pop();
    hist.steps.pop();
}

pub fn set_access(access: u8) {
    ACCESS.with(|a| a.set(access));
}

/// Recomputes the models of a history being replayed.
pub fn models(h: &Hist) -> Vec<Val> {
    let ty = (root_named(&h.root).ty)();
    let mut v = h.start.val(ty);
    let mut out = vec![v.clone()];
    for step in &h.steps {
        perform(ty, &mut v, step).expect("harness: step doesn't apply");
        out.push(v.clone());
    }
    out
}

/// Whether the records of a mutation tell all of it.
pub fn fully_logged(step: &Step, recs: &[Rec]) -> bool {
    !matches!(step.op, Op::Set(..)) || recs.last().is_some_and(|r| r.path() == step.path)
}
