//! C19: equality and hashing.

use std::{
    collections::{HashMap, HashSet},
    sync::{atomic::Ordering::Relaxed, OnceLock},
};

use serde::{Deserialize, Serialize};
use steit::{log::loggers::BufferLogger, rt::Runtime};

use crate::{
    dynamic::{Codec, Dyn, Root},
    ensure,
    gen::{self, Level::*},
    hist::*,
    live::{Live, Model},
    model::*,
    props_codec::{codecs, io},
    props_hist::{all_roots, begin, CORE},
    run::{called, hash, Check, Run},
};

/// What a field takes part in.
#[derive(Clone, Copy, PartialEq)]
enum Part {
    Both,
    Eq,
    Neither,
}

fn part(name: &str, variant: u32, tag: u32) -> Part {
    match (name, variant, tag) {
        ("Eqs", _, 1) | ("EqsTup", _, 0) | ("EqsEnum", 0 | 1, 1) | ("EqsPlain", _, 1 | 3) | ("EqsKind", 0, 0) => Part::Eq,
        ("Eqs", _, 2) | ("EqsTup", _, 1) | ("EqsEnum", 0 | 1, 2) | ("EqsEnum", 2, 0) | ("EqsPlain", _, 2) => Part::Neither,
        ("EqsKind", 0, 1) | ("EqsKind", 1, 0) | ("EqsGen", _, 0) | ("EqsNone", ..) => Part::Neither,
        ("EqsGen", _, 1) => Part::Eq,
        _ => Part::Both,
    }
}

/// The contents of a value which are compared (or, if `hashed`, hashed), in a normal form.
fn project(ty: Ty, v: &Val, hashed: bool) -> Val {
    let fields = |name: &str, variant: u32, fields: &[Field], vs: &[Val]| -> Vec<Val> {
        fields
            .iter()
            .zip(vs)
            .filter(|(f, _)| match part(name, variant, f.tag) {
                Part::Both => true,
                Part::Eq => !hashed,
                Part::Neither => false,
            })
            .map(|(f, v)| project(f.ty, v, hashed))
            .collect()
    };
    match (&**ty, v) {
        (TyDef::Struct(name, fs), Val::Struct(vs)) => Val::Struct(fields(name, 0, fs, vs)),
        (TyDef::Enum(name, variants), Val::Enum(tag, vs)) => {
            let fs = &variant(variants, *tag).unwrap().fields;
            Val::Enum(*tag, fields(name, *tag, fs, vs))
        }
        (TyDef::Vec(t) | TyDef::List(t) | TyDef::Arr(_, t), Val::Seq(vs)) => {
            Val::Seq(vs.iter().map(|v| project(t, v, hashed)).collect())
        }
        (TyDef::Tup(ts), Val::Seq(vs)) => Val::Seq(ts.iter().zip(vs).map(|(t, v)| project(t, v, hashed)).collect()),
        (TyDef::Opt(t), Val::Opt(v)) => Val::Opt(v.as_ref().map(|v| Box::new(project(t, v, hashed)))),
        (TyDef::Map(_, t), Val::Map(pairs)) => {
            let mut pairs: Vec<_> = pairs.iter().map(|(k, v)| (*k, project(t, v, hashed))).collect();
            pairs.sort();
            Val::Map(pairs)
        }
        (TyDef::Hash(k, t), Val::Hash(pairs)) => {
            let mut pairs: Vec<_> =
                pairs.iter().map(|(x, v)| (project(k, x, hashed), project(t, v, hashed))).collect();
            pairs.sort();
            Val::Hash(pairs)
        }
        _ => v.clone(),
    }
}

type Hasher = fn(&dyn Dyn) -> u64;

fn hashers() -> &'static HashMap<&'static str, Hasher> {
    use crate::schemas::*;
    use steit::types::{Bytes, List, Maybe};
    static HASHERS: OnceLock<HashMap<&'static str, Hasher>> = OnceLock::new();
    macro_rules! hashers {
        ($(($name:literal, $ty:ty))*) => {
            [$(($name, (|x| {
                called();
                hash(x.std_any().downcast_ref::<$ty>().expect("harness: wrong type"))
            }) as Hasher)),*].into()
        };
    }
    HASHERS.get_or_init(|| crate::for_hashed!(hashers))
}

enum Either {
    Plain(Box<dyn Dyn>),
    State(State),
}

impl Either {
    fn as_dyn(&self) -> &dyn Dyn {
        match self {
            Either::Plain(x) => &**x,
            Either::State(x) => x.as_dyn(),
        }
    }
}

/// Reverses the order in which maps are filled.
fn reversed(v: &Val) -> Val {
    match v {
        Val::Map(pairs) => Val::Map(pairs.iter().rev().map(|(k, v)| (*k, reversed(v))).collect()),
        Val::Hash(pairs) => Val::Hash(pairs.iter().rev().map(|(k, v)| (reversed(k), reversed(v))).collect()),
        Val::Seq(vs) => Val::Seq(vs.iter().map(reversed).collect()),
        Val::Struct(vs) => Val::Struct(vs.iter().map(reversed).collect()),
        Val::Enum(tag, vs) => Val::Enum(*tag, vs.iter().map(reversed).collect()),
        Val::Opt(v) => Val::Opt(v.as_ref().map(|v| Box::new(reversed(v)))),
        v => v.clone(),
    }
}

fn nested_logger() -> Runtime {
    Runtime::with_logger(BufferLogger::new()).nested(7u32).nested(300u32)
}

const PLAIN_WAYS: usize = 5;
const STATE_WAYS: usize = 9;

fn plain(codec: &Codec, v: &Val, way: usize) -> Result<Box<dyn Dyn>, String> {
    Ok(match way {
        0 => (codec.make)(v),
        1 => (codec.deserialize)(&mut &*encode((codec.ty)(), v)).map_err(io)?,
        2 => (codec.make)(&reversed(v)),
        3 => {
            let x = (codec.make)(v);
            x.bytes();
            x.boxed()
        }
        _ => {
            let x = (codec.make)(v);
            x.cache_size();
            x
        }
    })
}

fn state(root: &Root, v: &Val, way: usize) -> Result<State, String> {
    Ok(match way {
        0 => (root.make)(v),
        1 => (root.build)(nested_logger(), v),
        2 => (root.build_mut)(nested_logger(), v),
        3 => start(root, &Start::Decoded(v.clone()), Runtime::with_logger(BufferLogger::new()))?,
        4 => start(root, &Start::Replayed(v.clone()), Runtime::new())?,
        5 => (root.build)(Runtime::new(), &reversed(v)),
        6 => {
            let x = (root.build_mut)(Runtime::new(), v);
            x.bytes();
            x.boxed_state()
        }
        7 => {
            let mut x = (root.make)(v);
            x.cache_size();
            x.set_runtime(nested_logger());
            x
        }
        _ => {
            // Changed, then changed back.
            let mut x = start(root, &Start::Decoded(v.clone()), Runtime::with_logger(BufferLogger::new()))?;
            let log = Rec::Update(vec![], vec![]).encode_nested();
            if x.replay(&mut &*log).is_ok() {
                x.bytes();
            }
            let log = Rec::Update(vec![], encode((root.ty)(), v)).encode_nested();
            replay(&mut x, &log)?;
            x
        }
    })
}

enum Kind {
    Plain(&'static Codec),
    State(&'static Root),
}

impl Kind {
    fn ty(&self) -> Ty {
        match self {
            Kind::Plain(c) => (c.ty)(),
            Kind::State(r) => (r.ty)(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Kind::Plain(c) => c.name,
            Kind::State(r) => r.name,
        }
    }
    fn ways(&self) -> usize {
        match self {
            Kind::Plain(_) => PLAIN_WAYS,
            Kind::State(_) => STATE_WAYS,
        }
    }
    fn reach(&self, v: &Val, way: usize) -> Result<Either, String> {
        Ok(match self {
            Kind::Plain(c) => Either::Plain(plain(c, v, way)?),
            Kind::State(r) => Either::State(state(r, v, way)?),
        })
    }
}

fn kinds() -> Vec<Kind> {
    let states: Vec<&Root> = roots().iter().chain(eq_roots()).collect();
    let plain = codecs().iter().filter(|c| !states.iter().any(|r| r.name == c.name));
    plain.map(Kind::Plain).chain(states.iter().map(|r| Kind::State(r))).collect()
}

/// Values of a type, each with what is compared and hashed.
fn values(ty: Ty, n: usize) -> Vec<(Val, Val, Val)> {
    let mut vs = gen::small(ty, Full);
    vs.extend((0..3).map(|i| gen::rich_n(ty, gen::FUEL, i)));
    // What differs in one place from something rich.
    for base in [gen::rich(ty, gen::FUEL), default(ty)] {
        for step in gen::ops(ty, &base, Lean) {
            let mut v = base.clone();
            if vs.len() < n && perform(ty, &mut v, &step).is_some() && !vs.contains(&v) {
                vs.push(v);
            }
        }
    }
    let many = gen::many(ty, 3, 4000);
    let room = n.saturating_sub(vs.len()).max(n / 2).min(many.len());
    for i in 0..room {
        let v = &many[i * many.len() / room];
        if !vs.contains(v) {
            vs.push(v.clone());
        }
    }
    vs.into_iter()
        .map(|v| {
            let (e, h) = (project(ty, &v, false), project(ty, &v, true));
            (v, e, h)
        })
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Hash)]
struct Row {
    name: String,
    /// How many values there are, which of them is compared with all others, and how it is reached.
    n: usize,
    i: usize,
    way: usize,
}

fn compare(hasher: Option<Hasher>, x: &dyn Dyn, y: &dyn Dyn, eq: bool, hash_eq: bool) -> Check {
    called();
    let (a, b) = (x.equals(y), y.equals(x));
    ensure!(a == eq, "{:?} and {:?} are {}equal", x.val(), y.val(), if a { "" } else { "un" });
    ensure!(b == eq, "{:?} and {:?} are {}equal", y.val(), x.val(), if b { "" } else { "un" });
    if let Some(h) = hasher.filter(|_| eq || hash_eq) {
        ensure!(h(x) == h(y), "{:?} and {:?} have different hashes", x.val(), y.val());
    }
    Ok(())
}

fn row(row: &Row, kind: &Kind, values: &[(Val, Val, Val)], reached: &[Vec<Either>]) -> Result<u64, String> {
    let hasher = hashers().get(kind.name()).copied();
    let x = reached[row.i][row.way].as_dyn();
    let (_, e, h) = &values[row.i];
    let mut n = 0;
    ensure!(x.equals(x), "{:?} isn't equal to itself", x.val());
    for (j, (_, f, g)) in values.iter().enumerate() {
        let (eq, hash_eq) = (e == f, h == g);
        if eq || hash_eq {
            for y in &reached[j] {
                compare(hasher, x, y.as_dyn(), eq, hash_eq)?;
            }
            n += reached[j].len() as u64;
        } else {
            compare(hasher, x, reached[j][(row.i + j) % reached[j].len()].as_dyn(), false, false)?;
            n += 1;
        }
    }
    Ok(n)
}

fn reach_all(kind: &Kind, values: &[(Val, Val, Val)]) -> Result<Vec<Vec<Either>>, String> {
    values.iter().map(|v| (0..kind.ways()).map(|way| kind.reach(&v.0, way)).collect()).collect()
}

fn one_row(r: &Row) -> Check {
    let kinds = kinds();
    let kind = kinds.iter().find(|k| k.name() == r.name).expect("harness: unknown type");
    let values = values(kind.ty(), r.n);
    let reached = reach_all(kind, &values)?;
    row(r, kind, &values, &reached).map(|_| ())
}

#[derive(Serialize, Deserialize, Clone, Hash)]
struct Option_ {
    maybe: Val,
    option: Val,
}

/// Optional values compare with those of the standard library.
fn option<T: Live>(case: &Option_) -> Check {
    use steit::types::Maybe;
    let x = Maybe::<T>::make(&case.maybe);
    let y = Option::<T>::make(&case.option);
    let inner = match &case.maybe {
        Val::Enum(1, v) => Val::Opt(Some(Box::new(v[0].clone()))),
        _ => Val::Opt(None),
    };
    called();
    ensure!((x == y) == same(&inner, &case.option), "comparing {:?} with {:?} is wrong", case.maybe, case.option);
    Ok(())
}

fn options<T: Live>(run: &Run, kind: &'static str) {
    if run.replaying::<Option_>(kind, option::<T>) {
        return;
    }
    let ty = steit_maybe::<T>();
    for maybe in gen::small(ty, Full) {
        for o in gen::small(<Option<T> as Model>::ty(), Full) {
            let case = Option_ { maybe: maybe.clone(), option: o };
            run.case(kind, &case, option::<T>);
        }
    }
}

fn steit_maybe<T: Live>() -> Ty {
    <steit::types::Maybe<T> as Model>::ty()
}

fn with_history(h: &Hist, models: &[Val]) -> Check {
    let hasher = hashers().get(&*h.root).copied();
    let (root, mut s, log) = begin(h)?;
    let ty = (root.ty)();
    let now = project(ty, models.last().unwrap(), false);
    let mut before = None;
    for (i, step) in h.steps.iter().enumerate() {
        if i + 1 == h.steps.len() {
            s.bytes();
            before = Some(s.boxed_state());
        }
        act(&mut s, step);
    }
    drop(log);
    for model in models {
        let fresh = (root.make)(model);
        let eq = project(ty, model, false) == now;
        compare(hasher, s.as_dyn(), fresh.as_dyn(), eq, project(ty, model, true) == project(ty, models.last().unwrap(), true))?;
    }
    if let Some(before) = before {
        let model = &models[models.len() - 2];
        compare(hasher, s.as_dyn(), before.as_dyn(), project(ty, model, false) == now, false)?;
    }
    Ok(())
}

pub fn c19(run: &Run) {
    options::<i32>(run, "option_i32");
    options::<crate::schemas::Pt>(run, "option_pt");
    if !run.replaying::<Row>("row", one_row) {
        run.phase("pairs");
        let n = if run.thorough { 500 } else { 130 };
        let kinds = kinds();
        let indexes: Vec<usize> = (0..kinds.len()).collect();
        run.par(&indexes, |i| {
            let kind = &self::kinds()[*i];
            let values = values(kind.ty(), n);
            let mut r = Row { name: kind.name().into(), n, i: 0, way: 0 };
            let mut reached = Vec::new();
            run.case("row", &r, |_| {
                reached = reach_all(kind, &values)?;
                Ok(())
            });
            if run.stopped() {
                return;
            }
            let mut pairs = 0;
            let mut seen = HashSet::new();
            for i in 0..values.len() {
                seen.insert(hash(&(kind.name(), &values[i].0)));
                for way in 0..kind.ways() {
                    (r.i, r.way) = (i, way);
                    run.case("row", &r, |r| {
                        pairs += row(r, kind, &values, &reached)?;
                        Ok(())
                    });
                    if run.stopped() {
                        return;
                    }
                }
                if i == 7 {
                    run.sample(&r);
                }
            }
            run.states_seen(seen);
            run.add("pairs_compared", pairs);
            run.transitions.fetch_add(pairs, Relaxed);
        });
    }
    if !run.replaying::<Hist>("history", |h| with_history(h, &models(h))) {
        let plan = |name: &str, roots: Vec<&'static str>, starts, depths: &[gen::Level]| {
            if run.stopped() {
                return;
            }
            run.phase(name);
            let plan = Plan { roots, starts, depths: depths.to_vec(), accesses: vec![0], logged: false };
            explore(run, "history", &plan, with_history);
        };
        let all = || all_roots().into_iter().chain(eq_roots().iter().map(|r| r.name)).collect::<Vec<_>>();
        let core = || CORE.iter().copied().chain(eq_roots().iter().map(|r| r.name)).collect::<Vec<_>>();
        plan("one_step", all(), Starts::New, &[Full]);
        plan("one_step_many", all(), Starts::Many, &[Lean]);
        plan("two_steps", all(), Starts::New, &[Lean, Lean]);
        plan("three_steps", core(), Starts::New, &[Lean, Tiny, Tiny]);
        if run.thorough {
            plan("two_steps_many", all(), Starts::Many, &[Lean, Lean]);
            plan("four_steps", core(), Starts::New, &[Lean, Tiny, Tiny, Tiny]);
        }
    }
    run.assume("Hashes are those of the standard library's default hasher, which tells apart different input with high probability.");
}
