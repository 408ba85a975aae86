//! C01-C04, C06, C16-C18: properties of histories of mutations.

use std::{collections::HashSet, sync::atomic::Ordering::Relaxed};

use serde::{Deserialize, Serialize};
use steit::rt::Runtime;

use crate::{
    dynamic::Root,
    ensure,
    gen::{self, Level},
    hist::*,
    live::HAND,
    model::*,
    run::{hash, Check, Run},
};

use Level::*;

/// Roots whose alphabets are small enough to go deeper.
pub const CORE: &[&str] = &[
    "Pt", "Sh", "Tree", "EnR", "Tup", "NoSc", "Ren", "Ns", "NsEnum", "Switch", "List<i32>", "List<Pt>", "List<Sh>",
    "List<List<u8>>", "List<Maybe<i32>>", "List<Box<Sh>>", "List<Emp>", "List<NoSc>", "Map<u8,i32>", "Map<u16,Pt>",
    "Map<u32,Sh>", "Map<u8,Maybe<Pt>>", "Map<u16,Emp>", "Maybe<Pt>", "Maybe<List<Pt>>", "Maybe<Maybe<i32>>", "Box<Sh>",
    "List<Map<u8,Pt>>", "Map<u8,List<Sh>>", "Map<u8,Tree>", "GenE<Pt>", "Gen<i32>",
];

pub fn all_roots() -> Vec<&'static str> {
    roots().iter().map(|r| r.name).collect()
}

/// Explores the usual plans.
pub fn usual(run: &Run, kind: &'static str, accesses: &[u8], logged: bool, check: impl Fn(&Hist, &[Val]) -> Check + Sync) {
    let check = &check;
    if run.replaying::<Hist>(kind, |h| check(h, &models(h))) {
        return;
    }
    let plan = |name: &str, roots: Vec<&'static str>, starts, depths: &[Level], accesses: &[u8]| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let plan = Plan {
            roots,
            starts,
            depths: depths.to_vec(),
            accesses: accesses.to_vec(),
            logged,
        };
        explore(run, kind, &plan, check);
    };
    plan("one_step", all_roots(), Starts::New, &[Full], accesses);
    plan("one_step_many", all_roots(), Starts::Many, &[Full], &accesses[..1]);
    plan("one_step_large", all_roots(), Starts::Large, &[Lean], accesses);
    plan("two_steps", all_roots(), Starts::New, &[Full, Lean], &accesses[..1]);
    plan("two_steps_few", all_roots(), Starts::Few, &[Lean, Tiny], &accesses[..1]);
    plan("three_steps", CORE.to_vec(), Starts::New, &[Lean, Tiny, Tiny], &accesses[..1]);
    if run.thorough {
        plan("two_steps_deep", all_roots(), Starts::Many, &[Lean, Lean], accesses);
        plan("two_steps_large", CORE.to_vec(), Starts::Large, &[Lean, Tiny], &accesses[..1]);
        plan("three_steps_lean", all_roots(), Starts::New, &[Lean, Lean, Tiny], &accesses[..1]);
        plan("three_steps_few", CORE.to_vec(), Starts::Few, &[Lean, Tiny, Tiny], &accesses[..1]);
        plan("four_steps", CORE.to_vec(), Starts::New, &[Lean, Tiny, Tiny, Tiny], &accesses[..1]);
        plan("five_steps", CORE.to_vec(), Starts::New, &[Tiny, Tiny, Tiny, Tiny, Tiny], &accesses[..1]);
    }
}

pub fn begin(h: &Hist) -> Result<(&'static Root, State, Log), String> {
    set_access(h.access);
    let root = root_named(&h.root);
    let (s, log) = start_logged(root, &h.start)?;
    Ok((root, s, log))
}

// ---------------------------------------------------------------- C01

pub fn c01(run: &Run) {
    usual(run, "history", &[0], true, |h, _| {
        let (root, mut src, log) = begin(h)?;
        let v = h.start.val((root.ty)());
        let mut batched = start(root, &Start::Decoded(v.clone()), Runtime::new())?;
        let mut all = Vec::new();
        for step in &h.steps {
            act(&mut src, step);
            let batch = drain(&log);
            replay(&mut batched, &batch)?;
            all.extend(batch);
        }
        same_state("after replaying batch by batch", &batched, &src)?;
        let mut whole = start(root, &Start::Built(v), Runtime::new())?;
        replay(&mut whole, &all)?;
        same_state("after replaying the whole log", &whole, &src)
    });
}

// ---------------------------------------------------------------- C02

pub fn c02(run: &Run) {
    usual(run, "history", &[0], true, |h, _| {
        let (root, mut src, log) = begin(h)?;
        let mut replicas: Vec<State> = Vec::new();
        for step in h.steps.iter().map(Some).chain([None]) {
            // Snapshots are taken by all means of encoding.
            let before = src.val();
            let snapshot = src.bytes();
            let mut nested = Vec::new();
            src.write_nested(None, false, &mut nested).map_err(|e| e.to_string())?;
            ensure!(src.val() == before, "a snapshot changed the source");
            ensure!(bytes_of(&log).is_empty(), "taking a snapshot was logged");
            let mut replica = (root.with_runtime)(Runtime::new());
            decode_into(&mut replica, &snapshot)?;
            same_state("a snapshot", &replica, &src)?;
            let mut replica = (root.deserialize)(&mut &*snapshot).map_err(|e| e.to_string())?;
            if replicas.len() % 2 == 1 {
                replica = (root.with_runtime)(Runtime::new());
                let rest = replica.merge_nested(SIZED, &mut &*nested).map_err(|e| e.to_string())?;
                ensure!(rest.is_empty(), "a nested snapshot isn't consumed");
            }
            replicas.push(replica);
            if let Some(step) = step {
                act(&mut src, step);
                let batch = drain(&log);
                for replica in &mut replicas {
                    replay(replica, &batch)?;
                }
            }
        }
        for (cut, replica) in replicas.iter().enumerate() {
            same_state(&format!("snapshot {} and the later log", cut), replica, &src)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C03

pub fn c03(run: &Run) {
    usual(run, "history", &[0], true, |h, _| {
        let (root, mut src, log) = begin(h)?;
        let mut replicas: Vec<(String, State, Log)> = Vec::new();
        let mut so_far = Vec::new();
        for (i, step) in h.steps.iter().enumerate() {
            let (rt, l) = logger();
            let mut decoded = (root.with_runtime)(rt);
            decode_into(&mut decoded, &src.bytes())?;
            replicas.push((format!("decoded before step {}", i), decoded, l));
            let (mut replayed, l) = start_logged(root, &h.start)?;
            replay(&mut replayed, &so_far)?;
            replicas.push((format!("replayed before step {}", i), replayed, l));

            let done = act(&mut src, step);
            let batch = drain(&log);
            let done = done.map(|(ret, _)| ret);
            for (what, replica, l) in &mut replicas {
                let same = act(replica, step).map(|(ret, _)| ret);
                ensure!(same == done, "{}: returns {:?} instead of {:?}", what, same, done);
                let bytes = drain(l);
                ensure!(bytes == batch, "{}: logs {:?} instead of {:?}", what, bytes, batch);
            }
            so_far.extend(batch);
        }
        for (what, replica, _) in &replicas {
            same_state(what, replica, &src)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C04

/// Performs a step, and checks its records.
fn logged_step(ty: Ty, s: &mut State, log: &Log, model: &mut Val, step: &Step) -> Check {
    let (_, recs) = perform(ty, model, step).expect("harness: step doesn't apply");
    if act(s, step).is_none() {
        return Err(format!("{:?} doesn't apply", step));
    }
    let bytes = drain(log);
    let logged = decode_log(&bytes).map_err(|e| format!("logs undecodable {:?}: {}", bytes, e.0))?;
    ensure!(logged == recs, "{:?} logs {:?} instead of {:?}", step, logged, recs);
    Ok(())
}

/// Does everything which mustn't log.
fn unlogged(root: &Root, rt: &Runtime, s: &mut State, log: &Log) -> Check {
    let bytes = s.bytes();
    s.cache_size();
    s.val();
    s.audit()?;
    let clone = s.boxed_state();
    clone.bytes();
    clone.equals(s.as_dyn());
    drop(clone);
    s.write(&mut std::io::sink()).map_err(|e| e.to_string())?;
    // Decoding into a state having the same logger.
    let mut other = (root.with_runtime)(rt.clone());
    decode_into(&mut other, &bytes)?;
    let rec = Rec::Update(vec![], bytes);
    replay(&mut other, &rec.encode_nested())?;
    drop(other);
    ensure!(bytes_of(log).is_empty(), "reading, encoding, decoding or replaying was logged");
    Ok(())
}

pub fn c04(run: &Run) {
    usual(run, "history", &[0, 1, 2, 3], false, |h, _| {
        set_access(h.access);
        let root = root_named(&h.root);
        let (mut s, log, rt) = start_with(root, &h.start)?;
        let ty = (root.ty)();
        let mut model = h.start.val(ty);
        let odd = h.steps.len() % 2 == 1;
        for step in &h.steps {
            logged_step(ty, &mut s, &log, &mut model, step)?;
            if odd {
                unlogged(root, &rt, &mut s, &log)?;
            }
        }
        if !odd {
            unlogged(root, &rt, &mut s, &log)?;
            replay(&mut s, &Rec::Update(vec![], encode(ty, &model)).encode_nested())?;
            ensure!(bytes_of(&log).is_empty(), "replaying was logged");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C06

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Look {
    Size,
    CacheSize,
    Bytes,
    Nested,
    /// Encodes a node within.
    Within(Vec<u32>),
    /// Encodes to a writer failing after some bytes.
    Fail(usize),
    Clone,
    /// Continues with a clone.
    Become,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Looked {
    hist: Hist,
    /// What is looked at before a step.
    looks: Vec<(usize, Look)>,
    /// Whether steps are replayed instead of performed.
    replayed: bool,
}

struct Failing(usize);

impl std::io::Write for Failing {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = buf.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Checks all sizes and encodings of a state whose contents are given.
fn exact(ty: Ty, root: &Root, s: &State, v: &Val) -> Check {
    let expected = encode(ty, v);
    let len = expected.len() as u32;
    ensure!(s.compute_size() == len, "computes size {} of {} bytes", s.compute_size(), len);
    let mut nested = Vec::new();
    encode_item(ty, v, &mut nested);
    let mut tagged = vec![3 << 3 | 2];
    tagged.extend(&nested);
    if expected.is_empty() {
        tagged.clear();
    }
    let sizes = [
        (s.size_nested(None, false), nested.len()),
        (s.size_nested(None, true), nested.len()),
        (s.size_nested(Some(3), true), tagged.len()),
    ];
    for (size, len) in sizes {
        let size = size.map_err(|e| e.to_string())?;
        ensure!(size as usize == len, "computes nested size {} of {} bytes", size, len);
    }
    let size = s.cache_size();
    ensure!(size == len && s.cached_size() == len, "caches size {} of {} bytes", size, len);
    for (number, omissible, expected) in [(None, false, &nested), (Some(3), true, &tagged)] {
        let mut out = Vec::new();
        s.write_nested(number, omissible, &mut out).map_err(|e| e.to_string())?;
        ensure!(out == *expected, "nested as {:?} instead of {:?}", out, expected);
    }
    for _ in 0..2 {
        let bytes = s.bytes();
        ensure!(bytes == expected, "encoded as {:?} instead of {:?}", bytes, expected);
    }
    let fresh = (root.make)(v).bytes();
    ensure!(fresh == expected, "a fresh value is encoded as {:?} instead of {:?}", fresh, expected);
    ensure!(s.val() == *v, "encoding changed the contents");
    Ok(())
}

fn looked(l: &Looked) -> Check {
    let h = &l.hist;
    let (root, mut s, log) = begin(h)?;
    let ty = (root.ty)();
    let mut model = h.start.val(ty);
    let mut kept: Vec<(State, Val)> = Vec::new();
    for i in 0..=h.steps.len() {
        for (at, look) in &l.looks {
            if *at != i {
                continue;
            }
            match look {
                Look::Size => {
                    s.compute_size();
                }
                Look::CacheSize => {
                    s.cache_size();
                }
                Look::Bytes => {
                    s.bytes();
                }
                Look::Nested => {
                    s.size_nested(Some(9), true).map_err(|e| e.to_string())?;
                    s.write_nested(Some(9), true, &mut Vec::new()).map_err(|e| e.to_string())?;
                }
                Look::Within(path) => {
                    s.at(path, &mut |node| {
                        node.bytes();
                    });
                }
                Look::Fail(n) => {
                    let _ = s.write(&mut Failing(*n));
                }
                Look::Clone => {
                    kept.push((s.boxed_state(), model.clone()));
                }
                Look::Become => {
                    let clone = s.boxed_state();
                    kept.push((std::mem::replace(&mut s, clone), model.clone()));
                }
            }
        }
        if let Some(step) = h.steps.get(i) {
            let (_, recs) = perform(ty, &mut model, step).expect("harness: step doesn't apply");
            if l.replayed {
                replay(&mut s, &encode_log(&recs))?;
            } else {
                act(&mut s, step);
                let logged = decode_log(&drain(&log)).map_err(|e| e.0)?;
                ensure!(logged == recs, "{:?} logs {:?} instead of {:?}", step, logged, recs);
            }
        }
    }
    exact(ty, root, &s, &model)?;
    for (s, v) in &kept {
        exact(ty, root, s, v)?;
    }
    exact(ty, root, &s, &model)
}

/// Paths of all nodes (up to some in large containers).
pub fn nodes(ty: Ty, v: &Val) -> Vec<(Vec<u32>, Ty, Val)> {
    let mut out = Vec::new();
    fn rec(ty: Ty, v: &Val, at: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, Ty, Val)>, fuel: u32) {
        if !is_state(ty) || fuel == 0 {
            return;
        }
        out.push((at.clone(), ty, v.clone()));
        let mut fields = |fields: &[Field], values: &[Val], at: &mut Vec<u32>| {
            for (f, x) in fields.iter().zip(values) {
                if f.state {
                    at.push(f.tag);
                    rec(f.ty, x, at, out, fuel - 1);
                    at.pop();
                }
            }
        };
        match (&**ty, v) {
            (TyDef::Struct(_, fs), Val::Struct(vs)) => fields(fs, vs, at),
            (TyDef::Enum(_, variants), Val::Enum(tag, vs)) => {
                at.push(*tag);
                fields(&variant(variants, *tag).unwrap().fields, vs, at);
                at.pop();
            }
            (TyDef::List(t), Val::Seq(items)) => {
                for i in gen::spots(items.len()) {
                    at.push(i as u32);
                    rec(t, &items[i], at, out, fuel - 1);
                    at.pop();
                }
            }
            (TyDef::Map(_, t), Val::Map(pairs)) => {
                for i in gen::spots(pairs.len()) {
                    at.push(pairs[i].0);
                    rec(t, &pairs[i].1, at, out, fuel - 1);
                    at.pop();
                }
            }
            _ => (),
        }
    }
    rec(ty, v, &mut Vec::new(), &mut out, 8);
    out
}

fn looks(ty: Ty, v: &Val) -> Vec<Look> {
    let len = encode(ty, v).len();
    let mut out = vec![Look::Size, Look::CacheSize, Look::Bytes, Look::Nested, Look::Clone, Look::Become];
    out.extend(nodes(ty, v).into_iter().skip(1).take(12).map(|n| Look::Within(n.0)));
    for n in [0, 1, len / 2, len.saturating_sub(1)] {
        if !out.contains(&Look::Fail(n)) && n < len {
            out.push(Look::Fail(n));
        }
    }
    out
}

pub fn c06(run: &Run) {
    if run.replaying::<Looked>("looked", looked) {
        return;
    }
    let go = |name: &str, roots: Vec<&'static str>, starts: Starts, depths: &[Level], pairs: bool| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let plan = Plan {
            roots,
            starts,
            depths: depths.to_vec(),
            accesses: vec![0],
            logged: false,
        };
        explore_quietly(run, &plan, |h, models| {
            let ty = (root_named(&h.root).ty)();
            let mut variants: Vec<Vec<(usize, Look)>> = vec![vec![]];
            let n = h.steps.len();
            let all: Vec<(usize, Look)> =
                (0..n.max(1)).flat_map(|i| looks(ty, &models[i]).into_iter().map(move |l| (i, l))).collect();
            for x in &all {
                variants.push(vec![x.clone()]);
                if pairs {
                    for y in &all {
                        if x.0 < y.0 {
                            variants.push(vec![x.clone(), y.clone()]);
                        }
                    }
                }
            }
            for looks in variants {
                for replayed in [false, true] {
                    if run.stopped() || (replayed && n == 0) {
                        break;
                    }
                    let logged = |i: usize| {
                        let recs = perform(ty, &mut models[i].clone(), &h.steps[i]).unwrap().1;
                        fully_logged(&h.steps[i], &recs)
                    };
                    if replayed && !(0..n).all(logged) {
                        break;
                    }
                    let l = Looked {
                        hist: h.clone(),
                        looks: looks.clone(),
                        replayed,
                    };
                    run.case("looked", &l, looked);
                }
            }
        });
    };
    go("one_step", all_roots(), Starts::New, &[Full], false);
    go("one_step_many", all_roots(), Starts::Many, &[Tiny], false);
    go("one_step_large", all_roots(), Starts::Large, &[Tiny], false);
    go("two_steps", all_roots(), Starts::New, &[Tiny, Tiny], false);
    if run.thorough {
        go("two_steps_few", all_roots(), Starts::Few, &[Tiny, Tiny], true);
        go("two_steps_lean", CORE.to_vec(), Starts::New, &[Lean, Tiny], true);
        go("three_steps", CORE.to_vec(), Starts::New, &[Tiny, Tiny, Tiny], false);
    }
}

/// Explores histories without checking them as such.
fn explore_quietly(run: &Run, plan: &Plan, f: impl Fn(&Hist, &[Val]) + Sync) {
    let mut items = Vec::new();
    for name in &plan.roots {
        let root = root_named(name);
        let ty = (root.ty)();
        for st in starts(ty, plan.starts) {
            let v = st.val(ty);
            items.push((root, st.clone(), None));
            if let Some(level) = plan.depths.first() {
                for step in gen::ops(ty, &v, *level) {
                    items.push((root, st.clone(), Some(step)));
                }
            }
        }
    }
    fn rec(
        ty: Ty,
        plan: &Plan,
        step: &Step,
        hist: &mut Hist,
        models: &mut Vec<Val>,
        seen: &mut HashSet<u64>,
        f: &(impl Fn(&Hist, &[Val]) + Sync),
    ) -> u64 {
        let mut v = models.last().unwrap().clone();
        if perform(ty, &mut v, step).is_none() {
            return 0;
        }
        hist.steps.push(step.clone());
        models.push(v);
        f(hist, models);
        seen.insert(hash(&(&hist.root, models.last())));
        let mut n = 1;
        if let Some(level) = plan.depths.get(hist.steps.len()) {
            for step in gen::ops(ty, models.last().unwrap(), *level) {
                n += rec(ty, plan, &step, hist, models, seen, f);
            }
        }
        models.pop();
        hist.steps.pop();
        n
    }
    run.par(&items, |(root, st, first)| {
        let ty = (root.ty)();
        let mut hist = Hist {
            root: root.name.into(),
            start: st.clone(),
            steps: vec![],
            access: 0,
        };
        let mut models = vec![st.val(ty)];
        let mut seen = HashSet::new();
        match first {
            Some(step) => {
                let n = rec(ty, plan, step, &mut hist, &mut models, &mut seen, &f);
                run.transitions.fetch_add(n, Relaxed);
            }
            None => {
                f(&hist, &models);
                seen.insert(hash(&(root.name, &models[0])));
            }
        }
        if hash(&hist) % 97 == 1 {
            run.sample(&hist);
        }
        run.states_seen(seen);
    });
}

// ---------------------------------------------------------------- C16

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Replayed {
    root: String,
    start: Start,
    /// Records, or raw bytes of one with whether they must be accepted (as the given record).
    recs: Vec<Raw>,
    /// A mutation made afterwards.
    probe: Option<usize>,
    /// Whether the state isn't a root.
    child: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Raw {
    Rec(Rec),
    As(Vec<u8>, Option<Rec>),
}

/// Path of any place at which something is addressable, with its type (if any).
fn places(ty: Ty, v: &Val) -> Vec<(Vec<u32>, Option<Ty>)> {
    let mut out: Vec<(Vec<u32>, Option<Ty>)> = Vec::new();
    for (path, t, x) in nodes(ty, v) {
        out.push((path.clone(), Some(t)));
        let mut add = |suffix: &[u32], t: Option<Ty>| {
            let mut p = path.clone();
            p.extend(suffix);
            out.push((p, t));
        };
        let odd = [7, 8, 99, 127, 128, FIELD_MAX, u32::MAX];
        match (&**t, &x) {
            (TyDef::Struct(_, fields), _) => {
                for f in fields.iter().filter(|f| !f.state) {
                    add(&[f.tag], Some(f.ty));
                    add(&[f.tag, 0], Some(f.ty));
                }
                for n in odd.into_iter().chain(0..4) {
                    if fields.iter().all(|f| f.tag != n) {
                        add(&[n], None);
                        add(&[n, 0], None);
                    }
                }
            }
            (TyDef::Enum(_, variants), Val::Enum(tag, _)) => {
                for var in variants {
                    add(&[var.tag], Some(t));
                    for f in &var.fields {
                        if var.tag != *tag || !f.state {
                            add(&[var.tag, f.tag], Some(f.ty));
                            add(&[var.tag, f.tag, 0], Some(f.ty));
                        }
                    }
                    for n in [0, 1, 2, 9, u32::MAX] {
                        if var.fields.iter().all(|f| f.tag != n) {
                            add(&[var.tag, n], None);
                        }
                    }
                }
                for n in odd.into_iter().chain(0..6) {
                    if variants.iter().all(|f| f.tag != n) {
                        add(&[n], None);
                        add(&[n, 0], None);
                    }
                }
            }
            (TyDef::List(t), Val::Seq(items)) => {
                let len = items.len() as u32;
                for n in [len, len + 1, len + 128, u32::MAX] {
                    add(&[n], Some(t));
                    add(&[n, 0], Some(t));
                }
            }
            (TyDef::Map(k, t), Val::Map(pairs)) => {
                for n in [0, 1, 2, 15, 16, 255, 256, 65535, 65536, FIELD_MAX, FIELD_MAX + 1, u32::MAX] {
                    // Keys beyond what the wire format allows are out of the scope of 32-bit maps.
                    if pairs.iter().all(|p| p.0 != n) && (*k != KeyTy::U32 || n <= FIELD_MAX) {
                        add(&[n], Some(t));
                        add(&[n, 0], Some(t));
                        add(&[n, 1, 0], Some(t));
                    }
                }
            }
            _ => {
                add(&[0], Some(t));
                add(&[1, 0], None);
            }
        }
    }
    out
}

fn payloads(ty: Ty) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = gen::small(ty, Level::Lean).iter().map(|v| encode(ty, v)).collect();
    let r = encode(ty, &gen::rich(ty, 3));
    if !r.is_empty() {
        out.push(r[..r.len() - 1].to_vec());
        out.push(r[..r.len() / 2].to_vec());
        // Something unknown in front of or after it.
        let mut with = r.clone();
        with.extend([0xf8, 0x07, 0x85, 0x01]);
        out.push(with);
        let mut with = r.clone();
        with.extend([0xfa, 0x07, 0x02, 0x00]);
        out.push(with);
        let mut twice = r.clone();
        twice.extend(&r);
        out.push(twice);
    }
    out.extend([vec![], vec![0x80], vec![7], vec![0xff; 11], vec![0x0a], vec![0x0a, 5, 1], vec![3, 0], vec![0, 0, 0]]);
    out.sort();
    out.dedup();
    out
}

fn records(ty: Ty, v: &Val) -> Vec<Raw> {
    let mut out = Vec::new();
    let u32_ty = <u32 as crate::live::Model>::ty();
    for (path, t) in places(ty, v) {
        let t = t.unwrap_or(u32_ty);
        for p in payloads(t) {
            out.push(Rec::Update(path.clone(), p));
        }
        let item = match &**t {
            TyDef::List(t) | TyDef::Vec(t) => *t,
            _ => u32_ty,
        };
        for p in payloads(item) {
            out.push(Rec::Push(path.clone(), p));
        }
        out.push(Rec::Pop(path.clone()));
        for k in [0, 1, 16, 9, 255, 256, 2000, u32::MAX] {
            out.push(Rec::Remove(path.clone(), k));
        }
    }
    out.into_iter().map(Raw::Rec).collect()
}

/// Records in unusual or wrong encodings.
fn raws(ty: Ty, v: &Val) -> Vec<Raw> {
    let mut out = Vec::new();
    let nest = |b: &[u8]| {
        let mut out = Vec::new();
        put_varint(b.len() as u64, &mut out);
        out.extend(b);
        out
    };
    let mut recs = vec![Rec::Update(vec![], encode(ty, &gen::rich(ty, 3)))];
    for (path, t, x) in nodes(ty, v).into_iter().take(6) {
        recs.push(Rec::Update(path.clone(), encode(t, &x)));
        match &**t {
            TyDef::List(t) => {
                recs.push(Rec::Push(path.clone(), encode(t, &gen::rich(t, 3))));
                recs.push(Rec::Pop(path.clone()));
            }
            TyDef::Map(..) => recs.push(Rec::Remove(path.clone(), 1)),
            _ => (),
        }
    }
    for rec in &recs {
        let b = rec.encode();
        // Unknown kinds.
        for kind in [1u8, 2, 7, 10, 11, 13, 127] {
            let mut x = b.clone();
            x[0] = kind;
            out.push(Raw::As(nest(&x), None));
        }
        // Unknown fields.
        for extra in [&[0x18u8, 0x05][..], &[0x1a, 2, 0, 0], &[0xfa, 0x07, 0], &[0xf8, 0x07, 0xff, 0x01]] {
            let mut x = b.clone();
            x.extend(extra);
            out.push(Raw::As(nest(&x), Some(rec.clone())));
            let mut x = vec![b[0]];
            x.extend(extra);
            x.extend(&b[1..]);
            out.push(Raw::As(nest(&x), Some(rec.clone())));
        }
        // Truncated at every byte, or of a wrong size.
        let n = nest(&b);
        for cut in 1..n.len() {
            out.push(Raw::As(n[..cut].to_vec(), None));
        }
        // Illegal wire types.
        for wire in [1u8, 3, 4, 5, 6, 7] {
            let mut x = b.clone();
            x.extend([0x18 | wire, 0]);
            out.push(Raw::As(nest(&x), None));
        }
        // Overlong lengths and kinds.
        let mut x = vec![b[0] | 0x80, 0x80, 0];
        x.extend(&b[1..]);
        out.push(Raw::As(nest(&x), Some(rec.clone())));
        let mut x = Vec::new();
        put_varint(b.len() as u64, &mut x);
        *x.last_mut().unwrap() |= 0x80;
        x.push(0);
        x.extend(&b);
        out.push(Raw::As(x, Some(rec.clone())));
    }
    out.push(Raw::As(vec![0], None));
    out
}

fn replayed(r: &Replayed) -> Check {
    set_access(0);
    let root = root_named(&r.root);
    let ty = (root.ty)();
    let mut model = r.start.val(ty);
    let (mut s, log) = start_logged(root, &r.start)?;
    if r.child {
        s.set_runtime(s.get_runtime().nested(3));
    }
    let mut bytes = Vec::new();
    let mut expected = Ok(());
    let mut any_lossy = false;
    for raw in &r.recs {
        let rec = match raw {
            Raw::Rec(rec) => {
                bytes.extend(rec.encode_nested());
                Some(rec)
            }
            Raw::As(b, rec) => {
                bytes.extend(b);
                rec.as_ref()
            }
        };
        if expected.is_ok() && !r.child {
            match rec {
                Some(rec) => {
                    let mut next = model.clone();
                    let (res, lossy) = apply(ty, &mut next, rec);
                    any_lossy |= lossy;
                    if res.is_ok() {
                        model = next;
                    }
                    expected = res;
                }
                None => expected = Err(Bad("malformed")),
            }
        }
    }
    if r.child && !bytes.is_empty() {
        expected = Err(Bad("not a root"));
    }
    let before = s.val();
    let res = s.replay(&mut &*bytes);
    ensure!(bytes_of(&log).is_empty(), "replaying was logged");
    if any_lossy {
        if res.is_err() && r.recs.len() == 1 {
            ensure!(s.val() == before, "a rejected record changed the state to {:?}", s.val());
        }
        return Ok(());
    }
    match (&res, &expected) {
        (Ok(()), Err(e)) => return Err(format!("accepted, though it's wrong: {}", e.0)),
        (Err(e), Ok(())) => return Err(format!("rejected: {}", e)),
        _ => (),
    }
    ensure!(s.val() == model, "left {:?} instead of {:?}", s.val(), model);
    let encoding = encode(ty, &model);
    ensure!(s.bytes() == encoding, "encoded as {:?} instead of {:?}", s.bytes(), encoding);
    s.audit()?;
    if let (Some(probe), false) = (r.probe, r.child) {
        let ops = gen::ops(ty, &model, Level::Tiny);
        if !ops.is_empty() {
            logged_step(ty, &mut s, &log, &mut model, &ops[probe % ops.len()])?;
        }
    }
    Ok(())
}

pub fn c16(run: &Run) {
    if run.replaying::<Replayed>("replayed", replayed) {
        return;
    }
    let go = |name: &str, roots: Vec<&'static str>, which: Starts, seqs: bool| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let mut items = Vec::new();
        for name in roots {
            let root = root_named(name);
            for st in starts((root.ty)(), which) {
                items.push((root, st));
            }
        }
        run.par(&items, |(root, st)| {
            let ty = (root.ty)();
            let v = st.val(ty);
            let mut seen = HashSet::new();
            let case = |recs: Vec<Raw>, probe: Option<usize>, child: bool| {
                if run.stopped() {
                    return;
                }
                let r = Replayed {
                    root: root.name.into(),
                    start: st.clone(),
                    recs,
                    probe,
                    child,
                };
                run.transitions.fetch_add(r.recs.len() as u64, Relaxed);
                if hash(&r) % 10007 == 1 {
                    run.sample(&r);
                }
                run.case("replayed", &r, replayed);
            };
            let recs = records(ty, &v);
            case(vec![], None, false);
            for (i, rec) in recs.iter().enumerate() {
                if let Raw::Rec(r) = rec {
                    let mut after = v.clone();
                    let _ = apply(ty, &mut after, r);
                    seen.insert(hash(&(root.name, after)));
                }
                case(vec![rec.clone()], Some(i), false);
                if i % 7 == 0 {
                    case(vec![rec.clone()], None, true);
                }
            }
            for (i, raw) in raws(ty, &v).into_iter().enumerate() {
                case(vec![raw], Some(i), false);
            }
            if seqs {
                // A fitting record, then any, then a fitting one.
                let fits = |v: &Val| -> Vec<Raw> {
                    gen::ops(ty, v, Level::Tiny)
                        .iter()
                        .filter_map(|op| Some(perform(ty, &mut v.clone(), op)?.1))
                        .flat_map(|recs| recs.into_iter().take(1))
                        .map(Raw::Rec)
                        .collect()
                };
                let first = fits(&v);
                for a in first.iter().take(6) {
                    let mut mid = v.clone();
                    if let Raw::Rec(r) = a {
                        let _ = apply(ty, &mut mid, r);
                    }
                    let all = records(ty, &mid);
                    let stride = (all.len() / if run.thorough { 600 } else { 40 }).max(1);
                    for (i, b) in all.iter().enumerate() {
                        if i % stride == 0 {
                            case(vec![a.clone(), b.clone(), first[i % first.len()].clone()], Some(i), false);
                        }
                    }
                }
            }
            run.states_seen(seen);
        });
    };
    go("fresh", all_roots(), Starts::New, true);
    go("few", all_roots(), Starts::Few, true);
    if run.thorough {
        go("many", all_roots(), Starts::Many, true);
        go("large", CORE.to_vec(), Starts::Large, false);
    }
}

// ---------------------------------------------------------------- C17

/// Moves of values within and between two trees.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Move {
    /// A mutation of one of the trees.
    Step(usize, Step),
    /// Inserts the value removed last.
    Put(usize, Step),
    /// Inserts a clone of a node of the other tree (or the same one).
    Copy(usize, Vec<u32>, usize, Step),
    /// Inserts a root with a logger of its own.
    Graft(usize, Step),
    /// Reloads a tree from its encoding.
    Reload(usize),
    /// Replaces a tree by its clone with a new runtime.
    Rehome(usize),
    /// Replays a record.
    Replay(usize, Step),
    /// Merges an encoding into a node.
    Merge(usize, Vec<u32>, Val),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Moves {
    root: String,
    start: Start,
    moves: Vec<Move>,
}

struct Trees {
    ty: Ty,
    root: &'static Root,
    trees: Vec<(State, Log, Val)>,
    /// Removed values, with their types.
    pool: Vec<(State, Val)>,
}

impl Trees {
    fn quiet(&self, what: &str) -> Check {
        for (i, (_, log, _)) in self.trees.iter().enumerate() {
            let bytes = bytes_of(log);
            ensure!(bytes.is_empty(), "{} logged {:?} in tree {}", what, decode_log(&bytes), i);
        }
        Ok(())
    }

    /// Performs a step on a tree; `false` if it doesn't apply.
    fn step(&mut self, tree: usize, step: &Step) -> Result<bool, String> {
        let (s, log, model) = &mut self.trees[tree];
        let mut next = model.clone();
        let Some((_, recs)) = perform(self.ty, &mut next, step) else {
            return Ok(false);
        };
        let Some((ret, removed)) = act(s, step) else {
            return Ok(false);
        };
        *model = next;
        let bytes = drain(log);
        let logged = decode_log(&bytes).map_err(|e| e.0)?;
        ensure!(logged == recs, "{:?} on tree {} logs {:?} instead of {:?}", step, tree, logged, recs);
        self.quiet(&format!("{:?} on tree {}", step, tree))?;
        if let (Some(removed), Ret::Value(Some(v))) = (removed, ret) {
            self.pool.push((removed, v));
        }
        Ok(true)
    }

    fn put(&mut self, tree: usize, step: &Step, hand: Box<dyn std::any::Any>) -> Result<bool, String> {
        HAND.with(|h| *h.borrow_mut() = Some(hand));
        let res = self.step(tree, step);
        HAND.with(|h| h.borrow_mut().take());
        res
    }

    fn make(&mut self, m: &Move) -> Result<bool, String> {
        match m {
            Move::Step(tree, step) => self.step(*tree, step),
            Move::Put(tree, step) => match self.pool.pop() {
                Some((s, _)) => self.put(*tree, step, s.into_std_any()),
                None => Ok(false),
            },
            Move::Copy(from, path, to, step) => {
                let mut copy = None;
                self.trees[*from].0.at(path, &mut |node| copy = Some(node.boxed_state()));
                match copy {
                    Some(copy) => self.put(*to, step, copy.into_std_any()),
                    None => Ok(false),
                }
            }
            Move::Graft(tree, step) => {
                let v = match &step.op {
                    Op::Set(v, _) | Op::Push(v, _) | Op::Insert(_, v, _) => v.clone(),
                    _ => return Ok(false),
                };
                // Any root of a type with such values.
                let t = target(self.ty, &step.path, &step.op);
                let Some(root) = t.and_then(|t| roots().iter().find(|r| std::ptr::eq((r.ty)(), t))) else {
                    return Ok(false);
                };
                let (rt, log) = logger();
                let graft = (root.build_mut)(rt, &v);
                log.lock().unwrap().clear();
                let res = self.put(*tree, step, graft.into_std_any())?;
                if res {
                    ensure!(bytes_of(&log).is_empty(), "moving a root was logged by its own logger");
                }
                Ok(res)
            }
            Move::Reload(tree) => {
                let (s, log, _) = &mut self.trees[*tree];
                let bytes = s.bytes();
                let (rt, l) = logger();
                *s = (self.root.with_runtime)(rt);
                *log = l;
                decode_into(s, &bytes)?;
                Ok(true)
            }
            Move::Rehome(tree) => {
                let (s, log, _) = &mut self.trees[*tree];
                let (rt, l) = logger();
                *s = s.boxed_state();
                s.set_runtime(rt);
                *log = l;
                Ok(true)
            }
            Move::Replay(tree, step) => {
                let (s, _, model) = &mut self.trees[*tree];
                match perform(self.ty, model, step) {
                    Some((_, recs)) => {
                        replay(s, &encode_log(&recs))?;
                        self.quiet("replaying")?;
                        Ok(true)
                    }
                    None => Ok(false),
                }
            }
            Move::Merge(tree, path, v) => {
                let (s, _, model) = &mut self.trees[*tree];
                let Some((ty, node)) = spot_mut(self.ty, model, path) else {
                    return Ok(false);
                };
                let bytes = encode(ty, v);
                merge(ty, node, &mut In::new(&bytes)).map_err(|e| e.0)?;
                let mut res = None;
                s.at(path, &mut |node| res = Some(node.merge(&mut &*bytes)));
                match res {
                    Some(res) => ensure!(res.map_err(|e| e.to_string())?, "merging left some input"),
                    None => return Err(format!("harness: no node at {:?}", path)),
                }
                self.quiet("merging")?;
                Ok(true)
            }
        }
    }

    /// Mutates all nodes in turn, checking where this is logged.
    fn probe(&mut self) -> Check {
        for tree in 0..self.trees.len() {
            for step in probes(self.ty, &self.trees[tree].2) {
                self.step(tree, &step)?;
            }
            let (s, _, model) = &self.trees[tree];
            ensure!(s.val() == *model, "tree {} is {:?} instead of {:?}", tree, s.val(), model);
        }
        let mut pool = std::mem::take(&mut self.pool);
        for (s, v) in &mut pool {
            let ty = s.ty();
            let got = s.val();
            if got != *v {
                return Err(format!("a removed value is {:?} instead of {:?}", got, v));
            }
            for step in probes(ty, v) {
                if perform(ty, v, &step).is_some() && act(s, &step).is_some() {
                    self.quiet(&format!("{:?} on a removed value", step))?;
                }
            }
        }
        // Those removed by probes as well.
        self.pool.clear();
        Ok(())
    }
}

/// The node at a path.
fn spot_mut<'a>(ty: Ty, v: &'a mut Val, path: &[u32]) -> Option<(Ty, &'a mut Val)> {
    let field = |fields: &[Field], tag: u32| {
        let i = fields.iter().position(|f| f.tag == tag)?;
        Some((i, fields[i].ty))
    };
    if path.is_empty() {
        return Some((ty, v));
    }
    match (&**ty, v, path) {
        (TyDef::Struct(_, fields), Val::Struct(values), [f, rest @ ..]) => {
            let (i, t) = field(fields, *f)?;
            spot_mut(t, &mut values[i], rest)
        }
        (TyDef::Enum(_, variants), Val::Enum(tag, values), [var, f, rest @ ..]) => {
            if var != tag {
                return None;
            }
            let (i, t) = field(&variant(variants, *var)?.fields, *f)?;
            spot_mut(t, &mut values[i], rest)
        }
        (TyDef::List(t), Val::Seq(items), [i, rest @ ..]) => spot_mut(t, items.get_mut(*i as usize)?, rest),
        (TyDef::Map(_, t), Val::Map(pairs), [k, rest @ ..]) => {
            spot_mut(t, &mut pairs.iter_mut().find(|p| p.0 == *k)?.1, rest)
        }
        _ => None,
    }
}

/// The type of values an operation takes.
fn target(ty: Ty, path: &[u32], op: &Op) -> Option<Ty> {
    match (&**ty, path) {
        (TyDef::Struct(_, fields), [f, rest @ ..]) => {
            let f = fields.iter().find(|x| x.tag == *f)?;
            if rest.is_empty() && matches!(op, Op::Set(..)) {
                Some(f.ty)
            } else {
                target(f.ty, rest, op)
            }
        }
        (TyDef::Enum(_, variants), [v, f, rest @ ..]) => {
            let f = variant(variants, *v)?.fields.iter().find(|x| x.tag == *f)?;
            if rest.is_empty() && matches!(op, Op::Set(..)) {
                Some(f.ty)
            } else {
                target(f.ty, rest, op)
            }
        }
        (TyDef::List(t) | TyDef::Map(_, t), []) => Some(t),
        (TyDef::List(t) | TyDef::Map(_, t), [_, rest @ ..]) => target(t, rest, op),
        _ => None,
    }
}

/// Mutations reaching every node without changing the shape of the tree for good.
fn probes(ty: Ty, v: &Val) -> Vec<Step> {
    let mut out = Vec::new();
    for (path, t, x) in nodes(ty, v) {
        let mut add = |suffix: &[u32], op: Op| {
            let mut path = path.clone();
            path.extend(suffix);
            out.push(Step { path, op });
        };
        let set = |f: &Field, x: &Val| {
            let n = gen::small(f.ty, Level::Tiny);
            n.into_iter().find(|n| n != x)
        };
        match (&**t, &x) {
            (TyDef::Struct(_, fields), Val::Struct(values)) => {
                for (f, x) in fields.iter().zip(values) {
                    if wire(f.ty) == VARINT {
                        if let Some(n) = set(f, x) {
                            add(&[f.tag], Op::Set(n, How::Value));
                        }
                    }
                }
            }
            (TyDef::Enum(_, variants), Val::Enum(tag, values)) => {
                for (f, x) in variant(variants, *tag).unwrap().fields.iter().zip(values) {
                    if wire(f.ty) == VARINT {
                        if let Some(n) = set(f, x) {
                            add(&[*tag, f.tag], Op::Set(n, How::Value));
                        }
                    }
                }
            }
            (TyDef::List(t), _) => {
                add(&[], Op::Push(gen::rich(t, 2), How::Value));
                add(&[], Op::Pop);
            }
            (TyDef::Map(k, t), Val::Map(pairs)) => {
                let key = (0..k.max()).find(|k| pairs.iter().all(|p| p.0 != *k));
                if let Some(key) = key {
                    add(&[], Op::Insert(key, gen::rich(t, 2), How::Value));
                    add(&[], Op::Remove(key));
                }
            }
            _ => (),
        }
    }
    out
}

fn moved(m: &Moves) -> Check {
    set_access(0);
    let root = root_named(&m.root);
    let ty = (root.ty)();
    let mut trees = Trees {
        ty,
        root,
        trees: Vec::new(),
        pool: Vec::new(),
    };
    let mut other = m.start.clone();
    if let (Start::Built(v), true) = (&m.start, true) {
        other = Start::Decoded(v.clone());
    }
    for st in [&m.start, &other] {
        let (s, log) = start_logged(root, st)?;
        trees.trees.push((s, log, st.val(ty)));
    }
    for mv in &m.moves {
        if !trees.make(mv)? {
            return Ok(());
        }
    }
    trees.probe()
}

/// All moves enabled with the given models and pool.
fn enabled(ty: Ty, models: &[Val], pool: &[(Ty, Val)], level: Level, first: bool) -> Vec<Move> {
    let mut out = Vec::new();
    let trees: &[usize] = if first { &[0] } else { &[0, 1] };
    for &tree in trees {
        for step in gen::ops(ty, &models[tree], level) {
            out.push(Move::Step(tree, step.clone()));
            let recs = perform(ty, &mut models[tree].clone(), &step).map(|x| x.1);
            if first && level != Level::Tiny && recs.is_some_and(|recs| fully_logged(&step, &recs)) {
                out.push(Move::Replay(tree, step.clone()));
            }
        }
        out.push(Move::Reload(tree));
        out.push(Move::Rehome(tree));
        for (path, t, _) in nodes(ty, &models[tree]) {
            if wire(t) == VARINT {
                continue;
            }
            let mut values = vec![gen::rich(t, 2)];
            if level != Level::Tiny {
                values.extend(gen::small(t, Level::Tiny));
            }
            for v in values {
                out.push(Move::Merge(tree, path.clone(), v));
            }
        }
        // Places in which a value may be put.
        let mut places: Vec<(Step, Ty)> = Vec::new();
        for step in gen::ops(ty, &models[tree], Level::Tiny) {
            if let (Some(t), Op::Set(..) | Op::Push(..) | Op::Insert(..)) = (target(ty, &step.path, &step.op), &step.op) {
                let with = |v: Val, how: How| Step {
                    path: step.path.clone(),
                    op: match &step.op {
                        Op::Set(..) => Op::Set(v, how),
                        Op::Push(..) => Op::Push(v, how),
                        Op::Insert(k, ..) => Op::Insert(*k, v, how),
                        op => op.clone(),
                    },
                };
                let key = with(Val::B(false), How::Hand);
                if places.iter().any(|p| p.0 == key) || wire(t) == VARINT {
                    continue;
                }
                places.push((key, t));
                let hows = [How::Hand, How::WithHand];
                let how = hows[places.len() % 2];
                if let Some((pt, v)) = pool.last() {
                    if std::ptr::eq(*pt, t) {
                        out.push(Move::Put(tree, with(v.clone(), How::Hand)));
                        out.push(Move::Put(tree, with(v.clone(), How::WithHand)));
                    }
                }
                for from in 0..2 {
                    for (path, nt, v) in nodes(ty, &models[from]) {
                        if std::ptr::eq(nt, t) {
                            out.push(Move::Copy(from, path, tree, with(v, how)));
                        }
                    }
                }
                out.push(Move::Graft(tree, with(gen::rich(t, 3), how)));
            }
        }
    }
    out
}

/// What a move does to the models; `false` if it's not enabled.
fn model_move(ty: Ty, models: &mut [Val], pool: &mut Vec<(Ty, Val)>, m: &Move) -> bool {
    let (tree, step) = match m {
        Move::Reload(_) | Move::Rehome(_) => return true,
        Move::Replay(tree, step) => return perform(ty, &mut models[*tree], step).is_some(),
        Move::Merge(tree, path, v) => {
            return spot_mut(ty, &mut models[*tree], path)
                .is_some_and(|(t, node)| merge(t, node, &mut In::new(&encode(t, v))).is_ok())
        }
        Move::Put(tree, step) => {
            pool.pop();
            (*tree, step)
        }
        Move::Step(tree, step) | Move::Graft(tree, step) | Move::Copy(_, _, tree, step) => (*tree, step),
    };
    match perform(ty, &mut models[tree], step) {
        Some((ret, _)) => {
            if let Ret::Value(Some(v)) = ret {
                if let Some(t) = target(ty, &step.path, &step.op) {
                    pool.push((t, v));
                }
            }
            true
        }
        None => false,
    }
}

pub fn c17(run: &Run) {
    if run.replaying::<Moves>("moves", moved) {
        return;
    }
    let go = |name: &str, roots: Vec<&'static str>, which: &[Starts], depths: &[Level]| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let mut items = Vec::new();
        for name in roots {
            let root = root_named(name);
            let ty = (root.ty)();
            for which in which {
                for st in starts(ty, *which) {
                    let v = st.val(ty);
                    for m in enabled(ty, &[v.clone(), v], &[], depths[0], true) {
                        items.push((root, st.clone(), m));
                    }
                }
            }
        }
        #[allow(clippy::too_many_arguments)]
        fn rec(
            run: &Run,
            ty: Ty,
            depths: &[Level],
            models: &[Val],
            pool: &[(Ty, Val)],
            case: &mut Moves,
            m: &Move,
            seen: &mut HashSet<u64>,
        ) {
            if run.stopped() {
                return;
            }
            let mut models = models.to_vec();
            let mut pool = pool.to_vec();
            if !model_move(ty, &mut models, &mut pool, m) {
                return;
            }
            case.moves.push(m.clone());
            run.case("moves", case, moved);
            run.transitions.fetch_add(case.moves.len() as u64, Relaxed);
            seen.insert(hash(&(&case.root, &models)));
            if hash(&case) % 20011 == 1 {
                run.sample(case);
            }
            if let Some(level) = depths.get(case.moves.len()) {
                for m in enabled(ty, &models, &pool, *level, false) {
                    rec(run, ty, depths, &models, &pool, case, &m, seen);
                }
            }
            case.moves.pop();
        }
        run.par(&items, |(root, st, m)| {
            let ty = (root.ty)();
            let v = st.val(ty);
            let mut case = Moves {
                root: root.name.into(),
                start: st.clone(),
                moves: vec![],
            };
            let mut seen = HashSet::new();
            rec(run, ty, depths, &[v.clone(), v], &[], &mut case, m, &mut seen);
            run.states_seen(seen);
        });
    };
    go("one_move", all_roots(), &[Starts::New, Starts::Many], &[Full]);
    go("one_move_large", all_roots(), &[Starts::Large], &[Tiny]);
    let (trees, others): (Vec<_>, Vec<_>) = all_roots().into_iter().partition(|r| r.contains("Tree"));
    go("two_moves", others, &[Starts::Few], &[Tiny, Tiny]);
    if run.thorough {
        go("two_moves_trees", trees, &[Starts::Few], &[Tiny, Tiny]);
        go("two_moves_lean", all_roots(), &[Starts::New, Starts::Few], &[Lean, Tiny]);
        go("three_moves", CORE.to_vec(), &[Starts::New, Starts::Few], &[Tiny, Tiny, Tiny]);
    }
}

// ---------------------------------------------------------------- C18

pub fn c18(run: &Run) {
    usual(run, "history", &[0, 1, 2, 3], false, |h, _| {
        let (root, mut s, _log) = begin(h)?;
        let ty = (root.ty)();
        let mut model = h.start.val(ty);
        ensure!(s.val() == model, "starts as {:?} instead of {:?}", s.val(), model);
        for step in &h.steps {
            let (ret, _) = perform(ty, &mut model, step).expect("harness: step doesn't apply");
            let Some((got, removed)) = act(&mut s, step) else {
                return Err(format!("{:?} doesn't apply", step));
            };
            ensure!(got == ret, "{:?} returns {:?} instead of {:?}", step, got, ret);
            if let (Ret::Value(Some(v)), Some(r)) = (&ret, &removed) {
                r.audit()?;
                let bytes = encode(r.ty(), v);
                ensure!(r.bytes() == bytes, "returned {:?}, but encoded as {:?}", v, r.bytes());
            }
            ensure!(s.val() == model, "{:?} gives {:?} instead of {:?}", step, s.val(), model);
            s.audit()?;
        }
        Ok(())
    });
}
