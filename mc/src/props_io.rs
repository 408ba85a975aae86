//! C09, C12: torn input, and chunked, interrupted or failing I/O.

use std::{
    collections::HashSet,
    io::{self, ErrorKind, Read, Write},
    sync::atomic::Ordering::Relaxed,
};

use serde::{Deserialize, Serialize};
use steit::rt::Runtime;

use crate::{
    dynamic::{Codec, Dyn},
    ensure,
    gen::{self, Level::*},
    hist::*,
    model::*,
    props_codec::{alike, codec_named, codecs, families, has_hash, model_replay},
    props_hist::{all_roots, begin, CORE},
    run::{guard, hash, Check, Run},
};

fn explore_plans(run: &Run, kind: &'static str, plans: &[(&str, Vec<&'static str>, Starts, &[gen::Level])], check: impl Fn(&Hist, &[Val]) -> Check + Sync) {
    for (name, roots, starts, depths) in plans {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let plan = Plan { roots: roots.clone(), starts: *starts, depths: depths.to_vec(), accesses: vec![0], logged: true };
        explore(run, kind, &plan, &check);
    }
}

/// Records logged by a history.
fn log_of(h: &Hist) -> Result<(Vec<u8>, usize), String> {
    let (_, mut s, log) = begin(h)?;
    let mut bytes = Vec::new();
    let mut last = 0;
    for step in &h.steps {
        act(&mut s, step);
        last = bytes.len();
        bytes.extend(drain(&log));
    }
    Ok((bytes, last))
}

// ---------------------------------------------------------------- C09

/// Bytes at which to cut: all of them, unless the log is long.
fn cuts(from: usize, log: &[u8]) -> Vec<usize> {
    if log.len() - from <= 400 {
        return (from..=log.len()).collect();
    }
    let mut out: Vec<usize> = Vec::new();
    for end in boundaries(log) {
        out.extend(end.saturating_sub(24)..end + 24);
    }
    out.extend((from..log.len()).step_by(97));
    out.extend(log.len() - 200..=log.len());
    out.retain(|c| *c >= from && *c <= log.len());
    out.sort();
    out.dedup();
    out
}

/// Replays the log cut at a byte, then what follows the last complete record of it.
fn torn_at(root: &crate::dynamic::Root, st: &Start, log: &[u8], cut: usize, models: &[Val], ends: &[usize]) -> Check {
    let mut s = start(root, st, Runtime::new())?;
    let res = s.replay(&mut &log[..cut]);
    let complete = ends.iter().rposition(|e| *e <= cut).unwrap();
    let on_boundary = ends[complete] == cut;
    match res {
        Ok(()) => ensure!(on_boundary, "cut at byte {}, within a record, without an error", cut),
        Err(e) => ensure!(!on_boundary, "cut at byte {}, between records: {}", cut, e),
    }
    let v = s.val();
    ensure!(v == models[complete], "cut at byte {}: left {:?} instead of {:?}", cut, v, models[complete]);
    let bytes = s.bytes();
    let expected = encode((root.ty)(), &models[complete]);
    ensure!(bytes == expected, "cut at byte {}: encoded as {:?} instead of {:?}", cut, bytes, expected);
    if !on_boundary {
        // Once the rest has arrived, replaying goes on where it has stopped.
        replay(&mut s, &log[ends[complete]..])?;
        let v = s.val();
        ensure!(v == *models.last().unwrap(), "cut at byte {}, then completed: left {:?}", cut, v);
    }
    Ok(())
}

fn torn(h: &Hist) -> Check {
    let root = root_named(&h.root);
    let ty = (root.ty)();
    let (log, last) = log_of(h)?;
    let recs = decode_log(&log).map_err(|e| format!("cannot decode the log: {}", e.0))?;
    // States after each record.
    let mut models = vec![h.start.val(ty)];
    for rec in &recs {
        let mut v = models.last().unwrap().clone();
        apply(ty, &mut v, rec).0.map_err(|e| format!("the model rejects {:?}: {}", rec, e.0))?;
        models.push(v);
    }
    let ends = boundaries(&log);
    for cut in cuts(last, &log) {
        torn_at(root, &h.start, &log, cut, &models, &ends)?;
    }
    if h.steps.len() == 1 && log.len() < 300 {
        // The same, written by a later version: each record has further fields.
        let mut newer = Vec::new();
        for rec in &recs {
            let mut bytes = rec.encode();
            bytes.extend([6 << 3, 0x80, 1, 7 << 3 | 2, 3, 1, 2, 3]);
            put_varint(bytes.len() as u64, &mut newer);
            newer.extend(bytes);
        }
        let ends = boundaries(&newer);
        for cut in 0..=newer.len() {
            torn_at(root, &h.start, &newer, cut, &models, &ends)?;
        }
        // Records which are complete, but whose value isn't.
        for (i, rec) in recs.iter().enumerate() {
            let (path, value, push) = match rec {
                Rec::Update(p, v) => (p, v, false),
                Rec::Push(p, v) => (p, v, true),
                _ => continue,
            };
            for n in 0..value.len() {
                let part = value[..n].to_vec();
                let rec = if push { Rec::Push(path.clone(), part) } else { Rec::Update(path.clone(), part) };
                let mut v = models[i].clone();
                let (expected, lossy) = apply(ty, &mut v, &rec);
                if lossy {
                    continue;
                }
                let mut s = start(root, &Start::Decoded(models[i].clone()), Runtime::new())?;
                let log = rec.encode_nested();
                match (s.replay(&mut &*log), expected) {
                    (Ok(()), Ok(())) => (),
                    (Err(_), Err(_)) => (),
                    (Ok(()), Err(e)) => return Err(format!("{:?} is accepted: {}", rec, e.0)),
                    (Err(e), Ok(())) => return Err(format!("{:?} is rejected: {}", rec, e)),
                }
                ensure!(s.val() == v, "{:?} left {:?} instead of {:?}", rec, s.val(), v);
            }
        }
    }
    Ok(())
}

/// A nested value cut short.
#[derive(Serialize, Deserialize, Clone, Hash)]
struct Short {
    codec: String,
    val: Val,
}

fn short(case: &Short) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let hashed = has_hash(ty);
    let bytes = encode(ty, &case.val);
    let mut nested = Vec::new();
    encode_item(ty, &case.val, &mut nested);
    for cut in 0..nested.len() {
        let res = (codec.deserialize_nested)(wire(ty), &mut &nested[..cut]);
        ensure!(res.is_err(), "{} of {} bytes are accepted as {:?}", cut, nested.len(), res.unwrap().val());
        let mut x = (codec.default)();
        ensure!(x.merge_nested(wire(ty), &mut &nested[..cut]).is_err(), "{} of {} bytes are merged", cut, nested.len());
    }
    if wire(ty) == SIZED {
        // Declared longer than what is there.
        for more in [1, 2, 100, 1 << 20, 1 << 40] {
            let mut long = Vec::new();
            put_varint(bytes.len() as u64 + more, &mut long);
            long.extend(&bytes);
            let res = (codec.deserialize_nested)(SIZED, &mut &*long);
            ensure!(res.is_err(), "{} bytes too few are accepted as {:?}", more, res.unwrap().val());
        }
    }
    // Standalone values have no size, so that some cuts are values again.
    for cut in 0..bytes.len() {
        let (expected, lossy) = decode(ty, &bytes[..cut]);
        if lossy {
            continue;
        }
        let res = (codec.deserialize)(&mut &bytes[..cut]);
        match (res, expected) {
            (Ok(x), Ok(v)) => ensure!(alike(hashed, &x.val(), &v), "cut at {}: {:?} instead of {:?}", cut, x.val(), v),
            (Err(_), Err(_)) => (),
            (Ok(x), Err(e)) => return Err(format!("cut at {}: accepted as {:?}: {}", cut, x.val(), e.0)),
            (Err(e), Ok(_)) => return Err(format!("cut at {}: rejected: {}", cut, e)),
        }
    }
    Ok(())
}

pub fn c09(run: &Run) {
    if run.replaying::<Hist>("torn", torn) | run.replaying::<Short>("short", short) {
        return;
    }
    let all = all_roots;
    let mut plans = vec![
        ("one_step", all(), Starts::New, &[Full][..]),
        ("one_step_many", all(), Starts::Many, &[Lean]),
        ("one_step_large", all(), Starts::Large, &[Tiny]),
        ("two_steps", all(), Starts::New, &[Lean, Lean]),
        ("three_steps", CORE.to_vec(), Starts::New, &[Lean, Tiny, Tiny]),
    ];
    if run.thorough {
        plans.extend([
            ("one_step_all", all(), Starts::Many, &[Full][..]),
            ("two_steps_few", all(), Starts::Few, &[Lean, Lean]),
            ("three_steps_all", all(), Starts::New, &[Lean, Lean, Tiny]),
            ("four_steps", CORE.to_vec(), Starts::New, &[Lean, Tiny, Tiny, Tiny]),
        ]);
    }
    explore_plans(run, "torn", &plans, |h, _| torn(h));
    run.phase("nested");
    let cap = if run.thorough { 20_000 } else { 1500 };
    let list: Vec<&Codec> = codecs().iter().collect();
    run.par(&list, |c| {
        let ty = (c.ty)();
        let mut vs = gen::many(ty, 3, cap);
        if vs.len() > cap {
            vs = (0..cap).map(|i| vs[i * vs.len() / cap].clone()).collect();
        }
        let mut case = Short { codec: c.name.into(), val: Val::B(false) };
        let mut seen = HashSet::new();
        for v in vs {
            if encode(ty, &v).len() > 700 || run.stopped() {
                continue;
            }
            case.val = v;
            run.case("short", &case, short);
            seen.insert(hash(&case));
        }
        run.sample(&case);
        run.states_seen(seen);
    });
    run.assume("A record is complete once all bytes of its declared size are there. Logs longer than 400 bytes are only cut around record boundaries, near the end and at every 97th byte.");
}

// ---------------------------------------------------------------- C12

/// What a call of a reader or writer does, other than dealing with as many bytes as asked for.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Ans {
    /// Deal with at most so many bytes.
    Some(usize),
    Interrupt,
    Fail(u8),
    /// Writers only: accept nothing.
    Zero,
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
];

/// What the environment does: the given answers in turn, then chunks of the given size.
#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Env {
    answers: Vec<Ans>,
    chunk: usize,
    /// Whether each other answer interrupts.
    interrupts: bool,
}

impl Env {
    fn chunks(chunk: usize) -> Env {
        Env { answers: vec![], chunk, interrupts: false }
    }
    fn answer(&self, call: usize) -> Ans {
        match self.answers.get(call) {
            Some(a) => *a,
            None if self.interrupts && call % 2 == 0 => Ans::Interrupt,
            None => Ans::Some(self.chunk),
        }
    }
    fn failure(&self) -> Option<usize> {
        self.answers.iter().position(|a| matches!(a, Ans::Fail(_) | Ans::Zero))
    }
}

struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    calls: usize,
    env: &'a Env,
    /// How much had been delivered when an error was returned.
    failed: Option<(usize, ErrorKind)>,
}

impl<'a> Source<'a> {
    fn new(data: &'a [u8], env: &'a Env) -> Self {
        Source { data, pos: 0, calls: 0, env, failed: None }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        match self.env.answer(self.calls - 1) {
            Ans::Interrupt => Err(ErrorKind::Interrupted.into()),
            Ans::Fail(kind) => {
                let kind = KINDS[kind as usize];
                self.failed.get_or_insert((self.pos, kind));
                Err(io::Error::new(kind, "injected"))
            }
            Ans::Some(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
            Ans::Zero => Ok(0),
        }
    }
}

struct Sink<'a> {
    data: Vec<u8>,
    calls: usize,
    env: &'a Env,
    failed: Option<ErrorKind>,
}

impl<'a> Sink<'a> {
    fn new(env: &'a Env) -> Self {
        Sink { data: vec![], calls: 0, env, failed: None }
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        match self.env.answer(self.calls - 1) {
            Ans::Interrupt => Err(ErrorKind::Interrupted.into()),
            Ans::Fail(kind) => {
                let kind = KINDS[kind as usize];
                self.failed.get_or_insert(kind);
                Err(io::Error::new(kind, "injected"))
            }
            Ans::Zero => {
                self.failed.get_or_insert(ErrorKind::WriteZero);
                Ok(0)
            }
            Ans::Some(n) => {
                let n = n.min(buf.len());
                self.data.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// All environments for a number of calls made without failures and interruptions: answers deviate at up to
/// one call, or two of them if `pairs`.
fn deviations(chunk: usize, calls: usize, writer: bool, pairs: bool, f: &mut dyn FnMut(&Env) -> Check) -> Check {
    f(&Env::chunks(chunk))?;
    f(&Env { answers: vec![], chunk, interrupts: true })?;
    let mut env = Env::chunks(chunk);
    for i in 0..calls {
        env.answers = vec![Ans::Some(chunk); i];
        env.answers.push(Ans::Interrupt);
        f(&env)?;
        env.answers.push(Ans::Interrupt);
        f(&env)?;
        env.answers.truncate(i);
        env.answers.push(Ans::Some(1));
        f(&env)?;
        for kind in 0..KINDS.len() as u8 {
            if kind == 0 || kind as usize == 1 + i % (KINDS.len() - 1) {
                env.answers[i] = Ans::Fail(kind);
                f(&env)?;
            }
        }
        if writer {
            env.answers[i] = Ans::Zero;
            f(&env)?;
        }
        env.answers[i] = Ans::Interrupt;
        env.answers.push(Ans::Fail(0));
        f(&env)?;
        if pairs {
            for j in i + 1..calls + 1 {
                env.answers.truncate(i);
                env.answers.push(Ans::Some(1));
                env.answers.resize(j, Ans::Some(chunk));
                env.answers.push(Ans::Fail(0));
                f(&env)?;
                env.answers[j] = Ans::Interrupt;
                f(&env)?;
            }
        }
    }
    Ok(())
}

/// All ways to cut `len` bytes into chunks.
fn compositions(len: usize, f: &mut dyn FnMut(&Env) -> Check) -> Check {
    for mask in 0..1u32 << (len - 1) {
        let mut answers = Vec::new();
        let mut n = 1;
        for i in 0..len - 1 {
            if mask >> i & 1 == 1 {
                answers.push(Ans::Some(n));
                n = 1;
            } else {
                n += 1;
            }
        }
        answers.push(Ans::Some(n));
        f(&Env { answers, chunk: usize::MAX, interrupts: false })?;
    }
    Ok(())
}

// Decoding.

#[derive(Serialize, Deserialize, Clone, Hash)]
struct Decoded {
    codec: String,
    bytes: Vec<u8>,
    nested: bool,
    pairs: bool,
}

fn decode_from(codec: &Codec, nested: bool, wire: u32, reader: &mut dyn Read) -> Result<Val, ErrorKind> {
    let res = if nested { (codec.deserialize_nested)(wire, reader) } else { (codec.deserialize)(reader) };
    res.map(|x| x.val()).map_err(|e| e.kind())
}

fn read_chunked(case: &Decoded, count: &mut u64) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let hashed = has_hash(ty);
    let wire = wire(ty);
    let whole = decode_from(codec, case.nested, wire, &mut &*case.bytes);
    let mut one = |env: &Env| -> Check {
        *count += 1;
        let mut source = Source::new(&case.bytes, env);
        let res = guard(|| Ok(decode_from(codec, case.nested, wire, &mut source))).map_err(|e| format!("{:?}: {}", env, e))?;
        match source.failed {
            Some((pos, kind)) => match res {
                Err(k) => ensure!(k == kind, "{:?}: error {:?} is returned as {:?}", env, kind, k),
                Ok(v) => return Err(format!("{:?}: the error at {} is lost, giving {:?}", env, pos, v)),
            },
            None => match (&res, &whole) {
                (Ok(a), Ok(b)) => ensure!(alike(hashed, a, b), "{:?}: decoded as {:?} instead of {:?}", env, a, b),
                (Err(_), Err(_)) => (),
                _ => return Err(format!("{:?}: {:?} instead of {:?}", env, res, whole)),
            },
        }
        Ok(())
    };
    let n = case.bytes.len();
    if n >= 1 && n <= 9 {
        compositions(n, &mut one)?;
    }
    for chunk in [1, 2, 3, 7, usize::MAX] {
        let env = Env::chunks(chunk);
        let mut source = Source::new(&case.bytes, &env);
        let _ = decode_from(codec, case.nested, wire, &mut source);
        let calls = source.calls;
        if n <= 80 {
            deviations(chunk, calls, false, case.pairs && n <= 24, &mut one)?;
        } else {
            one(&env)?;
            one(&Env { answers: vec![], chunk, interrupts: true })?;
            for call in (0..calls).step_by(calls / 16 + 1) {
                for ans in [Ans::Fail(0), Ans::Interrupt] {
                    let mut answers = vec![Ans::Some(chunk); call];
                    answers.push(ans);
                    one(&Env { answers, chunk, interrupts: false })?;
                }
            }
        }
    }
    Ok(())
}

// Replaying.

fn replay_chunked(h: &Hist, pairs: bool, count: &mut u64) -> Check {
    let root = root_named(&h.root);
    let ty = (root.ty)();
    let (log, _) = log_of(h)?;
    if log.is_empty() {
        return Ok(());
    }
    let before = h.start.val(ty);
    let ends = boundaries(&log);
    // States after each record.
    let mut models = vec![before.clone()];
    for n in 1..ends.len() {
        let mut v = before.clone();
        let (res, _, _) = model_replay(ty, &mut v, &log[..ends[n]]);
        res.map_err(|e| format!("the model rejects the log: {}", e.0))?;
        models.push(v);
    }
    let mut one = |env: &Env| -> Check {
        *count += 1;
        let mut s = start(root, &h.start, Runtime::new())?;
        let mut source = Source::new(&log, env);
        let res = guard(|| Ok(s.replay(&mut source).map_err(|e| e.kind()))).map_err(|e| format!("{:?}: {}", env, e))?;
        let v = s.val();
        match source.failed {
            Some((pos, kind)) => {
                let complete = ends.iter().rposition(|e| *e <= pos).unwrap();
                match res {
                    Err(k) => ensure!(k == kind, "{:?}: error {:?} is returned as {:?}", env, kind, k),
                    Ok(()) => return Err(format!("{:?}: the error at byte {} is lost", env, pos)),
                }
                ensure!(v == models[complete], "{:?}: left {:?} instead of {:?}", env, v, models[complete]);
                // The rest can be replayed later on.
                replay(&mut s, &log[ends[complete]..])?;
                ensure!(s.val() == *models.last().unwrap(), "{:?}: then replaying the rest gives {:?}", env, s.val());
            }
            None => {
                ensure!(res.is_ok(), "{:?}: {:?}", env, res);
                ensure!(v == *models.last().unwrap(), "{:?}: left {:?} instead of {:?}", env, v, models.last());
            }
        }
        Ok(())
    };
    let n = log.len();
    if n <= 9 {
        compositions(n, &mut one)?;
    }
    for chunk in [1, 3, usize::MAX] {
        let env = Env::chunks(chunk);
        let mut s = start(root, &h.start, Runtime::new())?;
        let mut source = Source::new(&log, &env);
        s.replay(&mut source).map_err(|e| format!("{:?}: {}", env, e))?;
        let calls = source.calls;
        if n <= 60 {
            deviations(chunk, calls, false, pairs && n <= 20, &mut one)?;
        } else {
            one(&env)?;
            one(&Env { answers: vec![], chunk, interrupts: true })?;
            for call in (0..calls).step_by(calls / 24 + 1) {
                for ans in [Ans::Fail(0), Ans::Interrupt] {
                    let mut answers = vec![Ans::Some(chunk); call];
                    answers.push(ans);
                    one(&Env { answers, chunk, interrupts: false })?;
                }
            }
        }
    }
    Ok(())
}

// Encoding.

#[derive(Serialize, Deserialize, Clone, Hash)]
struct Encoded {
    codec: String,
    val: Val,
    pairs: bool,
}

fn write_chunked(case: &Encoded, count: &mut u64) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let x = (codec.make)(&case.val);
    let v = x.val();
    let expected = encode(ty, &v);
    type Way = fn(&dyn Dyn, &mut dyn Write) -> io::Result<()>;
    let mut item = Vec::new();
    encode_item(ty, &v, &mut item);
    let mut field = Vec::new();
    put_varint(300 << 3 | wire(ty) as u64, &mut field);
    field.extend(&item);
    let ways: [(Way, &[u8]); 4] = [
        (|x, w| x.write(w), &expected),
        (
            |x, w| {
                x.cache_size();
                x.write_cached(w)
            },
            &expected,
        ),
        (
            |x, w| {
                x.size_nested(None, false)?;
                x.write_nested(None, false, w)
            },
            &item,
        ),
        (
            |x, w| {
                x.size_nested(Some(300), false)?;
                x.write_nested(Some(300), false, w)
            },
            &field,
        ),
    ];
    for (i, (way, expected)) in ways.into_iter().enumerate() {
        let mut one = |env: &Env| -> Check {
            *count += 1;
            let mut sink = Sink::new(env);
            let res = guard(|| Ok(way(&*x, &mut sink).map_err(|e| e.kind()))).map_err(|e| format!("{:?}: {}", env, e))?;
            match sink.failed {
                Some(kind) => {
                    match res {
                        Err(k) => ensure!(k == kind, "way {}, {:?}: error {:?} is returned as {:?}", i, env, kind, k),
                        Ok(()) => return Err(format!("way {}, {:?}: the error is lost", i, env)),
                    }
                    ensure!(expected.starts_with(&sink.data), "way {}, {:?}: wrote {:?}, then failed", i, env, sink.data);
                }
                None => {
                    ensure!(res.is_ok(), "way {}, {:?}: {:?}", i, env, res);
                    ensure!(sink.data == expected, "way {}, {:?}: wrote {:?} instead of {:?}", i, env, sink.data, expected);
                }
            }
            if env.failure().is_some() {
                for (j, (way, expected)) in ways.iter().enumerate() {
                    if j == i || j == (i + 1) % 4 {
                        let mut again = Vec::new();
                        way(&*x, &mut again).map_err(|e| e.to_string())?;
                        ensure!(again == *expected, "way {}, {:?}: way {} then writes {:?} instead of {:?}", i, env, j, again, expected);
                    }
                }
            }
            Ok(())
        };
        if i == 0 && !expected.is_empty() && expected.len() <= 8 {
            compositions(expected.len(), &mut one)?;
        }
        for chunk in [1, 3, usize::MAX] {
            let env = Env::chunks(chunk);
            let mut sink = Sink::new(&env);
            way(&*x, &mut sink).map_err(|e| e.to_string())?;
            let calls = sink.calls;
            if expected.len() <= 60 {
                deviations(chunk, calls, true, case.pairs && expected.len() <= 16, &mut one)?;
            } else {
                one(&env)?;
                one(&Env { answers: vec![], chunk, interrupts: true })?;
                for call in (0..calls).step_by(calls / 12 + 1) {
                    for ans in [Ans::Fail(0), Ans::Interrupt, Ans::Zero] {
                        let mut answers = vec![Ans::Some(chunk); call];
                        answers.push(ans);
                        one(&Env { answers, chunk, interrupts: false })?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn some_values(ty: Ty, n: usize) -> Vec<Val> {
    let mut vs = gen::small(ty, Full);
    vs.push(gen::rich_n(ty, 3, 1));
    let many = gen::many(ty, 2, 2000);
    let room = n.saturating_sub(vs.len());
    for i in 0..room.min(many.len()) {
        vs.push(many[i * many.len() / room.min(many.len())].clone());
    }
    vs.sort();
    vs.dedup();
    vs.retain(|v| encode(ty, v).len() <= 3000);
    vs.sort_by_key(|v| encode(ty, v).len());
    vs
}

pub fn c12(run: &Run) {
    if run.replaying::<Decoded>("decode", |c| read_chunked(c, &mut 0))
        | run.replaying::<Hist>("replay", |h| replay_chunked(h, true, &mut 0))
        | run.replaying::<Encoded>("encode", |c| write_chunked(c, &mut 0))
    {
        return;
    }
    let n = if run.thorough { 250 } else { 40 };
    let pairs = run.thorough;
    run.phase("decode");
    // Each codec reads its own encodings, broken ones, and those of other versions of its schema.
    let mut items: Vec<(&Codec, Vec<u8>)> = Vec::new();
    for c in codecs() {
        let ty = (c.ty)();
        for v in some_values(ty, n) {
            let bytes = encode(ty, &v);
            if bytes.len() > 1 && bytes.len() < 30 {
                items.push((c, bytes[..bytes.len() - 1].to_vec()));
            }
            items.push((c, bytes));
        }
    }
    for f in families() {
        for versions in &f.versions {
            let newest = &versions[versions.len() / 2..];
            for (i, from) in newest.iter().enumerate() {
                let v = gen::rich_n((from.ty)(), 3, i as u64);
                let bytes = encode((from.ty)(), &v);
                for to in versions.iter().step_by(3) {
                    items.push((to, bytes.clone()));
                }
            }
        }
    }
    // A very long unknown field, then a known one.
    for len in [8191usize, 8192, 8193, 20000] {
        let mut bytes = vec![9 << 3 | 2];
        put_varint(len as u64, &mut bytes);
        bytes.extend(std::iter::repeat(0xff).take(len));
        bytes.extend([0, 10]);
        items.push((codec_named("Pp"), bytes.clone()));
        items.push((codec_named("Pt"), bytes));
    }
    run.par(&items, |(c, bytes)| {
        let mut nested = bytes.clone();
        if wire((c.ty)()) == SIZED {
            nested.splice(0..0, {
                let mut size = Vec::new();
                put_varint(bytes.len() as u64, &mut size);
                size
            });
        }
        let mut count = 0;
        let mut seen = HashSet::new();
        for (bytes, nested) in [(bytes.clone(), false), (nested, true)] {
            let case = Decoded { codec: c.name.into(), bytes, nested, pairs };
            run.case("decode", &case, |c| read_chunked(c, &mut count));
            seen.insert(hash(&case));
            if hash(&case) % 1009 == 7 && case.bytes.len() < 100 {
                run.sample(&case);
            }
        }
        run.states_seen(seen);
        run.transitions.fetch_add(count, Relaxed);
        run.add("environments_decode", count);
    });
    run.phase("encode");
    let mut items = Vec::new();
    for c in codecs() {
        for v in some_values((c.ty)(), n) {
            items.push(Encoded { codec: c.name.into(), val: v, pairs });
        }
    }
    run.par(&items, |case| {
        let mut count = 0;
        run.case("encode", case, |c| write_chunked(c, &mut count));
        run.states_seen([hash(case)].into());
        run.transitions.fetch_add(count, Relaxed);
        run.add("environments_encode", count);
    });
    let all = all_roots;
    let mut plans = vec![
        ("replay_one_step", all(), Starts::New, &[Lean][..]),
        ("replay_one_step_few", all(), Starts::Few, &[Tiny]),
        ("replay_two_steps", all(), Starts::New, &[Tiny, Tiny]),
    ];
    if run.thorough {
        plans.extend([
            ("replay_one_step_full", all(), Starts::Many, &[Lean][..]),
            ("replay_two_steps_lean", all(), Starts::New, &[Lean, Lean]),
            ("replay_three_steps", CORE.to_vec(), Starts::New, &[Tiny, Tiny, Tiny]),
        ]);
    }
    let environments = std::sync::atomic::AtomicU64::new(0);
    explore_plans(run, "replay", &plans, |h, _| {
        let mut count = 0;
        let res = replay_chunked(h, pairs, &mut count);
        environments.fetch_add(count, Relaxed);
        res
    });
    run.note("environments_replay", environments.load(Relaxed));
    run.transitions.fetch_add(environments.load(Relaxed), Relaxed);
    run.assume("Environments deviate from a uniform chunk size by one answer, or by an interruption or short answer followed by another one; inputs of up to 9 bytes come in all possible chunkings. Errors are transient: reading on after one delivers the rest.");
}
