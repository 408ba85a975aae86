//! C05, C07, C08, C10, C11: properties of encodings.

use std::{
    collections::{HashMap, HashSet},
    sync::{atomic::Ordering::Relaxed, OnceLock},
};

use serde::{Deserialize, Serialize};
use steit::ser::Serialize as _;

use crate::{
    dynamic::{codec, Codec, Dyn},
    ensure,
    gen::{self, Level},
    hist::*,
    live::Model,
    model::*,
    props_hist::all_roots,
    run::{hash, Check, Run, ALLOCATED, BIGGEST},
};

/// All types, states included.
pub fn codecs() -> &'static [Codec] {
    use crate::schemas::*;
    use std::collections::HashMap;
    use steit::types::{Bytes, List, Map, Maybe};
    static CODECS: OnceLock<Vec<Codec>> = OnceLock::new();
    macro_rules! codecs {
        ($(($name:literal, $ty:ty))*) => { vec![$(codec::<$ty>($name)),*] };
    }
    CODECS.get_or_init(|| {
        let mut codecs: Vec<Codec> = crate::for_codecs!(codecs);
        let states: Vec<Codec> = crate::for_roots!(codecs);
        codecs.extend(states);
        for codec in &codecs {
            (codec.ty)();
        }
        codecs
    })
}

pub fn codec_named(name: &str) -> &'static Codec {
    static INDEX: OnceLock<HashMap<&'static str, &'static Codec>> = OnceLock::new();
    let index = INDEX.get_or_init(|| {
        codecs()
            .iter()
            .chain(families().iter().flat_map(|f| f.versions.iter().flatten()))
            .map(|c| (c.name, c))
            .collect()
    });
    index.get(name).copied().expect("harness: unknown codec")
}

pub fn io(e: std::io::Error) -> String {
    e.to_string()
}

pub fn has_hash(ty: Ty) -> bool {
    fn rec(ty: Ty, seen: &mut Vec<*const TyCell>) -> bool {
        let p: *const TyCell = ty;
        if seen.contains(&p) {
            return false;
        }
        seen.push(p);
        matches!(**ty, TyDef::Hash(..)) || gen::children(ty).into_iter().any(|t| rec(t, seen))
    }
    rec(ty, &mut Vec::new())
}

/// Whether values are the same, up to the order of hash maps (so far as the type has any).
pub fn alike(hashed: bool, a: &Val, b: &Val) -> bool {
    a == b || hashed && same(a, b)
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Value {
    codec: String,
    val: Val,
}

/// Checks all values of all types.
fn values(run: &Run, kind: &'static str, check: impl Fn(&Value) -> Check + Sync) {
    if run.replaying::<Value>(kind, &check) {
        return;
    }
    let cap = if run.thorough { 100_000 } else { 15_000 };
    let fuel = if run.thorough { 4 } else { 3 };
    let one = |codec: &Codec, vals: Vec<Val>| {
        let mut case = Value {
            codec: codec.name.into(),
            val: Val::B(false),
        };
        let mut seen = HashSet::new();
        for v in vals {
            if run.stopped() {
                return;
            }
            case.val = v;
            run.case(kind, &case, &check);
            let h = hash(&case);
            seen.insert(h);
            if h % 5003 == 3 {
                run.sample(&case);
            }
        }
        run.states_seen(seen);
    };
    let all: Vec<&Codec> = codecs().iter().collect();
    run.phase("values");
    run.par(&all, |c| one(c, gen::many((c.ty)(), fuel, cap)));
    run.phase("large");
    run.par(&all, |c| {
        let ty = (c.ty)();
        let mut vs = gen::grown(ty, &[127, 128, 300]);
        vs.extend((0..4).map(|n| gen::rich_n(ty, gen::FUEL, n)));
        for levels in [1, 2, 3, 8, 20, 45, 70] {
            vs.extend(gen::deep(ty, levels));
        }
        one(c, vs)
    });
    run.phase("huge");
    run.par(&all, |c| {
        let ty = (c.ty)();
        let sizes: &[usize] = if run.thorough { &[16383, 16384, 20000] } else { &[16384] };
        one(c, gen::grown(ty, sizes).into_iter().filter(|_| !matches!(**ty, TyDef::Struct(..))).take(6).collect())
    });
}

// ---------------------------------------------------------------- C05

pub fn c05(run: &Run) {
    values(run, "value", |case| {
        let codec = codec_named(&case.codec);
        let ty = (codec.ty)();
        let hashed = has_hash(ty);
        let x = (codec.make)(&case.val);
        ensure!(alike(hashed, &x.val(), &case.val), "harness: made {:?}", x.val());
        let bytes = x.bytes();
        let wire_type = wire(ty);
        // Standalone.
        let d = (codec.deserialize)(&mut &*bytes).map_err(|e| format!("cannot decode {:?}: {}", bytes, e))?;
        ensure!(alike(hashed, &d.val(), &case.val), "decoded as {:?}", d.val());
        ensure!(d.equals(&*x) && x.equals(&*d), "decoded as {:?}, which isn't equal", d.val());
        if hashed {
            ensure!(d.bytes().len() == bytes.len(), "encoded again as {:?} instead of {:?}", d.bytes(), bytes);
        } else {
            ensure!(d.bytes() == bytes, "encoded again as {:?} instead of {:?}", d.bytes(), bytes);
        }
        let mut m = (codec.default)();
        ensure!(m.merge(&mut &*bytes).map_err(io)?, "decoding left some input");
        ensure!(alike(hashed, &m.val(), &case.val), "merged into a default value as {:?}", m.val());
        // Nested, with something following it.
        for y in [&x, &d] {
            let mut nested = Vec::new();
            y.size_nested(None, false).map_err(io)?;
            y.write_nested(None, false, &mut nested).map_err(io)?;
            let len = nested.len();
            nested.extend([0xaa, 0x80, 0, 7]);
            let mut m = (codec.default)();
            let rest = m.merge_nested(wire_type, &mut &*nested).map_err(io)?;
            ensure!(rest == nested[len..], "nested decoding of {:?} left {:?}", nested, rest);
            ensure!(alike(hashed, &m.val(), &case.val), "nested decoding gives {:?}", m.val());
            ensure!(m.equals(&**y), "nested decoding gives {:?}, which isn't equal", m.val());
            let d = (codec.deserialize_nested)(wire_type, &mut &*nested).map_err(io)?;
            ensure!(alike(hashed, &d.val(), &case.val), "deserialize_nested gives {:?}", d.val());
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C07

pub const NUMBERS: &[u32] = &[0, 1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, FIELD_MAX];

pub fn c07(run: &Run) {
    run.assume("Iterating over a HashMap twice gives the same order.");
    values(run, "value", |case| {
        let codec = codec_named(&case.codec);
        let ty = (codec.ty)();
        let x = (codec.make)(&case.val);
        // The order of hash maps is whatever it is.
        let v = if has_hash(ty) { x.val() } else { case.val.clone() };
        let expected = encode(ty, &v);
        let bytes = x.bytes();
        ensure!(bytes == expected, "encoded as {:?} instead of {:?}", bytes, expected);
        let mut item = Vec::new();
        encode_item(ty, &v, &mut item);
        let empty = if wire(ty) == VARINT { is_default_scalar(&v) } else { expected.is_empty() };
        for number in [None].into_iter().chain(NUMBERS.iter().map(|n| Some(*n))) {
            for omissible in [false, true] {
                let mut expected = Vec::new();
                if !(empty && omissible && number.is_some()) {
                    if let Some(n) = number {
                        put_varint((n as u64) << 3 | wire(ty) as u64, &mut expected);
                    }
                    expected.extend(&item);
                }
                let size = x.size_nested(number, omissible).map_err(io)?;
                let mut bytes = Vec::new();
                x.write_nested(number, omissible, &mut bytes).map_err(io)?;
                ensure!(bytes == expected, "field {:?} is {:?} instead of {:?}", number, bytes, expected);
                ensure!(size as usize == expected.len(), "field {:?} has size {}", number, size);
            }
        }
        for number in [FIELD_MAX + 1, u32::MAX] {
            ensure!(x.size_nested(Some(number), false).is_err(), "accepts field number {}", number);
            let res = x.write_nested(Some(number), false, &mut Vec::new());
            ensure!(res.is_err(), "writes field number {}", number);
        }
        if let Val::S(s) = &v {
            let s: &str = s;
            ensure!(s.to_bytes() == expected, "&str encoded as {:?}", s.to_bytes());
            let mut bytes = Vec::new();
            let size = s.compute_size_nested(7, true).map_err(io)?;
            s.serialize_nested(7, true, &mut bytes).map_err(io)?;
            let mut expected = Vec::new();
            if !empty {
                expected.push(7 << 3 | 2);
                expected.extend(&item);
            }
            ensure!(bytes == expected && size as usize == bytes.len(), "&str field is {:?} instead of {:?}", bytes, expected);
        }
        Ok(())
    });
    // Logs.
    let check = |h: &Hist, _: &[Val]| -> Check {
        set_access(h.access);
        let root = root_named(&h.root);
        let ty = (root.ty)();
        let (mut s, log) = start_logged(root, &h.start)?;
        let mut v = h.start.val(ty);
        let mut expected = Vec::new();
        for step in &h.steps {
            let (_, recs) = perform(ty, &mut v, step).expect("harness: step doesn't apply");
            act(&mut s, step);
            expected.extend(encode_log(&recs));
        }
        let bytes = bytes_of(&log);
        ensure!(bytes == expected, "logged {:?} instead of {:?}", bytes, expected);
        let bytes = s.bytes();
        ensure!(bytes == encode(ty, &v), "encoded as {:?} instead of {:?}", bytes, encode(ty, &v));
        Ok(())
    };
    if run.replaying::<Hist>("history", |h| check(h, &[])) {
        return;
    }
    let go = |name: &str, starts, depths: &[Level]| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let plan = Plan {
            roots: all_roots(),
            starts,
            depths: depths.to_vec(),
            accesses: vec![0],
            logged: false,
        };
        explore(run, "history", &plan, check);
    };
    go("logs_one_step", Starts::Many, &[Level::Full]);
    go("logs_two_steps", Starts::New, &[Level::Full, Level::Lean]);
    if run.thorough {
        go("logs_large", Starts::Large, &[Level::Lean]);
        go("logs_three_steps", Starts::New, &[Level::Lean, Level::Lean, Level::Tiny]);
    }
}

// ---------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Input {
    codec: String,
    /// Wire type of the nested value to be decoded, if any.
    wire: Option<u32>,
    bytes: Vec<u8>,
}

/// Bytes which may be allocated in decoding that many bytes of input.
fn allowance(len: usize) -> usize {
    (16 << 10) + 4_000 * len
}

fn metered<T>(len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let before = ALLOCATED.with(|a| a.get());
    BIGGEST.with(|b| b.set(0));
    let res = f();
    let used = ALLOCATED.with(|a| a.get()).wrapping_sub(before);
    ensure!(used <= allowance(len), "allocates {} bytes to decode {}", used, len);
    Ok(res)
}

fn decoded(case: &Input) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let bytes = &case.bytes[..];
    match case.wire {
        None => {
            let res = metered(bytes.len(), || (codec.deserialize)(&mut &*bytes))?;
            let (expected, lossy) = decode(ty, bytes);
            if lossy {
                return Ok(());
            }
            match (res, expected) {
                (Ok(x), Ok(v)) => ensure!(same(&x.val(), &v), "decoded as {:?} instead of {:?}", x.val(), v),
                (Err(_), Err(_)) => (),
                (Ok(x), Err(e)) => return Err(format!("decoded as {:?}, though it has a {}", x.val(), e.0)),
                (Err(e), Ok(v)) => return Err(format!("rejected: {}, though it is {:?}", e, v)),
            }
        }
        Some(wire_type) => {
            let mut x = (codec.default)();
            let res = metered(bytes.len(), || x.merge_nested(wire_type, &mut &*bytes))?;
            let direct = metered(bytes.len(), || (codec.deserialize_nested)(wire_type, &mut &*bytes))?;
            let mut v = default(ty);
            let mut input = In::new(bytes);
            let expected = if wire_type == wire(ty) {
                merge_item(ty, &mut v, &mut input)
            } else {
                input.skip_field(wire_type)
            };
            if input.lossy {
                return Ok(());
            }
            match (res, direct, expected) {
                (Ok(rest), Ok(y), Ok(())) => {
                    ensure!(same(&x.val(), &v), "decoded as {:?} instead of {:?}", x.val(), v);
                    ensure!(same(&y.val(), &v), "deserialize_nested gives {:?} instead of {:?}", y.val(), v);
                    ensure!(rest == bytes[input.pos..], "left {:?} instead of {:?}", rest, &bytes[input.pos..]);
                }
                (Err(_), Err(_), Err(_)) => (),
                (res, _, Err(e)) => return Err(format!("gives {:?}, though it has a {}", res, e.0)),
                (res, _, Ok(())) => return Err(format!("gives {:?}, though it is {:?}", res, v)),
            }
        }
    }
    Ok(())
}

/// Bytes which mean something to a type, most important ones first.
fn alphabet(ty: Ty) -> Vec<u8> {
    let mut out = vec![0u8, 1, 2, 0x80, 0xff];
    let mut seen: Vec<*const TyCell> = Vec::new();
    fn rec(ty: Ty, out: &mut Vec<u8>, seen: &mut Vec<*const TyCell>) {
        let p: *const TyCell = ty;
        if seen.contains(&p) {
            return;
        }
        seen.push(p);
        let fields = |fields: &[Field], out: &mut Vec<u8>| {
            for f in fields {
                let tag = (f.tag << 3 | wire(f.ty)).min(255);
                if tag < 0x80 {
                    out.push(tag as u8);
                }
            }
            if let Some(f) = fields.first() {
                let tag = f.tag << 3 | (2 - wire(f.ty));
                if tag < 0x80 {
                    out.push(tag as u8);
                }
            }
        };
        match &**ty {
            TyDef::Str => out.extend([b'a', 0xc3, 0xa9]),
            TyDef::Struct(_, fs) => fields(fs, out),
            TyDef::Enum(_, vs) => {
                for v in vs {
                    if v.tag < 0x80 {
                        out.push(v.tag as u8);
                    }
                }
                for v in vs {
                    fields(&v.fields, out);
                }
            }
            TyDef::Map(_, t) => {
                let w = wire(t) as u8;
                out.extend([w, 1 << 3 | w, 0x78 | w, 2 - w]);
            }
            _ => (),
        }
        for c in gen::children(ty) {
            rec(c, out, seen);
        }
    }
    rec(ty, &mut out, &mut seen);
    // Longer lengths, and illegal wire types.
    out.extend([3, 4, 5, 0x7f, 0x0b, 0x81]);
    let mut seen = HashSet::new();
    out.retain(|b| seen.insert(*b));
    out
}

const VARINTS: &[&[u8]] = &[
    &[0x80, 0x01],
    &[0xff, 0x7f],
    &[0x80, 0x80, 0x01],
    &[0xff, 0xff, 0xff, 0x7f],
    &[0xff, 0xff, 0xff, 0xff, 0x07],
    &[0xff, 0xff, 0xff, 0xff, 0x0f],
    &[0x80, 0x80, 0x80, 0x80, 0x10],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02],
    &[0x85, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00],
    &[0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00],
    &[0xff; 24],
];

/// All single edits of some bytes: substitutions, deletions, insertions, truncations, repetitions.
fn edits(bytes: &[u8], more: &[u8], f: &mut dyn FnMut(&[u8])) {
    let mut x = bytes.to_vec();
    for i in 0..bytes.len() {
        let old = x[i];
        let near = [old ^ 1, old ^ 2, old ^ 4, old ^ 8, old ^ 0x80, old.wrapping_add(1), old.wrapping_sub(1)];
        for b in near.into_iter().chain(more.iter().copied()) {
            if b != old {
                x[i] = b;
                f(&x);
            }
        }
        x[i] = old;
    }
    for i in 0..bytes.len() {
        f(&bytes[..i]);
        for j in [i + 1, i + 2, i + 5] {
            if j <= bytes.len() {
                f(&[&bytes[..i], &bytes[j..]].concat());
                f(&[&bytes[..j], &bytes[i..]].concat());
            }
        }
    }
    for i in 0..=bytes.len() {
        for b in more {
            f(&[&bytes[..i], &[*b], &bytes[i..]].concat());
        }
        for v in VARINTS {
            f(&[&bytes[..i], v, &bytes[i..]].concat());
            if i < bytes.len() {
                f(&[&bytes[..i], v, &bytes[i + 1..]].concat());
            }
        }
    }
}

/// Calls a function with all strings over an alphabet of exactly the given length.
fn strings(alphabet: &[u8], len: usize, f: &mut dyn FnMut(&[u8]) -> bool) {
    let mut idx = vec![0usize; len];
    let mut s: Vec<u8> = vec![alphabet[0]; len];
    loop {
        if !f(&s) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            idx[i] += 1;
            if idx[i] < alphabet.len() {
                s[i] = alphabet[idx[i]];
                break;
            }
            idx[i] = 0;
            s[i] = alphabet[0];
        }
    }
}

fn longest(symbols: usize, budget: u64) -> usize {
    let mut len = 1;
    while (symbols as u64).pow(len as u32 + 1) <= budget {
        len += 1;
    }
    len
}

struct EntryTy;

/// The type of log records.
pub fn entry_ty() -> Ty {
    let path = <Vec<u32> as Model>::ty();
    let bytes = <steit::types::Bytes as Model>::ty();
    let key = <u32 as Model>::ty();
    intern::<EntryTy>(|| {
        let f = |tag, ty| Field {
            tag,
            name: "",
            ty,
            state: false,
        };
        let v = |tag, fields| Variant { tag, name: "", fields };
        TyDef::Enum(
            "LogEntry",
            vec![
                v(0, vec![f(0, path), f(1, bytes)]),
                v(8, vec![f(0, path), f(1, bytes)]),
                v(9, vec![f(0, path)]),
                v(12, vec![f(0, path), f(1, key)]),
            ],
        )
    })
}

fn entry(v: &Val) -> Rec {
    let Val::Enum(tag, fields) = v else {
        panic!("harness: not an entry")
    };
    let path = match &fields[0] {
        Val::Seq(items) => items
            .iter()
            .map(|v| match v {
                Val::U(v) => *v as u32,
                _ => panic!("harness: not a path"),
            })
            .collect(),
        _ => panic!("harness: not a path"),
    };
    match (tag, fields.get(1)) {
        (0, Some(Val::Raw(b))) => Rec::Update(path, b.clone()),
        (8, Some(Val::Raw(b))) => Rec::Push(path, b.clone()),
        (9, None) => Rec::Pop(path),
        (12, Some(Val::U(k))) => Rec::Remove(path, *k as u32),
        _ => panic!("harness: not an entry"),
    }
}

/// Replays an arbitrary stream on the model. The second result is the number of records applied, the third tells
/// whether the outcome is unspecified.
pub fn model_replay(ty: Ty, v: &mut Val, log: &[u8]) -> (Result<(), Bad>, usize, bool) {
    let mut input = In::new(log);
    let mut n = 0;
    while !input.eof() {
        let mut e = default(entry_ty());
        if let Err(bad) = merge_item(entry_ty(), &mut e, &mut input) {
            return (Err(bad), n, input.lossy);
        }
        if input.lossy {
            return (Ok(()), n, true);
        }
        let mut next = v.clone();
        let (res, lossy) = apply(ty, &mut next, &entry(&e));
        if lossy {
            return (Ok(()), n, true);
        }
        if let Err(bad) = res {
            return (Err(bad), n, false);
        }
        *v = next;
        n += 1;
    }
    (Ok(()), n, false)
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Stream {
    root: String,
    start: Val,
    log: Vec<u8>,
}

fn streamed(case: &Stream) -> Check {
    let root = root_named(&case.root);
    let ty = (root.ty)();
    let mut s = (root.build)(steit::rt::Runtime::new(), &case.start);
    // Replaying may clone what it changes.
    let res = metered(case.log.len() + 50, || s.replay(&mut &*case.log))?;
    let mut v = case.start.clone();
    let (expected, _, lossy) = model_replay(ty, &mut v, &case.log);
    if lossy {
        return Ok(());
    }
    match (&res, expected) {
        (Ok(()), Err(e)) => return Err(format!("accepted, though it is wrong: {}", e.0)),
        (Err(e), Ok(())) => return Err(format!("rejected: {}", e)),
        _ => (),
    }
    ensure!(s.val() == v, "left {:?} instead of {:?}", s.val(), v);
    Ok(())
}

pub fn c08(run: &Run) {
    if run.replaying::<Input>("input", decoded) | run.replaying::<Stream>("stream", streamed) {
        return deep_nesting(run);
    }
    run.assume("Varints exceeding the range of their type are only checked not to crash the decoder.");
    deep_nesting(run);
    let case_of = |codec: &Codec, wire| Input {
        codec: codec.name.into(),
        wire,
        bytes: vec![],
    };
    let all: Vec<&Codec> = codecs().iter().collect();

    run.phase("strings");
    let budget = if run.thorough { 30_000_000 } else { 250_000 };
    run.par(&all, |c| {
        let a = alphabet((c.ty)());
        let mut case = case_of(c, None);
        let mut count = 0;
        let mut go = |a: &[u8], len| {
            strings(a, len, &mut |s| {
                case.bytes.clear();
                case.bytes.extend(s);
                run.case("input", &case, decoded);
                count += 1;
                if hash(&s) % 300_007 == 5 {
                    run.sample(&case);
                }
                !run.stopped()
            })
        };
        // Shorter strings over the whole alphabet, and longer ones over parts of it.
        for len in 0..=longest(a.len(), budget) {
            go(&a, len);
        }
        let part = &a[..a.len().min(8)];
        for len in longest(a.len(), budget) + 1..=longest(part.len(), budget) {
            go(part, len);
        }
        let part = &a[..a.len().min(5)];
        for len in longest(part.len().max(8), budget) + 1..=longest(part.len(), budget) {
            go(part, len);
        }
        run.states.fetch_add(count, Relaxed);
    });

    run.phase("nested_strings");
    run.par(&all, |c| {
        let a = alphabet((c.ty)());
        let mut count = 0;
        for wire in [VARINT, SIZED] {
            let mut case = case_of(c, Some(wire));
            let budget = budget / 10;
            for len in 0..=longest(a.len(), budget) {
                strings(&a, len, &mut |s| {
                    case.bytes.clear();
                    case.bytes.extend(s);
                    run.case("input", &case, decoded);
                    count += 1;
                    !run.stopped()
                });
            }
        }
        run.states.fetch_add(count, Relaxed);
    });

    run.phase("edits");
    run.par(&all, |c| {
        let ty = (c.ty)();
        let a = alphabet(ty);
        let mut plain = case_of(c, None);
        let mut nested = case_of(c, Some(wire(ty)));
        let mut seen = HashSet::new();
        let mut count = 0;
        let (one, two) = if run.thorough { (400, 14) } else { (80, 6) };
        let mut vals = gen::small(ty, Level::Full);
        vals.extend((0..3).map(|n| gen::rich_n(ty, 4, n)));
        vals.extend(gen::many(ty, 2, if run.thorough { 400 } else { 40 }));
        vals.extend(gen::deep(ty, 5));
        vals.dedup();
        for v in vals {
            let bytes = encode(ty, &v);
            let mut item = Vec::new();
            encode_item(ty, &v, &mut item);
            if bytes.len() > one {
                continue;
            }
            if seen.len() > 8_000_000 {
                seen.clear();
            }
            let mut check = |x: &[u8]| {
                if run.stopped() || !seen.insert(hash(&x)) {
                    return;
                }
                plain.bytes.clear();
                plain.bytes.extend(x);
                run.case("input", &plain, decoded);
                count += 1;
            };
            if bytes.len() <= two {
                edits(&bytes, &a, &mut |x| edits(x, &a[..a.len().min(8)], &mut check));
            } else {
                edits(&bytes, &a, &mut check);
            }
            let mut check = |x: &[u8]| {
                if !seen.insert(hash(&(x, 1))) {
                    return;
                }
                nested.bytes.clear();
                nested.bytes.extend(x);
                if !run.stopped() {
                    run.case("input", &nested, decoded);
                    count += 1;
                }
            };
            edits(&item, &a, &mut check);
        }
        run.states.fetch_add(count, Relaxed);
    });

    // The encoding of any type is an input to any other one.
    run.phase("crossed");
    run.par(&all, |c| {
        let mut case = case_of(c, None);
        let mut count = 0;
        for from in codecs() {
            let ty = (from.ty)();
            for v in gen::small(ty, if run.thorough { Level::Full } else { Level::Lean }) {
                if run.stopped() {
                    return;
                }
                case.bytes = encode(ty, &v);
                run.case("input", &case, decoded);
                count += 1;
            }
        }
        run.states.fetch_add(count, Relaxed);
    });

    // Logs: correctly framed strings, arbitrary strings, and edits of logs.
    run.phase("streams");
    let symbols: &[u8] = &[0, 1, 0x0a, 2, 9, 0x12, 0x08, 8, 12, 3, 0x80, 0xff, 0x0b];
    let mut items = Vec::new();
    for name in ["List<i32>", "Map<u8,i32>", "List<Pt>", "Sh", "Pt", "Map<u8,List<Sh>>", "List<List<u8>>", "Tree", "Maybe<Pt>", "Ns"] {
        let root = root_named(name);
        let ty = (root.ty)();
        for v in [default(ty), gen::rich(ty, 4)] {
            for framing in 0..3 {
                items.push((root, v.clone(), framing));
            }
        }
    }
    run.par(&items, |(root, v, framing)| {
        let ty = (root.ty)();
        let mut case = Stream {
            root: root.name.into(),
            start: v.clone(),
            log: vec![],
        };
        let mut count = 0;
        let mut check = |x: &[u8]| {
            case.log.clear();
            case.log.extend(x);
            run.case("stream", &case, streamed);
            count += 1;
            !run.stopped()
        };
        let budget = budget / 3;
        match framing {
            0 => {
                for len in 0..=longest(symbols.len(), budget) {
                    strings(symbols, len, &mut |s| check(&[&[len as u8], s].concat()));
                }
                let part = &symbols[..9];
                for len in longest(symbols.len(), budget) + 1..=longest(part.len(), budget) {
                    strings(part, len, &mut |s| check(&[&[len as u8], s].concat()));
                }
            }
            1 => {
                for len in 0..=longest(symbols.len(), budget / 3) {
                    strings(symbols, len, &mut |s| check(s));
                }
            }
            _ => {
                let mut model = v.clone();
                let mut recs = Vec::new();
                for step in gen::ops(ty, v, Level::Lean) {
                    let mut next = v.clone();
                    if let Some((_, r)) = perform(ty, &mut next, &step) {
                        let log = encode_log(&r);
                        if log.len() < 60 {
                            edits(&log, symbols, &mut |x| {
                                if !run.stopped() {
                                    check(x);
                                }
                            });
                        }
                    }
                    if let Some((_, r)) = perform(ty, &mut model, &step) {
                        if recs.len() < 5 {
                            recs.extend(r);
                        }
                    }
                }
                edits(&encode_log(&recs), symbols, &mut |x| {
                    if !run.stopped() {
                        check(x);
                    }
                });
            }
        }
        run.states.fetch_add(count, Relaxed);
    });
}

/// What must be written, and how deep, for decoding to overflow the stack of a process of its own.
pub fn probe(what: &str, levels: usize) {
    let nest = |mut inner: Vec<u8>, wrap: &dyn Fn(&[u8]) -> Vec<u8>| {
        // Lengths grow with the depth, so that this is quadratic unless built from the inside out and reversed.
        let mut rev: Vec<u8> = inner.drain(..).rev().collect();
        for _ in 0..levels {
            let mut head = wrap(&[]);
            put_varint(rev.len() as u64, &mut head);
            rev.extend(head.iter().rev());
        }
        rev.reverse();
        rev
    };
    match what {
        "Tree" => {
            // Fork { l: ... }
            let bytes = nest(vec![0], &|_| vec![1, 0x02]);
            // As much stack as threads have by default.
            let thread = std::thread::Builder::new().stack_size(2 << 20);
            let decode = move || drop((codec_named("Tree").deserialize)(&mut &*bytes).map(std::mem::forget));
            thread.spawn(decode).unwrap().join().unwrap();
        }
        _ => panic!("harness: unknown probe"),
    }
}

fn deep_nesting(run: &Run) {
    if run.replay.as_ref().is_some_and(|r| r["kind"] != "probe") {
        return;
    }
    run.phase("deep_nesting");
    let exe = std::env::current_exe().expect("harness: no executable");
    let probe = |levels: usize| {
        let status = std::process::Command::new(&exe)
            .args(["--probe", "Tree", &levels.to_string()])
            .stderr(std::process::Stdio::null())
            .status()
            .expect("harness: cannot run the probe");
        run.validated.fetch_add(1, Relaxed);
        status.success()
    };
    if !probe(500) {
        run.violation("probe", serde_json::json!({"what": "Tree", "levels": 500}), "cannot decode 500 nested levels");
    }
    if !probe(20_000) {
        run.finding(
            "deep-nesting",
            "decoding Tree nested in Fork 20000 levels deep overflows the stack",
            "probe",
            serde_json::json!({"what": "Tree", "levels": 20_000}),
        );
    }
}

// ---------------------------------------------------------------- C10

/// Versions of a schema in each of some wrappers.
pub struct Family {
    pub name: &'static str,
    /// By wrapper, then version.
    pub versions: Vec<Vec<Codec>>,
}

pub fn families() -> &'static [Family] {
    use crate::schemas::*;
    use steit::types::{List, Map, Maybe};
    static FAMILIES: OnceLock<Vec<Family>> = OnceLock::new();
    macro_rules! plain {
        ($($t:ident)*) => { vec![
            vec![$(codec::<$t>(stringify!($t))),*],
            vec![$(codec::<Vec<$t>>(concat!("Vec<", stringify!($t), ">"))),*],
            vec![$(codec::<Option<$t>>(concat!("Option<", stringify!($t), ">"))),*],
            vec![$(codec::<(u8, $t)>(concat!("(u8,", stringify!($t), ")"))),*],
            vec![$(codec::<HashMap<u8, $t>>(concat!("HashMap<u8,", stringify!($t), ">"))),*],
        ] };
    }
    macro_rules! states {
        ($($t:ident)*) => { vec![
            vec![$(codec::<$t>(stringify!($t))),*],
            vec![$(codec::<List<$t>>(concat!("List<", stringify!($t), ">"))),*],
            vec![$(codec::<Map<u8, $t>>(concat!("Map<u8,", stringify!($t), ">"))),*],
            vec![$(codec::<Maybe<$t>>(concat!("Maybe<", stringify!($t), ">"))),*],
            vec![$(codec::<GenE<$t>>(concat!("GenE<", stringify!($t), ">"))),*],
        ] };
    }
    macro_rules! enums {
        ($($t:ident)*) => { vec![
            vec![$(codec::<$t>(stringify!($t))),*],
            vec![$(codec::<Vec<$t>>(concat!("Vec<", stringify!($t), ">"))),*],
            vec![$(codec::<[$t; 2]>(concat!("[", stringify!($t), ";2]"))),*],
            vec![$(codec::<Box<$t>>(concat!("Box<", stringify!($t), ">"))),*],
        ] };
    }
    FAMILIES.get_or_init(|| {
        let families = vec![
            Family {
                name: "Ev",
                versions: for_versions!(plain),
            },
            Family {
                name: "Sv",
                versions: for_state_versions!(states),
            },
            Family {
                name: "Ee",
                versions: for_enum_versions!(enums),
            },
        ];
        for f in &families {
            for c in f.versions.iter().flatten() {
                (c.ty)();
            }
        }
        families
    })
}

/// What a value of one version is in another one.
fn convert(a: Ty, b: Ty, v: &Val) -> Val {
    let fields = |fa: &[Field], fb: &[Field], vs: &[Val]| -> Vec<Val> {
        fb.iter()
            .map(|f| match fa.iter().position(|g| g.tag == f.tag) {
                Some(i) if wire(fa[i].ty) == wire(f.ty) => convert(fa[i].ty, f.ty, &vs[i]),
                _ => default(f.ty),
            })
            .collect()
    };
    match (&**a, &**b, v) {
        (TyDef::Struct(_, fa), TyDef::Struct(_, fb), Val::Struct(vs)) => Val::Struct(fields(fa, fb, vs)),
        (TyDef::Enum(_, va), TyDef::Enum(_, vb), Val::Enum(tag, vs)) => {
            let (x, y) = (variant(va, *tag).unwrap(), variant(vb, *tag).unwrap());
            Val::Enum(*tag, fields(&x.fields, &y.fields, vs))
        }
        (TyDef::Vec(s) | TyDef::List(s) | TyDef::Arr(_, s), TyDef::Vec(t) | TyDef::List(t) | TyDef::Arr(_, t), Val::Seq(vs)) => {
            Val::Seq(vs.iter().map(|v| convert(s, t, v)).collect())
        }
        (TyDef::Tup(ss), TyDef::Tup(ts), Val::Seq(vs)) => {
            Val::Seq(vs.iter().zip(ss.iter().zip(ts)).map(|(v, (s, t))| convert(s, t, v)).collect())
        }
        (TyDef::Opt(s), TyDef::Opt(t), Val::Opt(v)) => Val::Opt(v.as_ref().map(|v| Box::new(convert(s, t, v)))),
        (TyDef::Hash(_, s), TyDef::Hash(_, t), Val::Hash(vs)) => {
            Val::Hash(vs.iter().map(|(k, v)| (k.clone(), convert(s, t, v))).collect())
        }
        (TyDef::Map(_, s), TyDef::Map(_, t), Val::Map(vs)) => {
            Val::Map(vs.iter().map(|(k, v)| (*k, convert(s, t, v))).collect())
        }
        _ => v.clone(),
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Evolved {
    from: String,
    to: String,
    val: Val,
}

fn evolved(case: &Evolved) -> Check {
    let (from, to) = (codec_named(&case.from), codec_named(&case.to));
    let (a, b) = ((from.ty)(), (to.ty)());
    let bytes = (from.make)(&case.val).bytes();
    let expected = convert(a, b, &case.val);
    let hashed = has_hash(b);
    let x = (to.deserialize)(&mut &*bytes).map_err(|e| format!("cannot decode {:?}: {}", bytes, e))?;
    ensure!(alike(hashed, &x.val(), &expected), "decoded as {:?} instead of {:?}", x.val(), expected);
    // What is left of it is good data of the other version.
    let bytes = x.bytes();
    let y = (to.deserialize)(&mut &*bytes).map_err(io)?;
    ensure!(y.equals(&*x), "encoded again as {:?}", bytes);
    let mut nested = Vec::new();
    encode_item(a, &case.val, &mut nested);
    let len = nested.len();
    nested.extend([0x08, 0x80]);
    let mut y = (to.default)();
    let rest = y.merge_nested(SIZED, &mut &*nested).map_err(io)?;
    ensure!(rest == nested[len..], "nested decoding left {:?}", rest);
    ensure!(alike(hashed, &y.val(), &expected), "nested decoding gives {:?} instead of {:?}", y.val(), expected);
    Ok(())
}

/// Where an unknown field can be.
enum Place<'a> {
    Fields(&'a [Field]),
    Map(KeyTy, Ty),
}

/// Encodes a value with something more at the `at`-th place.
fn encode_with(ty: Ty, v: &Val, at: &mut i64, extra: &dyn Fn(Place) -> Vec<u8>, out: &mut Vec<u8>) {
    fn item(ty: Ty, v: &Val, at: &mut i64, extra: &dyn Fn(Place) -> Vec<u8>, out: &mut Vec<u8>) {
        if wire(ty) == VARINT {
            encode_to(ty, v, out);
        } else {
            let mut bytes = Vec::new();
            encode_with(ty, v, at, extra, &mut bytes);
            put_varint(bytes.len() as u64, out);
            out.extend(bytes);
        }
    }
    let place = |p: Place, at: &mut i64, out: &mut Vec<u8>| {
        if *at == 0 {
            out.extend(extra(p));
        }
        *at -= 1;
    };
    let fields = |fields: &[Field], values: &[Val], at: &mut i64, out: &mut Vec<u8>| {
        for (f, v) in fields.iter().zip(values) {
            place(Place::Fields(fields), at, out);
            if wire(f.ty) == VARINT {
                if !is_default_scalar(v) {
                    put_varint((f.tag as u64) << 3, out);
                    encode_to(f.ty, v, out);
                }
            } else {
                let mut bytes = Vec::new();
                encode_with(f.ty, v, at, extra, &mut bytes);
                if !bytes.is_empty() {
                    put_varint((f.tag as u64) << 3 | 2, out);
                    put_varint(bytes.len() as u64, out);
                    out.extend(bytes);
                }
            }
        }
        place(Place::Fields(fields), at, out);
    };
    match (&**ty, v) {
        (TyDef::Vec(t) | TyDef::List(t) | TyDef::Arr(_, t), Val::Seq(items)) => {
            for v in items {
                item(t, v, at, extra, out);
            }
        }
        (TyDef::Tup(ts), Val::Seq(items)) => {
            for (t, v) in ts.iter().zip(items) {
                item(t, v, at, extra, out);
            }
        }
        (TyDef::Opt(t), Val::Opt(Some(v))) => item(t, v, at, extra, out),
        (TyDef::Hash(k, t), Val::Hash(pairs)) => {
            for (key, v) in pairs {
                item(k, key, at, extra, out);
                item(t, v, at, extra, out);
            }
        }
        (TyDef::Map(k, t), Val::Map(pairs)) => {
            for (key, v) in pairs {
                place(Place::Map(*k, t), at, out);
                put_varint((*key as u64) << 3 | wire(t) as u64, out);
                item(t, v, at, extra, out);
            }
            place(Place::Map(*k, t), at, out);
        }
        (TyDef::Struct(_, fs), Val::Struct(values)) => fields(fs, values, at, out),
        (TyDef::Enum(_, variants), Val::Enum(tag, values)) => {
            put_varint(*tag as u64, out);
            fields(&variant(variants, *tag).unwrap().fields, values, at, out);
        }
        _ => encode_to(ty, v, out),
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Injected {
    codec: String,
    val: Val,
    at: i64,
    /// The index of the number of the unknown field, and that of what it contains.
    number: usize,
    payload: usize,
}

const UNKNOWN: &[u32] = &[0, 1, 2, 3, 15, 16, 2047, 2048, 300_000, FIELD_MAX];

fn payloads() -> Vec<(u32, Vec<u8>)> {
    let sized = |n: usize, b: u8| {
        let mut out = Vec::new();
        put_varint(n as u64, &mut out);
        out.resize(out.len() + n, b);
        (SIZED, out)
    };
    let mut overlong = vec![0x82, 0x80, 0x80, 0];
    overlong.extend([0xff, 0x80]);
    vec![
        (VARINT, vec![0]),
        (VARINT, vec![0x85, 0x01]),
        (VARINT, vec![0xff, 0xff, 0xff, 0xff, 0x7f]),
        (VARINT, vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]),
        (VARINT, [vec![0x80; 12], vec![0]].concat()),
        (VARINT, [vec![0xff; 30], vec![0x7f]].concat()),
        sized(0, 0),
        sized(1, 0x80),
        sized(1, 0),
        sized(2, 0x0a),
        sized(127, 0xff),
        sized(128, 0x80),
        sized(300, 0),
        sized(9000, 0xff),
        sized(70_000, 0x0a),
        (SIZED, overlong),
    ]
}

fn injected(case: &Injected) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let payloads = payloads();
    let (wire_type, payload) = &payloads[case.payload];
    let extra = |p: Place| -> Vec<u8> {
        let number = match p {
            Place::Fields(fields) => {
                // Either an unknown number, or a known one having another wire type.
                let known: Vec<u32> = fields.iter().filter(|f| wire(f.ty) != *wire_type).map(|f| f.tag).collect();
                let unknown = UNKNOWN.iter().filter(|n| fields.iter().all(|f| f.tag != **n));
                unknown.copied().chain(known).nth(case.number)
            }
            Place::Map(k, t) if wire(t) != *wire_type => [0, 1, 16, k.max()].get(case.number).copied(),
            _ => None,
        };
        let mut out = Vec::new();
        if let Some(number) = number {
            put_varint((number as u64) << 3 | *wire_type as u64, &mut out);
            out.extend(payload);
        }
        out
    };
    let mut bytes = Vec::new();
    encode_with(ty, &case.val, &mut case.at.clone(), &extra, &mut bytes);
    let hashed = has_hash(ty);
    let x = (codec.deserialize)(&mut &*bytes).map_err(|e| format!("cannot decode {:?}: {}", &bytes[..bytes.len().min(200)], e))?;
    ensure!(alike(hashed, &x.val(), &case.val), "decoded as {:?}", x.val());
    Ok(())
}

pub fn c10(run: &Run) {
    if run.replaying::<Evolved>("evolved", evolved) | run.replaying::<Injected>("injected", injected) {
        return;
    }
    run.phase("versions");
    let mut items = Vec::new();
    for family in families() {
        for wrapper in &family.versions {
            for from in wrapper {
                for to in wrapper {
                    items.push((from, to));
                }
            }
        }
    }
    let cap = if run.thorough { 3000 } else { 500 };
    run.par(&items, |(from, to)| {
        let mut seen = HashSet::new();
        let ty = (from.ty)();
        let mut vals = gen::many(ty, 3, cap);
        vals.extend((0..3).map(|n| gen::rich_n(ty, gen::FUEL, n)));
        vals.extend(gen::grown(ty, &[130]).into_iter().take(4));
        for val in vals {
            if run.stopped() {
                return;
            }
            let case = Evolved {
                from: from.name.into(),
                to: to.name.into(),
                val,
            };
            run.case("evolved", &case, evolved);
            let h = hash(&case);
            seen.insert(h);
            if h % 100_003 == 5 {
                run.sample(&case);
            }
        }
        run.states_seen(seen);
    });
    run.phase("injected");
    let all: Vec<&Codec> = codecs().iter().chain(families().iter().flat_map(|f| f.versions.iter().map(|w| &w[w.len() / 2]))).collect();
    run.par(&all, |c| {
        let ty = (c.ty)();
        let mut vals = gen::small(ty, Level::Lean);
        vals.extend((0..2).map(|n| gen::rich_n(ty, 4, n)));
        if run.thorough {
            vals.extend(gen::many(ty, 2, 300));
        }
        for val in vals {
            let mut at = i64::MAX;
            encode_with(ty, &val, &mut at, &|_| vec![], &mut Vec::new());
            let places = i64::MAX - at;
            let places = places.min(if run.thorough { 300 } else { 40 });
            for at in 0..places {
                for payload in 0..payloads().len() {
                    // Long payloads are the same to all numbers.
                    let numbers = if payload >= 12 && !run.thorough { 1 } else { UNKNOWN.len() + 8 };
                    for number in 0..numbers {
                        if run.stopped() {
                            return;
                        }
                        let case = Injected {
                            codec: c.name.into(),
                            val: val.clone(),
                            at,
                            number,
                            payload,
                        };
                        run.case("injected", &case, injected);
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct Merged {
    codec: String,
    first: Val,
    /// Whether the first value is decoded, or made.
    decoded: bool,
    /// Whether sizes of the first value have been cached.
    cached: bool,
    then: Vec<Val>,
}

fn concatenates(ty: Ty) -> bool {
    matches!(**ty, TyDef::Struct(..) | TyDef::List(_) | TyDef::Map(..) | TyDef::Vec(_) | TyDef::Raw)
}

fn check_merged(what: &str, x: &dyn Dyn, fresh: &dyn Dyn, v: &Val, hashed: bool) -> Check {
    ensure!(alike(hashed, &x.val(), v), "{} gives {:?} instead of {:?}", what, x.val(), v);
    ensure!(x.equals(fresh), "{} gives {:?}, which isn't equal", what, x.val());
    if !hashed {
        let (a, b) = (x.bytes(), fresh.bytes());
        ensure!(a == b, "{} gives something encoded as {:?} instead of {:?}", what, a, b);
        ensure!(x.compute_size() as usize == a.len(), "{} gives size {}", what, x.compute_size());
    }
    Ok(())
}

fn merged(case: &Merged) -> Check {
    let codec = codec_named(&case.codec);
    let ty = (codec.ty)();
    let hashed = has_hash(ty);
    let mut x = if case.decoded {
        (codec.deserialize)(&mut &*encode(ty, &case.first)).map_err(io)?
    } else {
        (codec.make)(&case.first)
    };
    if case.cached {
        x.cache_size();
        x.bytes();
    }
    let mut y = x.boxed();
    let mut v = case.first.clone();
    let mut all = Vec::new();
    for w in &case.then {
        let bytes = encode(ty, w);
        let res = merge(ty, &mut v, &mut In::new(&bytes));
        assert!(res.is_ok(), "harness: the model rejects an encoding");
        ensure!(x.merge(&mut &*bytes).map_err(io)?, "merging left some input");
        all.extend(bytes);
    }
    let fresh = (codec.make)(&v);
    check_merged("merging", &*x, &*fresh, &v, hashed)?;
    if concatenates(ty) {
        ensure!(y.merge(&mut &*all).map_err(io)?, "merging left some input");
        check_merged("merging a concatenation", &*y, &*fresh, &v, hashed)?;
    } else if case.then.len() == 1 {
        let mut nested = Vec::new();
        encode_item(ty, &case.then[0], &mut nested);
        y.merge_nested(wire(ty), &mut &*nested).map_err(io)?;
        check_merged("merging a nested value", &*y, &*fresh, &v, hashed)?;
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash, Debug)]
struct MergedState {
    root: String,
    start: Start,
    then: Val,
    probe: Option<Step>,
}

/// Merges into a state having a logger, which logs nothing then, and correctly later.
fn merged_state(case: &MergedState) -> Check {
    set_access(0);
    let root = root_named(&case.root);
    let ty = (root.ty)();
    let (mut s, log) = start_logged(root, &case.start)?;
    let mut v = case.start.val(ty);
    let bytes = encode(ty, &case.then);
    let res = merge(ty, &mut v, &mut In::new(&bytes));
    assert!(res.is_ok(), "harness: the model rejects an encoding");
    decode_into(&mut s, &bytes)?;
    ensure!(bytes_of(&log).is_empty(), "merging was logged");
    ensure!(s.val() == v, "merging gives {:?} instead of {:?}", s.val(), v);
    if let Some(step) = &case.probe {
        let Some((_, recs)) = perform(ty, &mut v, step) else {
            return Ok(());
        };
        act(&mut s, step);
        let (logged, expected) = (bytes_of(&log), encode_log(&recs));
        ensure!(logged == expected, "{:?} then logs {:?} instead of {:?}", step, logged, expected);
        ensure!(s.val() == v, "{:?} then gives {:?} instead of {:?}", step, s.val(), v);
    }
    ensure!(s.bytes() == encode(ty, &v), "encoded as {:?} instead of {:?}", s.bytes(), encode(ty, &v));
    s.audit()
}

pub fn c11(run: &Run) {
    if run.replaying::<Merged>("merged", merged) | run.replaying::<MergedState>("merged_state", merged_state) {
        return;
    }
    let vals = |ty: Ty, cap: usize| {
        let mut vals = gen::small(ty, Level::Full);
        vals.extend((1..3).map(|n| gen::rich_n(ty, 4, n)));
        vals.extend(gen::many(ty, 2, cap));
        vals.extend(gen::deep(ty, 6));
        let mut seen = HashSet::new();
        vals.retain(|v| seen.insert(v.clone()));
        vals
    };
    run.phase("pairs");
    let all: Vec<&Codec> = codecs().iter().collect();
    let cap = if run.thorough { 400 } else { 60 };
    run.par(&all, |c| {
        let ty = (c.ty)();
        let vals = vals(ty, cap);
        let mut seen = HashSet::new();
        for a in &vals {
            for b in &vals {
                for flags in 0..4 {
                    if run.stopped() {
                        return;
                    }
                    let case = Merged {
                        codec: c.name.into(),
                        first: a.clone(),
                        decoded: flags & 1 == 1,
                        cached: flags & 2 == 2,
                        then: vec![b.clone()],
                    };
                    run.case("merged", &case, merged);
                    let h = hash(&case);
                    seen.insert(h);
                    if h % 300_007 == 5 {
                        run.sample(&case);
                    }
                }
            }
        }
        run.states_seen(seen);
    });
    run.phase("triples");
    run.par(&all, |c| {
        let ty = (c.ty)();
        let vals = vals(ty, if run.thorough { 30 } else { 5 });
        let n = if run.thorough { 40 } else { 14 };
        for a in vals.iter().take(n) {
            for b in vals.iter().take(n) {
                for d in vals.iter().take(n) {
                    if run.stopped() {
                        return;
                    }
                    let case = Merged {
                        codec: c.name.into(),
                        first: a.clone(),
                        decoded: false,
                        cached: true,
                        then: vec![b.clone(), d.clone()],
                    };
                    run.case("merged", &case, merged);
                }
            }
        }
    });
    run.phase("states");
    let mut items = Vec::new();
    for name in all_roots() {
        let root = root_named(name);
        for which in [Starts::New, Starts::Many] {
            for st in starts((root.ty)(), which) {
                items.push((root, st));
            }
        }
    }
    run.par(&items, |(root, st)| {
        let ty = (root.ty)();
        let mut thens = gen::small(ty, Level::Lean);
        thens.push(gen::rich_n(ty, 4, 3));
        for then in thens {
            let mut v = st.val(ty);
            let _ = merge(ty, &mut v, &mut In::new(&encode(ty, &then)));
            for probe in [None].into_iter().chain(gen::ops(ty, &v, Level::Tiny).into_iter().map(Some)) {
                if run.stopped() {
                    return;
                }
                let case = MergedState {
                    root: root.name.into(),
                    start: st.clone(),
                    then: then.clone(),
                    probe,
                };
                run.case("merged_state", &case, merged_state);
            }
        }
    });
}
