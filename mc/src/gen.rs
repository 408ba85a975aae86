//! Alphabets: representative values, and the mutations enabled in a state.

use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Level {
    /// Two values a type, one way of building them.
    Tiny,
    /// A few values, one way of building them.
    Lean,
    /// A few values, built in all ways.
    Full,
}

fn max_of(bits: u32) -> u64 {
    sign_extend_ok(bits)
}

fn min_of(bits: u32) -> i64 {
    if bits == 64 {
        i64::MIN
    } else {
        -(1 << (bits - 1))
    }
}

/// A value with everything in it, except that recursive types end after some levels.
pub fn rich(ty: Ty, fuel: u32) -> Val {
    rich_n(ty, fuel, 0)
}

/// As `rich`, with numbers depending on `n`.
pub fn rich_n(ty: Ty, fuel: u32, n: u64) -> Val {
    if fuel == 0 {
        return default(ty);
    }
    match &**ty {
        TyDef::U(bits) => Val::U((5 + n * 37) & max_of(*bits)),
        TyDef::I(bits) => Val::I((-300 - n as i64 * 7).max(min_of(*bits))),
        TyDef::Bool => Val::B(n % 2 == 0),
        TyDef::Str => Val::S(format!("é{}", n)),
        TyDef::Raw => Val::Raw(vec![0, 255, n as u8]),
        TyDef::Vec(t) | TyDef::List(t) => Val::Seq(vec![
            rich_n(t, fuel - 1, n),
            default(t),
            rich_n(t, fuel - 1, n + 1),
        ]),
        TyDef::Opt(t) => Val::Opt(Some(Box::new(rich_n(t, fuel - 1, n)))),
        TyDef::Arr(len, t) => Val::Seq(
            (0..*len)
                .map(|i| rich_n(t, fuel - 1, n + i as u64))
                .collect(),
        ),
        TyDef::Tup(ts) => Val::Seq(
            ts.iter()
                .enumerate()
                .map(|(i, t)| rich_n(t, fuel - 1, n + i as u64))
                .collect(),
        ),
        TyDef::Hash(k, t) => Val::Hash(vec![(rich_n(k, fuel - 1, n), rich_n(t, fuel - 1, n))]),
        TyDef::Map(k, t) => Val::Map(vec![
            (k.max().min(2000), rich_n(t, fuel - 1, n)),
            (1, default(t)),
            (16, rich_n(t, fuel - 1, n + 1)),
        ]),
        TyDef::Struct(_, fields) => Val::Struct(
            fields
                .iter()
                .enumerate()
                .map(|(i, f)| rich_n(f.ty, fuel - 1, n + i as u64))
                .collect(),
        ),
        TyDef::Enum(_, variants) => {
            let v = variants.iter().rev().find(|v| !v.fields.is_empty());
            let v = v.unwrap_or_else(|| variants.last().unwrap());
            rich_variant(v, fuel, n)
        }
    }
}

pub fn rich_variant(v: &Variant, fuel: u32, n: u64) -> Val {
    Val::Enum(
        v.tag,
        v.fields
            .iter()
            .enumerate()
            .map(|(i, f)| rich_n(f.ty, fuel - 1, n + i as u64))
            .collect(),
    )
}

pub const FUEL: u32 = 5;

/// A few representative values, the default one first.
pub fn small(ty: Ty, level: Level) -> Vec<Val> {
    small_f(ty, level, FUEL)
}

fn small_f(ty: Ty, level: Level, fuel: u32) -> Vec<Val> {
    let mut out = vec![default(ty)];
    if fuel == 0 {
        return out;
    }
    if level == Level::Tiny {
        out.push(rich(ty, fuel.min(3)));
        out.dedup();
        return out;
    }
    match &**ty {
        TyDef::U(bits) => {
            out.push(Val::U(5));
            if level == Level::Full {
                out.push(Val::U(max_of(*bits)));
            }
        }
        TyDef::I(bits) => {
            out.push(Val::I((-300i64).max(min_of(*bits))));
            if level == Level::Full {
                out.push(Val::I((max_of(*bits) / 2) as i64));
            }
        }
        TyDef::List(t) | TyDef::Vec(t) => {
            out.push(Val::Seq(vec![rich(t, fuel - 1)]));
            out.push(rich(ty, fuel));
        }
        TyDef::Map(_, t) => {
            out.push(Val::Map(vec![(0, rich(t, fuel - 1))]));
            out.push(rich(ty, fuel));
        }
        TyDef::Enum(_, variants) => {
            for v in variants {
                let d = default_variant(v);
                let r = rich_variant(v, fuel, 1);
                for x in [d, r] {
                    if !out.contains(&x) {
                        out.push(x);
                    }
                }
            }
        }
        _ => out.push(rich(ty, fuel)),
    }
    out.dedup();
    out
}

/// Boundary numbers of a type.
pub fn numbers(ty: Ty) -> Vec<Val> {
    let mut out: Vec<Val> = Vec::new();
    match **ty {
        TyDef::U(bits) => {
            let mut xs = vec![0u64, 1, 2, 5];
            for b in 1..=bits {
                let p = if b == 64 { 0 } else { 1u64 << b };
                xs.extend([p.wrapping_sub(1), p, p.wrapping_add(1)]);
            }
            xs.retain(|x| *x <= max_of(bits));
            xs.sort();
            xs.dedup();
            out.extend(xs.into_iter().map(Val::U));
        }
        TyDef::I(bits) => {
            let mut xs = vec![0i64, 1, -1, 2, -2, -5];
            for b in 1..bits {
                let p = if b == 63 { i64::MIN } else { 1i64 << b };
                for x in [p.wrapping_sub(1), p, p.wrapping_add(1)] {
                    xs.extend([x, x.wrapping_neg()]);
                }
            }
            let min = min_of(bits);
            let max = (max_of(bits) / 2) as i64;
            xs.extend([min, max, min + 1, max - 1]);
            xs.retain(|x| *x >= min && *x <= max);
            xs.sort_by_key(|x| (x.unsigned_abs(), *x < 0));
            xs.dedup();
            out.extend(xs.into_iter().map(Val::I));
        }
        TyDef::Bool => out.extend([Val::B(false), Val::B(true)]),
        _ => (),
    }
    out
}

pub fn hows(level: Level) -> &'static [How] {
    match level {
        Level::Full => &[How::Value, How::With, How::WithMut, How::WithIgnored],
        _ => &[How::Value],
    }
}

/// Positions in a sequence worth visiting.
pub fn spots(len: usize) -> Vec<usize> {
    let mut out = vec![0, 1, 15, 16, 127, 128, len.wrapping_sub(2), len.wrapping_sub(1)];
    out.retain(|i| *i < len);
    out.sort();
    out.dedup();
    out
}

pub fn insert_keys(k: KeyTy, pairs: &[(u32, Val)], level: Level) -> Vec<u32> {
    let mut out = match level {
        Level::Tiny => vec![1],
        Level::Lean => vec![1, 16],
        Level::Full => vec![0, 1, 15, 16, 127, 128, k.max()],
    };
    if let (Some(a), Some(b)) = (pairs.first(), pairs.last()) {
        out.extend([a.0, b.0]);
    }
    out.retain(|x| *x <= k.max());
    out.sort();
    out.dedup();
    out
}

/// All mutations enabled in a state, up to the given alphabet.
pub fn ops(ty: Ty, v: &Val, level: Level) -> Vec<Step> {
    let mut out = Vec::new();
    ops_at(ty, v, level, &mut Vec::new(), &mut out, 6);
    out
}

fn builds(ty: Ty, level: Level) -> Vec<(Val, How)> {
    let mut out = Vec::new();
    for v in small(ty, level) {
        match level {
            Level::Full => out.extend(hows(level).iter().map(|h| (v.clone(), *h))),
            Level::Lean => {
                let how = if out.len() % 2 == 0 { How::With } else { How::Value };
                out.push((v, how));
            }
            Level::Tiny => {
                let how = if out.len() % 2 == 0 { How::Value } else { How::WithMut };
                out.push((v, how));
            }
        }
    }
    out
}

fn set_ops(f: &Field, level: Level, at: &[u32], out: &mut Vec<Step>) {
    let mut push = |v: Val, how| {
        out.push(Step {
            path: at.to_vec(),
            op: Op::Set(v, how),
        })
    };
    if f.state {
        for (v, how) in builds(f.ty, level) {
            push(v, how);
        }
    } else {
        for v in small(f.ty, level.min(Level::Lean)) {
            push(v, How::Value);
        }
    }
}

fn ops_at(ty: Ty, v: &Val, level: Level, at: &mut Vec<u32>, out: &mut Vec<Step>, fuel: u32) {
    if fuel == 0 {
        return;
    }
    fn step(at: &[u32], op: Op) -> Step {
        Step {
            path: at.to_vec(),
            op,
        }
    }
    match (&**ty, v) {
        (TyDef::Struct(_, fields), Val::Struct(values)) => {
            for (f, x) in fields.iter().zip(values) {
                at.push(f.tag);
                set_ops(f, level, at, out);
                if f.state {
                    ops_at(f.ty, x, level, at, out, fuel - 1);
                }
                at.pop();
            }
        }
        (TyDef::Enum(_, variants), Val::Enum(tag, values)) => {
            for var in variants {
                at.push(var.tag);
                for (i, f) in var.fields.iter().enumerate() {
                    at.push(f.tag);
                    set_ops(f, level, at, out);
                    if var.tag == *tag && f.state {
                        ops_at(f.ty, &values[i], level, at, out, fuel - 1);
                    }
                    at.pop();
                }
                at.pop();
            }
        }
        (TyDef::List(t), Val::Seq(items)) => {
            for (x, how) in builds(t, level) {
                out.push(step(at, Op::Push(x, how)));
            }
            out.push(step(at, Op::Pop));
            for i in spots(items.len()) {
                out.push(step(at, Op::SwapRemove(i)));
            }
            if level != Level::Tiny {
                out.push(step(at, Op::SwapRemove(items.len())));
            }
            let spots = match level {
                Level::Tiny => spots(items.len()).into_iter().rev().take(1).collect(),
                _ => spots(items.len()),
            };
            for i in spots {
                at.push(i as u32);
                ops_at(t, &items[i], level, at, out, fuel - 1);
                at.pop();
            }
        }
        (TyDef::Map(k, t), Val::Map(pairs)) => {
            for key in insert_keys(*k, pairs, level) {
                for (x, how) in builds(t, level) {
                    out.push(step(at, Op::Insert(key, x, how)));
                }
            }
            let mut removals: Vec<u32> = spots(pairs.len()).iter().map(|i| pairs[*i].0).collect();
            if level != Level::Tiny {
                removals.push(9);
            }
            for key in removals {
                out.push(step(at, Op::Remove(key)));
            }
            let spots = match level {
                Level::Tiny => spots(pairs.len()).into_iter().rev().take(1).collect(),
                _ => spots(pairs.len()),
            };
            for i in spots {
                at.push(pairs[i].0);
                ops_at(t, &pairs[i].1, level, at, out, fuel - 1);
                at.pop();
            }
        }
        _ => (),
    }
}

/// Values in which one container, string or number somewhere has grown beyond sizes at which the wire
/// format changes shape.
pub fn grown(ty: Ty, sizes: &[usize]) -> Vec<Val> {
    grown_f(ty, sizes, 4)
}

fn grown_f(ty: Ty, sizes: &[usize], fuel: u32) -> Vec<Val> {
    let mut out = Vec::new();
    if fuel == 0 {
        return out;
    }
    let first = &sizes[..1];
    match &**ty {
        TyDef::Str => out.extend(sizes.iter().map(|n| Val::S("a".repeat(*n)))),
        TyDef::Raw => out.extend(sizes.iter().map(|n| Val::Raw((0..*n).map(|i| i as u8).collect()))),
        TyDef::Vec(t) | TyDef::List(t) => {
            for n in sizes {
                out.push(Val::Seq((0..*n).map(|i| rich_n(t, 2, i as u64)).collect()));
            }
            for g in grown_f(t, first, fuel - 1) {
                out.push(Val::Seq(vec![default(t), g]));
            }
        }
        TyDef::Map(k, t) => {
            for n in sizes {
                let n = (*n as u32).min(k.max() + (*k == KeyTy::U8) as u32);
                let key = |i: u32| match k {
                    KeyTy::U8 => (i * 7) & 0xff,
                    KeyTy::U16 => (i as u64 * 201 % 65536) as u32,
                    KeyTy::U32 => ((i as u64 * 4194301) % (FIELD_MAX as u64 + 1)) as u32,
                };
                out.push(Val::Map((0..n).map(|i| (key(i), rich_n(t, 2, i as u64))).collect()));
            }
            for g in grown_f(t, first, fuel - 1) {
                out.push(Val::Map(vec![(k.max(), g)]));
            }
        }
        TyDef::Opt(t) => {
            out.extend(grown_f(t, first, fuel - 1).into_iter().map(|g| Val::Opt(Some(Box::new(g)))));
        }
        TyDef::Struct(_, fields) => {
            let base = rich(ty, 2);
            for (i, f) in fields.iter().enumerate() {
                for g in grown_f(f.ty, first, fuel - 1) {
                    if let Val::Struct(mut values) = base.clone() {
                        values[i] = g;
                        out.push(Val::Struct(values));
                    }
                }
            }
        }
        TyDef::Enum(_, variants) => {
            for v in variants {
                for (i, f) in v.fields.iter().enumerate() {
                    for g in grown_f(f.ty, first, fuel - 1) {
                        if let Val::Enum(tag, mut values) = rich_variant(v, 2, 0) {
                            values[i] = g;
                            out.push(Val::Enum(tag, values));
                        }
                    }
                }
            }
        }
        _ => (),
    }
    out
}

/// Values nested as deep as a recursive type allows, up to the given number of levels.
pub fn deep(ty: Ty, levels: u32) -> Option<Val> {
    // A type is recursive if it's reachable from itself.
    fn reaches(ty: Ty, to: Ty, seen: &mut Vec<*const TyCell>) -> bool {
        children(ty).into_iter().any(|c| {
            std::ptr::eq(c, to) || {
                let p: *const TyCell = c;
                if seen.contains(&p) {
                    false
                } else {
                    seen.push(p);
                    reaches(c, to, seen)
                }
            }
        })
    }
    fn wrap(ty: Ty, to: Ty, inner: &Val) -> Option<Val> {
        if std::ptr::eq(ty, to) {
            return Some(inner.clone());
        }
        step(ty, to, inner)
    }
    /// A value of `ty` with `inner` of type `to` strictly below.
    fn step(ty: Ty, to: Ty, inner: &Val) -> Option<Val> {
        match &**ty {
            TyDef::Vec(t) | TyDef::List(t) => wrap(t, to, inner).map(|x| Val::Seq(vec![default(t), x])),
            TyDef::Opt(t) => wrap(t, to, inner).map(|x| Val::Opt(Some(Box::new(x)))),
            TyDef::Map(_, t) => wrap(t, to, inner).map(|x| Val::Map(vec![(3, x)])),
            TyDef::Struct(_, fields) => fields.iter().enumerate().find_map(|(i, f)| {
                let x = (!std::ptr::eq(f.ty, ty)).then(|| wrap(f.ty, to, inner))??;
                let mut values: Vec<Val> = fields.iter().map(|f| default(f.ty)).collect();
                values[i] = x;
                Some(Val::Struct(values))
            }),
            TyDef::Enum(_, variants) => variants.iter().find_map(|v| {
                v.fields.iter().enumerate().rev().find_map(|(i, f)| {
                    let x = if std::ptr::eq(f.ty, to) {
                        inner.clone()
                    } else if std::ptr::eq(f.ty, ty) {
                        return None;
                    } else {
                        wrap(f.ty, to, inner)?
                    };
                    let mut values: Vec<Val> = v.fields.iter().map(|f| default(f.ty)).collect();
                    values[i] = x;
                    Some(Val::Enum(v.tag, values))
                })
            }),
            _ => None,
        }
    }
    let mut seen = Vec::new();
    if !reaches(ty, ty, &mut seen) {
        return None;
    }
    let mut v = rich(ty, 2);
    for _ in 0..levels {
        v = step(ty, ty, &v)?;
    }
    Some(v)
}

pub fn children(ty: Ty) -> Vec<Ty> {
    match &**ty {
        TyDef::Vec(t) | TyDef::List(t) | TyDef::Opt(t) | TyDef::Arr(_, t) | TyDef::Map(_, t) => vec![t],
        TyDef::Tup(ts) => ts.clone(),
        TyDef::Hash(k, t) => vec![k, t],
        TyDef::Struct(_, fields) => fields.iter().map(|f| f.ty).collect(),
        TyDef::Enum(_, variants) => variants
            .iter()
            .flat_map(|v| v.fields.iter().map(|f| f.ty))
            .collect(),
        _ => vec![],
    }
}

/// Values within a budget of deviations: all values of containers up to length 2 over a small alphabet,
/// and those of structs in which up to two fields deviate from a base.
pub fn many(ty: Ty, fuel: u32, cap: usize) -> Vec<Val> {
    let mut out: Vec<Val> = Vec::new();
    if fuel == 0 {
        return small_f(ty, Level::Lean, 2);
    }
    let few = |t: Ty, n: usize| -> Vec<Val> {
        let mut x = many(t, fuel - 1, cap);
        if x.len() > n {
            // Keep the first and last ones, and spread the rest evenly.
            x = (0..n).map(|i| x[i * (x.len() - 1) / (n - 1)].clone()).collect();
        }
        x
    };
    match &**ty {
        TyDef::U(_) | TyDef::I(_) | TyDef::Bool => out = numbers(ty),
        TyDef::Str => {
            for s in ["", "a", "\0", "é", "€uro", "𝄞", "a\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}"] {
                out.push(Val::S(s.into()));
            }
            for n in [127, 128, 16383, 16384] {
                out.push(Val::S("x".repeat(n)));
            }
        }
        TyDef::Raw => {
            for s in [&[][..], &[0], &[255], &[128, 1], &[2, 0, 0]] {
                out.push(Val::Raw(s.to_vec()));
            }
            for n in [127, 128, 300] {
                out.push(Val::Raw((0..n).map(|i| i as u8).collect()));
            }
        }
        TyDef::Vec(t) | TyDef::List(t) => {
            out.push(Val::Seq(vec![]));
            for x in few(t, 40) {
                out.push(Val::Seq(vec![x]));
            }
            let f = few(t, 6);
            for x in &f {
                for y in &f {
                    out.push(Val::Seq(vec![x.clone(), y.clone()]));
                }
            }
            let f = few(t, 3);
            for x in &f {
                for y in &f {
                    for z in &f {
                        out.push(Val::Seq(vec![x.clone(), y.clone(), z.clone()]));
                    }
                }
            }
            for n in [127, 128, 129] {
                out.push(Val::Seq((0..n).map(|i| rich_n(t, 2, i)).collect()));
            }
        }
        TyDef::Opt(t) => {
            out.push(Val::Opt(None));
            out.extend(few(t, 60).into_iter().map(|x| Val::Opt(Some(Box::new(x)))));
        }
        TyDef::Arr(n, t) => {
            out.push(default(ty));
            let f = few(t, if *n <= 2 { 12 } else { 4 });
            combos(&vec![f; (*n).min(4)], &mut |vs| {
                let mut vs = vs.to_vec();
                while vs.len() < *n {
                    vs.push(vs[vs.len() % 3].clone());
                }
                out.push(Val::Seq(vs));
            });
        }
        TyDef::Tup(ts) => {
            let fs: Vec<_> = ts
                .iter()
                .map(|t| few(t, if ts.len() <= 3 { 10 } else { 3 }))
                .collect();
            combos(&fs, &mut |vs| out.push(Val::Seq(vs.to_vec())));
        }
        TyDef::Hash(k, t) => {
            let ks = few(k, 5);
            let ts = few(t, 6);
            out.push(Val::Hash(vec![]));
            for x in &ks {
                for y in &ts {
                    out.push(Val::Hash(vec![(x.clone(), y.clone())]));
                    for x2 in &ks {
                        if x2 != x {
                            out.push(Val::Hash(vec![(x.clone(), y.clone()), (x2.clone(), ts[0].clone())]));
                        }
                    }
                }
            }
        }
        TyDef::Map(k, t) => {
            let mut ks = vec![0, 1, 15, 16, 127, 128, 255, 2047, 2048, 65535, FIELD_MAX];
            ks.retain(|x| *x <= k.max());
            let ts = few(t, 6);
            out.push(Val::Map(vec![]));
            for x in &ks {
                for y in &ts {
                    out.push(Val::Map(vec![(*x, y.clone())]));
                    for x2 in &ks {
                        if x2 != x {
                            out.push(Val::Map(vec![(*x, y.clone()), (*x2, ts[ts.len() - 1].clone())]));
                        }
                    }
                }
            }
        }
        TyDef::Struct(_, fields) => {
            deviations(fields, fuel, cap, &mut |vs| out.push(Val::Struct(vs)));
        }
        TyDef::Enum(_, variants) => {
            for v in variants {
                deviations(&v.fields, fuel, cap, &mut |vs| out.push(Val::Enum(v.tag, vs)));
            }
        }
    }
    if out.len() > cap {
        let n = out.len();
        out = (0..cap).map(|i| out[i * (n - 1) / (cap - 1)].clone()).collect();
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|v| seen.insert(v.clone()));
    out
}

pub fn combos(lists: &[Vec<Val>], f: &mut dyn FnMut(&[Val])) {
    fn rec(lists: &[Vec<Val>], at: &mut Vec<Val>, f: &mut dyn FnMut(&[Val])) {
        match lists.get(at.len()) {
            None => f(at),
            Some(list) => {
                for x in list {
                    at.push(x.clone());
                    rec(lists, at, f);
                    at.pop();
                }
            }
        }
    }
    rec(lists, &mut Vec::new(), f)
}

fn deviations(fields: &[Field], fuel: u32, cap: usize, f: &mut dyn FnMut(Vec<Val>)) {
    for base in [
        fields.iter().map(|f| default(f.ty)).collect::<Vec<_>>(),
        fields.iter().map(|f| rich(f.ty, fuel)).collect(),
    ] {
        f(base.clone());
        let alts: Vec<Vec<Val>> = fields.iter().map(|f| many(f.ty, fuel - 1, cap)).collect();
        for i in 0..fields.len() {
            for x in &alts[i] {
                let mut vs = base.clone();
                vs[i] = x.clone();
                f(vs);
            }
            for j in 0..i {
                for x in alts[i].iter().step_by(alts[i].len().div_ceil(6).max(1)) {
                    for y in alts[j].iter().step_by(alts[j].len().div_ceil(6).max(1)) {
                        let mut vs = base.clone();
                        vs[i] = x.clone();
                        vs[j] = y.clone();
                        f(vs);
                    }
                }
            }
        }
    }
}
