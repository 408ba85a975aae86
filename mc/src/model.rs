//! The reference model: types, values, wire format, log records and mutations, written without steit.

use serde::{Deserialize, Serialize};
use std::{
    any::TypeId,
    collections::HashMap,
    sync::{Mutex, OnceLock},
};

pub type Ty = &'static TyCell;

pub struct TyCell(OnceLock<TyDef>);

impl std::ops::Deref for TyCell {
    type Target = TyDef;
    fn deref(&self) -> &TyDef {
        self.0.get().expect("type being built")
    }
}

/// Gets the model type of `T`, building it once. Recursive types refer to the cell being built.
pub fn intern<T: 'static>(build: impl FnOnce() -> TyDef) -> Ty {
    static TYPES: OnceLock<Mutex<HashMap<TypeId, Ty>>> = OnceLock::new();
    thread_local!(static CACHE: std::cell::RefCell<HashMap<TypeId, Ty>> = Default::default());
    let id = TypeId::of::<T>();
    if let Some(ty) = CACHE.with(|c| c.borrow().get(&id).copied()) {
        return ty;
    }
    // Built under a process-wide reentrancy-free protocol: warm-up is single-threaded (see `warm`).
    let types = TYPES.get_or_init(Default::default);
    let (ty, fresh) = {
        let mut types = types.lock().unwrap();
        match types.get(&id) {
            Some(ty) => (*ty, false),
            None => {
                let ty: Ty = Box::leak(Box::new(TyCell(OnceLock::new())));
                types.insert(id, ty);
                (ty, true)
            }
        }
    };
    if fresh {
        let def = build();
        let _ = ty.0.set(def);
    }
    CACHE.with(|c| c.borrow_mut().insert(id, ty));
    ty
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum KeyTy {
    U8,
    U16,
    U32,
}

impl KeyTy {
    pub fn max(self) -> u32 {
        match self {
            KeyTy::U8 => u8::MAX as u32,
            KeyTy::U16 => u16::MAX as u32,
            KeyTy::U32 => FIELD_MAX,
        }
    }
}

pub struct Field {
    pub tag: u32,
    pub name: &'static str,
    pub ty: Ty,
    pub state: bool,
}

pub struct Variant {
    pub tag: u32,
    pub name: &'static str,
    pub fields: Vec<Field>,
}

pub enum TyDef {
    /// Unsigned, of that many bits.
    U(u32),
    /// Signed, of that many bits.
    I(u32),
    Bool,
    Str,
    Raw,
    Vec(Ty),
    Opt(Ty),
    Arr(usize, Ty),
    Tup(Vec<Ty>),
    Hash(Ty, Ty),
    List(Ty),
    Map(KeyTy, Ty),
    Struct(&'static str, Vec<Field>),
    Enum(&'static str, Vec<Variant>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Val {
    U(u64),
    I(i64),
    B(bool),
    S(String),
    Raw(Vec<u8>),
    Seq(Vec<Val>),
    Opt(Option<Box<Val>>),
    Map(Vec<(u32, Val)>),
    Hash(Vec<(Val, Val)>),
    Struct(Vec<Val>),
    Enum(u32, Vec<Val>),
}

pub const FIELD_MAX: u32 = (1 << 29) - 1;

pub const VARINT: u32 = 0;
pub const SIZED: u32 = 2;

pub fn wire(ty: Ty) -> u32 {
    match **ty {
        TyDef::U(_) | TyDef::I(_) | TyDef::Bool => VARINT,
        _ => SIZED,
    }
}

pub fn is_state(ty: Ty) -> bool {
    matches!(
        **ty,
        TyDef::U(_)
            | TyDef::I(_)
            | TyDef::Bool
            | TyDef::List(_)
            | TyDef::Map(..)
            | TyDef::Struct(..)
            | TyDef::Enum(..)
    )
}

pub fn default(ty: Ty) -> Val {
    match &**ty {
        TyDef::U(_) => Val::U(0),
        TyDef::I(_) => Val::I(0),
        TyDef::Bool => Val::B(false),
        TyDef::Str => Val::S(String::new()),
        TyDef::Raw => Val::Raw(vec![]),
        TyDef::Vec(_) | TyDef::List(_) => Val::Seq(vec![]),
        TyDef::Opt(_) => Val::Opt(None),
        TyDef::Arr(n, t) => Val::Seq(vec![default(t); *n]),
        TyDef::Tup(ts) => Val::Seq(ts.iter().map(|t| default(t)).collect()),
        TyDef::Hash(..) => Val::Hash(vec![]),
        TyDef::Map(..) => Val::Map(vec![]),
        TyDef::Struct(_, fields) => Val::Struct(fields.iter().map(|f| default(f.ty)).collect()),
        TyDef::Enum(_, variants) => {
            let v = variants.iter().find(|v| v.tag == 0).unwrap();
            default_variant(v)
        }
    }
}

pub fn default_variant(v: &Variant) -> Val {
    Val::Enum(v.tag, v.fields.iter().map(|f| default(f.ty)).collect())
}

pub fn variant(variants: &[Variant], tag: u32) -> Option<&Variant> {
    variants.iter().find(|v| v.tag == tag)
}

// ---------------------------------------------------------------- encoding

pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn zigzag(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        ((-(v + 1)) as u64) * 2 + 1
    }
}

pub fn unzigzag(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        -((v / 2) as i64) - 1
    }
}

pub fn is_default_scalar(v: &Val) -> bool {
    matches!(v, Val::U(0) | Val::I(0) | Val::B(false))
}

pub fn encode_to(ty: Ty, v: &Val, out: &mut Vec<u8>) {
    match (&**ty, v) {
        (TyDef::U(_), Val::U(v)) => put_varint(*v, out),
        (TyDef::I(_), Val::I(v)) => put_varint(zigzag(*v), out),
        (TyDef::Bool, Val::B(v)) => out.push(*v as u8),
        (TyDef::Str, Val::S(s)) => out.extend_from_slice(s.as_bytes()),
        (TyDef::Raw, Val::Raw(b)) => out.extend_from_slice(b),
        (TyDef::Vec(t) | TyDef::List(t) | TyDef::Arr(_, t), Val::Seq(items)) => {
            for item in items {
                encode_item(t, item, out);
            }
        }
        (TyDef::Tup(ts), Val::Seq(items)) => {
            for (t, item) in ts.iter().zip(items) {
                encode_item(t, item, out);
            }
        }
        (TyDef::Opt(t), Val::Opt(v)) => {
            if let Some(v) = v {
                encode_item(t, v, out);
            }
        }
        (TyDef::Hash(k, t), Val::Hash(pairs)) => {
            for (key, value) in pairs {
                encode_item(k, key, out);
                encode_item(t, value, out);
            }
        }
        (TyDef::Map(_, t), Val::Map(pairs)) => {
            for (key, value) in pairs {
                put_varint((*key as u64) << 3 | wire(t) as u64, out);
                encode_item(t, value, out);
            }
        }
        (TyDef::Struct(_, fields), Val::Struct(values)) => encode_fields(fields, values, out),
        (TyDef::Enum(_, variants), Val::Enum(tag, values)) => {
            put_varint(*tag as u64, out);
            encode_fields(&variant(variants, *tag).unwrap().fields, values, out);
        }
        _ => panic!("ill-typed value {:?}", v),
    }
}

fn encode_fields(fields: &[Field], values: &[Val], out: &mut Vec<u8>) {
    for (f, v) in fields.iter().zip(values) {
        let bytes = encode(f.ty, v);
        if wire(f.ty) == VARINT {
            if !is_default_scalar(v) {
                put_varint((f.tag as u64) << 3 | VARINT as u64, out);
                out.extend_from_slice(&bytes);
            }
        } else if !bytes.is_empty() {
            put_varint((f.tag as u64) << 3 | SIZED as u64, out);
            put_varint(bytes.len() as u64, out);
            out.extend_from_slice(&bytes);
        }
    }
}

pub fn encode_item(ty: Ty, v: &Val, out: &mut Vec<u8>) {
    if wire(ty) == VARINT {
        encode_to(ty, v, out);
    } else {
        let bytes = encode(ty, v);
        put_varint(bytes.len() as u64, out);
        out.extend_from_slice(&bytes);
    }
}

pub fn encode(ty: Ty, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    encode_to(ty, v, &mut out);
    out
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Bad(pub &'static str);

type Res<T> = Result<T, Bad>;

/// A cursor over input. `lossy` is set once a varint didn't fit in its type,
/// from when on the format leaves the outcome unspecified.
pub struct In<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub lossy: bool,
}

impl<'a> In<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        In {
            data,
            pos: 0,
            lossy: false,
        }
    }

    pub fn eof(&self) -> bool {
        self.pos == self.data.len()
    }

    pub fn varint(&mut self, bits: u32) -> Res<u64> {
        let mut v: u64 = 0;
        let mut shift = 0u32;
        loop {
            let b = *self.data.get(self.pos).ok_or(Bad("truncated varint"))?;
            self.pos += 1;
            let low = (b & 0x7f) as u64;
            for bit in 0..7 {
                if low >> bit & 1 == 1 {
                    let at = shift + bit;
                    if at < bits {
                        v |= 1 << at;
                    } else {
                        self.lossy = true;
                    }
                }
            }
            shift = (shift + 7).min(1000);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
    }

    fn nested(&mut self) -> Res<In<'a>> {
        let size = self.varint(64)?;
        if size > (self.data.len() - self.pos) as u64 {
            // What is there is still decoded by a streaming reader, and may be found invalid.
            return Err(Bad("truncated value"));
        }
        let start = self.pos;
        self.pos += size as usize;
        Ok(In {
            data: &self.data[start..self.pos],
            pos: 0,
            lossy: false,
        })
    }

    fn tag(&mut self) -> Res<(u32, u32)> {
        let v = self.varint(32)? as u32;
        let wire = v & 7;
        if wire != VARINT && wire != SIZED {
            return Err(Bad("illegal wire type"));
        }
        Ok((v >> 3, wire))
    }

    pub fn skip_field(&mut self, wire: u32) -> Res<()> {
        self.skip(wire)
    }

    fn skip(&mut self, wire: u32) -> Res<()> {
        if wire == VARINT {
            loop {
                let b = *self.data.get(self.pos).ok_or(Bad("truncated varint"))?;
                self.pos += 1;
                if b & 0x80 == 0 {
                    return Ok(());
                }
            }
        } else {
            self.nested().map(|_| ())
        }
    }
}

pub fn sign_extend_ok(bits: u32) -> u64 {
    if bits == 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

/// Merges the rest of `input` into `v`.
pub fn merge(ty: Ty, v: &mut Val, input: &mut In) -> Res<()> {
    match (&**ty, v) {
        (TyDef::U(bits), Val::U(v)) => *v = input.varint(*bits)?,
        (TyDef::I(bits), Val::I(v)) => *v = unzigzag(input.varint(*bits)?),
        (TyDef::Bool, Val::B(v)) => {
            let mut any = false;
            loop {
                let b = *input.data.get(input.pos).ok_or(Bad("truncated varint"))?;
                input.pos += 1;
                any |= b & 0x7f != 0;
                if (b & 0x7f) > 1 || b & 0x80 != 0 {
                    input.lossy = true;
                }
                if b & 0x80 == 0 {
                    break;
                }
            }
            *v = any;
        }
        (TyDef::Str, Val::S(s)) => {
            let bytes = input.data[input.pos..].to_vec();
            input.pos = input.data.len();
            *s = String::from_utf8(bytes).map_err(|_| Bad("invalid text"))?;
        }
        (TyDef::Raw, Val::Raw(b)) => {
            b.extend_from_slice(&input.data[input.pos..]);
            input.pos = input.data.len();
        }
        (TyDef::Vec(t) | TyDef::List(t), Val::Seq(items)) => {
            while !input.eof() {
                let mut item = default(t);
                merge_item(t, &mut item, input)?;
                items.push(item);
            }
        }
        (TyDef::Arr(n, t), Val::Seq(items)) => {
            let mut i = 0;
            while i < *n && !input.eof() {
                let mut item = default(t);
                merge_item(t, &mut item, input)?;
                items[i] = item;
                i += 1;
            }
            input.pos = input.data.len();
        }
        (TyDef::Tup(ts), Val::Seq(items)) => {
            let mut new = Vec::new();
            for t in ts {
                let mut item = default(t);
                merge_item(t, &mut item, input)?;
                new.push(item);
            }
            *items = new;
            input.pos = input.data.len();
        }
        (TyDef::Opt(t), Val::Opt(v)) => {
            while !input.eof() {
                let v = v.get_or_insert_with(|| Box::new(default(t)));
                merge_item(t, v, input)?;
            }
        }
        (TyDef::Hash(k, t), Val::Hash(pairs)) => {
            while !input.eof() {
                let mut key = default(k);
                merge_item(k, &mut key, input)?;
                let mut value = default(t);
                merge_item(t, &mut value, input)?;
                match pairs.iter_mut().find(|p| p.0 == key) {
                    Some(p) => p.1 = value,
                    None => pairs.push((key, value)),
                }
            }
        }
        (TyDef::Map(k, t), Val::Map(pairs)) => {
            while !input.eof() {
                let (key, wire_type) = input.tag()?;
                if key > k.max() {
                    return Err(Bad("key out of range"));
                }
                if wire_type != wire(t) {
                    input.skip(wire_type)?;
                    continue;
                }
                match pairs.iter_mut().find(|p| p.0 == key) {
                    Some(p) => merge_item(t, &mut p.1, input)?,
                    None => {
                        let mut value = default(t);
                        merge_item(t, &mut value, input)?;
                        pairs.push((key, value));
                    }
                }
            }
        }
        (TyDef::Struct(_, fields), Val::Struct(values)) => merge_fields(fields, values, input)?,
        (TyDef::Enum(_, variants), v @ Val::Enum(..)) => {
            let tag = input.varint(32)? as u32;
            let var = variant(variants, tag).ok_or(Bad("unknown variant"))?;
            if !matches!(v, Val::Enum(t, _) if *t == tag) {
                *v = default_variant(var);
            }
            if let Val::Enum(_, values) = v {
                merge_fields(&var.fields, values, input)?;
            }
        }
        _ => panic!("ill-typed value"),
    }
    Ok(())
}

fn merge_fields(fields: &[Field], values: &mut [Val], input: &mut In) -> Res<()> {
    while !input.eof() {
        let (tag, wire_type) = input.tag()?;
        match fields.iter().position(|f| f.tag == tag) {
            Some(i) if wire(fields[i].ty) == wire_type => {
                merge_item(fields[i].ty, &mut values[i], input)?
            }
            _ => input.skip(wire_type)?,
        }
    }
    Ok(())
}

pub fn merge_item(ty: Ty, v: &mut Val, input: &mut In) -> Res<()> {
    if wire(ty) == VARINT {
        merge(ty, v, input)
    } else {
        let mut nested = input.nested()?;
        let res = merge(ty, v, &mut nested);
        input.lossy |= nested.lossy;
        res
    }
}

/// Decodes, also telling whether the outcome is unspecified.
pub fn decode(ty: Ty, bytes: &[u8]) -> (Res<Val>, bool) {
    let mut v = default(ty);
    let mut input = In::new(bytes);
    let res = merge(ty, &mut v, &mut input);
    (res.map(|_| v), input.lossy)
}

// ---------------------------------------------------------------- log records

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Rec {
    Update(Vec<u32>, Vec<u8>),
    Push(Vec<u32>, Vec<u8>),
    Pop(Vec<u32>),
    Remove(Vec<u32>, u32),
}

impl Rec {
    pub fn path(&self) -> &[u32] {
        match self {
            Rec::Update(p, _) | Rec::Push(p, _) | Rec::Pop(p) | Rec::Remove(p, _) => p,
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut out = Vec::new();
        let (tag, path) = match self {
            Rec::Update(p, _) => (0, p),
            Rec::Push(p, _) => (8, p),
            Rec::Pop(p) => (9, p),
            Rec::Remove(p, _) => (12, p),
        };
        out.push(tag);
        let mut bytes = Vec::new();
        for n in path {
            put_varint(*n as u64, &mut bytes);
        }
        let sized = |tag: u8, bytes: &[u8], out: &mut Vec<u8>| {
            if !bytes.is_empty() {
                out.push(tag << 3 | 2);
                put_varint(bytes.len() as u64, out);
                out.extend_from_slice(bytes);
            }
        };
        sized(0, &bytes, &mut out);
        match self {
            Rec::Update(_, v) | Rec::Push(_, v) => sized(1, v, &mut out),
            Rec::Pop(_) => (),
            Rec::Remove(_, k) => {
                if *k != 0 {
                    out.push(1 << 3);
                    put_varint(*k as u64, &mut out);
                }
            }
        }
        out
    }

    pub fn encode_nested(&self) -> Vec<u8> {
        let bytes = self.encode();
        let mut out = Vec::new();
        put_varint(bytes.len() as u64, &mut out);
        out.extend_from_slice(&bytes);
        out
    }
}

pub fn encode_log(recs: &[Rec]) -> Vec<u8> {
    recs.iter().flat_map(|r| r.encode_nested()).collect()
}

/// Byte offsets at which records end, starting with 0.
pub fn boundaries(log: &[u8]) -> Vec<usize> {
    let mut input = In::new(log);
    let mut ends = vec![0];
    while !input.eof() {
        if input.nested().is_err() {
            break;
        }
        ends.push(input.pos);
    }
    ends
}

/// Decodes a log as produced (canonical), or fails.
pub fn decode_log(log: &[u8]) -> Res<Vec<Rec>> {
    let mut input = In::new(log);
    let mut recs = Vec::new();
    while !input.eof() {
        let mut r = input.nested()?;
        let kind = r.varint(32)?;
        let mut path = Vec::new();
        let mut bytes = Vec::new();
        let mut key = 0;
        while !r.eof() {
            match r.tag()? {
                (0, SIZED) => {
                    let mut p = r.nested()?;
                    while !p.eof() {
                        path.push(p.varint(32)? as u32);
                    }
                }
                (1, SIZED) => {
                    let n = r.nested()?;
                    bytes.extend_from_slice(n.data);
                }
                (1, VARINT) => key = r.varint(32)? as u32,
                (_, wire) => r.skip(wire)?,
            }
        }
        recs.push(match kind {
            0 => Rec::Update(path, bytes),
            8 => Rec::Push(path, bytes),
            9 => Rec::Pop(path),
            12 => Rec::Remove(path, key),
            _ => return Err(Bad("unknown record")),
        });
    }
    Ok(recs)
}

/// Applies a record to a state, which is unchanged upon errors.
/// The second result tells whether the outcome is unspecified (see `In::lossy`).
pub fn apply(ty: Ty, v: &mut Val, rec: &Rec) -> (Res<()>, bool) {
    let mut lossy = false;
    let res = apply_at(ty, v, rec.path(), rec, &mut lossy);
    (res, lossy)
}

fn decode_into(ty: Ty, bytes: &[u8], lossy: &mut bool) -> Res<Val> {
    let (res, l) = decode(ty, bytes);
    *lossy |= l;
    res
}

fn apply_at(ty: Ty, v: &mut Val, path: &[u32], rec: &Rec, lossy: &mut bool) -> Res<()> {
    if path.is_empty() {
        if let Rec::Update(_, bytes) = rec {
            *v = decode_into(ty, bytes, lossy)?;
            return Ok(());
        }
    }
    let apply_fields = |fields: &[Field], values: &mut [Val], path: &[u32], lossy: &mut bool| {
        let i = fields
            .iter()
            .position(|f| f.tag == path[0])
            .ok_or(Bad("unknown field"))?;
        if fields[i].state {
            apply_at(fields[i].ty, &mut values[i], &path[1..], rec, lossy)
        } else {
            Ok(())
        }
    };
    match (&**ty, v) {
        (TyDef::List(t), Val::Seq(items)) => match path.split_first() {
            Some((&i, rest)) => match items.get_mut(i as usize) {
                Some(item) => apply_at(t, item, rest, rec, lossy),
                None => Err(Bad("index out of bounds")),
            },
            None => match rec {
                Rec::Push(_, bytes) => {
                    items.push(decode_into(t, bytes, lossy)?);
                    Ok(())
                }
                Rec::Pop(_) => items.pop().map(|_| ()).ok_or(Bad("pop from empty")),
                _ => Err(Bad("unsupported kind")),
            },
        },
        (TyDef::Map(k, t), Val::Map(pairs)) => match path.split_first() {
            Some((&key, rest)) => match pairs.iter_mut().find(|p| p.0 == key) {
                Some(p) => apply_at(t, &mut p.1, rest, rec, lossy),
                None => match rec {
                    Rec::Update(_, bytes) if rest.is_empty() => {
                        if key > k.max() {
                            return Err(Bad("key out of range"));
                        }
                        let value = decode_into(t, bytes, lossy)?;
                        pairs.push((key, value));
                        Ok(())
                    }
                    _ => Err(Bad("key not found")),
                },
            },
            None => match rec {
                Rec::Remove(_, key) => match pairs.iter().position(|p| p.0 == *key) {
                    Some(i) => {
                        pairs.swap_remove(i);
                        Ok(())
                    }
                    None => Err(Bad("key not found")),
                },
                _ => Err(Bad("unsupported kind")),
            },
        },
        (TyDef::Struct(_, fields), Val::Struct(values)) if !path.is_empty() => {
            apply_fields(fields, values, path, lossy)
        }
        (TyDef::Enum(_, variants), Val::Enum(tag, values)) if !path.is_empty() => {
            let var = variant(variants, path[0]).ok_or(Bad("unknown variant"))?;
            if var.tag != *tag {
                return Err(Bad("another variant"));
            }
            if path.len() == 1 {
                return Err(Bad("unsupported on variants"));
            }
            apply_fields(&var.fields, values, &path[1..], lossy)
        }
        _ => Err(Bad("unsupported")),
    }
}

// ---------------------------------------------------------------- mutations

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum How {
    /// By value, built detached.
    Value,
    /// By closure, building the value as a literal.
    With,
    /// By closure, building the value through mutators of a value with the given runtime.
    WithMut,
    /// By closure, ignoring the given runtime.
    WithIgnored,
    /// By value, moving a live value.
    Hand,
    /// By closure, moving a live value.
    WithHand,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(Val, How),
    Push(Val, How),
    Pop,
    SwapRemove(usize),
    Insert(u32, Val, How),
    Remove(u32),
}

/// A mutation: `path` leads to the field being set or to the container being mutated.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Step {
    pub path: Vec<u32>,
    pub op: Op,
}

/// What a mutator returns.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ret {
    Unit,
    Index(usize),
    Value(Option<Val>),
}

/// Performs a mutation on the model, giving what it returns and the records it logs.
pub fn perform(ty: Ty, v: &mut Val, step: &Step) -> Option<(Ret, Vec<Rec>)> {
    let mut recs = Vec::new();
    let ret = perform_at(ty, v, &mut Vec::new(), &step.path, &step.op, &mut recs)?;
    Some((ret, recs))
}

fn perform_at(
    ty: Ty,
    v: &mut Val,
    at: &mut Vec<u32>,
    path: &[u32],
    op: &Op,
    recs: &mut Vec<Rec>,
) -> Option<Ret> {
    fn field(
        fields: &[Field],
        values: &mut [Val],
        at: &mut Vec<u32>,
        path: &[u32],
        op: &Op,
        recs: &mut Vec<Rec>,
    ) -> Option<Ret> {
        let i = fields.iter().position(|f| f.tag == path[0])?;
        let f = &fields[i];
        at.push(f.tag);
        let ret = match op {
            Op::Set(new, how) if path.len() == 1 => {
                if f.state {
                    recs.push(Rec::Update(at.clone(), encode(f.ty, new)));
                } else if !matches!(how, How::Value | How::Hand) {
                    return None;
                }
                values[i] = new.clone();
                Some(Ret::Unit)
            }
            _ if f.state => perform_at(f.ty, &mut values[i], at, &path[1..], op, recs),
            _ => None,
        };
        at.pop();
        ret
    }

    match (&**ty, v) {
        (TyDef::Struct(_, fields), Val::Struct(values)) if !path.is_empty() => {
            field(fields, values, at, path, op, recs)
        }
        (TyDef::Enum(_, variants), Val::Enum(tag, values)) if path.len() >= 2 => {
            let var = variant(variants, path[0])?;
            if var.tag != *tag {
                if path.len() != 2 || !matches!(op, Op::Set(..)) {
                    return None;
                }
                let f = var.fields.iter().find(|f| f.tag == path[1])?;
                if !f.state && !matches!(op, Op::Set(_, How::Value | How::Hand)) {
                    return None;
                }
                let new = default_variant(var);
                recs.push(Rec::Update(at.clone(), encode(ty, &new)));
                if let Val::Enum(t, vs) = new {
                    *tag = t;
                    *values = vs;
                }
            }
            at.push(var.tag);
            let ret = field(&var.fields, values, at, &path[1..], op, recs);
            at.pop();
            ret
        }
        (TyDef::List(t), Val::Seq(items)) => match path.split_first() {
            Some((&i, rest)) => {
                let item = items.get_mut(i as usize)?;
                at.push(i);
                let ret = perform_at(t, item, at, rest, op, recs);
                at.pop();
                ret
            }
            None => match op {
                Op::Push(new, _) => {
                    recs.push(Rec::Push(at.clone(), encode(t, new)));
                    items.push(new.clone());
                    Some(Ret::Index(items.len() - 1))
                }
                Op::Pop => {
                    if !items.is_empty() {
                        recs.push(Rec::Pop(at.clone()));
                    }
                    Some(Ret::Value(items.pop()))
                }
                Op::SwapRemove(i) => {
                    if *i >= items.len() {
                        return Some(Ret::Value(None));
                    }
                    recs.push(Rec::Pop(at.clone()));
                    let last = items.pop().unwrap();
                    if *i == items.len() {
                        return Some(Ret::Value(Some(last)));
                    }
                    at.push(*i as u32);
                    recs.push(Rec::Update(at.clone(), encode(t, &last)));
                    at.pop();
                    let removed = std::mem::replace(&mut items[*i], last);
                    Some(Ret::Value(Some(removed)))
                }
                _ => None,
            },
        },
        (TyDef::Map(k, t), Val::Map(pairs)) => match path.split_first() {
            Some((&key, rest)) => {
                let pair = pairs.iter_mut().find(|p| p.0 == key)?;
                at.push(key);
                let ret = perform_at(t, &mut pair.1, at, rest, op, recs);
                at.pop();
                ret
            }
            None => match op {
                Op::Insert(key, new, _) => {
                    if *key > k.max() {
                        return None;
                    }
                    at.push(*key);
                    recs.push(Rec::Update(at.clone(), encode(t, new)));
                    at.pop();
                    match pairs.iter_mut().find(|p| p.0 == *key) {
                        Some(p) => Some(Ret::Value(Some(std::mem::replace(&mut p.1, new.clone())))),
                        None => {
                            pairs.push((*key, new.clone()));
                            Some(Ret::Value(None))
                        }
                    }
                }
                Op::Remove(key) => match pairs.iter().position(|p| p.0 == *key) {
                    Some(i) => {
                        recs.push(Rec::Remove(at.clone(), *key));
                        Some(Ret::Value(Some(pairs.swap_remove(i).1)))
                    }
                    None => Some(Ret::Value(None)),
                },
                _ => None,
            },
        },
        _ => None,
    }
}

/// Equality up to the order of maps.
pub fn same(a: &Val, b: &Val) -> bool {
    normal(a) == normal(b)
}

/// Sorts maps by key.
pub fn normal(v: &Val) -> Val {
    match v {
        Val::Map(pairs) => {
            let mut pairs: Vec<_> = pairs.iter().map(|(k, v)| (*k, normal(v))).collect();
            pairs.sort();
            Val::Map(pairs)
        }
        Val::Hash(pairs) => {
            let mut pairs: Vec<_> = pairs.iter().map(|(k, v)| (normal(k), normal(v))).collect();
            pairs.sort();
            Val::Hash(pairs)
        }
        Val::Seq(items) => Val::Seq(items.iter().map(normal).collect()),
        Val::Struct(items) => Val::Struct(items.iter().map(normal).collect()),
        Val::Enum(tag, items) => Val::Enum(*tag, items.iter().map(normal).collect()),
        Val::Opt(v) => Val::Opt(v.as_ref().map(|v| Box::new(normal(v)))),
        v => v.clone(),
    }
}
