//! Binds Rust types implemented with steit to the reference model.

use std::{any::Any as StdAny, collections::HashMap, hash::Hash};

use steit::{
    de::Deserialize,
    rt::{Runtime, SizeCache},
    ser::Serialize,
    state::State,
    types::{Bytes, List, Map, MapKey, Maybe},
};

use crate::model::*;

/// Values which can be converted from and to model values.
pub trait Model: Serialize + Deserialize + Clone + PartialEq + Sized + 'static {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    fn make(v: &Val) -> Self;
}

/// A node: its runtime and size cache (if any), and whether it is a runtime-bearing node.
pub enum Node<'a> {
    Rt(&'a Runtime),
    Size(Option<&'a SizeCache>),
}

/// What performing an operation on a live state gives.
pub struct Done {
    pub ret: Ret,
    /// The very value which was removed or replaced, if any.
    pub removed: Option<Box<dyn crate::dynamic::DynState>>,
}

/// `None` if there is nothing at the path, or the operation doesn't apply.
pub type Perform = Option<Done>;

pub fn done(ret: Ret) -> Perform {
    Some(Done { ret, removed: None })
}

pub trait Live: Model + State {
    /// Builds a value as a literal, with all runtimes set.
    fn build(rt: Runtime, v: &Val) -> Self;

    /// Builds a value through mutators.
    fn build_mut(rt: Runtime, v: &Val) -> Self;

    /// Performs an operation.
    fn act(&mut self, path: &[u32], op: &Op) -> Perform;

    /// Sees all runtimes and size caches, in preorder.
    fn visit(&self, f: &mut dyn FnMut(Node));

    /// Checks that all ways of reading contents agree.
    fn audit(&self) -> Result<(), String>;

    /// Calls a function with the node at the given path, if there is any (a variant isn't a node).
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool;
}

pub fn build_how<T: Live>(how: How, rt: Runtime, v: &Val) -> T {
    crate::conc::yield_now();
    if let Some(inside) = INSIDE.with(|i| i.borrow_mut().take()) {
        inside();
    }
    match how {
        How::Value | How::WithIgnored => T::make(v),
        How::With => T::build(rt, v),
        How::WithMut => T::build_mut(rt, v),
        How::Hand | How::WithHand => from_hand().expect("harness: wrong hand"),
    }
}

thread_local! {
    /// A live value about to be moved into a tree.
    pub static HAND: std::cell::RefCell<Option<Box<dyn StdAny>>> = const { std::cell::RefCell::new(None) };
}

thread_local! {
    /// What the next closure building a value does first.
    pub static INSIDE: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
}

fn from_hand<T: 'static>() -> Option<T> {
    HAND.with(|h| h.borrow_mut().take()?.downcast().ok().map(|b| *b))
}

/// Whether the value in hand (if needed) is of type `T`.
pub fn ready<T: 'static>(how: How) -> bool {
    match how {
        How::Hand | How::WithHand => {
            HAND.with(|h| h.borrow().as_ref().is_some_and(|b| b.is::<T>()))
        }
        _ => true,
    }
}

pub fn by_value<T: Model>(how: How, v: &Val) -> T {
    match how {
        How::Hand => from_hand().expect("harness: wrong hand"),
        _ => T::make(v),
    }
}

thread_local! {
    /// How items are accessed: 0 is `get_mut`, 1 is `IndexMut`, 2 is `iter_mut`, 3 is `&mut` into_iter.
    pub static ACCESS: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

pub fn access() -> u8 {
    ACCESS.with(|a| a.get())
}

// ---------------------------------------------------------------- primitives

macro_rules! ints {
    ($($t:ty, $def:ident, $bits:literal, $wide:ty;)*) => { $(
        impl Model for $t {
            fn ty() -> Ty { intern::<Self>(|| TyDef::$def($bits)) }
            fn val(&self) -> Val { Val::$def(*self as $wide) }
            fn make(v: &Val) -> Self {
                match v { Val::$def(v) => *v as $t, _ => panic!("ill-typed") }
            }
        }
        prim_live!($t);
    )* };
}

macro_rules! prim_live {
    ($t:ty) => {
        impl Live for $t {
            fn build(_rt: Runtime, v: &Val) -> Self {
                Self::make(v)
            }
            fn build_mut(_rt: Runtime, v: &Val) -> Self {
                Self::make(v)
            }
            fn act(&mut self, _path: &[u32], _op: &Op) -> Perform {
                None
            }
            fn visit(&self, _f: &mut dyn FnMut(Node)) {}
            fn audit(&self) -> Result<(), String> {
                Ok(())
            }
            fn at(
                &mut self,
                path: &[u32],
                f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState),
            ) -> bool {
                path.is_empty() && {
                    f(self);
                    true
                }
            }
        }
    };
}

ints! {
    u8, U, 8, u64; u16, U, 16, u64; u32, U, 32, u64; u64, U, 64, u64;
    i8, I, 8, i64; i16, I, 16, i64; i32, I, 32, i64; i64, I, 64, i64;
}

impl Model for bool {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Bool)
    }
    fn val(&self) -> Val {
        Val::B(*self)
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::B(v) => *v,
            _ => panic!("ill-typed"),
        }
    }
}

prim_live!(bool);

impl Model for String {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Str)
    }
    fn val(&self) -> Val {
        Val::S(self.clone())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::S(v) => v.clone(),
            _ => panic!("ill-typed"),
        }
    }
}

impl Model for Bytes {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Raw)
    }
    fn val(&self) -> Val {
        Val::Raw(self.clone().into_raw())
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Raw(v) => Bytes::from_raw(v.clone()),
            _ => panic!("ill-typed"),
        }
    }
}

// ---------------------------------------------------------------- plain containers

fn seq(v: &Val) -> &[Val] {
    match v {
        Val::Seq(items) => items,
        _ => panic!("ill-typed"),
    }
}

impl<T: Model> Model for Vec<T> {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Vec(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|v| Model::val(v)).collect())
    }
    fn make(v: &Val) -> Self {
        seq(v).iter().map(T::make).collect()
    }
}

impl<T: Model> Model for Option<T> {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Opt(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(Model::val(v))))
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Opt(v) => v.as_ref().map(|v| T::make(v)),
            _ => panic!("ill-typed"),
        }
    }
}

impl<K: Model + Eq + Hash, T: Model> Model for HashMap<K, T> {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Hash(K::ty(), T::ty()))
    }
    fn val(&self) -> Val {
        Val::Hash(
            self.iter()
                .map(|(k, v)| (Model::val(k), Model::val(v)))
                .collect(),
        )
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Hash(pairs) => pairs
                .iter()
                .map(|(k, v)| (K::make(k), T::make(v)))
                .collect(),
            _ => panic!("ill-typed"),
        }
    }
}

macro_rules! arrays {
    ($($n:literal)*) => { $(
        impl<T: Model + Default> Model for [T; $n] {
            fn ty() -> Ty { intern::<Self>(|| TyDef::Arr($n, T::ty())) }
            fn val(&self) -> Val { Val::Seq(self.iter().map(|v| Model::val(v)).collect()) }
            fn make(v: &Val) -> Self {
                let mut items = seq(v).iter();
                std::array::from_fn(|_| T::make(items.next().unwrap()))
            }
        }
    )* };
}

arrays! { 1 2 3 4 5 6 7 }

macro_rules! tuples {
    ($(($($t:ident $i:tt)*))*) => { $(
        impl<$($t: Model),*> Model for ($($t),*) {
            fn ty() -> Ty { intern::<Self>(|| TyDef::Tup(vec![$($t::ty()),*])) }
            fn val(&self) -> Val { Val::Seq(vec![$(Model::val(&self.$i)),*]) }
            fn make(v: &Val) -> Self { let v = seq(v); ($($t::make(&v[$i])),*) }
        }
    )* };
}

tuples! {
    (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4)
    (A 0 B 1 C 2 D 3 E 4 F 5) (A 0 B 1 C 2 D 3 E 4 F 5 G 6)
}

impl<T: Model> Model for Box<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn val(&self) -> Val {
        Model::val(self.as_ref())
    }
    fn make(v: &Val) -> Self {
        Box::new(T::make(v))
    }
}

impl<T: Live> Live for Box<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        Box::new(T::build(rt, v))
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        Box::new(T::build_mut(rt, v))
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        Live::act(self.as_mut(), path, op)
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        Live::visit(self.as_ref(), f)
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(self.as_ref())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            true
        } else {
            Live::at(self.as_mut(), path, f)
        }
    }
}

// ---------------------------------------------------------------- lists and maps

impl<T: Live> Model for List<T> {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::List(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|v| Model::val(v)).collect())
    }
    fn make(v: &Val) -> Self {
        seq(v).iter().map(T::make).collect()
    }
}

impl<T: Live> Live for List<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        List::from_iter(rt, seq(v).iter().map(T::make))
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let mut list = List::new(rt);
        for (i, v) in seq(v).iter().enumerate() {
            if i % 2 == 0 {
                list.push_with(|rt| T::build_mut(rt, v));
            } else {
                list.push(T::make(v));
            }
        }
        list
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.split_first() {
            Some((&i, rest)) => {
                let i = i as usize;
                let item = match access() {
                    0 => self.get_mut(i)?,
                    1 if i < self.len() => &mut self[i],
                    2 => self.iter_mut().nth(i)?,
                    3 => (&mut *self).into_iter().nth(i)?,
                    _ => return None,
                };
                Live::act(item, rest, op)
            }
            None => match op {
                Op::Push(_, how) if !ready::<T>(*how) => None,
                Op::Push(v, how @ (How::Value | How::Hand)) => {
                    done(Ret::Index(self.push(by_value(*how, v))))
                }
                Op::Push(v, how) => done(Ret::Index(self.push_with(|rt| build_how(*how, rt, v)))),
                Op::Pop => Some(removed(self.pop())),
                Op::SwapRemove(i) => Some(removed(self.swap_remove(*i))),
                _ => None,
            },
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        for item in self {
            Live::visit(item, f);
        }
    }
    fn audit(&self) -> Result<(), String> {
        let n = self.iter().count();
        if self.len() != n || self.is_empty() != (n == 0) {
            return Err(format!("`len` is {} for {} items", self.len(), n));
        }
        if self.get(n).is_some() || self.first().is_some() != (n > 0) {
            return Err("`get` or `first` is wrong".into());
        }
        for (i, (x, y)) in self.iter().zip(self).enumerate() {
            let ok = |z: Option<&T>| z.is_some_and(|z| std::ptr::eq(x, z));
            if !ok(Some(y)) || !ok(self.get(i)) || !ok(Some(&self[i])) {
                return Err(format!("ways of reading item {} disagree", i));
            }
            Live::audit(x)?;
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((&i, rest)) => match self.get_mut(i as usize) {
                Some(item) => Live::at(item, rest, f),
                None => false,
            },
        }
    }
}

fn removed<T: Live>(value: Option<T>) -> Done {
    Done {
        ret: Ret::Value(value.as_ref().map(Model::val)),
        removed: value.map(|v| Box::new(v) as Box<dyn crate::dynamic::DynState>),
    }
}

pub trait Key: MapKey + Eq + Hash + Copy + 'static {
    const TY: KeyTy;
    fn from_u32(key: u32) -> Self;
    fn to_u32(self) -> u32;
}

macro_rules! keys {
    ($($t:ty, $ty:ident;)*) => { $(
        impl Key for $t {
            const TY: KeyTy = KeyTy::$ty;
            fn from_u32(key: u32) -> Self { key as $t }
            fn to_u32(self) -> u32 { self as u32 }
        }
    )* };
}

keys! { u8, U8; u16, U16; u32, U32; }

fn pairs(v: &Val) -> &[(u32, Val)] {
    match v {
        Val::Map(pairs) => pairs,
        _ => panic!("ill-typed"),
    }
}

impl<K: Key, T: Live> Model for Map<K, T> {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Map(K::TY, T::ty()))
    }
    fn val(&self) -> Val {
        Val::Map(
            self.iter()
                .map(|(k, v)| (k.to_u32(), Model::val(v)))
                .collect(),
        )
    }
    fn make(v: &Val) -> Self {
        pairs(v)
            .iter()
            .map(|(k, v)| (K::from_u32(*k), T::make(v)))
            .collect()
    }
}

impl<K: Key, T: Live> Live for Map<K, T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        Map::from_iter(
            rt,
            pairs(v).iter().map(|(k, v)| (K::from_u32(*k), T::make(v))),
        )
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let mut map = Map::new(rt);
        for (i, (k, v)) in pairs(v).iter().enumerate() {
            if i % 2 == 0 {
                map.insert_with(K::from_u32(*k), |rt| T::build_mut(rt, v));
            } else {
                map.insert(K::from_u32(*k), T::make(v));
            }
        }
        map
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.split_first() {
            Some((&k, rest)) => {
                let key = K::from_u32(k);
                let value = match access() {
                    0 => self.get_mut(&key)?,
                    1 if self.contains(&key) => &mut self[&key],
                    2 => self.iter_mut().find(|p| p.0 == key)?.1,
                    3 => (&mut *self).into_iter().find(|p| p.0 == key)?.1,
                    _ => return None,
                };
                Live::act(value, rest, op)
            }
            None => match op {
                Op::Insert(_, _, how) if !ready::<T>(*how) => None,
                Op::Insert(k, v, how @ (How::Value | How::Hand)) => {
                    Some(removed(self.insert(K::from_u32(*k), by_value(*how, v))))
                }
                Op::Insert(k, v, how) => Some(removed(
                    self.insert_with(K::from_u32(*k), |rt| build_how(*how, rt, v)),
                )),
                Op::Remove(k) => Some(removed(self.remove(&K::from_u32(*k)))),
                _ => None,
            },
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        for (_, value) in self {
            Live::visit(value, f);
        }
    }
    fn audit(&self) -> Result<(), String> {
        let n = self.iter().count();
        if self.len() != n {
            return Err(format!("`len` is {} for {} entries", self.len(), n));
        }
        for ((k, x), (l, y)) in self.iter().zip(self) {
            let ok = |z: Option<&T>| z.is_some_and(|z| std::ptr::eq(x, z));
            if k != l || !ok(Some(y)) || !ok(self.get(&k)) || !ok(Some(&self[&k])) {
                return Err(format!("ways of reading key {} disagree", k.to_u32()));
            }
            if !self.contains(&k) || self.iter().filter(|p| p.0 == k).count() != 1 {
                return Err(format!("key {} isn't there once", k.to_u32()));
            }
            Live::audit(x)?;
        }
        for k in [0, 1, 2, 3, 15, 16, 127, 128, 255] {
            let key = K::from_u32(k);
            let there = self.iter().any(|p| p.0 == key);
            if self.contains(&key) != there || self.get(&key).is_some() != there {
                return Err(format!("`contains` or `get` is wrong for key {}", k));
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((&k, rest)) => match self.get_mut(&K::from_u32(k)) {
                Some(value) if k <= K::TY.max() => Live::at(value, rest, f),
                _ => false,
            },
        }
    }
}

// ---------------------------------------------------------------- steit's own enum

impl<T: Live> Model for Maybe<T> {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Maybe",
                vec![
                    Variant {
                        tag: 0,
                        name: "None",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "Some",
                        fields: vec![Field {
                            tag: 0,
                            name: "value",
                            ty: T::ty(),
                            state: true,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Maybe::None { .. } => Val::Enum(0, vec![]),
            Maybe::Some { value, .. } => Val::Enum(1, vec![Model::val(value)]),
        }
    }
    fn make(v: &Val) -> Self {
        match v {
            Val::Enum(0, _) => Maybe::none(Runtime::default()),
            Val::Enum(1, v) => Maybe::some(Runtime::default(), T::make(&v[0])),
            _ => panic!("ill-typed"),
        }
    }
}

impl<T: Live> Live for Maybe<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        match v {
            Val::Enum(0, _) => Maybe::from_option(rt, None),
            Val::Enum(1, v) => Maybe::from_option(rt, Some(T::make(&v[0]))),
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let mut maybe = Self::with_runtime(rt);
        if let Val::Enum(1, v) = v {
            maybe.set_some_value_with(|rt| T::build_mut(rt, &v[0]));
        }
        maybe
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 || path[0] != 1 || path[1] != 0 {
            return None;
        }
        match op {
            Op::Set(_, how) if path.len() == 2 && !ready::<T>(*how) => None,
            Op::Set(v, how @ (How::Value | How::Hand)) if path.len() == 2 => {
                self.set_some_value(by_value(*how, v));
                done(Ret::Unit)
            }
            Op::Set(v, how) if path.len() == 2 => {
                self.set_some_value_with(|rt| build_how(*how, rt, v));
                done(Ret::Unit)
            }
            _ => match self {
                Maybe::Some { value, .. } => Live::act(value, &path[2..], op),
                _ => None,
            },
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        if let Maybe::Some { value, .. } = self {
            Live::visit(value, f);
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Maybe::Some { value, .. } => {
                if !self.is_some() || self.is_none() {
                    return Err("ways of reading an optional value disagree".into());
                }
                Live::audit(value)
            }
            Maybe::None { .. } => {
                if self.is_some() || !self.is_none() {
                    return Err("ways of reading an optional value disagree".into());
                }
                Ok(())
            }
        }
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        match self {
            Maybe::Some { value, .. } if path.len() >= 2 && path[..2] == [1, 0] => {
                Live::at(value, &path[2..], f)
            }
            _ => false,
        }
    }
}
