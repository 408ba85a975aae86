//! Runs C# code.

use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    rc::Rc,
};

use super::{load::*, syntax::*};

#[derive(Clone)]
pub enum V {
    Null,
    /// `default`, or a value which is yet to be assigned: takes the type of where it is put.
    Default,
    Bool(bool),
    Int(K, i64),
    Enum(TypeId, i64),
    Str(Rc<str>),
    Obj(Rc<Obj>),
    Arr(Rc<Arr>),
    Fun(Rc<Fun>),
    Type(TypeId),
    Tuple(Rc<Tup>),
}

pub struct Obj {
    pub ty: TypeId,
    pub class: Option<Rc<Class>>,
    pub fields: RefCell<Vec<V>>,
    pub nat: RefCell<Nat>,
}

/// What natively implemented objects hold.
pub enum Nat {
    None,
    List(Vec<V>),
    Dict(BTreeMap<HKey, (V, V)>),
    /// A list or dictionary behind another one.
    Wrap(V),
    Text(String),
    /// An enumerator, and where it is.
    Iter(Vec<V>, i64),
    Pair(V, V),
    Ctor(TypeId, Rc<Method>),
    Method(TypeId, Rc<Method>),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum HKey {
    Int(i64),
    Str(Rc<str>),
    Ptr(usize),
}

pub struct Arr {
    pub item: TypeId,
    pub items: RefCell<Vec<V>>,
}

pub struct Tup {
    pub names: Rc<[Option<Sym>]>,
    pub items: Vec<V>,
}

pub enum Fun {
    Lambda(Rc<Lambda>, Captured),
    Local(Rc<Method>, Captured),
    Group { target: V, class: Rc<Class>, targs: Rc<[TypeId]>, methods: Rc<Vec<Rc<Method>>>, margs: Vec<TypeId> },
    /// Tells the explorer of an event.
    Hook(TypeId, Sym),
    Many(Vec<Rc<Fun>>),
}

pub struct Captured {
    this: V,
    class: Rc<Class>,
    targs: Rc<[TypeId]>,
    margs: Rc<[TypeId]>,
    mtparams: Rc<[Sym]>,
    locals: Vec<(Sym, TypeId, Rc<RefCell<V>>)>,
}

pub enum Err {
    Throw(V),
    /// Something a compiler rejects.
    Compile(String),
    Unsupported(String),
    Budget,
}

pub type R<T> = Result<T, Err>;

pub enum Flow {
    Next,
    Break,
    Continue,
    Return(V),
}

enum LocalV {
    Own(V),
    Shared(Rc<RefCell<V>>),
}

struct Local {
    name: Sym,
    ty: TypeId,
    value: LocalV,
}

pub struct Frame {
    this: V,
    class: Rc<Class>,
    targs: Rc<[TypeId]>,
    margs: Rc<[TypeId]>,
    mtparams: Rc<[Sym]>,
    locals: Vec<Local>,
    ret: TypeId,
    yields: Option<Vec<V>>,
    hole: Vec<V>,
    caught: Vec<V>,
}

pub struct ArgV {
    pub name: Option<Sym>,
    pub v: V,
    pub konst: bool,
    pub by_ref: bool,
    /// The type declared, if it is known.
    pub hint: Option<TypeId>,
}

impl ArgV {
    pub fn plain(v: V) -> ArgV {
        ArgV { name: None, v, konst: false, by_ref: false, hint: None }
    }
}

pub fn unsupported<T>(what: impl Into<String>) -> R<T> {
    Err(Err::Unsupported(what.into()))
}

pub fn compile<T>(what: impl Into<String>) -> R<T> {
    Err(Err::Compile(what.into()))
}

pub fn wrap_int(k: K, v: i64) -> i64 {
    match k {
        K::Bool => v,
        K::Char | K::U16 => v as u16 as i64,
        K::Byte => v as u8 as i64,
        K::SByte => v as i8 as i64,
        K::I16 => v as i16 as i64,
        K::U32 => v as u32 as i64,
        K::I32 => v as i32 as i64,
        K::U64 | K::I64 => v,
    }
}

fn is_signed(k: K) -> bool {
    matches!(k, K::SByte | K::I16 | K::I32 | K::I64)
}

fn widens(from: K, to: K) -> bool {
    use K::*;
    match from {
        Bool => false,
        Byte => matches!(to, U16 | I16 | U32 | I32 | U64 | I64),
        SByte => matches!(to, I16 | I32 | I64),
        U16 | Char => matches!(to, U32 | I32 | U64 | I64) || (from == Char && to == U16),
        I16 => matches!(to, I32 | I64),
        U32 => matches!(to, U64 | I64),
        I32 => to == I64,
        U64 | I64 => false,
    }
}

/// Whether a constant fits another type.
fn fits(from: K, v: i64, to: K) -> bool {
    if to == K::Bool || to == K::Char {
        return false;
    }
    if from == K::U64 {
        return to == K::U64;
    }
    if from == K::I64 && to != K::U64 {
        return false;
    }
    match to {
        K::U64 => v >= 0,
        _ => wrap_int(to, v) == v,
    }
}

impl World {
    // ------------------------------------------------------------ exceptions

    pub fn exception(&self, kind: &str, message: impl Into<String>) -> V {
        let ty = self.native(sym(kind), &[]);
        V::Obj(Rc::new(Obj { ty, class: None, fields: Default::default(), nat: RefCell::new(Nat::Text(message.into())) }))
    }

    pub fn throw<T>(&self, kind: &str, message: impl Into<String>) -> R<T> {
        Err(Err::Throw(self.exception(kind, message)))
    }

    pub fn null_ref<T>(&self) -> R<T> {
        self.throw("NullReferenceException", "")
    }

    // ------------------------------------------------------------ types of values

    pub fn type_of(&self, v: &V) -> TypeId {
        match v {
            V::Null | V::Default => OBJECT,
            V::Bool(_) => prim(K::Bool),
            V::Int(k, _) => prim(*k),
            V::Enum(t, _) => *t,
            V::Str(_) => STRING,
            V::Obj(o) => o.ty,
            V::Arr(a) => self.intern(Rt::Array(a.item)),
            V::Fun(_) => self.native(s::Delegate, &[]),
            V::Type(_) => TYPE,
            V::Tuple(t) => {
                let items = t.items.iter().map(|i| self.type_of(i)).collect();
                self.intern(Rt::Tuple(items, t.names.clone()))
            }
        }
    }

    pub fn default_of(&self, ty: TypeId) -> V {
        match self.rt(ty) {
            Rt::Prim(K::Bool) => V::Bool(false),
            Rt::Prim(k) => V::Int(k, 0),
            Rt::Tuple(items, names) => {
                V::Tuple(Rc::new(Tup { names, items: items.iter().map(|t| self.default_of(*t)).collect() }))
            }
            Rt::Class(c, _) if self.class(c).kind == Kind::Enum => V::Enum(ty, 0),
            _ => V::Null,
        }
    }

    /// Whether a value is one of a type, as by `is`.
    pub fn instance_of(&self, v: &V, ty: TypeId) -> bool {
        match v {
            V::Null | V::Default => false,
            _ => {
                let ty = match self.rt(ty) {
                    Rt::Nullable(item) => item,
                    _ => ty,
                };
                let of = self.type_of(v);
                of == ty || self.is_a(of, ty) || (matches!(v, V::Fun(_)) && self.is_delegate(ty))
            }
        }
    }

    pub fn is_delegate(&self, ty: TypeId) -> bool {
        matches!(self.rt(ty), Rt::Native(n, _)
            if matches!(n, s::Func | s::Action | s::EventHandler | s::Delegate | s::Predicate | s::Comparison) || n == s::Object)
    }

    /// Implicitly converts a value to the type of where it is put.
    pub fn coerce(&self, v: V, ty: TypeId, konst: impl Fn() -> bool) -> R<V> {
        self.coerce_to(v, ty, &konst)
    }

    fn coerce_to(&self, v: V, ty: TypeId, konst: &dyn Fn() -> bool) -> R<V> {
        if ty == OBJECT {
            return Ok(match v {
                V::Default => V::Null,
                v => v,
            });
        }
        match &v {
            V::Int(k, n) => {
                if prim(*k) == ty {
                    return Ok(v);
                }
                match self.rt(ty) {
                    Rt::Prim(to) => {
                        if widens(*k, to) || (konst() && fits(*k, *n, to)) {
                            return Ok(V::Int(to, *n));
                        }
                    }
                    Rt::Nullable(item) => return self.coerce_to(v, item, konst),
                    Rt::Class(c, _) if *n == 0 && self.class(c).kind == Kind::Enum => {
                        if konst() {
                            return Ok(V::Enum(ty, 0));
                        }
                    }
                    _ => {
                        if self.is_a(prim(*k), ty) {
                            return Ok(v);
                        }
                    }
                }
            }
            V::Obj(o) => {
                if o.ty == ty || self.is_a(o.ty, ty) {
                    return Ok(v);
                }
                if let Some(v) = self.close_list(&v, ty) {
                    return Ok(v);
                }
            }
            V::Null => {
                if !self.is_value_type(ty) || matches!(self.rt(ty), Rt::Nullable(_)) {
                    return Ok(V::Null);
                }
            }
            V::Default => return Ok(self.default_of(ty)),
            V::Tuple(t) => match self.rt(ty) {
                Rt::Tuple(tys, names) if tys.len() == t.items.len() => {
                    let mut items = Vec::new();
                    for (item, ty) in t.items.iter().zip(tys.iter()) {
                        items.push(self.coerce_to(item.clone(), *ty, &|| false)?);
                    }
                    return Ok(V::Tuple(Rc::new(Tup { names, items })));
                }
                _ => (),
            },
            V::Fun(_) => {
                if self.is_delegate(ty) {
                    return Ok(v);
                }
            }
            _ => {
                let of = self.type_of(&v);
                if of == ty || self.is_a(of, ty) {
                    return Ok(v);
                }
                if let Rt::Nullable(item) = self.rt(ty) {
                    return self.coerce_to(v, item, konst);
                }
            }
        }
        compile(format!("cannot convert `{}` to `{}`", self.short_name(self.type_of(&v)), self.short_name(ty)))
    }

    /// Explicitly converts.
    fn cast(&self, v: V, ty: TypeId, unbox: bool) -> R<V> {
        let target = match self.rt(ty) {
            Rt::Nullable(item) => {
                if matches!(v, V::Null) {
                    return Ok(V::Null);
                }
                item
            }
            _ => ty,
        };
        if target == OBJECT {
            return Ok(v);
        }
        match (&v, self.rt(target)) {
            (V::Int(k, n), Rt::Prim(to)) => {
                if unbox && *k != to {
                    return self.throw("InvalidCastException", "");
                }
                Ok(V::Int(to, wrap_int(to, *n)))
            }
            (V::Enum(_, n), Rt::Prim(to)) if to != K::Bool => Ok(V::Int(to, wrap_int(to, *n))),
            (V::Int(_, n), Rt::Class(c, _)) if self.class(c).kind == Kind::Enum => Ok(V::Enum(target, *n)),
            (V::Null, _) => {
                if self.is_value_type(target) {
                    return self.null_ref();
                }
                Ok(V::Null)
            }
            (V::Default, _) => Ok(self.default_of(ty)),
            _ => {
                if self.instance_of(&v, target) {
                    return Ok(v);
                }
                if let (V::Tuple(_), Rt::Tuple(..)) = (&v, self.rt(target)) {
                    return self.coerce(v, target, || false);
                }
                self.throw("InvalidCastException", format!("{} to {}", self.short_name(self.type_of(&v)), self.short_name(ty)))
            }
        }
    }

    pub fn hkey(&self, v: &V) -> R<HKey> {
        Ok(match v {
            V::Int(_, n) | V::Enum(_, n) => HKey::Int(*n),
            V::Bool(b) => HKey::Int(*b as i64),
            V::Str(x) => HKey::Str(x.clone()),
            V::Type(t) => HKey::Int(*t as i64),
            V::Obj(o) => HKey::Ptr(Rc::as_ptr(o) as usize),
            V::Arr(a) => HKey::Ptr(Rc::as_ptr(a) as usize),
            V::Null => return self.throw("ArgumentNullException", ""),
            _ => return unsupported("key of a dictionary"),
        })
    }

    pub fn same(&self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(_, a) | V::Enum(_, a), V::Int(_, b) | V::Enum(_, b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Obj(a), V::Obj(b)) => Rc::ptr_eq(a, b),
            (V::Arr(a), V::Arr(b)) => Rc::ptr_eq(a, b),
            (V::Fun(a), V::Fun(b)) => Rc::ptr_eq(a, b),
            (V::Type(a), V::Type(b)) => a == b,
            (V::Tuple(a), V::Tuple(b)) => a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|(a, b)| self.same(a, b)),
            (V::Default, b) | (b, V::Default) => match b {
                V::Null | V::Default => true,
                V::Bool(b) => !b,
                V::Int(_, n) | V::Enum(_, n) => *n == 0,
                _ => false,
            },
            _ => false,
        }
    }

    // ------------------------------------------------------------ frames

    fn ty(&self, f: &Frame, t: &TyRef) -> R<TypeId> {
        let ty = match t.cache.get() {
            Some(Ty::Prim(k)) => return Ok(prim(*k)),
            Some(ty) => return Ok(self.close(ty, &f.targs, &f.margs)),
            None => self.resolve(t, &f.class, &f.mtparams).map_err(Err::Compile)?,
        };
        Ok(self.close(&ty, &f.targs, &f.margs))
    }

    fn is_var(t: &TyRef) -> bool {
        matches!(t.kind, TyKind::Var)
    }

    fn frame(&self, this: V, class: Rc<Class>, targs: Rc<[TypeId]>) -> Frame {
        Frame {
            this,
            class,
            targs,
            margs: [].into(),
            mtparams: [].into(),
            locals: vec![],
            ret: VOID,
            yields: None,
            hole: vec![],
            caught: vec![],
        }
    }

    fn capture(&self, f: &mut Frame) -> Captured {
        let mut locals = Vec::new();
        for l in &mut f.locals {
            let shared = match &mut l.value {
                LocalV::Shared(s) => s.clone(),
                own => {
                    let LocalV::Own(v) = std::mem::replace(own, LocalV::Own(V::Null)) else { unreachable!() };
                    let shared = Rc::new(RefCell::new(v));
                    *own = LocalV::Shared(shared.clone());
                    shared
                }
            };
            locals.push((l.name, l.ty, shared));
        }
        Captured {
            this: f.this.clone(),
            class: f.class.clone(),
            targs: f.targs.clone(),
            margs: f.margs.clone(),
            mtparams: f.mtparams.clone(),
            locals,
        }
    }

    fn reopen(&self, c: &Captured) -> Frame {
        let mut f = self.frame(c.this.clone(), c.class.clone(), c.targs.clone());
        f.margs = c.margs.clone();
        f.mtparams = c.mtparams.clone();
        for (n, ty, v) in &c.locals {
            f.locals.push(Local { name: *n, ty: *ty, value: LocalV::Shared(v.clone()) });
        }
        f
    }

    fn spend(&self) -> R<()> {
        self.evals.set(self.evals.get() + 1);
        let fuel = self.fuel.get();
        if fuel == 0 {
            return Err(Err::Budget);
        }
        self.fuel.set(fuel - 1);
        Ok(())
    }

    fn enter<T>(&self, run: impl FnOnce() -> R<T>) -> R<T> {
        let depth = self.depth.get();
        if depth > 3000 {
            return Err(Err::Budget);
        }
        self.depth.set(depth + 1);
        let out = run();
        self.depth.set(depth);
        out
    }

    // ------------------------------------------------------------ members

    /// Finds a member of a class or its bases, with the class declaring it and its arguments.
    pub fn member(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, n: Sym) -> Option<(Slot, Rc<Class>, Rc<[TypeId]>)> {
        let t = self.table(class);
        if let Some(slot) = t.members.get(&n) {
            return Some((slot.clone(), class.clone(), targs.clone()));
        }
        match &t.base {
            Some(base @ Ty::Class(..)) => {
                let (base, args) = self.as_class(self.close(base, targs, &[]))?;
                self.member(&base, &args, n)
            }
            _ => None,
        }
    }

    /// The native base of a class, if any.
    pub fn native_base(&self, class: &Rc<Class>, targs: &[TypeId]) -> Option<TypeId> {
        match self.table(class).base.as_ref()? {
            base @ Ty::Class(..) => {
                let (base, args) = self.as_class(self.close(base, targs, &[]))?;
                self.native_base(&base, &args)
            }
            base => Some(self.close(base, targs, &[])),
        }
    }

    /// Static storage of a class, set up when it is used first.
    pub fn statics(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>) -> R<Rc<Statics>> {
        let ty = self.intern(Rt::Class(class.id, targs.clone()));
        if let Some(found) = self.statics.borrow().get(&ty) {
            if found.state.get() == 3 {
                return self.throw("TypeInitializationException", self.full_name(ty));
            }
            return Ok(found.clone());
        }
        let t = self.table(class);
        let mut values = Vec::new();
        let f = self.frame(V::Null, class.clone(), targs.clone());
        for st in &t.statics {
            values.push(if st.is_event() {
                V::Fun(Rc::new(Fun::Hook(ty, st.name)))
            } else if class.kind == Kind::Enum {
                V::Enum(ty, 0)
            } else {
                let of = self.ty(&f, st.ty())?;
                self.default_of(of)
            });
        }
        let st = Rc::new(Statics { state: Cell::new(1), values: RefCell::new(values) });
        self.statics.borrow_mut().insert(ty, st.clone());
        let run = || -> R<()> {
            for (i, storage) in t.statics.iter().enumerate() {
                let Some(init) = storage.init() else { continue };
                let mut f = self.frame(V::Null, class.clone(), targs.clone());
                let v = if class.kind == Kind::Enum {
                    match self.eval(&mut f, init)? {
                        V::Int(_, n) | V::Enum(_, n) => V::Enum(ty, n),
                        _ => return compile("value of an enum member"),
                    }
                } else {
                    let of = self.ty(&f, storage.ty())?;
                    self.eval_to(&mut f, init, of)?
                };
                st.values.borrow_mut()[i] = v;
            }
            if let Some(ctor) = &t.static_ctor {
                self.invoke(class, targs, ctor, V::Null, &mut vec![], [].into())?;
            }
            Ok(())
        };
        match run() {
            Ok(()) => st.state.set(2),
            Err(e) => {
                st.state.set(3);
                return match e {
                    Err::Throw(_) => self.throw("TypeInitializationException", self.full_name(ty)),
                    e => {
                        // Whoever is next is told the same.
                        self.statics.borrow_mut().remove(&ty);
                        Err(e)
                    }
                };
            }
        }
        Ok(st)
    }

    // ------------------------------------------------------------ calls

    /// Calls a method with arguments for all of its parameters; those passed by reference are updated.
    pub fn invoke(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, m: &Rc<Method>, this: V, args: &mut Vec<V>, margs: Rc<[TypeId]>) -> R<V> {
        self.spend()?;
        if m.broken.get() {
            return compile(format!("`{}` doesn't compile", name(m.name)));
        }
        self.enter(|| {
            let mut f = self.frame(this, class.clone(), targs.clone());
            f.margs = margs;
            if !m.tparams.is_empty() {
                f.mtparams = (&*m.tparams).into();
            }
            let mut locals = Vec::with_capacity(args.len() + 4);
            for (p, v) in m.params.iter().zip(args.iter_mut()) {
                let ty = self.ty(&f, &p.ty)?;
                locals.push(Local { name: p.name, ty, value: LocalV::Own(std::mem::replace(v, V::Null)) });
            }
            f.locals = locals;
            f.ret = match &m.ret {
                Some(t) => self.ty(&f, t)?,
                None => VOID,
            };
            let out = self.body(&mut f, &m.body)?;
            for (i, p) in m.params.iter().enumerate() {
                if p.by_ref {
                    args[i] = match &f.locals[i].value {
                        LocalV::Own(v) => v.clone(),
                        LocalV::Shared(v) => v.borrow().clone(),
                    };
                }
            }
            Ok(out)
        })
    }

    fn body(&self, f: &mut Frame, body: &Body) -> R<V> {
        match body {
            Body::Expr(e) => {
                if f.ret == VOID {
                    self.eval(f, e)?;
                    return Ok(V::Null);
                }
                let ret = f.ret;
                self.eval_to(f, e, ret)
            }
            Body::Block(stmts) => {
                if yields(stmts) {
                    f.yields = Some(vec![]);
                }
                match self.block(f, stmts)? {
                    Flow::Return(v) if f.yields.is_none() => Ok(v),
                    _ => match f.yields.take() {
                        Some(items) => {
                            let item = match self.rt(f.ret) {
                                Rt::Native(_, args) if !args.is_empty() => args[0],
                                _ => OBJECT,
                            };
                            Ok(match self.rt(f.ret) {
                                Rt::Native(s::IEnumerator, _) => self.nat_object(f.ret, Nat::Iter(items, -1)),
                                _ => self.new_list(item, items),
                            })
                        }
                        None if f.ret == VOID => Ok(V::Null),
                        None => compile("not all code paths return a value"),
                    },
                }
            }
            Body::None => compile("no body"),
        }
    }

    pub fn new_list(&self, item: TypeId, items: Vec<V>) -> V {
        let ty = self.native(s::List, &[item]);
        V::Obj(Rc::new(Obj { ty, class: None, fields: Default::default(), nat: RefCell::new(Nat::List(items)) }))
    }

    fn eval_args(&self, f: &mut Frame, args: &[Arg]) -> R<Vec<ArgV>> {
        let mut out = Vec::with_capacity(args.len());
        for a in args {
            let (v, konst) = match &a.expr.kind {
                E::Decl(ty, var) => {
                    let ty = if Self::is_var(ty) { OBJECT } else { self.ty(f, ty)? };
                    f.locals.push(Local { name: *var, ty, value: LocalV::Own(V::Default) });
                    (V::Default, false)
                }
                E::Name(n, _, _) if a.by_ref && &*name(*n) == "_" => (V::Default, false),
                _ => {
                    let v = self.eval(f, &a.expr)?;
                    (v, self.is_const(f, &a.expr))
                }
            };
            let hint = match &a.expr.kind {
                E::Cast(ty, _) | E::As(_, ty) => self.ty(f, ty).ok(),
                E::Name(n, _, _) => f.locals.iter().rev().find(|l| l.name == *n).map(|l| l.ty).filter(|t| *t != OBJECT),
                _ => None,
            };
            out.push(ArgV { name: a.name, v, konst, by_ref: a.by_ref, hint });
        }
        Ok(out)
    }

    fn is_const(&self, f: &Frame, e: &Expr) -> bool {
        match &e.kind {
            E::Lit(Lit::Int(..) | Lit::Char(_)) => true,
            E::Unary(_, e) => self.is_const(f, e),
            E::Cast(_, e) => self.is_const(f, e),
            E::Binary(_, a, b) => self.is_const(f, a) && self.is_const(f, b),
            E::Ternary(_, a, b) => self.is_const(f, a) && self.is_const(f, b),
            E::Name(n, _, cache) => {
                if f.locals.iter().any(|l| l.name == *n) {
                    return false;
                }
                match cache.get() {
                    Some(NameRes::Member(class)) => {
                        matches!(self.table(class).members.get(n), Some(Slot::Field(fd, _)) if fd.is_const)
                    }
                    _ => false,
                }
            }
            E::Member(of, n, _) => match &of.kind {
                E::Name(_, _, cache) => match cache.get() {
                    Some(NameRes::Type(Ty::Class(id, _))) => {
                        matches!(self.table(&self.class(*id)).members.get(n), Some(Slot::Field(fd, _)) if fd.is_const)
                    }
                    _ => false,
                },
                _ => false,
            },
            _ => false,
        }
    }

    /// Finds types of a generic method from those of arguments.
    fn infer(&self, ty: &Ty, of: TypeId, found: &mut Vec<Option<TypeId>>) {
        match ty {
            Ty::MParam(i) => {
                if found[*i].is_none() {
                    found[*i] = Some(of);
                }
            }
            Ty::Array(item) => {
                if let Rt::Array(of) = self.rt(of) {
                    self.infer(item, of, found);
                }
            }
            Ty::Nullable(item) => self.infer(item, of, found),
            Ty::Class(_, args) | Ty::Native(_, args) => {
                if args.is_empty() {
                    return;
                }
                for sup in self.supers(of).iter() {
                    let with = match (self.rt(*sup), ty) {
                        (Rt::Class(c, with), Ty::Class(id, _)) if c == *id => with,
                        (Rt::Native(n, with), Ty::Native(m, _)) if n == *m => with,
                        _ => continue,
                    };
                    for (a, w) in args.iter().zip(with.iter()) {
                        self.infer(a, *w, found);
                    }
                    return;
                }
            }
            Ty::Tuple(items) => {
                if let Rt::Tuple(of, _) = self.rt(of) {
                    for ((t, _), of) in items.iter().zip(of.iter()) {
                        self.infer(t, *of, found);
                    }
                }
            }
            _ => (),
        }
    }

    /// Assigns arguments to parameters: `None` where a default is used. `Err` if that doesn't go.
    fn assign(m: &Method, skip: usize, args: &[ArgV]) -> Option<(Vec<Option<usize>>, Vec<usize>)> {
        let params = &m.params[skip..];
        let mut to = vec![None; params.len()];
        let mut rest = Vec::new();
        let variadic = params.last().is_some_and(|p| p.params);
        for (i, a) in args.iter().enumerate() {
            let at = match a.name {
                Some(n) => params.iter().position(|p| p.name == n)?,
                None if variadic && i >= params.len() - 1 => {
                    rest.push(i);
                    continue;
                }
                None => i,
            };
            if at >= params.len() || to[at].is_some() || params[at].by_ref != a.by_ref {
                return None;
            }
            to[at] = Some(i);
        }
        for (i, p) in params.iter().enumerate() {
            if to[i].is_none() && p.default.is_none() && !p.params {
                return None;
            }
        }
        Some((to, rest))
    }

    fn margs_of(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, m: &Rc<Method>, skip: usize, this: Option<&V>, to: &[Option<usize>], args: &[ArgV], given: &[TypeId]) -> R<Rc<[TypeId]>> {
        if m.tparams.is_empty() {
            return Ok([].into());
        }
        if !given.is_empty() {
            return Ok(given.into());
        }
        let _ = targs;
        let mut found = vec![None; m.tparams.len()];
        let mut see = |p: &Param, v: &V, hint: Option<TypeId>| -> R<()> {
            let known = match v {
                V::Fun(_) => None,
                V::Null | V::Default => hint,
                _ => hint.or_else(|| Some(self.type_of(v))),
            };
            if let Some(known) = known {
                let ty = self.resolve(&p.ty, class, &m.tparams).map_err(Err::Compile)?;
                self.infer(&ty, known, &mut found);
            }
            Ok(())
        };
        if let Some(this) = this {
            see(&m.params[0], this, None)?;
        }
        for (p, i) in m.params[skip..].iter().zip(to) {
            if let Some(i) = i {
                see(p, &args[*i].v, args[*i].hint)?;
            }
        }
        if found.contains(&None) && args.iter().any(|a| matches!(a.v, V::Fun(_))) {
            return unsupported(format!("type arguments of `{}` which follow from a delegate's", name(m.name)));
        }
        Ok(found.into_iter().map(|t| t.unwrap_or(OBJECT)).collect())
    }

    fn convertible(&self, a: &ArgV, ty: TypeId) -> bool {
        // Objects go by the type which they are declared to be of.
        if let Some(hint) = a.hint {
            if matches!(a.v, V::Obj(_) | V::Arr(_) | V::Null) && !self.is_value_type(ty) && !self.is_value_type(hint) && !self.is_delegate(hint) && !self.is_open(hint) {
                return self.is_a(hint, ty);
            }
        }
        self.coerce(a.v.clone(), ty, || a.konst).is_ok()
    }

    /// Picks the method which takes the arguments, and arranges them for its parameters.
    #[allow(clippy::type_complexity)]
    fn pick(
        &self, class: &Rc<Class>, targs: &Rc<[TypeId]>, methods: &[Rc<Method>], ext: Option<&V>, args: &[ArgV], given: &[TypeId],
    ) -> R<Option<(Rc<Method>, Vec<V>, Rc<[TypeId]>, Vec<(usize, usize)>)>> {
        let skip = ext.is_some() as usize;
        struct Cand {
            m: Rc<Method>,
            to: Vec<Option<usize>>,
            rest: Vec<usize>,
            margs: Rc<[TypeId]>,
            tys: Vec<TypeId>,
        }
        let mut best: Option<Cand> = None;
        for m in methods {
            if !given.is_empty() && m.tparams.len() != given.len() {
                continue;
            }
            let Some((to, rest)) = Self::assign(m, skip, args) else { continue };
            let margs = self.margs_of(class, targs, m, skip, ext, &to, args, given)?;
            let close = |p: &Param| -> R<TypeId> {
                let ty = self.resolve(&p.ty, class, &m.tparams).map_err(Err::Compile)?;
                Ok(self.close(&ty, targs, &margs))
            };
            if let Some(this) = ext {
                let ty = close(&m.params[0])?;
                if !self.convertible(&ArgV { name: None, v: this.clone(), konst: false, by_ref: false, hint: None }, ty) {
                    continue;
                }
            }
            let mut tys = Vec::new();
            for p in &m.params[skip..] {
                tys.push(close(p)?);
            }
            // With nothing to choose from, what doesn't convert is told of later.
            if methods.len() > 1 || skip > 0 || self.extensions.borrow().contains_key(&m.name) {
                let fits = to.iter().zip(&tys).all(|(i, ty)| match i {
                    Some(i) => args[*i].by_ref || self.convertible(&args[*i], *ty),
                    None => true,
                });
                let fits = fits
                    && rest.iter().all(|i| match self.rt(*tys.last().unwrap()) {
                        Rt::Array(item) => self.convertible(&args[*i], item) || (rest.len() == 1 && self.convertible(&args[*i], *tys.last().unwrap())),
                        _ => false,
                    });
                // Arguments by reference tell types apart, too.
                let fits = fits
                    && to.iter().zip(&tys).all(|(i, ty)| match i {
                        Some(i) if args[*i].by_ref => matches!(args[*i].v, V::Null | V::Default) || self.convertible(&args[*i], *ty),
                        _ => true,
                    });
                if !fits {
                    continue;
                }
            }
            let cand = Cand { m: m.clone(), to, rest, margs, tys };
            best = Some(match best {
                None => cand,
                Some(old) => {
                    // Fewer defaults and more specific types are better.
                    let defaults = |c: &Cand| c.to.iter().filter(|i| i.is_none()).count();
                    let mut score = 0i32;
                    for (i, a) in args.iter().enumerate() {
                        let of = |c: &Cand| {
                            c.to.iter().position(|x| *x == Some(i)).map(|p| c.tys[p])
                        };
                        if let (Some(x), Some(y)) = (of(&old), of(&cand)) {
                            if x != y {
                                let exact = a.hint.unwrap_or_else(|| self.type_of(&a.v));
                                if x == exact || (y != exact && self.is_a(x, y)) {
                                    score -= 1;
                                } else if y == exact || self.is_a(y, x) {
                                    score += 1;
                                }
                            }
                        }
                    }
                    if score == 0 {
                        score = defaults(&old) as i32 - defaults(&cand) as i32;
                        if score == 0 {
                            score = (cand.m.tparams.is_empty() && !old.m.tparams.is_empty()) as i32
                                - (old.m.tparams.is_empty() && !cand.m.tparams.is_empty()) as i32;
                        }
                    }
                    if score > 0 {
                        cand
                    } else {
                        old
                    }
                }
            });
        }
        let Some(c) = best else { return Ok(None) };
        let mut values = Vec::with_capacity(c.m.params.len());
        if let Some(this) = ext {
            values.push(this.clone());
        }
        let mut refs = Vec::new();
        for (i, p) in c.m.params[skip..].iter().enumerate() {
            if p.params && c.to[i].is_none() {
                let ty = c.tys[i];
                if c.rest.len() == 1 && self.convertible(&args[c.rest[0]], ty) && !matches!(args[c.rest[0]].v, V::Null) {
                    values.push(args[c.rest[0]].v.clone());
                    continue;
                }
                let Rt::Array(item) = self.rt(ty) else { return compile("`params` of no array") };
                let mut items = Vec::new();
                for r in &c.rest {
                    items.push(self.coerce(args[*r].v.clone(), item, || args[*r].konst)?);
                }
                values.push(V::Arr(Rc::new(Arr { item, items: RefCell::new(items) })));
                continue;
            }
            match c.to[i] {
                Some(a) if args[a].by_ref => {
                    refs.push((a, skip + i));
                    values.push(match &args[a].v {
                        V::Default => self.default_of(c.tys[i]),
                        v => v.clone(),
                    });
                }
                Some(a) => values.push(self.coerce(args[a].v.clone(), c.tys[i], || args[a].konst)?),
                None => {
                    let mut f = self.frame(V::Null, class.clone(), targs.clone());
                    f.margs = c.margs.clone();
                    f.mtparams = (&*c.m.tparams).into();
                    values.push(self.eval_to(&mut f, p.default.as_ref().unwrap(), c.tys[i])?);
                }
            }
        }
        Ok(Some((c.m, values, c.margs, refs)))
    }

    fn given(&self, f: &Frame, targs: &[TyRef]) -> R<Vec<TypeId>> {
        let mut out = Vec::new();
        for t in targs {
            out.push(self.ty(f, t)?);
        }
        Ok(out)
    }

    /// Calls one of several methods; gives what has become of arguments passed by reference.
    #[allow(clippy::too_many_arguments)]
    pub fn call_group(
        &self, class: &Rc<Class>, targs: &Rc<[TypeId]>, methods: &[Rc<Method>], this: &V, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>,
    ) -> R<Option<V>> {
        let Some((m, mut values, margs, refs)) = self.pick(class, targs, methods, None, args, given)? else {
            return Ok(None);
        };
        let this = if m.is_static {
            // Its class is set up first.
            if self.table(class).static_ctor.is_some() {
                self.statics(class, targs)?;
            }
            V::Null
        } else {
            if matches!(this, V::Null) {
                return compile(format!("an object is required for `{}`", name(m.name)));
            }
            this.clone()
        };
        let v = self.invoke(class, targs, &m, this, &mut values, margs)?;
        for (a, p) in refs {
            out.push((a, values[p].clone()));
        }
        Ok(Some(v))
    }

    /// Calls an extension method, if there is one in scope.
    fn call_extension(&self, f: &Frame, this: &V, n: Sym, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>) -> R<Option<V>> {
        let found = self.extensions.borrow().get(&n).cloned().unwrap_or_default();
        for (class, m) in found {
            let visible = f.class.ns.starts_with(&*class.ns) && (f.class.ns.len() == class.ns.len() || class.ns.is_empty() || f.class.ns.as_bytes()[class.ns.len()] == b'.')
                || f.class.usings.contains(&class.ns);
            if !visible {
                continue;
            }
            let targs: Rc<[TypeId]> = [].into();
            if let Some((m, mut values, margs, refs)) = self.pick(&class, &targs, &[m], Some(this), args, given)? {
                let v = self.invoke(&class, &targs, &m, V::Null, &mut values, margs)?;
                for (a, p) in refs {
                    out.push((a, values[p].clone()));
                }
                return Ok(Some(v));
            }
        }
        Ok(None)
    }

    pub fn call_fun(&self, fun: &Rc<Fun>, args: Vec<V>) -> R<V> {
        self.spend()?;
        match &**fun {
            Fun::Lambda(l, c) => self.enter(|| {
                let mut f = self.reopen(c);
                if l.params.len() != args.len() && !l.params.is_empty() {
                    return compile("arguments of a lambda");
                }
                for ((ty, n), v) in l.params.iter().zip(args) {
                    let ty = match ty {
                        Some(t) => self.ty(&f, t)?,
                        None => OBJECT,
                    };
                    f.locals.push(Local { name: *n, ty, value: LocalV::Own(v) });
                }
                match &l.body {
                    Body::Expr(e) => self.eval(&mut f, e),
                    Body::Block(stmts) => {
                        f.ret = OBJECT;
                        match self.block(&mut f, stmts)? {
                            Flow::Return(v) => Ok(v),
                            _ => Ok(V::Null),
                        }
                    }
                    Body::None => unreachable!(),
                }
            }),
            Fun::Local(m, c) => self.enter(|| {
                let mut f = self.reopen(c);
                let args: Vec<ArgV> = args.into_iter().map(ArgV::plain).collect();
                let picked = self.pick(&f.class.clone(), &f.targs.clone(), &[m.clone()], None, &args, &[])?;
                let Some((m, values, _, _)) = picked else { return compile("arguments of a local function") };
                for (p, v) in m.params.iter().zip(values) {
                    let ty = self.ty(&f, &p.ty)?;
                    f.locals.push(Local { name: p.name, ty, value: LocalV::Own(v) });
                }
                f.ret = self.ty(&f, m.ret.as_ref().unwrap())?;
                self.body(&mut f, &m.body)
            }),
            Fun::Group { target, class, targs, methods, margs } => {
                let args: Vec<ArgV> = args.into_iter().map(ArgV::plain).collect();
                match self.call_group(class, targs, methods, target, &args, margs, &mut vec![])? {
                    Some(v) => Ok(v),
                    None => compile("no overload matches a delegate"),
                }
            }
            Fun::Hook(owner, event) => {
                let mut args = args.into_iter();
                let (Some(sender), Some(args)) = (args.next(), args.next()) else {
                    return compile("arguments of an event");
                };
                self.hook.borrow_mut().push(Fired { owner: *owner, event: *event, sender, args });
                Ok(V::Null)
            }
            Fun::Many(all) => {
                let mut last = V::Null;
                for fun in all {
                    last = self.call_fun(fun, args.clone())?;
                }
                Ok(last)
            }
        }
    }

    // ------------------------------------------------------------ objects

    pub fn new_object(&self, ty: TypeId, args: &[ArgV]) -> R<V> {
        let Rt::Class(id, targs) = self.rt(ty) else {
            return self.new_native(ty, args);
        };
        let class = self.class(id);
        if class.kind != Kind::Class || class.is_static {
            return compile(format!("cannot create an instance of `{}`", self.short_name(ty)));
        }
        let t = self.table(&class);
        let mut fields = Vec::with_capacity(t.instance.len());
        for st in &t.instance {
            if st.is_event() {
                fields.push(V::Fun(Rc::new(Fun::Hook(ty, st.name))));
                continue;
            }
            let (owner, owner_args) = self.view(&class, &targs, st.class);
            let f = self.frame(V::Null, owner, owner_args);
            let of = self.ty(&f, st.ty())?;
            fields.push(self.default_of(of));
        }
        let obj = Rc::new(Obj { ty, class: Some(class.clone()), fields: RefCell::new(fields), nat: RefCell::new(Nat::None) });
        let this = V::Obj(obj);
        if t.static_ctor.is_some() {
            self.statics(&class, &targs)?;
        }
        self.construct(&class, &targs, &this, args)?;
        Ok(this)
    }

    /// A base class as seen from a class.
    fn view(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, base: ClassId) -> (Rc<Class>, Rc<[TypeId]>) {
        let (mut class, mut targs) = (class.clone(), targs.clone());
        while class.id != base {
            let ty = self.table(&class).base.clone().expect("a base");
            let (c, a) = self.as_class(self.close(&ty, &targs, &[])).expect("a base class");
            class = c;
            targs = a;
        }
        (class, targs)
    }

    fn construct(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, this: &V, args: &[ArgV]) -> R<()> {
        let t = self.table(class);
        let picked = if t.ctors.is_empty() {
            if !args.is_empty() {
                return compile(format!("`{}` has no constructor taking {} arguments", name(class.name), args.len()));
            }
            None
        } else {
            match self.pick(class, targs, &t.ctors, None, args, &[])? {
                None => return compile(format!("no constructor of `{}` takes these arguments", name(class.name))),
                Some((m, values, _, _)) => Some((m, values)),
            }
        };
        let chain_args = |chain: &[Arg]| -> R<Vec<ArgV>> {
            let Some((m, values)) = &picked else { return Ok(vec![]) };
            let mut f = self.frame(V::Null, class.clone(), targs.clone());
            for (p, v) in m.params.iter().zip(values) {
                let ty = self.ty(&f, &p.ty)?;
                f.locals.push(Local { name: p.name, ty, value: LocalV::Own(v.clone()) });
            }
            self.eval_args(&mut f, chain)
        };
        let chain = picked.as_ref().and_then(|(m, _)| m.chain.as_ref());
        if let Some((true, chain)) = chain {
            let args = chain_args(chain)?;
            let me = picked.as_ref().map(|(m, _)| m.clone()).unwrap();
            let others: Vec<Rc<Method>> = t.ctors.iter().filter(|c| !Rc::ptr_eq(c, &me)).cloned().collect();
            match self.pick(class, targs, &others, None, &args, &[])? {
                None => return compile(format!("no constructor of `{}` takes these arguments", name(class.name))),
                Some(_) => self.enter(|| self.construct(class, targs, this, &args))?,
            }
        } else {
            // Initializers, those of the base, and what follows.
            let V::Obj(obj) = this else { unreachable!() };
            for (i, st) in t.instance.iter().enumerate() {
                if st.class != class.id {
                    continue;
                }
                if let Some(init) = st.init() {
                    let mut f = self.frame(V::Null, class.clone(), targs.clone());
                    let of = self.ty(&f, st.ty())?;
                    let v = self.eval_to(&mut f, init, of)?;
                    obj.fields.borrow_mut()[i] = v;
                }
            }
            let args = match chain {
                Some((_, chain)) => chain_args(chain)?,
                None => vec![],
            };
            match &t.base {
                Some(base @ Ty::Class(..)) => {
                    let (base, base_args) = self.as_class(self.close(base, targs, &[])).unwrap();
                    self.enter(|| self.construct(&base, &base_args, this, &args))?;
                }
                Some(base) => {
                    let base = self.close(base, targs, &[]);
                    self.construct_native(base, obj, &args)?;
                }
                None => (),
            }
        }
        if let Some((m, mut values)) = picked {
            self.invoke(class, targs, &m, this.clone(), &mut values, [].into())?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ names

    /// What a name is, if it is no local variable. Members of outer classes are looked for, too.
    fn name_res(&self, f: &Frame, n: Sym, targs: usize, cache: &std::cell::OnceCell<NameRes>) -> R<NameRes> {
        if let Some(res) = cache.get() {
            return Ok(res.clone());
        }
        let res = self.find_name(&f.class, &f.mtparams, n, targs).map_err(Err::Compile)?;
        let _ = cache.set(res.clone());
        Ok(res)
    }

    pub fn find_name(&self, class: &Rc<Class>, mtparams: &[Sym], n: Sym, arity: usize) -> Result<NameRes, String> {
        let mut at = Some(class.clone());
        while let Some(c) = at {
            let mut base = Some(c.clone());
            while let Some(b) = base {
                let t = self.table(&b);
                if t.members.contains_key(&n) {
                    return Ok(NameRes::Member(c.clone()));
                }
                base = match &t.base {
                    Some(Ty::Class(id, _)) => Some(self.class(*id)),
                    _ => None,
                };
            }
            // Parameters and nested types hide members further out.
            if arity == 0 && c.tparams.contains(&n) || c.nested.borrow().contains_key(&(n, arity)) {
                break;
            }
            at = c.outer.clone();
        }
        Ok(match self.lookup(class, mtparams, n, arity)? {
            Some((res, _)) => res,
            None => NameRes::None,
        })
    }

    /// If an expression is a type or namespace rather than a value, what it is.
    fn as_type(&self, f: &Frame, e: &Expr) -> R<Option<NameRes>> {
        match &e.kind {
            E::Name(n, targs, cache) => {
                if targs.is_empty() && f.locals.iter().any(|l| l.name == *n) {
                    return Ok(None);
                }
                match self.name_res(f, *n, targs.len(), cache)? {
                    NameRes::Member(_) => Ok(None),
                    NameRes::None => compile(format!("the name `{}` does not exist in the current context", name(*n))),
                    NameRes::Type(ty) => Ok(Some(NameRes::Type(self.with_targs(f, ty, targs)?))),
                    ns => Ok(Some(ns)),
                }
            }
            E::Type(t) => {
                let ty = self.resolve(t, &f.class, &f.mtparams).map_err(Err::Compile)?;
                Ok(Some(NameRes::Type(ty)))
            }
            E::Member(of, n, targs) => match self.as_type(f, of)? {
                Some(NameRes::Ns(ns)) => match self.find_in_ns(&ns, *n, targs.len()) {
                    Some(NameRes::Type(ty)) => Ok(Some(NameRes::Type(self.with_targs(f, ty, targs)?))),
                    Some(res) => Ok(Some(res)),
                    None => compile(format!("`{}` does not exist in the namespace `{}`", name(*n), ns)),
                },
                Some(NameRes::Type(Ty::Class(id, outer))) => {
                    let class = self.class(id);
                    let nested = class.nested.borrow().get(&(*n, targs.len())).copied();
                    match nested {
                        Some(id) => Ok(Some(NameRes::Type(self.with_targs(f, Ty::Class(id, outer), targs)?))),
                        None => Ok(None),
                    }
                }
                _ => Ok(None),
            },
            _ => Ok(None),
        }
    }

    fn with_targs(&self, f: &Frame, ty: Ty, targs: &[TyRef]) -> R<Ty> {
        if targs.is_empty() {
            return Ok(ty);
        }
        let mut own = Vec::new();
        for t in targs {
            own.push(self.resolve(t, &f.class, &f.mtparams).map_err(Err::Compile)?);
        }
        Ok(match ty {
            Ty::Class(id, outer) => Ty::Class(id, outer.iter().cloned().chain(own).collect()),
            Ty::Native(n, _) => Ty::Native(n, own.into()),
            ty => ty,
        })
    }

    pub fn find_in_ns(&self, ns: &str, n: Sym, arity: usize) -> Option<NameRes> {
        let fake = self.namespace_member(ns, n, arity)?;
        Some(fake)
    }

    /// A member of the class around a frame, or of one around that, with `this` if it is its own.
    fn own_member(&self, f: &Frame, class: &Rc<Class>, n: Sym) -> (V, Slot, Rc<Class>, Rc<[TypeId]>) {
        let own = class.id == f.class.id;
        let targs: Rc<[TypeId]> = if own { f.targs.clone() } else { f.targs[..class.tparams.len()].into() };
        let (slot, class, targs) = self.member(class, &targs, n).expect("a member");
        (if own { f.this.clone() } else { V::Null }, slot, class, targs)
    }

    pub fn read(&self, this: &V, slot: &Slot, class: &Rc<Class>, targs: &Rc<[TypeId]>) -> R<V> {
        match slot {
            Slot::Field(fd, i) => {
                if fd.is_static {
                    return Ok(self.statics(class, targs)?.values.borrow()[*i].clone());
                }
                match this {
                    V::Obj(o) => Ok(o.fields.borrow()[*i].clone()),
                    _ => compile(format!("an object is required for `{}`", name(fd.name))),
                }
            }
            Slot::Prop(p, storage) => {
                if let (Some(i), Some(Body::None)) = (storage, p.get.as_ref().map(|g| &g.body)) {
                    if p.is_static {
                        return Ok(self.statics(class, targs)?.values.borrow()[*i].clone());
                    }
                    if let V::Obj(o) = this {
                        return Ok(o.fields.borrow()[*i].clone());
                    }
                }
                let Some(get) = &p.get else { return compile(format!("`{}` has no getter", name(p.name))) };
                if !p.is_static && matches!(this, V::Null) {
                    return compile(format!("an object is required for `{}`", name(p.name)));
                }
                self.invoke(class, targs, get, this.clone(), &mut vec![], [].into())
            }
            Slot::Methods(ms) => Ok(V::Fun(Rc::new(Fun::Group {
                target: this.clone(),
                class: class.clone(),
                targs: targs.clone(),
                methods: ms.clone(),
                margs: vec![],
            }))),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn write(&self, f: &Frame, this: &V, slot: &Slot, class: &Rc<Class>, targs: &Rc<[TypeId]>, v: V, konst: impl Fn() -> bool) -> R<()> {
        let scope = self.frame(V::Null, class.clone(), targs.clone());
        let put = |is_static: bool, i: usize, v: V| -> R<()> {
            if is_static {
                self.statics(class, targs)?.values.borrow_mut()[i] = v;
                return Ok(());
            }
            match this {
                V::Obj(o) => {
                    o.fields.borrow_mut()[i] = v;
                    Ok(())
                }
                _ => compile("an object is required"),
            }
        };
        match slot {
            Slot::Field(fd, i) => {
                let ty = self.ty(&scope, &fd.ty)?;
                if fd.is_const {
                    return compile(format!("cannot assign to the constant `{}`", name(fd.name)));
                }
                let v = self.coerce(v, ty, konst)?;
                put(fd.is_static, *i, v)
            }
            Slot::Prop(p, storage) => {
                let ty = self.ty(&scope, &p.ty)?;
                let v = self.coerce(v, ty, konst)?;
                match (&p.set, storage) {
                    (Some(set), _) if !matches!(set.body, Body::None) => {
                        self.invoke(class, targs, set, this.clone(), &mut vec![v], [].into())?;
                        Ok(())
                    }
                    // One without a setter can be assigned by its own class only (by constructors, in fact).
                    (set, Some(i)) if set.is_some() || f.class.id == class.id => put(p.is_static, *i, v),
                    _ => compile(format!("`{}` cannot be assigned to", name(p.name))),
                }
            }
            Slot::Methods(_) => compile("cannot assign to a method"),
        }
    }

    // ------------------------------------------------------------ member access on values

    /// Members of any value: storage, properties, methods as delegates.
    fn get_member(&self, f: &Frame, of: &V, n: Sym) -> R<V> {
        let _ = f;
        match of {
            V::Null => match n {
                s::HasValue => Ok(V::Bool(false)),
                _ => self.null_ref(),
            },
            V::Obj(o) => {
                if let Some(class) = &o.class {
                    let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                    if let Some((slot, class, targs)) = self.member(class, &targs, n) {
                        return self.read(of, &slot, &class, &targs);
                    }
                }
                match self.native_get(of, n)? {
                    Some(v) => Ok(v),
                    None => compile(format!("`{}` has no member `{}`", self.short_name(o.ty), name(n))),
                }
            }
            V::Tuple(t) => {
                if let Some(i) = t.names.iter().position(|x| *x == Some(n)) {
                    return Ok(t.items[i].clone());
                }
                let text = name(n);
                match text.strip_prefix("Item").and_then(|i| i.parse::<usize>().ok()) {
                    Some(i) if i >= 1 && i <= t.items.len() => Ok(t.items[i - 1].clone()),
                    _ => compile(format!("no tuple item `{}`", text)),
                }
            }
            _ => match (n, of) {
                (s::HasValue, V::Int(..) | V::Enum(..) | V::Bool(_)) => Ok(V::Bool(true)),
                (s::Value, V::Int(..) | V::Enum(..) | V::Bool(_)) => Ok(of.clone()),
                _ => match self.native_get(of, n)? {
                    Some(v) => Ok(v),
                    None => compile(format!("`{}` has no member `{}`", self.short_name(self.type_of(of)), name(n))),
                },
            },
        }
    }

    /// The instance which a static member is accessed through `Name.` on, or the type, by the rule for
    /// names which stand for both.
    fn receiver(&self, f: &mut Frame, of: &Expr, n: Sym) -> R<Result<V, Ty>> {
        if let Some(res) = self.as_type(f, of)? {
            return match res {
                NameRes::Type(ty) => Ok(Err(ty)),
                _ => compile("a namespace is used like a value"),
            };
        }
        if let E::Name(x, targs, _) = &of.kind {
            if targs.is_empty() {
                // The name of a value may be that of its type, too.
                let local = f.locals.iter().rev().find(|l| l.name == *x).map(|l| l.ty);
                if let Some(NameRes::Type(ty)) = self.type_named(f, *x) {
                    let closed = self.close(&ty, &f.targs, &f.margs);
                    let of_value = match local {
                        Some(t) => Some(t),
                        None => match self.find_name(&f.class, &f.mtparams, *x, 0) {
                            Ok(NameRes::Member(c)) => {
                                let (_, slot, class, targs) = self.own_member(f, &c, *x);
                                let scope = self.frame(V::Null, class, targs);
                                match slot {
                                    Slot::Field(fd, _) => Some(self.ty(&scope, &fd.ty)?),
                                    Slot::Prop(p, _) => Some(self.ty(&scope, &p.ty)?),
                                    Slot::Methods(_) => None,
                                }
                            }
                            _ => None,
                        },
                    };
                    if of_value == Some(closed) && self.has_static(closed, n) {
                        return Ok(Err(ty));
                    }
                }
            }
        }
        Ok(Ok(self.eval(f, of)?))
    }

    /// The type of that name, if there is one in scope.
    fn type_named(&self, f: &Frame, n: Sym) -> Option<NameRes> {
        let find = || self.lookup(&f.class, &f.mtparams, n, 0).ok().flatten().map(|(res, _)| res);
        if !f.mtparams.is_empty() {
            return find();
        }
        let key = (f.class.id, n);
        if let Some(found) = self.looked.borrow().get(&key) {
            return found.clone();
        }
        let found = find();
        self.looked.borrow_mut().insert(key, found.clone());
        found
    }

    fn has_static(&self, ty: TypeId, n: Sym) -> bool {
        match self.as_class(ty) {
            Some((class, targs)) => match self.member(&class, &targs, n) {
                Some((Slot::Field(fd, _), ..)) => fd.is_static,
                Some((Slot::Prop(p, _), ..)) => p.is_static,
                Some((Slot::Methods(ms), ..)) => ms.iter().any(|m| m.is_static),
                None => class.nested.borrow().keys().any(|(x, _)| *x == n),
            },
            None => self.native_has_static(ty, n),
        }
    }

    fn eval_member(&self, f: &mut Frame, of: &Expr, n: Sym) -> R<V> {
        match &of.kind {
            E::This => {
                if let V::Obj(o) = &f.this {
                    if let Some(class) = &o.class {
                        // Most accesses are to own members.
                        if class.id == f.class.id {
                            if let Some(slot) = self.table(class).members.get(&n) {
                                let slot = slot.clone();
                                let class = class.clone();
                                return self.read(&f.this, &slot, &class, &f.targs);
                            }
                        }
                    }
                }
                let this = f.this.clone();
                return self.get_member(f, &this, n);
            }
            E::Base => {
                let this = f.this.clone();
                if let Some(Ty::Class(id, args)) = &self.table(&f.class).base {
                    let ty = self.close(&Ty::Class(*id, args.clone()), &f.targs, &[]);
                    let (base, args) = self.as_class(ty).unwrap();
                    if let Some((slot, class, targs)) = self.member(&base, &args, n) {
                        return self.read(&this, &slot, &class, &targs);
                    }
                }
                return match self.native_get(&this, n)? {
                    Some(v) => Ok(v),
                    None => compile(format!("no member `{}`", name(n))),
                };
            }
            _ => (),
        }
        match self.receiver(f, of, n)? {
            Ok(v) => self.get_member(f, &v, n),
            Err(ty) => {
                let ty = self.close(&ty, &f.targs, &f.margs);
                match self.as_class(ty) {
                    Some((class, targs)) => match self.member(&class, &targs, n) {
                        Some((slot, class, targs)) => {
                            let is_static = match &slot {
                                Slot::Field(fd, _) => fd.is_static,
                                Slot::Prop(p, _) => p.is_static,
                                Slot::Methods(_) => true,
                            };
                            if !is_static {
                                return compile(format!("an object is required for `{}`", name(n)));
                            }
                            self.read(&V::Null, &slot, &class, &targs)
                        }
                        None => compile(format!("`{}` has no member `{}`", self.short_name(ty), name(n))),
                    },
                    None => self.native_static_get(ty, n),
                }
            }
        }
    }

    // ------------------------------------------------------------ calls

    fn eval_call(&self, f: &mut Frame, callee: &Expr, args: &[Arg]) -> R<V> {
        let mut out = Vec::new();
        let v = match &callee.kind {
            E::Name(n, targs, cache) => {
                if targs.is_empty() {
                    if let Some(i) = f.locals.iter().rposition(|l| l.name == *n) {
                        let v = self.local(f, i);
                        let args = self.eval_args(f, args)?;
                        return self.call_value(&v, args);
                    }
                }
                let res = match cache.get() {
                    Some(res) => res.clone(),
                    None => {
                        let res = self.find_name(&f.class, &f.mtparams, *n, 0).map_err(Err::Compile)?;
                        let _ = cache.set(res.clone());
                        res
                    }
                };
                let NameRes::Member(class) = res else {
                    // Inherited from a native base.
                    let this = f.this.clone();
                    let args = self.eval_args(f, args)?;
                    if !matches!(this, V::Null) {
                        if let Some(v) = self.native_call(&this, *n, &args, &mut out)? {
                            return Ok(v);
                        }
                    }
                    return compile(format!("the name `{}` does not exist in the current context", name(*n)));
                };
                let given = self.given(f, targs)?;
                let args_v = self.eval_args(f, args)?;
                let (this, slot, class, ctargs) = self.own_member(f, &class, *n);
                match &slot {
                    Slot::Methods(ms) => self.dispatch(&this, &class, &ctargs, ms, *n, &args_v, &given, &mut out)?,
                    _ => {
                        let v = self.read(&this, &slot, &class, &ctargs)?;
                        self.call_value(&v, args_v)?
                    }
                }
            }
            E::Member(of, n, targs) => {
                if matches!(of.kind, E::Base) {
                    let given = self.given(f, targs)?;
                    let args_v = self.eval_args(f, args)?;
                    let this = f.this.clone();
                    let base = self.table(&f.class).base.clone();
                    let mut done = None;
                    if let Some(base @ Ty::Class(..)) = base {
                        let (base, bargs) = self.as_class(self.close(&base, &f.targs, &[])).unwrap();
                        if let Some((Slot::Methods(ms), class, ctargs)) = self.member(&base, &bargs, *n) {
                            done = self.call_group(&class, &ctargs, &ms, &this, &args_v, &given, &mut out)?;
                        }
                    }
                    match done {
                        Some(v) => v,
                        None => match self.native_call(&this, *n, &args_v, &mut out)? {
                            Some(v) => v,
                            None => return compile(format!("no base method `{}`", name(*n))),
                        },
                    }
                } else {
                    let recv = if matches!(of.kind, E::This) { Ok(f.this.clone()) } else { self.receiver(f, of, *n)? };
                    let given = self.given(f, targs)?;
                    let hint = self.static_hint(f, of);
                    let args_v = self.eval_args(f, args)?;
                    match recv {
                        Ok(v) => self.call_on(f, &v, hint, *n, &args_v, &given, &mut out)?,
                        Err(ty) => self.call_static(f, &ty, *n, &args_v, &given, &mut out)?,
                    }
                }
            }
            _ => {
                let v = self.eval(f, callee)?;
                let args = self.eval_args(f, args)?;
                return self.call_value(&v, args);
            }
        };
        for (a, v) in out {
            match &args[a].expr.kind {
                E::Decl(_, n) => {
                    let i = f.locals.iter().rposition(|l| l.name == *n).unwrap();
                    self.set_local(f, i, v);
                }
                E::Name(n, _, _) if &*name(*n) == "_" => (),
                _ => {
                    self.assign_to(f, &args[a].expr, v, || false)?;
                }
            }
        }
        Ok(v)
    }

    fn call_value(&self, v: &V, args: Vec<ArgV>) -> R<V> {
        match v {
            V::Fun(fun) => self.call_fun(fun, args.into_iter().map(|a| a.v).collect()),
            V::Null => self.null_ref(),
            _ => compile("something is called which is no method"),
        }
    }

    /// The declared type of an expression, where it can be told easily.
    fn static_hint(&self, f: &Frame, e: &Expr) -> Option<TypeId> {
        match &e.kind {
            E::Name(n, _, cache) => {
                if let Some(l) = f.locals.iter().rev().find(|l| l.name == *n) {
                    return (l.ty != OBJECT).then_some(l.ty);
                }
                match cache.get() {
                    Some(NameRes::Member(c)) => {
                        let (_, slot, class, targs) = self.own_member(f, c, *n);
                        self.slot_type(&slot, class, targs)
                    }
                    _ => None,
                }
            }
            E::Member(of, n, _) => {
                let of = match &of.kind {
                    E::This => self.type_of(&f.this),
                    _ => self.static_hint(f, of)?,
                };
                let (class, targs) = self.as_class(of)?;
                let (slot, class, targs) = self.member(&class, &targs, *n)?;
                self.slot_type(&slot, class, targs)
            }
            E::As(_, t) | E::Cast(t, _) => self.ty(f, t).ok(),
            _ => None,
        }
    }

    fn slot_type(&self, slot: &Slot, class: Rc<Class>, targs: Rc<[TypeId]>) -> Option<TypeId> {
        let scope = self.frame(V::Null, class, targs);
        match slot {
            Slot::Field(fd, _) => self.ty(&scope, &fd.ty).ok(),
            Slot::Prop(p, _) => self.ty(&scope, &p.ty).ok(),
            Slot::Methods(_) => None,
        }
    }

    /// Calls a method of the class of a frame or one around it: overriding ones are preferred.
    #[allow(clippy::too_many_arguments)]
    fn dispatch(
        &self, this: &V, class: &Rc<Class>, targs: &Rc<[TypeId]>, ms: &[Rc<Method>], n: Sym, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>,
    ) -> R<V> {
        if let V::Obj(o) = this {
            if let Some(own) = &o.class {
                if own.id != class.id && ms.iter().all(|m| !m.is_static) {
                    let Rt::Class(_, own_args) = self.rt(o.ty) else { unreachable!() };
                    if let Some((Slot::Methods(over), oc, oargs)) = self.member(own, &own_args, n) {
                        if let Some(v) = self.call_group(&oc, &oargs, &over, this, args, given, out)? {
                            return Ok(v);
                        }
                    }
                }
            }
        }
        match self.call_group(class, targs, ms, this, args, given, out)? {
            Some(v) => Ok(v),
            None => self.no_overload(n, args),
        }
    }

    fn no_overload<T>(&self, n: Sym, args: &[ArgV]) -> R<T> {
        let tys: Vec<String> = args.iter().map(|a| self.short_name(self.type_of(&a.v))).collect();
        compile(format!("no overload of `{}` takes ({})", name(n), tys.join(", ")))
    }

    #[allow(clippy::too_many_arguments)]
    fn call_on(&self, f: &Frame, this: &V, hint: Option<TypeId>, n: Sym, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>) -> R<V> {
        if matches!(this, V::Null) {
            // Only extension methods can be called on nothing.
            let own = match hint.and_then(|t| self.as_class(t)) {
                Some((class, targs)) => matches!(self.member(&class, &targs, n), Some((Slot::Methods(ms), ..))
                    if ms.iter().any(|m| Self::assign(m, 0, args).is_some() && self.pick(&class, &targs, std::slice::from_ref(m), None, args, given).is_ok_and(|p| p.is_some()))),
                None => {
                    if matches!(n, s::GetValueOrDefault | s::Equals | s::ToString) {
                        return unsupported("method of a nullable");
                    }
                    let classes = self.classes.borrow();
                    classes.iter().any(|c| !c.is_static && matches!(c.table.get().and_then(|t| t.members.get(&n)), Some(Slot::Methods(_))))
                }
            };
            if !own {
                if let Some(v) = self.call_extension(f, this, n, args, given, out)? {
                    return Ok(v);
                }
            }
            return self.null_ref();
        }
        if let V::Fun(fun) = this {
            if n == s::Invoke || n == s::DynamicInvoke {
                return self.call_fun(fun, args.iter().map(|a| a.v.clone()).collect());
            }
        }
        if let V::Obj(o) = this {
            if let Some(class) = &o.class {
                let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                let mut at = Some((class.clone(), targs));
                while let Some((class, targs)) = at {
                    match self.member(&class, &targs, n) {
                        Some((Slot::Methods(ms), class, targs)) => {
                            if let Some(v) = self.call_group(&class, &targs, &ms, this, args, given, out)? {
                                return Ok(v);
                            }
                            at = match &self.table(&class).base {
                                Some(base @ Ty::Class(..)) => self.as_class(self.close(base, &targs, &[])),
                                _ => None,
                            };
                        }
                        Some((slot, class, targs)) => {
                            let v = self.read(this, &slot, &class, &targs)?;
                            return self.call_value(&v, args.iter().map(|a| ArgV::plain(a.v.clone())).collect());
                        }
                        None => at = None,
                    }
                }
            }
        }
        if let Some(v) = self.native_call(this, n, args, out)? {
            return Ok(v);
        }
        if let Some(v) = self.call_extension(f, this, n, args, given, out)? {
            return Ok(v);
        }
        if f.class.usings.iter().any(|u| &**u == "System.Linq") {
            if let Some(v) = self.linq(this, n, args, given)? {
                return Ok(v);
            }
        }
        let tys: Vec<String> = args.iter().map(|a| self.short_name(self.type_of(&a.v))).collect();
        if !matches!(this, V::Obj(o) if o.class.is_some()) && self.native_knows(n) {
            return unsupported(format!("`{}.{}({})`", self.short_name(self.type_of(this)), name(n), tys.join(", ")));
        }
        compile(format!("`{}` has no method `{}({})`", self.short_name(self.type_of(this)), name(n), tys.join(", ")))
    }

    fn call_static(&self, f: &Frame, ty: &Ty, n: Sym, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>) -> R<V> {
        let ty = self.close(ty, &f.targs, &f.margs);
        match self.as_class(ty) {
            Some((class, targs)) => {
                // An own instance method can be called by a qualified name by none but statics.
                match self.member(&class, &targs, n) {
                    Some((Slot::Methods(ms), class, targs)) => {
                        let statics: Vec<Rc<Method>> = ms.iter().filter(|m| m.is_static).cloned().collect();
                        if statics.is_empty() {
                            return compile(format!("an object is required for `{}`", name(n)));
                        }
                        match self.call_group(&class, &targs, &statics, &V::Null, args, given, out)? {
                            Some(v) => Ok(v),
                            None => self.no_overload(n, args),
                        }
                    }
                    Some((slot, class, targs)) => {
                        let v = self.read(&V::Null, &slot, &class, &targs)?;
                        self.call_value(&v, args.iter().map(|a| ArgV::plain(a.v.clone())).collect())
                    }
                    None => {
                        if matches!(n, s::ReferenceEquals | s::Equals) {
                            return self.native_static(OBJECT, n, args, given, out);
                        }
                        compile(format!("`{}` has no member `{}`", self.short_name(ty), name(n)))
                    }
                }
            }
            None => self.native_static(ty, n, args, given, out),
        }
    }

    // ------------------------------------------------------------ expressions

    fn local(&self, f: &Frame, i: usize) -> V {
        match &f.locals[i].value {
            LocalV::Own(v) => v.clone(),
            LocalV::Shared(v) => v.borrow().clone(),
        }
    }

    fn set_local(&self, f: &mut Frame, i: usize, v: V) {
        match &mut f.locals[i].value {
            LocalV::Own(x) => *x = v,
            LocalV::Shared(x) => *x.borrow_mut() = v,
        }
    }

    /// Evaluates to a value of a type.
    pub fn eval_to(&self, f: &mut Frame, e: &Expr, ty: TypeId) -> R<V> {
        if let E::NewArray(None, None, Some(items)) = &e.kind {
            if let Rt::Array(item) = self.rt(ty) {
                return self.new_array(f, item, items);
            }
        }
        if let (E::Tuple(items), Rt::Tuple(tys, names)) = (&e.kind, self.rt(ty)) {
            if items.len() == tys.len() {
                let mut out = Vec::new();
                for ((_, e), ty) in items.iter().zip(tys.iter()) {
                    out.push(self.eval_to(f, e, *ty)?);
                }
                return Ok(V::Tuple(Rc::new(Tup { names, items: out })));
            }
        }
        let v = self.eval(f, e)?;
        match v {
            V::Int(k, _) if prim(k) == ty => Ok(v),
            v => self.coerce(v, ty, || self.is_const(f, e)),
        }
    }

    fn new_array(&self, f: &mut Frame, item: TypeId, items: &[Expr]) -> R<V> {
        let mut out = Vec::new();
        for e in items {
            out.push(self.eval_to(f, e, item)?);
        }
        Ok(V::Arr(Rc::new(Arr { item, items: RefCell::new(out) })))
    }

    fn truth(&self, f: &mut Frame, e: &Expr) -> R<bool> {
        match self.eval(f, e)? {
            V::Bool(b) => Ok(b),
            v => compile(format!("cannot convert `{}` to `bool`", self.short_name(self.type_of(&v)))),
        }
    }

    pub fn eval(&self, f: &mut Frame, e: &Expr) -> R<V> {
        self.spend()?;
        match &e.kind {
            E::Lit(lit) => Ok(match lit {
                Lit::Null => V::Null,
                Lit::Bool(b) => V::Bool(*b),
                Lit::Str(x) => V::Str(x.clone()),
                Lit::Char(c) => V::Int(K::Char, *c as i64),
                Lit::Int(n, suffix) => {
                    let k = match *suffix {
                        "" if *n <= i32::MAX as u64 => K::I32,
                        "" | "U" if *n <= u32::MAX as u64 => K::U32,
                        "" | "L" if *n <= i64::MAX as u64 => K::I64,
                        _ => K::U64,
                    };
                    V::Int(k, *n as i64)
                }
            }),
            E::Name(n, targs, cache) => {
                if targs.is_empty() {
                    if let Some(i) = f.locals.iter().rposition(|l| l.name == *n) {
                        return Ok(self.local(f, i));
                    }
                }
                match self.name_res(f, *n, targs.len(), cache)? {
                    NameRes::Member(class) => {
                        let (this, slot, class, ctargs) = self.own_member(f, &class, *n);
                        self.read(&this, &slot, &class, &ctargs)
                    }
                    NameRes::None => {
                        // Of a native base.
                        let this = f.this.clone();
                        if let V::Obj(o) = &this {
                            if o.class.as_ref().is_some_and(|c| {
                                let Rt::Class(_, a) = self.rt(o.ty) else { unreachable!() };
                                self.native_base(c, &a).is_some()
                            }) {
                                if let Some(v) = self.native_get(&this, *n)? {
                                    return Ok(v);
                                }
                            }
                        }
                        compile(format!("the name `{}` does not exist in the current context", name(*n)))
                    }
                    _ => compile(format!("`{}` is a type or namespace but is used like a value", name(*n))),
                }
            }
            E::This => match &f.this {
                V::Null => compile("`this` in a static member"),
                this => Ok(this.clone()),
            },
            E::Base => compile("`base` alone"),
            E::Member(of, n, targs) => {
                if !targs.is_empty() {
                    let given = self.given(f, targs)?;
                    return match self.eval_member(f, of, *n)? {
                        V::Fun(fun) => match &*fun {
                            Fun::Group { target, class, targs, methods, .. } => Ok(V::Fun(Rc::new(Fun::Group {
                                target: target.clone(),
                                class: class.clone(),
                                targs: targs.clone(),
                                methods: methods.clone(),
                                margs: given,
                            }))),
                            _ => compile("type arguments"),
                        },
                        _ => compile("type arguments"),
                    };
                }
                self.eval_member(f, of, *n)
            }
            E::Cond(of, rest) => {
                let v = self.eval(f, of)?;
                if matches!(v, V::Null) {
                    return Ok(V::Null);
                }
                f.hole.push(v);
                let out = self.eval(f, rest);
                f.hole.pop();
                out
            }
            E::Hole => Ok(f.hole.last().expect("a hole").clone()),
            E::Call(callee, args) => self.eval_call(f, callee, args),
            E::Index(of, args) => {
                let v = if matches!(of.kind, E::Base) { f.this.clone() } else { self.eval(f, of)? };
                let args = self.eval_args(f, args)?;
                self.get_index(&v, args)
            }
            E::New(ty, args, inits) => {
                let ty = self.ty(f, ty)?;
                let args = self.eval_args(f, args)?;
                let obj = self.new_object(ty, &args)?;
                for init in inits {
                    match init {
                        Init::Set(n, e) => {
                            let v = self.eval(f, e)?;
                            let konst = self.is_const(f, e);
                            self.set_member(f, &obj, *n, v, || konst)?;
                        }
                        Init::Add(items) => {
                            let mut args = Vec::new();
                            for e in items {
                                let v = self.eval(f, e)?;
                                let konst = self.is_const(f, e);
                                args.push(ArgV { name: None, v, konst, by_ref: false, hint: None });
                            }
                            self.call_on(f, &obj, None, s::Add, &args, &[], &mut vec![])?;
                        }
                        Init::At(k, e) => {
                            let key = self.eval(f, k)?;
                            let konst = self.is_const(f, k);
                            let v = self.eval(f, e)?;
                            self.set_index(&obj, vec![ArgV { name: None, v: key, konst, by_ref: false, hint: None }], v, self.is_const(f, e))?;
                        }
                    }
                }
                Ok(obj)
            }
            E::NewArray(item, size, items) => {
                let item_ty = match item {
                    Some(t) => self.ty(f, t)?,
                    None => {
                        let Some(items) = items else { return compile("array") };
                        let mut values = Vec::new();
                        for e in items {
                            values.push(self.eval(f, e)?);
                        }
                        let item = values.first().map_or(OBJECT, |v| self.type_of(v));
                        return Ok(V::Arr(Rc::new(Arr { item, items: RefCell::new(values) })));
                    }
                };
                if let Some(items) = items {
                    return self.new_array(f, item_ty, items);
                }
                let n = match self.eval(f, size.as_ref().unwrap())? {
                    V::Int(_, n) => n,
                    _ => return compile("size of an array"),
                };
                if n < 0 {
                    return self.throw("OverflowException", "");
                }
                if n > 1 << 24 {
                    return Err(Err::Budget);
                }
                let zero = self.default_of(item_ty);
                Ok(V::Arr(Rc::new(Arr { item: item_ty, items: RefCell::new(vec![zero; n as usize]) })))
            }
            E::Unary(op, e) => {
                let v = self.eval(f, e)?;
                match (*op, v) {
                    ("!", V::Bool(b)) => Ok(V::Bool(!b)),
                    ("!", V::Null) | ("-", V::Null) | ("~", V::Null) => Ok(V::Null),
                    ("~", V::Enum(t, n)) => Ok(V::Enum(t, !n)),
                    (op, V::Int(k, n)) if op != "!" => {
                        let k = match k {
                            K::Byte | K::SByte | K::I16 | K::U16 | K::Char => K::I32,
                            K::U32 if op == "-" => K::I64,
                            // The smallest numbers are written by negating what is no number of the type.
                            K::U64 if op == "-" && matches!(e.kind, E::Lit(_)) && n == i64::MIN => K::I64,
                            K::U64 if op == "-" => return compile("`-` cannot be applied to `ulong`"),
                            k => k,
                        };
                        let k = if op == "-" && matches!(e.kind, E::Lit(_)) && k == K::I64 && n == 1 << 31 { K::I32 } else { k };
                        Ok(V::Int(k, wrap_int(k, match op {
                            "-" => n.wrapping_neg(),
                            "~" => !n,
                            _ => n,
                        })))
                    }
                    (op, v) => compile(format!("`{}` cannot be applied to `{}`", op, self.short_name(self.type_of(&v)))),
                }
            }
            E::Step(e, up, first) => {
                let old = self.eval(f, e)?;
                let V::Int(k, n) = old else { return compile("`++` or `--` of no number") };
                let new = V::Int(k, wrap_int(k, if *up { n.wrapping_add(1) } else { n.wrapping_sub(1) }));
                self.assign_to(f, e, new.clone(), || false)?;
                Ok(if *first { new } else { V::Int(k, n) })
            }
            E::Binary(op, a, b) => self.eval_binary(f, op, a, b),
            E::Assign(op, a, b) => {
                if *op == "=" {
                    if matches!(&a.kind, E::Name(n, _, _) if &*name(*n) == "_" && !f.locals.iter().any(|l| l.name == *n)) {
                        return self.eval(f, b);
                    }
                    if let E::Tuple(_) = a.kind {
                        let v = self.eval(f, b)?;
                        self.deconstruct(f, a, v.clone())?;
                        return Ok(v);
                    }
                    let v = if let (E::NewArray(None, None, Some(_)) | E::Tuple(_), Some(ty)) = (&b.kind, self.static_hint(f, a)) {
                        self.eval_to(f, b, ty)?
                    } else {
                        self.eval(f, b)?
                    };
                    let konst = matches!(v, V::Int(..)) && self.is_const(f, b);
                    return self.assign_to(f, a, v, || konst);
                }
                let old = self.eval(f, a)?;
                if *op == "??=" {
                    if !matches!(old, V::Null) {
                        return Ok(old);
                    }
                    let v = self.eval(f, b)?;
                    return self.assign_to(f, a, v, || false);
                }
                let right = self.eval(f, b)?;
                let op = &op[..op.len() - 1];
                // Events and delegates
                if matches!((op, &right), ("+" | "-", V::Fun(_))) || matches!((op, &old), ("+" | "-", V::Fun(_))) {
                    let new = self.combine(op == "+", &old, &right);
                    return self.assign_to(f, a, new, || false);
                }
                let konst = self.is_const(f, b);
                let v = self.arith(op, &old, &right, false, konst)?;
                let v = match (&old, v) {
                    (V::Int(k, _), V::Int(_, n)) => V::Int(*k, wrap_int(*k, n)),
                    (_, v) => v,
                };
                self.assign_to(f, a, v, || true)
            }
            E::Ternary(c, a, b) => {
                let which = self.truth(f, c)?;
                let (v, other) = if which { (self.eval(f, a)?, b) } else { (self.eval(f, b)?, a) };
                // Both have one type: that of a number which is wider.
                if let V::Int(k, n) = &v {
                    if let Some(o) = self.static_hint(f, other) {
                        if let Rt::Prim(o) = self.rt(o) {
                            if o != *k && widens(*k, o) {
                                return Ok(V::Int(o, *n));
                            }
                        }
                    }
                }
                Ok(v)
            }
            E::Cast(t, e) => {
                let ty = self.ty(f, t)?;
                let unbox = matches!(t.cache.get(), Some(Ty::Param(_) | Ty::MParam(_)));
                let v = match &e.kind {
                    E::Lambda(_) => return self.eval(f, e),
                    _ => self.eval(f, e)?,
                };
                self.cast(v, ty, unbox)
            }
            E::As(e, t) => {
                let ty = self.ty(f, t)?;
                let v = self.eval(f, e)?;
                Ok(if self.instance_of(&v, ty) { v } else { V::Null })
            }
            E::Is(e, p) => {
                let v = self.eval(f, e)?;
                Ok(V::Bool(self.matches(f, &v, p)?))
            }
            E::SwitchOn(e, arms) => {
                let v = self.eval(f, e)?;
                let locals = f.locals.len();
                for (p, when, e) in arms {
                    if self.matches(f, &v, p)? {
                        let ok = match when {
                            Some(w) => self.truth(f, w)?,
                            None => true,
                        };
                        if ok {
                            let out = self.eval(f, e);
                            f.locals.truncate(locals);
                            return out;
                        }
                    }
                    f.locals.truncate(locals);
                }
                self.throw("InvalidOperationException", "no arm matches")
            }
            E::Typeof(t) => Ok(V::Type(self.ty(f, t)?)),
            E::Default(None) => Ok(V::Default),
            E::Default(Some(t)) => {
                let ty = self.ty(f, t)?;
                Ok(self.default_of(ty))
            }
            E::Nameof(text) => Ok(V::Str(text.clone())),
            E::Lambda(l) => {
                let captured = self.capture(f);
                Ok(V::Fun(Rc::new(Fun::Lambda(l.clone(), captured))))
            }
            E::Tuple(items) => {
                let mut out = Vec::new();
                let mut names = Vec::new();
                for (n, e) in items {
                    names.push(n.or(match &e.kind {
                        E::Name(n, _, _) | E::Member(_, n, _) => Some(*n),
                        _ => None,
                    }));
                    out.push(self.eval(f, e)?);
                }
                Ok(V::Tuple(Rc::new(Tup { names: names.into(), items: out })))
            }
            E::Throw(e) => {
                let v = self.eval(f, e)?;
                if matches!(v, V::Null) {
                    return self.null_ref();
                }
                Err(Err::Throw(v))
            }
            E::Type(_) => compile("a type is used like a value"),
            E::Interp(parts) => {
                let mut out = String::new();
                for (text, e) in parts {
                    out.push_str(text);
                    if let Some(e) = e {
                        let v = self.eval(f, e)?;
                        out.push_str(&self.text(&v)?);
                    }
                }
                Ok(V::Str((*out).into()))
            }
            E::Decl(..) => compile("declaration in an expression"),
        }
    }

    fn combine(&self, add: bool, a: &V, b: &V) -> V {
        let mut list: Vec<Rc<Fun>> = match a {
            V::Fun(fun) => match &**fun {
                Fun::Many(all) => all.clone(),
                _ => vec![fun.clone()],
            },
            _ => vec![],
        };
        if let V::Fun(b) = b {
            if add {
                list.push(b.clone());
            } else if let Some(i) = list.iter().rposition(|x| Rc::ptr_eq(x, b)) {
                list.remove(i);
            }
        }
        match list.len() {
            0 => V::Null,
            1 => V::Fun(list.pop().unwrap()),
            _ => V::Fun(Rc::new(Fun::Many(list))),
        }
    }

    fn eval_binary(&self, f: &mut Frame, op: &str, a: &Expr, b: &Expr) -> R<V> {
        match op {
            "&&" => return Ok(V::Bool(self.truth(f, a)? && self.truth(f, b)?)),
            "||" => return Ok(V::Bool(self.truth(f, a)? || self.truth(f, b)?)),
            "??" => {
                let v = self.eval(f, a)?;
                if matches!(v, V::Null) {
                    return self.eval(f, b);
                }
                return Ok(v);
            }
            _ => (),
        }
        let x = self.eval(f, a)?;
        let y = self.eval(f, b)?;
        match (&x, &y) {
            (V::Int(j, _), V::Int(k, _)) if j != k => {
                let (ca, cb) = (self.is_const(f, a), self.is_const(f, b));
                self.arith(op, &x, &y, ca, cb)
            }
            _ => self.arith(op, &x, &y, false, false),
        }
    }

    pub fn arith(&self, op: &str, a: &V, b: &V, ca: bool, cb: bool) -> R<V> {
        match op {
            "==" => {
                if let (V::Int(j, _), V::Int(k, _)) = (a, b) {
                    if j != k {
                        self.promote(op, a, b, ca, cb)?;
                    }
                }
                return Ok(V::Bool(self.same(a, b)));
            }
            "!=" => return Ok(V::Bool(!self.same(a, b))),
            _ => (),
        }
        match (a, b) {
            (V::Str(_), _) | (_, V::Str(_)) if op == "+" => {
                let text = format!("{}{}", self.text(a)?, self.text(b)?);
                Ok(V::Str((*text).into()))
            }
            (V::Bool(x), V::Bool(y)) => Ok(V::Bool(match op {
                "&" => x & y,
                "|" => x | y,
                "^" => x ^ y,
                _ => return compile(format!("`{}` cannot be applied to `bool`", op)),
            })),
            (V::Enum(t, x), V::Enum(u, y)) if t == u => match op {
                "&" => Ok(V::Enum(*t, x & y)),
                "|" => Ok(V::Enum(*t, x | y)),
                "^" => Ok(V::Enum(*t, x ^ y)),
                "-" => Ok(V::Int(K::I32, x - y)),
                _ => Ok(V::Bool(match op {
                    "<" => x < y,
                    ">" => x > y,
                    "<=" => x <= y,
                    ">=" => x >= y,
                    _ => return compile(format!("`{}` cannot be applied to enums", op)),
                })),
            },
            (V::Enum(t, x), V::Int(_, y)) if op == "+" || op == "-" => Ok(V::Enum(*t, if op == "+" { x + y } else { x - y })),
            (V::Null, V::Int(..) | V::Null) | (V::Int(..), V::Null) => Ok(match op {
                "<" | ">" | "<=" | ">=" => V::Bool(false),
                _ => V::Null,
            }),
            (V::Int(..), V::Int(..)) => self.promote(op, a, b, ca, cb),
            _ => compile(format!(
                "`{}` cannot be applied to `{}` and `{}`",
                op,
                self.short_name(self.type_of(a)),
                self.short_name(self.type_of(b))
            )),
        }
    }

    fn promote(&self, op: &str, a: &V, b: &V, ca: bool, cb: bool) -> R<V> {
        let (V::Int(j, x), V::Int(k, y)) = (a, b) else { unreachable!() };
        let (j, k, x, y) = (*j, *k, *x, *y);
        if op == "<<" || op == ">>" {
            let to = match j {
                K::U32 | K::I64 | K::U64 => j,
                _ => K::I32,
            };
            if matches!(k, K::U32 | K::I64 | K::U64) && !(cb && fits(k, y, K::I32)) {
                return compile("the number of bits to shift by must be an `int`");
            }
            let bits = if matches!(to, K::I64 | K::U64) { 63 } else { 31 };
            let n = (y & bits) as u32;
            let v = match (op, to) {
                ("<<", _) => x.wrapping_shl(n),
                (_, K::U64) => ((x as u64) >> n) as i64,
                _ => x >> n,
            };
            return Ok(V::Int(to, wrap_int(to, v)));
        }
        let to = if j == K::U64 || k == K::U64 {
            let (other, v, c) = if j == K::U64 { (k, y, cb) } else { (j, x, ca) };
            if is_signed(other) && !(c && v >= 0) {
                return compile(format!("`{}` is ambiguous on `ulong` and a signed number", op));
            }
            K::U64
        } else if j == K::I64 || k == K::I64 {
            K::I64
        } else if j == K::U32 || k == K::U32 {
            let (other, v, c) = if j == K::U32 { (k, y, cb) } else { (j, x, ca) };
            if is_signed(other) && !(c && v >= 0) {
                K::I64
            } else {
                K::U32
            }
        } else {
            K::I32
        };
        let unsigned = to == K::U64;
        let v = match op {
            "+" => x.wrapping_add(y),
            "-" => x.wrapping_sub(y),
            "*" => x.wrapping_mul(y),
            "/" | "%" => {
                if y == 0 {
                    return self.throw("DivideByZeroException", "");
                }
                match (op, unsigned) {
                    ("/", true) => ((x as u64) / (y as u64)) as i64,
                    ("%", true) => ((x as u64) % (y as u64)) as i64,
                    ("/", _) => x.wrapping_div(y),
                    _ => x.wrapping_rem(y),
                }
            }
            "&" => x & y,
            "|" => x | y,
            "^" => x ^ y,
            _ => {
                let order = if unsigned { (x as u64).cmp(&(y as u64)) } else { x.cmp(&y) };
                return Ok(V::Bool(match op {
                    "<" => order.is_lt(),
                    ">" => order.is_gt(),
                    "<=" => order.is_le(),
                    ">=" => order.is_ge(),
                    "==" => order.is_eq(),
                    _ => return compile(format!("operator `{}`", op)),
                }));
            }
        };
        Ok(V::Int(to, wrap_int(to, v)))
    }

    fn matches(&self, f: &mut Frame, v: &V, p: &Pattern) -> R<bool> {
        Ok(match p {
            Pattern::Const(e) => {
                let c = self.eval(f, e)?;
                self.same(v, &c)
            }
            Pattern::Either(e, t) => {
                let is_type = match &e.kind {
                    E::Name(n, _, _) => {
                        !f.locals.iter().any(|l| l.name == *n)
                            && matches!(self.find_name(&f.class, &f.mtparams, *n, 0).map_err(Err::Compile)?, NameRes::Type(_))
                    }
                    _ => matches!(self.as_type(f, e), Ok(Some(NameRes::Type(_)))),
                };
                if is_type {
                    let ty = self.ty(f, t)?;
                    self.instance_of(v, ty)
                } else {
                    let c = self.eval(f, e)?;
                    self.same(v, &c)
                }
            }
            Pattern::Type(t, n) => {
                let ty = self.ty(f, t)?;
                let is = self.instance_of(v, ty);
                if let Some(n) = n {
                    f.locals.push(Local { name: *n, ty, value: LocalV::Own(if is { v.clone() } else { V::Default }) });
                }
                is
            }
            Pattern::Var(n) => {
                f.locals.push(Local { name: *n, ty: OBJECT, value: LocalV::Own(v.clone()) });
                true
            }
            Pattern::Any => true,
            Pattern::Not(p) => !self.matches(f, v, p)?,
        })
    }

    pub fn get_index(&self, v: &V, args: Vec<ArgV>) -> R<V> {
        if let V::Obj(o) = v {
            if let Some(class) = &o.class {
                let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                let t = self.table(class);
                let gets: Vec<Rc<Method>> = t.indexers.iter().filter_map(|p| p.get.clone()).collect();
                if !gets.is_empty() {
                    return match self.call_group(class, &targs, &gets, v, &args, &[], &mut vec![])? {
                        Some(v) => Ok(v),
                        None => self.no_overload(s::Item, &args),
                    };
                }
            }
        }
        if matches!(v, V::Null) {
            return self.null_ref();
        }
        self.native_index(v, &args)
    }

    fn set_index(&self, of: &V, mut args: Vec<ArgV>, v: V, konst: bool) -> R<()> {
        if let V::Obj(o) = of {
            if let Some(class) = &o.class {
                let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                let t = self.table(class);
                let sets: Vec<Rc<Method>> = t.indexers.iter().filter_map(|p| p.set.clone()).collect();
                if !sets.is_empty() {
                    args.push(ArgV { name: None, v, konst, by_ref: false, hint: None });
                    return match self.call_group(class, &targs, &sets, of, &args, &[], &mut vec![])? {
                        Some(_) => Ok(()),
                        None => self.no_overload(s::Item, &args),
                    };
                }
            }
        }
        if matches!(of, V::Null) {
            return self.null_ref();
        }
        self.native_set_index(of, &args, v, konst)
    }

    fn set_member(&self, f: &Frame, of: &V, n: Sym, v: V, konst: impl Fn() -> bool) -> R<()> {
        match of {
            V::Null => self.null_ref(),
            V::Obj(o) => {
                if let Some(class) = &o.class {
                    let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                    if let Some((slot, class, targs)) = self.member(class, &targs, n) {
                        return self.write(f, of, &slot, &class, &targs, v, konst);
                    }
                }
                self.native_set(of, n, v)
            }
            _ => unsupported("assignment to a member of a value"),
        }
    }

    fn deconstruct(&self, f: &mut Frame, target: &Expr, v: V) -> R<()> {
        match &target.kind {
            E::Tuple(items) => {
                let parts = match &v {
                    V::Tuple(t) => t.items.clone(),
                    V::Obj(o) => match &*o.nat.borrow() {
                        Nat::Pair(a, b) => vec![a.clone(), b.clone()],
                        _ => return unsupported("deconstruction of an object"),
                    },
                    V::Null => return self.null_ref(),
                    _ => return compile("deconstruction"),
                };
                if parts.len() != items.len() {
                    return compile("deconstruction into another number of variables");
                }
                for ((_, e), v) in items.iter().zip(parts) {
                    self.deconstruct(f, e, v)?;
                }
                Ok(())
            }
            E::Decl(t, n) => {
                if &*name(*n) == "_" {
                    return Ok(());
                }
                let (ty, v) = if Self::is_var(t) {
                    (self.type_of(&v), v)
                } else {
                    let ty = self.ty(f, t)?;
                    (ty, self.coerce(v, ty, || false)?)
                };
                f.locals.push(Local { name: *n, ty, value: LocalV::Own(v) });
                Ok(())
            }
            E::Name(n, _, _) if &*name(*n) == "_" => Ok(()),
            _ => self.assign_to(f, target, v, || false).map(|_| ()),
        }
    }

    /// Assigns, and gives what has been assigned.
    fn assign_to(&self, f: &mut Frame, target: &Expr, v: V, konst: impl Fn() -> bool) -> R<V> {
        match &target.kind {
            E::Name(n, targs, cache) => {
                if let Some(i) = f.locals.iter().rposition(|l| l.name == *n) {
                    let v = self.coerce(v, f.locals[i].ty, konst)?;
                    self.set_local(f, i, v.clone());
                    return Ok(v);
                }
                match self.name_res(f, *n, targs.len(), cache)? {
                    NameRes::Member(class) => {
                        let (this, slot, class, ctargs) = self.own_member(f, &class, *n);
                        self.write(f, &this, &slot, &class, &ctargs, v.clone(), konst)?;
                        Ok(v)
                    }
                    _ => compile(format!("cannot assign to `{}`", name(*n))),
                }
            }
            E::Member(of, n, _) => {
                match &of.kind {
                    E::This => {
                        let this = f.this.clone();
                        self.set_member(f, &this, *n, v.clone(), konst)?;
                    }
                    _ => match self.receiver(f, of, *n)? {
                        Ok(of) => self.set_member(f, &of, *n, v.clone(), konst)?,
                        Err(ty) => {
                            let ty = self.close(&ty, &f.targs, &f.margs);
                            let found = self.as_class(ty).and_then(|(c, a)| self.member(&c, &a, *n));
                            match found {
                                Some((slot, class, targs)) => self.write(f, &V::Null, &slot, &class, &targs, v.clone(), konst)?,
                                None => return compile(format!("cannot assign to `{}`", name(*n))),
                            }
                        }
                    },
                }
                Ok(v)
            }
            E::Index(of, args) => {
                let of = if matches!(of.kind, E::Base) { f.this.clone() } else { self.eval(f, of)? };
                let args = self.eval_args(f, args)?;
                self.set_index(&of, args, v.clone(), konst())?;
                Ok(v)
            }
            E::Tuple(_) => {
                self.deconstruct(f, target, v.clone())?;
                Ok(v)
            }
            _ => compile("assignment to no variable"),
        }
    }

    // ------------------------------------------------------------ statements

    fn block(&self, f: &mut Frame, stmts: &[Stmt]) -> R<Flow> {
        let locals = f.locals.len();
        // Local functions can be called before they are declared.
        for stmt in stmts {
            if let S::Func(m) = &stmt.kind {
                if !m.tparams.is_empty() {
                    return unsupported("generic local function");
                }
                f.locals.push(Local { name: m.name, ty: OBJECT, value: LocalV::Own(V::Null) });
                let i = f.locals.len() - 1;
                let captured = self.capture(f);
                self.set_local(f, i, V::Fun(Rc::new(Fun::Local(m.clone(), captured))));
            }
        }
        for stmt in stmts {
            match self.exec(f, stmt)? {
                Flow::Next => (),
                flow => {
                    f.locals.truncate(locals.max(0));
                    return Ok(flow);
                }
            }
        }
        f.locals.truncate(locals);
        Ok(Flow::Next)
    }

    pub fn exec(&self, f: &mut Frame, stmt: &Stmt) -> R<Flow> {
        self.spend()?;
        match &stmt.kind {
            S::Empty | S::Func(_) => (),
            S::Local(t, vars) => {
                for (n, init) in vars {
                    let (ty, v) = if Self::is_var(t) {
                        let Some(init) = init else { return compile("`var` without a value") };
                        let v = self.eval(f, init)?;
                        // Its declared type is what is known of the value.
                        let ty = match &v {
                            V::Int(k, _) => prim(*k),
                            V::Bool(_) => prim(K::Bool),
                            V::Null | V::Default | V::Fun(_) => OBJECT,
                            v => match self.static_hint(f, init) {
                                Some(ty) => ty,
                                None => match &init.kind {
                                    E::New(..) | E::NewArray(..) | E::Lit(_) => self.type_of(v),
                                    _ => OBJECT,
                                },
                            },
                        };
                        (ty, v)
                    } else {
                        let ty = self.ty(f, t)?;
                        let v = match init {
                            Some(init) => self.eval_to(f, init, ty)?,
                            None => V::Default,
                        };
                        (ty, v)
                    };
                    f.locals.push(Local { name: *n, ty, value: LocalV::Own(v) });
                }
            }
            S::Expr(e) => {
                self.eval(f, e)?;
            }
            S::If(c, a, b) => {
                let locals = f.locals.len();
                let c = self.truth(f, c)?;
                let flow = if c {
                    self.exec(f, a)?
                } else if let Some(b) = b {
                    self.exec(f, b)?
                } else {
                    Flow::Next
                };
                // Variables of patterns stay: they may be used behind the statement.
                let _ = locals;
                return Ok(flow);
            }
            S::While(c, body) => {
                while self.truth(f, c)? {
                    match self.exec_scoped(f, body)? {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => (),
                    }
                }
            }
            S::Do(body, c) => loop {
                match self.exec_scoped(f, body)? {
                    Flow::Break => break,
                    Flow::Return(v) => return Ok(Flow::Return(v)),
                    _ => (),
                }
                if !self.truth(f, c)? {
                    break;
                }
            },
            S::For(init, c, step, body) => {
                let locals = f.locals.len();
                for s in init {
                    self.exec(f, s)?;
                }
                loop {
                    let go = match c {
                        Some(c) => self.truth(f, c)?,
                        None => true,
                    };
                    if !go {
                        break;
                    }
                    match self.exec_scoped(f, body)? {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => (),
                    }
                    for e in step {
                        self.eval(f, e)?;
                    }
                }
                f.locals.truncate(locals);
            }
            S::Foreach(t, vars, e, body) => {
                let v = self.eval(f, e)?;
                let items = self.items(&v)?;
                let ty = if Self::is_var(t) { None } else { Some(self.ty(f, t)?) };
                for item in items {
                    let locals = f.locals.len();
                    if vars.len() == 1 {
                        let item = match ty {
                            Some(ty) => self.cast(item, ty, false)?,
                            None => item,
                        };
                        let of = ty.unwrap_or_else(|| self.type_of(&item));
                        f.locals.push(Local { name: vars[0], ty: of, value: LocalV::Own(item) });
                    } else {
                        let parts = match &item {
                            V::Tuple(t) => t.items.clone(),
                            V::Obj(o) => match &*o.nat.borrow() {
                                Nat::Pair(a, b) => vec![a.clone(), b.clone()],
                                _ => return unsupported("deconstruction of an object"),
                            },
                            _ => return compile("deconstruction"),
                        };
                        if parts.len() != vars.len() {
                            return compile("deconstruction into another number of variables");
                        }
                        for (n, v) in vars.iter().zip(parts) {
                            let ty = self.type_of(&v);
                            f.locals.push(Local { name: *n, ty, value: LocalV::Own(v) });
                        }
                    }
                    let flow = self.exec(f, body)?;
                    f.locals.truncate(locals);
                    match flow {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => (),
                    }
                }
            }
            S::Switch(on, sections) => {
                let v = self.eval(f, on)?;
                let locals = f.locals.len();
                let mut go = None;
                'find: for (i, section) in sections.iter().enumerate() {
                    for (label, when) in &section.labels {
                        let Some(p) = label else { continue };
                        if self.matches(f, &v, p)? {
                            let ok = match when {
                                Some(w) => self.truth(f, w)?,
                                None => true,
                            };
                            if ok {
                                go = Some(i);
                                break 'find;
                            }
                        }
                        f.locals.truncate(locals);
                    }
                }
                if go.is_none() {
                    go = sections.iter().position(|s| s.labels.iter().any(|(l, _)| l.is_none()));
                }
                if let Some(i) = go {
                    for stmt in &sections[i].body {
                        match self.exec(f, stmt)? {
                            Flow::Next => (),
                            Flow::Break => {
                                f.locals.truncate(locals);
                                return Ok(Flow::Next);
                            }
                            flow => {
                                f.locals.truncate(locals);
                                return Ok(flow);
                            }
                        }
                    }
                    f.locals.truncate(locals);
                    return compile("control cannot fall through from one case label to another");
                }
            }
            S::Return(e) => {
                let ret = f.ret;
                let v = match e {
                    Some(e) if ret == OBJECT => match self.eval(f, e)? {
                        V::Default => V::Null,
                        v => v,
                    },
                    Some(e) => self.eval_to(f, e, ret)?,
                    None => V::Null,
                };
                return Ok(Flow::Return(v));
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            S::Throw(Some(e)) => {
                let v = self.eval(f, e)?;
                if matches!(v, V::Null) {
                    return self.null_ref();
                }
                return Err(Err::Throw(v));
            }
            S::Throw(None) => match f.caught.last() {
                Some(v) => return Err(Err::Throw(v.clone())),
                None => return compile("`throw` outside of a catch clause"),
            },
            S::Block(stmts) => return self.block(f, stmts),
            S::Try(body, catches, last) => {
                let locals = f.locals.len();
                let holes = f.hole.len();
                let mut out = self.block(f, body);
                if let Err(Err::Throw(v)) = &out {
                    let v = v.clone();
                    f.locals.truncate(locals);
                    f.hole.truncate(holes);
                    for c in catches {
                        let is = match &c.ty {
                            Some(t) => {
                                let ty = self.ty(f, t)?;
                                if let Some(n) = c.name {
                                    f.locals.push(Local { name: n, ty, value: LocalV::Own(v.clone()) });
                                }
                                self.instance_of(&v, ty)
                            }
                            None => true,
                        };
                        let is = is
                            && match &c.when {
                                Some(w) => self.truth(f, w)?,
                                None => true,
                            };
                        if is {
                            f.caught.push(v);
                            out = self.block(f, &c.body);
                            f.caught.pop();
                            f.locals.truncate(locals);
                            break;
                        }
                        f.locals.truncate(locals);
                    }
                }
                if let Some(last) = last {
                    match self.block(f, last)? {
                        Flow::Next => (),
                        flow => return Ok(flow),
                    }
                }
                return out;
            }
            S::Using(first, body) => {
                let locals = f.locals.len();
                self.exec(f, first)?;
                let out = self.exec(f, body);
                for i in (locals..f.locals.len()).rev() {
                    let v = self.local(f, i);
                    if !matches!(v, V::Null) {
                        self.call_on(f, &v, None, s::Dispose, &[], &[], &mut vec![])?;
                    }
                }
                f.locals.truncate(locals);
                return out;
            }
            S::Yield(Some(e)) => {
                let item = match self.rt(f.ret) {
                    Rt::Native(_, args) if !args.is_empty() => args[0],
                    _ => OBJECT,
                };
                let v = self.eval_to(f, e, item)?;
                match &mut f.yields {
                    Some(items) => items.push(v),
                    None => return compile("`yield`"),
                }
            }
            S::Yield(None) => return Ok(Flow::Return(V::Null)),
        }
        Ok(Flow::Next)
    }

    fn exec_scoped(&self, f: &mut Frame, stmt: &Stmt) -> R<Flow> {
        let locals = f.locals.len();
        let flow = self.exec(f, stmt)?;
        f.locals.truncate(locals);
        Ok(flow)
    }
}

/// Whether a body yields items (lambdas and local functions aside).
fn yields(stmts: &[Stmt]) -> bool {
    stmts.iter().any(|s| match &s.kind {
        S::Yield(_) => true,
        S::If(_, a, b) => yields(std::slice::from_ref(a)) || b.as_ref().is_some_and(|b| yields(std::slice::from_ref(b))),
        S::While(_, b) | S::Do(b, _) | S::For(_, _, _, b) | S::Foreach(_, _, _, b) | S::Using(_, b) => yields(std::slice::from_ref(b)),
        S::Switch(_, sections) => sections.iter().any(|s| yields(&s.body)),
        S::Block(b) => yields(b),
        S::Try(b, c, l) => yields(b) || c.iter().any(|c| yields(&c.body)) || l.as_ref().is_some_and(|l| yields(l)),
        _ => false,
    })
}
