//! Types and members of a C# program.

use std::{
    cell::{OnceCell, RefCell},
    rc::Rc,
};

use super::{
    eval::V,
    fast::{HashMap, HashSet},
    syntax::*,
};

pub type ClassId = usize;
pub type TypeId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Bool,
    Char,
    Byte,
    SByte,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
}

pub const KINDS: &[(K, Sym)] = &[
    (K::Bool, s::Boolean),
    (K::Char, s::Char),
    (K::Byte, s::Byte),
    (K::SByte, s::SByte),
    (K::U16, s::UInt16),
    (K::I16, s::Int16),
    (K::U32, s::UInt32),
    (K::I32, s::Int32),
    (K::U64, s::UInt64),
    (K::I64, s::Int64),
];

/// A type as it is written: open in its parameters.
#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Class(ClassId, Rc<[Ty]>),
    Native(Sym, Rc<[Ty]>),
    Prim(K),
    Param(usize),
    MParam(usize),
    Array(Rc<Ty>),
    Nullable(Rc<Ty>),
    Tuple(Rc<[(Ty, Option<Sym>)]>),
    Var,
}

/// A closed type.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rt {
    Class(ClassId, Rc<[TypeId]>),
    Native(Sym, Rc<[TypeId]>),
    Prim(K),
    Array(TypeId),
    Nullable(TypeId),
    Tuple(Rc<[TypeId]>, Rc<[Option<Sym>]>),
}

/// What a name stands for, if it isn't a local variable.
#[derive(Clone, Debug)]
pub enum NameRes {
    /// A member of the class that many levels outside.
    Member(Rc<Class>),
    Type(Ty),
    Ns(Rc<str>),
    /// A generic type, without its arguments, or nothing at all.
    None,
}

#[derive(Debug)]
pub struct Class {
    pub id: ClassId,
    pub name: Sym,
    pub ns: Rc<str>,
    pub outer: Option<Rc<Class>>,
    pub kind: Kind,
    pub is_static: bool,
    /// Those of outer classes come first.
    pub tparams: Vec<Sym>,
    pub usings: Vec<Rc<str>>,
    pub aliases: Vec<(Sym, TyRef)>,
    pub bases: Vec<TyRef>,
    pub wheres: Vec<TyRef>,
    pub members: Vec<Member>,
    pub file: Rc<str>,
    pub line: u32,
    pub nested: RefCell<HashMap<(Sym, usize), ClassId>>,
    pub table: OnceCell<Table>,
}

#[derive(Clone, Debug)]
pub enum Slot {
    Field(Rc<Field>, usize),
    /// With its storage.
    Prop(Rc<Prop>, Option<usize>),
    Methods(Rc<Vec<Rc<Method>>>),
}

#[derive(Debug, Default)]
pub struct Table {
    pub members: HashMap<Sym, Slot>,
    pub indexers: Vec<Rc<Prop>>,
    pub ctors: Vec<Rc<Method>>,
    pub static_ctor: Option<Rc<Method>>,
    /// Storage, with that of bases.
    pub instance: Vec<Storage>,
    pub statics: Vec<Storage>,
    pub base: Option<Ty>,
    pub interfaces: Vec<Ty>,
}

#[derive(Clone, Debug)]
pub struct Storage {
    pub name: Sym,
    pub member: Member_,
    pub class: ClassId,
}

#[derive(Clone, Debug)]
pub enum Member_ {
    Field(Rc<Field>),
    Prop(Rc<Prop>),
}

impl Storage {
    pub fn ty(&self) -> &TyRef {
        match &self.member {
            Member_::Field(f) => &f.ty,
            Member_::Prop(p) => &p.ty,
        }
    }
    pub fn init(&self) -> Option<&Expr> {
        match &self.member {
            Member_::Field(f) => f.init.as_ref(),
            Member_::Prop(p) => p.init.as_ref(),
        }
    }
    pub fn is_event(&self) -> bool {
        matches!(&self.member, Member_::Field(f) if f.is_event)
    }
}

/// Types which aren't part of the program: with a namespace each, and numbers of arguments.
const NATIVE: &[(&str, &str, &[usize])] = &[
    ("System", "Object", &[0]),
    ("System", "String", &[0]),
    ("System", "Void", &[0]),
    ("System", "Type", &[0]),
    ("System", "Array", &[0]),
    ("System", "Console", &[0]),
    ("System", "Math", &[0]),
    ("System", "Convert", &[0]),
    ("System", "Activator", &[0]),
    ("System", "Buffer", &[0]),
    ("System", "Enum", &[0]),
    ("System", "Delegate", &[0]),
    ("System", "Attribute", &[0]),
    ("System", "EventArgs", &[0]),
    ("System", "EventHandler", &[0, 1]),
    ("System", "Func", &[1, 2, 3, 4, 5, 6, 7, 8]),
    ("System", "Action", &[0, 1, 2, 3, 4, 5, 6, 7, 8]),
    ("System", "Predicate", &[1]),
    ("System", "Comparison", &[1]),
    ("System", "Nullable", &[0, 1]),
    ("System", "IEquatable", &[1]),
    ("System", "IDisposable", &[0]),
    ("System", "Tuple", &[0]),
    ("System", "Exception", &[0]),
    ("System", "ArgumentException", &[0]),
    ("System", "ArgumentNullException", &[0]),
    ("System", "ArgumentOutOfRangeException", &[0]),
    ("System", "FormatException", &[0]),
    ("System", "IndexOutOfRangeException", &[0]),
    ("System", "InvalidCastException", &[0]),
    ("System", "InvalidOperationException", &[0]),
    ("System", "MissingMethodException", &[0]),
    ("System", "MissingMemberException", &[0]),
    ("System", "NotImplementedException", &[0]),
    ("System", "NotSupportedException", &[0]),
    ("System", "NullReferenceException", &[0]),
    ("System", "OverflowException", &[0]),
    ("System", "TypeInitializationException", &[0]),
    ("System", "StackOverflowException", &[0]),
    ("System.IO", "EndOfStreamException", &[0]),
    ("System.IO", "IOException", &[0]),
    ("System.IO", "InvalidDataException", &[0]),
    ("System.Text", "Encoding", &[0]),
    ("System.Text", "UTF8Encoding", &[0]),
    ("System.Text", "StringBuilder", &[0]),
    ("System.Reflection", "ConstructorInfo", &[0]),
    ("System.Reflection", "MethodInfo", &[0]),
    ("System.Reflection", "BindingFlags", &[0]),
    ("System.Reflection", "TargetInvocationException", &[0]),
    ("System.Collections.Generic", "List", &[1]),
    ("System.Collections.Generic", "IList", &[1]),
    ("System.Collections.Generic", "ICollection", &[1]),
    ("System.Collections.Generic", "IEnumerable", &[1]),
    ("System.Collections.Generic", "IEnumerator", &[1]),
    ("System.Collections.Generic", "IReadOnlyList", &[1]),
    ("System.Collections.Generic", "IReadOnlyCollection", &[1]),
    ("System.Collections.Generic", "Dictionary", &[2]),
    ("System.Collections.Generic", "IDictionary", &[2]),
    ("System.Collections.Generic", "IReadOnlyDictionary", &[2]),
    ("System.Collections.Generic", "KeyValuePair", &[2]),
    ("System.Collections.Generic", "HashSet", &[1]),
    ("System.Collections.Generic", "Stack", &[1]),
    ("System.Collections.Generic", "Queue", &[1]),
    ("System.Collections.Generic", "KeyNotFoundException", &[0]),
    ("System.Collections.ObjectModel", "ReadOnlyCollection", &[1]),
    ("System.Collections.ObjectModel", "ReadOnlyDictionary", &[2]),
    ("System.Linq", "Enumerable", &[0]),
];

#[derive(Default)]
pub struct World {
    pub classes: RefCell<Vec<Rc<Class>>>,
    /// By namespace, name and number of parameters.
    pub top: RefCell<HashMap<(Rc<str>, Sym, usize), ClassId>>,
    pub namespaces: RefCell<HashSet<Rc<str>>>,
    natives: HashMap<(Sym, usize), Rc<str>>,
    types: RefCell<(HashMap<Rt, TypeId>, Vec<Rt>)>,
    assignable: RefCell<HashMap<(TypeId, TypeId), bool>>,
    /// Names which stand for both values and types, as far as they have been looked for.
    pub looked: RefCell<HashMap<(ClassId, Sym), Option<NameRes>>>,
    pub supers: RefCell<HashMap<TypeId, Rc<Vec<TypeId>>>>,
    pub statics: RefCell<HashMap<TypeId, Rc<Statics>>>,
    /// Static classes with extension methods, by name.
    pub extensions: RefCell<HashMap<Sym, Vec<(Rc<Class>, Rc<Method>)>>>,
    /// Problems which a compiler would report.
    pub errors: RefCell<Vec<Problem>>,
    /// What isn't understood.
    pub unsupported: RefCell<Vec<String>>,
    /// Called for events nobody in the program has subscribed to.
    pub hook: RefCell<Vec<Fired>>,
    /// What is written to the console, if it's of interest.
    pub out: RefCell<Option<Vec<String>>>,
    pub depth: std::cell::Cell<u32>,
    pub fuel: std::cell::Cell<u64>,
    pub evals: std::cell::Cell<u64>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Problem {
    pub file: Rc<str>,
    pub within: String,
    pub what: String,
}

/// An event which has been raised.
pub struct Fired {
    pub owner: TypeId,
    pub event: Sym,
    pub sender: V,
    pub args: V,
}

pub struct Statics {
    pub state: std::cell::Cell<u8>,
    pub values: RefCell<Vec<V>>,
}

pub const OBJECT: TypeId = 0;
pub const STRING: TypeId = 1;
pub const VOID: TypeId = 2;
pub const TYPE: TypeId = 3;
const PRIMS: TypeId = 4;

pub fn prim(k: K) -> TypeId {
    PRIMS + k as TypeId
}

impl World {
    pub fn new() -> World {
        let mut w = World::default();
        for (ns, native, arities) in NATIVE {
            for arity in *arities {
                w.natives.insert((sym(native), *arity), (*ns).into());
            }
            w.add_namespace(ns);
        }
        for (_, native) in KINDS {
            w.natives.insert((*native, 0), "System".into());
        }
        w.add_namespace("System.Globalization");
        w.add_namespace("System.Diagnostics");
        w.add_namespace("System.Linq.Expressions");
        w.add_namespace("System.Runtime.CompilerServices");
        w.add_namespace("System.Threading");
        w.add_namespace("System.Threading.Tasks");
        assert_eq!(w.intern(Rt::Native(s::Object, [].into())), OBJECT);
        assert_eq!(w.intern(Rt::Native(s::String, [].into())), STRING);
        assert_eq!(w.intern(Rt::Native(s::Void, [].into())), VOID);
        assert_eq!(w.intern(Rt::Native(s::Type, [].into())), TYPE);
        for (k, _) in KINDS {
            assert_eq!(w.intern(Rt::Prim(*k)), prim(*k));
        }
        w
    }

    fn add_namespace(&self, ns: &str) {
        let mut all = self.namespaces.borrow_mut();
        let mut path = String::new();
        for part in ns.split('.').filter(|p| !p.is_empty()) {
            if !path.is_empty() {
                path.push('.');
            }
            path.push_str(part);
            all.insert((*path).into());
        }
    }

    pub fn class(&self, id: ClassId) -> Rc<Class> {
        self.classes.borrow()[id].clone()
    }

    pub fn rt(&self, id: TypeId) -> Rt {
        self.types.borrow().1[id as usize].clone()
    }

    pub fn intern(&self, rt: Rt) -> TypeId {
        let (map, list) = &mut *self.types.borrow_mut();
        if let Some(id) = map.get(&rt) {
            return *id;
        }
        let id = list.len() as TypeId;
        list.push(rt.clone());
        map.insert(rt, id);
        id
    }

    pub fn native(&self, name: Sym, args: &[TypeId]) -> TypeId {
        self.intern(Rt::Native(name, args.into()))
    }

    pub fn problem(&self, file: &Rc<str>, within: impl Into<String>, what: impl Into<String>) {
        let p = Problem { file: file.clone(), within: within.into(), what: what.into() };
        let mut errors = self.errors.borrow_mut();
        if !errors.contains(&p) {
            errors.push(p);
        }
    }

    // ------------------------------------------------------------ declarations

    pub fn load(&self, units: Vec<Unit>) {
        let mut parts: Vec<(Rc<str>, Option<ClassId>, TypeDecl, Rc<str>, Rc<Vec<Rc<str>>>)> = Vec::new();
        for unit in units {
            let usings = Rc::new(unit.usings);
            if !unit.aliases.is_empty() {
                self.unsupported.borrow_mut().push(format!("{}: alias", unit.file));
            }
            for (ns, decl) in unit.types {
                self.add_namespace(&ns);
                parts.push((ns, None, decl, unit.file.clone(), usings.clone()));
            }
        }
        // Partial declarations are merged; nested ones are added after those around them.
        let mut all: Vec<Class> = Vec::new();
        let mut ids: HashMap<(Rc<str>, Option<ClassId>, Sym, usize), ClassId> = HashMap::default();
        let mut queue: std::collections::VecDeque<_> = parts.into();
        while let Some((ns, outer, mut decl, file, usings)) = queue.pop_front() {
            let key = (ns.clone(), outer, decl.name, decl.tparams.len());
            let nested = std::mem::take(&mut decl.nested);
            let id = match ids.get(&key) {
                Some(id) => {
                    let class = &mut all[*id];
                    if !decl.is_partial {
                        self.problem(&file, &*name(decl.name), format!("`{}` is defined already", name(decl.name)));
                    }
                    class.bases.extend(decl.bases);
                    class.wheres.extend(decl.wheres);
                    class.members.extend(decl.members);
                    class.usings.extend(usings.iter().cloned());
                    *id
                }
                None => {
                    let mut tparams = match outer {
                        Some(o) => all[o].tparams.clone(),
                        None => vec![],
                    };
                    tparams.extend(&decl.tparams);
                    let id = all.len();
                    all.push(Class {
                        id,
                        name: decl.name,
                        ns: ns.clone(),
                        outer: None,
                        kind: decl.kind,
                        is_static: decl.is_static,
                        tparams,
                        usings: usings.to_vec(),
                        aliases: vec![],
                        bases: decl.bases,
                        wheres: decl.wheres,
                        members: decl.members,
                        file: file.clone(),
                        line: decl.line,
                        nested: Default::default(),
                        table: OnceCell::new(),
                    });
                    ids.insert(key, id);
                    if let Some(o) = outer {
                        all[o].nested.borrow_mut().insert((decl.name, decl.tparams.len()), id);
                    }
                    id
                }
            };
            for decl in nested {
                queue.push_back((ns.clone(), Some(id), decl, file.clone(), usings.clone()));
            }
        }
        let mut outers = vec![None; all.len()];
        for ((_, outer, _, _), id) in &ids {
            outers[*id] = *outer;
        }
        let mut done: Vec<Rc<Class>> = Vec::new();
        for (id, mut class) in all.into_iter().enumerate() {
            // Classes around a class come before it.
            class.outer = outers[id].map(|o| done[o].clone());
            done.push(Rc::new(class));
        }
        for ((ns, outer, class, arity), id) in ids {
            if outer.is_none() {
                self.top.borrow_mut().insert((ns, class, arity), id);
            }
        }
        *self.classes.borrow_mut() = done.clone();
        for class in &done {
            self.table(class);
        }
        for class in &done {
            if class.is_static {
                for member in &class.members {
                    if let Member::Method(m) = member {
                        if m.params.first().is_some_and(|p| p.this) {
                            self.extensions.borrow_mut().entry(m.name).or_default().push((class.clone(), m.clone()));
                        }
                    }
                }
            }
        }
    }

    /// The bases are resolved first, as storage begins with theirs.
    pub fn table<'a>(&self, class: &'a Rc<Class>) -> &'a Table {
        if let Some(table) = class.table.get() {
            return table;
        }
        let mut t = Table::default();
        for base in &class.bases {
            match self.resolve(base, class, &[]) {
                Ok(ty) => match &ty {
                    Ty::Class(id, _) => {
                        let base = self.class(*id);
                        if base.kind == Kind::Interface {
                            t.interfaces.push(ty);
                        } else {
                            t.instance = self.table(&base).instance.clone();
                            t.base = Some(ty);
                        }
                    }
                    Ty::Native(n, _) if is_interface(*n) => t.interfaces.push(ty),
                    Ty::Native(..) | Ty::Prim(_) => t.base = Some(ty),
                    _ => self.problem(&class.file, &*name(class.name), "a base which isn't a class"),
                },
                Err(e) => self.problem(&class.file, &*name(class.name), e),
            }
        }
        let mut methods: HashMap<Sym, Vec<Rc<Method>>> = HashMap::default();
        for member in &class.members {
            let mut clash = None;
            let mut check = |members: &HashMap<Sym, Slot>, n: Sym| {
                if members.contains_key(&n) || class.nested.borrow().keys().any(|(x, _)| *x == n) {
                    clash = Some(n);
                }
                if n == class.name && class.kind != Kind::Enum {
                    self.problem(&class.file, &*name(class.name), format!("member named like its class `{}`", name(n)));
                }
            };
            match member {
                Member::Field(f) => {
                    check(&t.members, f.name);
                    let storage = Storage { name: f.name, member: Member_::Field(f.clone()), class: class.id };
                    let list = if f.is_static { &mut t.statics } else { &mut t.instance };
                    t.members.insert(f.name, Slot::Field(f.clone(), list.len()));
                    list.push(storage);
                }
                Member::Prop(p) => {
                    check(&t.members, p.name);
                    let mut slot = None;
                    if p.auto {
                        let storage = Storage { name: p.name, member: Member_::Prop(p.clone()), class: class.id };
                        let list = if p.is_static { &mut t.statics } else { &mut t.instance };
                        slot = Some(list.len());
                        list.push(storage);
                    }
                    t.members.insert(p.name, Slot::Prop(p.clone(), slot));
                }
                Member::Indexer(p) => t.indexers.push(p.clone()),
                Member::Method(m) if m.is_ctor && m.is_static => t.static_ctor = Some(m.clone()),
                Member::Method(m) if m.is_ctor => t.ctors.push(m.clone()),
                Member::Method(m) => {
                    if t.members.contains_key(&m.name) {
                        clash = Some(m.name);
                    }
                    if m.name == class.name {
                        self.problem(&class.file, &*name(class.name), format!("member named like its class `{}`", name(m.name)));
                    }
                    methods.entry(m.name).or_default().push(m.clone());
                }
            }
            if let Some(n) = clash {
                self.problem(&class.file, &*name(class.name), format!("`{}` is defined already", name(n)));
            }
        }
        for (n, list) in methods {
            if t.members.contains_key(&n) || class.nested.borrow().keys().any(|(x, _)| *x == n) {
                self.problem(&class.file, &*name(class.name), format!("`{}` is defined already", name(n)));
            }
            t.members.insert(n, Slot::Methods(Rc::new(list)));
        }
        let _ = class.table.set(t);
        class.table.get().unwrap()
    }

    // ------------------------------------------------------------ names of types

    /// A member of the scope around a class: parameters, nested and outer types, namespaces.
    pub fn lookup(&self, class: &Rc<Class>, mtparams: &[Sym], n: Sym, arity: usize) -> Result<Option<(NameRes, usize)>, String> {
        if arity == 0 {
            if let Some(i) = mtparams.iter().rposition(|p| *p == n) {
                return Ok(Some((NameRes::Type(Ty::MParam(i)), 0)));
            }
        }
        let mut at = Some(class.clone());
        while let Some(c) = at {
            if arity == 0 {
                if let Some(i) = c.tparams.iter().rposition(|p| *p == n) {
                    return Ok(Some((NameRes::Type(Ty::Param(i)), 0)));
                }
            }
            if let Some(id) = c.nested.borrow().get(&(n, arity)) {
                let outer: Vec<Ty> = (0..c.tparams.len()).map(Ty::Param).collect();
                return Ok(Some((NameRes::Type(Ty::Class(*id, outer.into())), arity)));
            }
            at = c.outer.clone();
        }
        let mut ns: &str = &class.ns;
        loop {
            if let Some(res) = self.in_namespace(ns, n, arity) {
                return Ok(Some(res));
            }
            if ns.is_empty() {
                break;
            }
            ns = ns.rfind('.').map_or("", |i| &ns[..i]);
        }
        let mut found: Option<(NameRes, usize)> = None;
        let mut from: HashSet<Rc<str>> = HashSet::default();
        for used in &class.usings {
            if !from.insert(used.clone()) {
                continue;
            }
            if let Some(res @ (NameRes::Type(_), _)) = self.in_namespace(used, n, arity) {
                if found.is_some() {
                    return Err(format!("`{}` is ambiguous", name(n)));
                }
                found = Some(res);
            }
        }
        Ok(found)
    }

    /// What follows are own arguments, in the number given.
    pub fn in_namespace(&self, ns: &str, n: Sym, arity: usize) -> Option<(NameRes, usize)> {
        if arity == 0 {
            let full = if ns.is_empty() { name(n).to_string() } else { format!("{}.{}", ns, name(n)) };
            if let Some(found) = self.namespaces.borrow().get(&*full) {
                return Some((NameRes::Ns(found.clone()), 0));
            }
        }
        if let Some(id) = self.top.borrow().get(&(ns.into(), n, arity)) {
            return Some((NameRes::Type(Ty::Class(*id, [].into())), arity));
        }
        if self.natives.get(&(n, arity)).is_some_and(|of| &**of == ns) {
            if let Some((k, _)) = KINDS.iter().find(|(_, s)| *s == n) {
                return Some((NameRes::Type(Ty::Prim(*k)), 0));
            }
            return Some((NameRes::Type(Ty::Native(n, [].into())), arity));
        }
        None
    }

    fn with_args(&self, ty: Ty, args: Vec<Ty>) -> Ty {
        if args.is_empty() {
            return ty;
        }
        match ty {
            Ty::Class(id, outer) => Ty::Class(id, outer.iter().cloned().chain(args).collect()),
            Ty::Native(s::Nullable, _) => Ty::Nullable(Rc::new(args.into_iter().next().unwrap())),
            Ty::Native(n, _) => Ty::Native(n, args.into()),
            ty => ty,
        }
    }

    /// Resolves a path of names to a type.
    pub fn resolve(&self, t: &TyRef, class: &Rc<Class>, mtparams: &[Sym]) -> Result<Ty, String> {
        if let Some(ty) = t.cache.get() {
            return Ok(ty.clone());
        }
        let ty = match &t.kind {
            TyKind::Var => Ty::Var,
            TyKind::Array(item) => Ty::Array(Rc::new(self.resolve(item, class, mtparams)?)),
            TyKind::Nullable(item) => {
                let item = self.resolve(item, class, mtparams)?;
                match self.is_value(&item) {
                    Some(false) => return Err("the type before `?` must be a value type".into()),
                    _ => Ty::Nullable(Rc::new(item)),
                }
            }
            TyKind::Tuple(items) => {
                let mut out = Vec::new();
                for (ty, n) in items {
                    out.push((self.resolve(ty, class, mtparams)?, *n));
                }
                Ty::Tuple(out.into())
            }
            TyKind::Name(segments) => {
                let mut at: Option<NameRes> = None;
                for (n, args) in segments {
                    let text = name(*n);
                    let mut own = Vec::new();
                    for a in args {
                        own.push(self.resolve(a, class, mtparams)?);
                    }
                    let found = match &at {
                        None if text.starts_with("System.") => {
                            let short = sym(&text["System.".len()..]);
                            self.in_namespace("System", short, 0)
                        }
                        None => self.lookup(class, mtparams, *n, args.len())?,
                        Some(NameRes::Ns(ns)) => self.in_namespace(ns, *n, args.len()),
                        Some(NameRes::Type(Ty::Class(id, outer))) => {
                            let c = self.class(*id);
                            let found = c.nested.borrow().get(&(*n, args.len())).copied();
                            found.map(|id| (NameRes::Type(Ty::Class(id, outer.clone())), args.len()))
                        }
                        _ => None,
                    };
                    at = match found {
                        Some((NameRes::Type(ty), _)) => Some(NameRes::Type(self.with_args(ty, own))),
                        Some((res, _)) => Some(res),
                        None => return Err(self.not_found(class, *n, args.len(), at.as_ref())),
                    };
                }
                match at {
                    Some(NameRes::Type(ty)) => ty,
                    Some(NameRes::Ns(ns)) => return Err(format!("`{}` is a namespace but is used like a type", ns)),
                    _ => return Err("no type".into()),
                }
            }
        };
        let _ = t.cache.set(ty.clone());
        Ok(ty)
    }

    fn not_found(&self, class: &Rc<Class>, n: Sym, arity: usize, at: Option<&NameRes>) -> String {
        for other in 0..4 {
            if other != arity && at.is_none() {
                if let Ok(Some((NameRes::Type(_), _))) = self.lookup(class, &[], n, other) {
                    return match other {
                        0 => format!("the non-generic type `{}` cannot be used with type arguments", name(n)),
                        _ => format!("using the generic type `{}` requires {} type arguments", name(n), other),
                    };
                }
            }
        }
        format!("the type or namespace `{}` could not be found", name(n))
    }

    fn is_value(&self, ty: &Ty) -> Option<bool> {
        match ty {
            Ty::Prim(_) | Ty::Tuple(_) | Ty::Nullable(_) => Some(true),
            Ty::Native(n, _) => Some(*n == s::KeyValuePair || *n == s::BindingFlags),
            Ty::Class(id, _) => Some(self.class(*id).kind == Kind::Enum),
            Ty::Array(_) => Some(false),
            Ty::Param(_) | Ty::MParam(_) | Ty::Var => None,
        }
    }

    /// Closes a type.
    pub fn close(&self, ty: &Ty, targs: &[TypeId], margs: &[TypeId]) -> TypeId {
        match ty {
            Ty::Prim(k) => prim(*k),
            Ty::Param(i) => targs.get(*i).copied().unwrap_or(OBJECT),
            Ty::MParam(i) => margs.get(*i).copied().unwrap_or(OBJECT),
            Ty::Class(id, args) => {
                let args = args.iter().map(|a| self.close(a, targs, margs)).collect();
                self.intern(Rt::Class(*id, args))
            }
            Ty::Native(n, args) => {
                let args = args.iter().map(|a| self.close(a, targs, margs)).collect();
                self.intern(Rt::Native(*n, args))
            }
            Ty::Array(item) => {
                let item = self.close(item, targs, margs);
                self.intern(Rt::Array(item))
            }
            Ty::Nullable(item) => {
                let item = self.close(item, targs, margs);
                self.intern(Rt::Nullable(item))
            }
            Ty::Tuple(items) => {
                let tys = items.iter().map(|(t, _)| self.close(t, targs, margs)).collect();
                self.intern(Rt::Tuple(tys, items.iter().map(|(_, n)| *n).collect()))
            }
            Ty::Var => OBJECT,
        }
    }

    // ------------------------------------------------------------ relations of types

    /// A closed class with its arguments, if it is one of the program.
    pub fn as_class(&self, id: TypeId) -> Option<(Rc<Class>, Rc<[TypeId]>)> {
        match self.rt(id) {
            Rt::Class(c, args) => Some((self.class(c), args)),
            _ => None,
        }
    }

    /// All types a value of a type is one of: its bases and interfaces.
    pub fn supers(&self, id: TypeId) -> Rc<Vec<TypeId>> {
        if let Some(found) = self.supers.borrow().get(&id) {
            return found.clone();
        }
        let mut out = vec![id];
        let mut at = 0;
        while at < out.len() {
            let mut more: Vec<TypeId> = Vec::new();
            match self.rt(out[at]) {
                Rt::Class(c, args) => {
                    let class = self.class(c);
                    let t = self.table(&class);
                    for ty in t.base.iter().chain(&t.interfaces) {
                        more.push(self.close(ty, &args, &[]));
                    }
                }
                Rt::Native(n, args) => {
                    let one = |names: &[Sym], more: &mut Vec<TypeId>| {
                        for s in names {
                            more.push(self.native(*s, &args));
                        }
                    };
                    match n {
                        s::List | s::ReadOnlyCollection => one(&[s::IList, s::IReadOnlyList], &mut more),
                        s::IList | s::HashSet => one(&[s::ICollection], &mut more),
                        s::IReadOnlyList => one(&[s::IReadOnlyCollection], &mut more),
                        s::ICollection | s::IReadOnlyCollection | s::Stack | s::Queue => one(&[s::IEnumerable], &mut more),
                        s::Dictionary | s::ReadOnlyDictionary => one(&[s::IDictionary, s::IReadOnlyDictionary], &mut more),
                        s::IDictionary | s::IReadOnlyDictionary => {
                            let pair = self.native(s::KeyValuePair, &args);
                            let of = if n == s::IDictionary { s::ICollection } else { s::IReadOnlyCollection };
                            more.push(self.native(of, &[pair]));
                        }
                        s::Exception => (),
                        s::UTF8Encoding => more.push(self.native(s::Encoding, &[])),
                        s::IEnumerator => more.push(self.native(s::IDisposable, &[])),
                        _ => {
                            let text = name(n);
                            if text.ends_with("Exception") {
                                let base = match &*text {
                                    "ArgumentNullException" | "ArgumentOutOfRangeException" => "ArgumentException",
                                    "EndOfStreamException" | "InvalidDataException" => "IOException",
                                    "MissingMethodException" => "MissingMemberException",
                                    _ => "Exception",
                                };
                                more.push(self.native(sym(base), &[]));
                            }
                        }
                    }
                }
                Rt::Array(item) => {
                    more.push(self.native(s::IList, &[item]));
                    more.push(self.native(s::IReadOnlyList, &[item]));
                    more.push(self.native(s::Array, &[]));
                }
                Rt::Nullable(item) => more.push(item),
                _ => (),
            }
            more.push(OBJECT);
            for m in more {
                if !out.contains(&m) {
                    out.push(m);
                }
            }
            at += 1;
        }
        let out = Rc::new(out);
        self.supers.borrow_mut().insert(id, out.clone());
        out
    }

    pub fn is_a(&self, from: TypeId, to: TypeId) -> bool {
        if from == to || to == OBJECT {
            return true;
        }
        if let Some(known) = self.assignable.borrow().get(&(from, to)) {
            return *known;
        }
        let supers = self.supers(from);
        let mut is = supers.contains(&to);
        if !is {
            // Covariant interfaces.
            if let Rt::Native(n @ (s::IEnumerable | s::IReadOnlyList | s::IReadOnlyCollection), args) = self.rt(to) {
                is = supers.iter().any(|t| match self.rt(*t) {
                    Rt::Native(m, with) if m == n => !self.is_value_type(with[0]) && self.is_a(with[0], args[0]),
                    _ => false,
                });
            }
            if let (Rt::Array(a), Rt::Array(b)) = (self.rt(from), self.rt(to)) {
                is = !self.is_value_type(a) && self.is_a(a, b);
            }
            if let Rt::Nullable(item) = self.rt(to) {
                is = self.is_a(from, item);
            }
        }
        self.assignable.borrow_mut().insert((from, to), is);
        is
    }

    pub fn is_value_type(&self, id: TypeId) -> bool {
        match self.rt(id) {
            Rt::Prim(_) | Rt::Tuple(..) | Rt::Nullable(_) => true,
            Rt::Native(n, _) => n == s::KeyValuePair || n == s::BindingFlags,
            Rt::Class(c, _) => self.class(c).kind == Kind::Enum,
            Rt::Array(_) => false,
        }
    }

    /// The name by which a type is known at run time.
    pub fn full_name(&self, id: TypeId) -> String {
        let args = |args: &[TypeId]| -> String {
            let list: Vec<String> =
                args.iter().map(|a| format!("[{}, Assembly, Version=0.0.0.0, Culture=neutral, PublicKeyToken=null]", self.full_name(*a))).collect();
            if list.is_empty() {
                String::new()
            } else {
                format!("[{}]", list.join(","))
            }
        };
        match self.rt(id) {
            Rt::Prim(k) => format!("System.{}", name(KINDS.iter().find(|x| x.0 == k).unwrap().1)),
            Rt::Native(n, a) => {
                let ns = self.natives.get(&(n, a.len())).cloned().unwrap_or_else(|| "System".into());
                let arity = if a.is_empty() { String::new() } else { format!("`{}", a.len()) };
                format!("{}.{}{}{}", ns, name(n), arity, args(&a))
            }
            Rt::Array(item) => format!("{}[]", self.full_name(item)),
            Rt::Nullable(item) => format!("System.Nullable`1{}", args(&[item])),
            Rt::Tuple(items, _) => format!("System.ValueTuple`{}{}", items.len(), args(&items)),
            Rt::Class(c, a) => {
                let class = self.class(c);
                format!("{}{}", self.class_name(&class), args(&a))
            }
        }
    }

    fn class_name(&self, class: &Rc<Class>) -> String {
        let inherited = class.outer.as_ref().map_or(0, |o| o.tparams.len());
        let own = class.tparams.len() - inherited;
        let arity = if own == 0 { String::new() } else { format!("`{}", own) };
        match &class.outer {
            Some(o) => format!("{}+{}{}", self.class_name(o), name(class.name), arity),
            None if class.ns.is_empty() => format!("{}{}", name(class.name), arity),
            None => format!("{}.{}{}", class.ns, name(class.name), arity),
        }
    }

    pub fn short_name(&self, id: TypeId) -> String {
        match self.rt(id) {
            Rt::Class(c, a) => {
                let class = self.class(c);
                let args: Vec<String> = a.iter().map(|a| self.short_name(*a)).collect();
                let mut path = name(class.name).to_string();
                let mut outer = class.outer.clone();
                while let Some(o) = outer {
                    path = format!("{}.{}", name(o.name), path);
                    outer = o.outer.clone();
                }
                if args.is_empty() {
                    path
                } else {
                    format!("{}<{}>", path, args.join(", "))
                }
            }
            Rt::Native(n, a) => {
                let args: Vec<String> = a.iter().map(|a| self.short_name(*a)).collect();
                if args.is_empty() {
                    name(n).to_string()
                } else {
                    format!("{}<{}>", name(n), args.join(", "))
                }
            }
            Rt::Array(item) => format!("{}[]", self.short_name(item)),
            Rt::Nullable(item) => format!("{}?", self.short_name(item)),
            _ => self.full_name(id).replace("System.", ""),
        }
    }
}

pub fn is_interface(n: Sym) -> bool {
    matches!(
        n,
        s::IList | s::ICollection | s::IEnumerable | s::IReadOnlyList | s::IReadOnlyCollection | s::IDictionary
            | s::IReadOnlyDictionary | s::IEquatable | s::IDisposable | s::IEnumerator
    )
}
