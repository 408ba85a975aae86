//! Finds what a compiler would reject, as far as names, types and numbers of arguments go.

use std::rc::Rc;

use super::{load::*, syntax::*};

/// What numbers and `bool` have of their own.
#[rustfmt::skip]
const STATICS: &[&str] = &[
    "MaxValue", "MinValue", "Parse", "TryParse", "Equals", "ReferenceEquals", "TrueString", "FalseString", "Abs", "Clamp", "CopySign",
    "CreateChecked", "CreateSaturating", "CreateTruncating", "DivRem", "IsEvenInteger", "IsNegative", "IsOddInteger", "IsPositive",
    "IsPow2", "LeadingZeroCount", "Log2", "Max", "MaxMagnitude", "Min", "MinMagnitude", "PopCount", "RotateLeft", "RotateRight",
    "Sign", "TrailingZeroCount", "BigMul", "Epsilon", "NaN", "PositiveInfinity", "NegativeInfinity", "IsNaN", "IsInfinity", "IsFinite",
];

struct Scope<'a> {
    w: &'a World,
    class: &'a Rc<Class>,
    mtparams: Vec<Sym>,
    locals: Vec<Sym>,
    is_static: bool,
    within: String,
    bad: bool,
}

impl World {
    pub fn check(&self) {
        let classes = self.classes.borrow().clone();
        for class in &classes {
            self.check_class(class);
        }
    }

    fn check_class(&self, class: &Rc<Class>) {
        let mut sc = Scope {
            w: self,
            class,
            mtparams: vec![],
            locals: vec![],
            is_static: false,
            within: name(class.name).to_string(),
            bad: false,
        };
        for t in class.bases.iter().chain(&class.wheres) {
            sc.ty(t);
        }
        for member in &class.members {
            match member {
                Member::Field(f) => {
                    sc.start(class, f.name, f.is_static || f.is_const);
                    if class.kind != Kind::Enum {
                        sc.ty(&f.ty);
                    }
                    if let Some(e) = &f.init {
                        sc.expr(e);
                    }
                }
                Member::Prop(p) | Member::Indexer(p) => {
                    sc.start(class, p.name, p.is_static);
                    sc.ty(&p.ty);
                    if let Some(e) = &p.init {
                        sc.expr(e);
                    }
                    for m in [&p.get, &p.set].into_iter().flatten() {
                        sc.method(m);
                    }
                }
                Member::Method(m) => {
                    sc.start(class, m.name, m.is_static);
                    sc.method(m);
                }
            }
        }
        if class.kind == Kind::Class {
            self.check_interfaces(class);
        }
        // Signatures must differ.
        for slot in self.table(class).members.values() {
            if let Slot::Methods(ms) = slot {
                for (i, a) in ms.iter().enumerate() {
                    for b in &ms[..i] {
                        if a.tparams.len() == b.tparams.len() && !a.explicit && !b.explicit && self.same_params(class, a, b) {
                            self.problem(&class.file, &*name(class.name), format!("`{}` is defined already with the same parameters", name(a.name)));
                        }
                    }
                }
            }
        }
    }

    fn same_params(&self, class: &Rc<Class>, a: &Method, b: &Method) -> bool {
        a.params.len() == b.params.len()
            && a.params.iter().zip(&b.params).all(|(p, q)| {
                match (self.resolve(&p.ty, class, &a.tparams), self.resolve(&q.ty, class, &b.tparams)) {
                    (Ok(p), Ok(q)) => p == q,
                    _ => false,
                }
            })
    }

    fn check_interfaces(&self, class: &Rc<Class>) {
        let targs: Rc<[TypeId]> = vec![OBJECT; class.tparams.len()].into();
        let of = self.intern(Rt::Class(class.id, targs.clone()));
        for sup in self.supers(of).iter() {
            let Some((i, _)) = self.as_class(*sup) else { continue };
            if i.kind != Kind::Interface {
                continue;
            }
            for member in &i.members {
                let (n, ok) = match member {
                    Member::Prop(p) => (
                        p.name,
                        match self.member(class, &targs, p.name) {
                            Some((Slot::Prop(q, _), ..)) => {
                                !q.is_static && (q.is_public) && (p.get.is_none() || q.get.is_some() || q.auto) && (p.set.is_none() || q.set.is_some())
                            }
                            _ => self.native_base(class, &targs).is_some(),
                        },
                    ),
                    Member::Method(m) => (
                        m.name,
                        match self.member(class, &targs, m.name) {
                            Some((Slot::Methods(ms), ..)) => ms.iter().any(|x| {
                                !x.is_static && (x.is_public || x.explicit) && x.params.len() == m.params.len() && x.tparams.len() == m.tparams.len()
                            }),
                            _ => self.native_base(class, &targs).is_some(),
                        },
                    ),
                    _ => continue,
                };
                if !ok {
                    self.problem(&class.file, &*name(class.name), format!("does not implement `{}.{}`", name(i.name), name(n)));
                }
            }
        }
    }
}

impl Scope<'_> {
    fn start(&mut self, class: &Rc<Class>, n: Sym, is_static: bool) {
        self.within = format!("{}.{}", name(class.name), name(n));
        self.is_static = is_static;
        self.locals.clear();
        self.mtparams.clear();
        self.bad = false;
    }

    fn error(&mut self, what: impl Into<String>) {
        self.bad = true;
        self.w.problem(&self.class.file, &*self.within, what);
    }

    fn ty(&mut self, t: &TyRef) -> Option<Ty> {
        match self.w.resolve(t, self.class, &self.mtparams) {
            Ok(ty) => Some(ty),
            Err(e) => {
                self.error(e);
                None
            }
        }
    }

    fn declare(&mut self, n: Sym) {
        if self.locals.contains(&n) && &*name(n) != "_" {
            self.error(format!("a local variable `{}` is defined in this scope already", name(n)));
        }
        self.locals.push(n);
    }

    fn method(&mut self, m: &Rc<Method>) {
        self.mtparams = m.tparams.clone();
        self.locals.clear();
        for p in &m.params {
            self.ty(&p.ty);
            if let Some(e) = &p.default {
                self.expr(e);
            }
            self.declare(p.name);
        }
        if let Some(t) = &m.ret {
            self.ty(t);
        }
        if let Some((own, args)) = &m.chain {
            self.args(args);
            let ctors = if *own {
                Some(self.class.clone())
            } else {
                match &self.w.table(self.class).base {
                    Some(Ty::Class(id, _)) => Some(self.w.class(*id)),
                    _ => None,
                }
            };
            if let Some(class) = ctors {
                self.ctor(&class, args);
            }
        }
        self.body(&m.body);
        if self.bad {
            m.broken.set(true);
        }
    }

    fn body(&mut self, body: &Body) {
        match body {
            Body::Expr(e) => self.expr(e),
            Body::Block(stmts) => self.block(stmts),
            Body::None => (),
        }
    }

    fn block(&mut self, stmts: &[Stmt]) {
        let locals = self.locals.len();
        for s in stmts {
            self.stmt(s);
        }
        self.locals.truncate(locals);
    }

    fn scoped(&mut self, s: &Stmt) {
        self.block(std::slice::from_ref(s));
    }

    fn stmt(&mut self, stmt: &Stmt) {
        match &stmt.kind {
            S::Local(t, vars) => {
                self.ty(t);
                for (n, init) in vars {
                    if let Some(e) = init {
                        self.expr(e);
                    }
                    self.declare(*n);
                }
            }
            S::Func(m) => {
                self.declare(m.name);
                let locals = self.locals.len();
                let outer = self.mtparams.len();
                self.mtparams.extend(&m.tparams);
                for p in &m.params {
                    self.ty(&p.ty);
                    self.declare(p.name);
                }
                if let Some(t) = &m.ret {
                    self.ty(t);
                }
                self.body(&m.body);
                self.locals.truncate(locals);
                self.mtparams.truncate(outer);
            }
            S::Expr(e) => self.expr(e),
            S::If(c, a, b) => {
                self.expr(c);
                self.scoped(a);
                if let Some(b) = b {
                    self.scoped(b);
                }
            }
            S::While(c, body) => {
                let locals = self.locals.len();
                self.expr(c);
                self.scoped(body);
                self.locals.truncate(locals);
            }
            S::Do(body, c) => {
                self.scoped(body);
                self.expr(c);
            }
            S::For(init, c, step, body) => {
                let locals = self.locals.len();
                for s in init {
                    self.stmt(s);
                }
                c.iter().for_each(|e| self.expr(e));
                step.iter().for_each(|e| self.expr(e));
                self.scoped(body);
                self.locals.truncate(locals);
            }
            S::Foreach(t, vars, e, body) => {
                self.ty(t);
                self.expr(e);
                let locals = self.locals.len();
                for n in vars {
                    self.declare(*n);
                }
                self.scoped(body);
                self.locals.truncate(locals);
            }
            S::Switch(on, sections) => {
                self.expr(on);
                let locals = self.locals.len();
                let mut seen: Vec<u64> = vec![];
                for section in sections {
                    for (label, when) in &section.labels {
                        if let Some(Pattern::Const(Expr { kind: E::Lit(Lit::Int(n, _)), .. })) = label {
                            if when.is_none() && seen.contains(n) {
                                self.error(format!("the switch statement contains multiple cases with the label {}", n));
                            }
                            seen.push(*n);
                        }
                        if let Some(p) = label {
                            self.pattern(p);
                        }
                        when.iter().for_each(|e| self.expr(e));
                    }
                    // All sections share one scope, though variables of patterns are their own.
                    for s in &section.body {
                        self.stmt(s);
                    }
                }
                self.locals.truncate(locals);
            }
            S::Return(e) | S::Throw(e) | S::Yield(e) => e.iter().for_each(|e| self.expr(e)),
            S::Break | S::Continue | S::Empty => (),
            S::Block(stmts) => self.block(stmts),
            S::Try(body, catches, last) => {
                self.block(body);
                for c in catches {
                    let locals = self.locals.len();
                    if let Some(t) = &c.ty {
                        self.ty(t);
                    }
                    if let Some(n) = c.name {
                        self.declare(n);
                    }
                    c.when.iter().for_each(|e| self.expr(e));
                    self.block(&c.body);
                    self.locals.truncate(locals);
                }
                last.iter().for_each(|b| self.block(b));
            }
            S::Using(first, body) => {
                let locals = self.locals.len();
                self.stmt(first);
                self.scoped(body);
                self.locals.truncate(locals);
            }
        }
    }

    fn pattern(&mut self, p: &Pattern) {
        match p {
            Pattern::Const(e) => self.expr(e),
            Pattern::Type(t, n) => {
                self.ty(t);
                if let Some(n) = n {
                    self.declare(*n);
                }
            }
            Pattern::Either(e, t) => {
                let is_value = match &e.kind {
                    E::Name(n, targs, _) => {
                        self.locals.contains(n)
                            || targs.is_empty() && matches!(self.w.find_name(self.class, &self.mtparams, *n, 0), Ok(NameRes::Member(_)))
                    }
                    E::Member(..) => true,
                    _ => false,
                };
                if is_value {
                    self.expr(e);
                } else {
                    self.ty(t);
                }
            }
            Pattern::Var(n) => self.declare(*n),
            Pattern::Any => (),
            Pattern::Not(p) => self.pattern(p),
        }
    }

    fn args(&mut self, args: &[Arg]) {
        for a in args {
            self.expr(&a.expr);
        }
    }

    fn takes(m: &Method, skip: usize, args: &[Arg]) -> bool {
        let params = &m.params[skip..];
        let mut given = vec![false; params.len()];
        let variadic = params.last().is_some_and(|p| p.params);
        for (i, a) in args.iter().enumerate() {
            let at = match a.name {
                Some(n) => match params.iter().position(|p| p.name == n) {
                    Some(at) => at,
                    None => return false,
                },
                None if variadic && i >= params.len() - 1 => continue,
                None => i,
            };
            if at >= params.len() || given[at] || params[at].by_ref != a.by_ref {
                return false;
            }
            given[at] = true;
        }
        params.iter().zip(given).all(|(p, g)| g || p.default.is_some() || p.params)
    }

    fn ctor(&mut self, class: &Rc<Class>, args: &[Arg]) {
        let ctors = &self.w.table(class).ctors;
        let ok = if ctors.is_empty() { args.is_empty() } else { ctors.iter().any(|m| Self::takes(m, 0, args)) };
        if !ok {
            self.error(format!("`{}` has no constructor taking {} arguments", name(class.name), args.len()));
        }
    }

    fn has_native_base(&self, class: &Rc<Class>) -> bool {
        let targs: Vec<TypeId> = vec![OBJECT; class.tparams.len()];
        self.w.native_base(class, &targs).is_some()
    }

    /// A member of a class or its bases.
    fn find(&self, class: &Rc<Class>, n: Sym) -> Option<(Slot, Rc<Class>)> {
        let targs: Rc<[TypeId]> = vec![OBJECT; class.tparams.len()].into();
        self.w.member(class, &targs, n).map(|(slot, class, _)| (slot, class))
    }

    fn is_extension(&self, n: Sym) -> bool {
        self.w.extensions.borrow().contains_key(&n)
    }

    fn of_object(n: Sym) -> bool {
        matches!(n, s::ToString | s::Equals | s::GetHashCode | s::GetType | s::ReferenceEquals) || &*name(n) == "MemberwiseClone"
    }

    /// Returns what a name leads to if it is a type.
    fn static_type(&self, e: &Expr) -> Option<Result<NameRes, String>> {
        match &e.kind {
            E::Name(n, targs, _) => {
                if targs.is_empty() && self.locals.contains(n) {
                    return None;
                }
                match self.w.find_name(self.class, &self.mtparams, *n, targs.len()) {
                    Ok(NameRes::Member(_)) => None,
                    Ok(NameRes::None) => None,
                    res => Some(res),
                }
            }
            E::Type(t) => Some(self.w.resolve(t, self.class, &self.mtparams).map(NameRes::Type)),
            E::Member(of, n, targs) => match self.static_type(of)? {
                Ok(NameRes::Ns(ns)) => match self.w.find_in_ns(&ns, *n, targs.len()) {
                    Some(res) => Some(Ok(res)),
                    None => Some(Err(format!("`{}` does not exist in the namespace `{}`", name(*n), ns))),
                },
                Ok(NameRes::Type(Ty::Class(id, outer))) => {
                    let class = self.w.class(id);
                    let nested = class.nested.borrow().get(&(*n, targs.len())).copied();
                    nested.map(|id| Ok(NameRes::Type(Ty::Class(id, outer))))
                }
                Ok(_) => None,
                Err(e) => Some(Err(e)),
            },
            _ => None,
        }
    }

    fn call(&mut self, n: Sym, ms: &[Rc<Method>], args: &[Arg], owner: &Rc<Class>) {
        // Those of bases are overloads, too.
        let mut all: Vec<Rc<Method>> = ms.to_vec();
        let mut at = owner.clone();
        while let Some(Ty::Class(id, _)) = &self.w.table(&at).base.clone() {
            at = self.w.class(*id);
            if let Some(Slot::Methods(more)) = self.w.table(&at).members.get(&n) {
                all.extend(more.iter().cloned());
            }
        }
        let ext = self.w.extensions.borrow().get(&n).cloned().unwrap_or_default();
        if !all.iter().any(|m| Self::takes(m, 0, args)) && !ext.iter().any(|(_, m)| Self::takes(m, 1, args)) {
            self.error(format!("no overload of `{}` takes {} arguments", name(n), args.len()));
        }
    }

    /// A member accessed: returns methods, if it is a call to these.
    fn access(&mut self, of: &Expr, n: Sym) -> Option<(Rc<Vec<Rc<Method>>>, Rc<Class>)> {
        match &of.kind {
            E::This | E::Base => {
                if self.is_static {
                    self.error("`this` in a static member");
                }
                match self.find(&self.class.clone(), n) {
                    Some((Slot::Methods(ms), class)) => Some((ms, class)),
                    Some(_) => None,
                    None => {
                        if !Self::of_object(n) && !self.is_extension(n) && !self.has_native_base(&self.class.clone()) {
                            self.error(format!("`{}` has no member `{}`", name(self.class.name), name(n)));
                        }
                        None
                    }
                }
            }
            _ => match self.static_type(of) {
                Some(Ok(NameRes::Type(Ty::Class(id, _)))) => {
                    let class = self.w.class(id);
                    // A value may have the name of its type.
                    let also_value = matches!(&of.kind, E::Name(x, ..) if self.find(&self.class.clone(), *x).is_some());
                    match self.find(&class, n) {
                        Some((Slot::Methods(ms), class)) if !also_value => Some((ms, class)),
                        Some(_) => None,
                        None => {
                            if !also_value && !Self::of_object(n) && !class.nested.borrow().keys().any(|(x, _)| *x == n) {
                                self.error(format!("`{}` has no member `{}`", name(class.name), name(n)));
                            }
                            None
                        }
                    }
                }
                Some(Ok(NameRes::Ns(ns))) => {
                    self.error(format!("`{}` does not exist in the namespace `{}`", name(n), ns));
                    None
                }
                Some(Ok(NameRes::Type(ty))) if matches!(of.kind, E::Type(_)) || matches!(&of.kind, E::Name(x, ..) if !self.locals.contains(x) && self.find(&self.class.clone(), *x).is_none()) => {
                    match ty {
                        Ty::Prim(k) if !STATICS.contains(&&*name(n)) && k != K::Char => {
                            self.error(format!("a number or `bool` has no member `{}`", name(n)));
                        }
                        Ty::Param(_) | Ty::MParam(_) => self.error("a member of a type parameter is used"),
                        _ => (),
                    }
                    self.targs(of);
                    None
                }
                Some(Ok(_)) => {
                    self.targs(of);
                    None
                }
                Some(Err(e)) => {
                    self.error(e);
                    None
                }
                None => {
                    self.expr(of);
                    None
                }
            },
        }
    }

    fn targs(&mut self, e: &Expr) {
        match &e.kind {
            E::Name(_, targs, _) => targs.iter().for_each(|t| {
                self.ty(t);
            }),
            E::Member(of, _, targs) => {
                self.targs(of);
                targs.iter().for_each(|t| {
                    self.ty(t);
                });
            }
            _ => (),
        }
    }

    fn expr(&mut self, e: &Expr) {
        match &e.kind {
            E::Lit(_) | E::Hole | E::Nameof(_) | E::Default(None) | E::Type(_) => (),
            E::This | E::Base => {
                if self.is_static {
                    self.error("`this` in a static member");
                }
            }
            E::Name(n, targs, _) => {
                targs.iter().for_each(|t| {
                    self.ty(t);
                });
                if targs.is_empty() && self.locals.contains(n) || &*name(*n) == "_" {
                    return;
                }
                match self.w.find_name(self.class, &self.mtparams, *n, targs.len()) {
                    Ok(NameRes::Member(_)) => (),
                    Ok(NameRes::None) => {
                        let method = !targs.is_empty() && self.find(&self.class.clone(), *n).is_some();
                        if !method && !Self::of_object(*n) && !self.has_native_base(&self.class.clone()) {
                            self.error(format!("the name `{}` does not exist in the current context", name(*n)));
                        }
                    }
                    Ok(_) => self.error(format!("`{}` is a type or namespace but is used like a value", name(*n))),
                    Err(e) => self.error(e),
                }
            }
            E::Member(of, n, targs) => {
                targs.iter().for_each(|t| {
                    self.ty(t);
                });
                self.access(of, *n);
            }
            E::Cond(a, b) => {
                self.expr(a);
                self.expr(b);
            }
            E::Call(callee, args) => {
                match &callee.kind {
                    E::Name(n, targs, _) => {
                        targs.iter().for_each(|t| {
                            self.ty(t);
                        });
                        if !self.locals.contains(n) {
                            match self.w.find_name(self.class, &self.mtparams, *n, 0) {
                                Ok(NameRes::Member(c)) => {
                                    if let Some((Slot::Methods(ms), owner)) = self.find(&c, *n) {
                                        self.call(*n, &ms, args, &owner);
                                    }
                                }
                                Ok(_) => {
                                    if !Self::of_object(*n) && !self.has_native_base(&self.class.clone()) {
                                        self.error(format!("the name `{}` does not exist in the current context", name(*n)));
                                    }
                                }
                                Err(e) => self.error(e),
                            }
                        }
                    }
                    E::Member(of, n, targs) => {
                        targs.iter().for_each(|t| {
                            self.ty(t);
                        });
                        if let Some((ms, owner)) = self.access(of, *n) {
                            self.call(*n, &ms, args, &owner);
                        }
                    }
                    _ => self.expr(callee),
                }
                self.args(args);
            }
            E::Index(of, args) => {
                self.expr(of);
                self.args(args);
            }
            E::New(t, args, init) => {
                match self.ty(t) {
                    Some(Ty::Class(id, _)) => {
                        let class = self.w.class(id);
                        if class.kind != Kind::Class || class.is_static {
                            self.error(format!("cannot create an instance of `{}`", name(class.name)));
                        } else {
                            self.ctor(&class, args);
                        }
                    }
                    Some(Ty::Prim(_)) if !args.is_empty() => self.error("a number, `bool` or `char` is created from arguments"),
                    Some(Ty::Param(_) | Ty::MParam(_)) if !args.is_empty() => {
                        self.error("an instance of a type parameter is created from arguments")
                    }
                    _ => (),
                }
                self.args(args);
                for i in init {
                    match i {
                        Init::Set(_, e) => self.expr(e),
                        Init::Add(es) => es.iter().for_each(|e| self.expr(e)),
                        Init::At(k, v) => {
                            self.expr(k);
                            self.expr(v);
                        }
                    }
                }
            }
            E::NewArray(t, n, items) => {
                if let Some(t) = t {
                    self.ty(t);
                }
                n.iter().for_each(|e| self.expr(e));
                items.iter().flatten().for_each(|e| self.expr(e));
            }
            E::Unary(_, e) | E::Step(e, _, _) | E::Throw(e) => self.expr(e),
            E::Binary(_, a, b) | E::Assign(_, a, b) => {
                self.expr(a);
                self.expr(b);
            }
            E::Ternary(a, b, c) => {
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            E::Cast(t, e) | E::As(e, t) => {
                self.ty(t);
                self.expr(e);
            }
            E::Is(e, p) => {
                self.expr(e);
                self.pattern(p);
            }
            E::Typeof(t) => {
                self.ty(t);
            }
            E::Default(Some(t)) => {
                self.ty(t);
            }
            E::Lambda(l) => {
                let locals = self.locals.len();
                for (t, n) in &l.params {
                    if let Some(t) = t {
                        self.ty(t);
                    }
                    self.declare(*n);
                }
                self.body(&l.body);
                self.locals.truncate(locals);
            }
            E::Tuple(items) => items.iter().for_each(|(_, e)| self.expr(e)),
            E::Interp(parts) => parts.iter().filter_map(|p| p.1.as_ref()).for_each(|e| self.expr(e)),
            E::Decl(t, n) => {
                self.ty(t);
                self.declare(*n);
            }
            E::SwitchOn(e, arms) => {
                self.expr(e);
                for (p, when, out) in arms {
                    let locals = self.locals.len();
                    self.pattern(p);
                    when.iter().for_each(|e| self.expr(e));
                    self.expr(out);
                    self.locals.truncate(locals);
                }
            }
        }
    }
}
