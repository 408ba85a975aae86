//! What C# programs use of the class library.

use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

use super::{eval::*, load::*, syntax::*};

fn list_of(o: &Obj) -> Option<Vec<V>> {
    match &*o.nat.borrow() {
        Nat::List(items) => Some(items.clone()),
        _ => None,
    }
}

impl World {
    pub fn namespace_member(&self, ns: &str, n: Sym, arity: usize) -> Option<NameRes> {
        self.in_namespace(ns, n, arity).map(|(res, _)| res)
    }

    pub fn nat_object(&self, ty: TypeId, nat: Nat) -> V {
        V::Obj(Rc::new(Obj { ty, class: None, fields: Default::default(), nat: RefCell::new(nat) }))
    }

    fn pair(&self, key: V, value: V) -> V {
        let ty = self.native(s::KeyValuePair, &[self.type_of(&key), self.type_of(&value)]);
        self.nat_object(ty, Nat::Pair(key, value))
    }

    /// The list, array or dictionary behind a value.
    fn behind(&self, v: &V) -> V {
        match v {
            V::Obj(o) => match &*o.nat.borrow() {
                Nat::Wrap(inner) => self.behind(inner),
                _ => v.clone(),
            },
            _ => v.clone(),
        }
    }

    fn args_of(&self, ty: TypeId) -> Rc<[TypeId]> {
        match self.rt(ty) {
            Rt::Native(_, args) => args,
            Rt::Array(item) => [item].into(),
            _ => [].into(),
        }
    }

    // ------------------------------------------------------------ objects

    pub fn new_native(&self, ty: TypeId, args: &[ArgV]) -> R<V> {
        let Rt::Native(n, _) = self.rt(ty) else {
            return match self.rt(ty) {
                Rt::Prim(_) | Rt::Tuple(..) if args.is_empty() => Ok(self.default_of(ty)),
                _ => unsupported(format!("new {}", self.short_name(ty))),
            };
        };
        if is_interface(n) || matches!(n, s::Type | s::Console | s::Math | s::Array | s::Delegate | s::Enumerable) {
            return compile(format!("cannot create an instance of `{}`", self.short_name(ty)));
        }
        match n {
            s::Func | s::Action | s::EventHandler | s::Predicate | s::Comparison => match args {
                [a] if matches!(a.v, V::Fun(_)) => Ok(a.v.clone()),
                _ => compile("a delegate takes a method"),
            },
            s::KeyValuePair => match args {
                [k, v] => {
                    let of = self.args_of(ty);
                    let (k, v) = (self.coerce(k.v.clone(), of[0], || k.konst)?, self.coerce(v.v.clone(), of[1], || v.konst)?);
                    Ok(self.nat_object(ty, Nat::Pair(k, v)))
                }
                _ => unsupported("new KeyValuePair"),
            },
            s::String => match args {
                [a] => {
                    let text: String = self.items(&a.v)?.iter().map(char_of).collect();
                    Ok(V::Str((*text).into()))
                }
                [c, n] => match (&c.v, &n.v) {
                    (V::Int(K::Char, c), V::Int(_, n)) => {
                        let c = char::from_u32(*c as u32).unwrap_or('\u{fffd}');
                        let text: String = std::iter::repeat(c).take(*n as usize).collect();
                        Ok(V::Str((*text).into()))
                    }
                    _ => unsupported("new String"),
                },
                _ => unsupported("new String"),
            },
            _ => {
                let obj = Rc::new(Obj { ty, class: None, fields: Default::default(), nat: RefCell::new(Nat::None) });
                self.construct_native(ty, &obj, args)?;
                Ok(V::Obj(obj))
            }
        }
    }

    /// Sets up the part of an object which is its native base.
    pub fn construct_native(&self, ty: TypeId, obj: &Rc<Obj>, args: &[ArgV]) -> R<()> {
        let Rt::Native(n, of) = self.rt(ty) else { return unsupported("base") };
        let nat = match n {
            s::Object | s::EventArgs | s::Attribute => {
                if !args.is_empty() {
                    return compile(format!("`{}` takes no arguments", name(n)));
                }
                return Ok(());
            }
            s::List | s::HashSet | s::Stack | s::Queue => {
                if n != s::List {
                    return unsupported(format!("new {}", name(n)));
                }
                match args {
                    [] => Nat::List(vec![]),
                    [a] => match &a.v {
                        V::Int(..) => Nat::List(vec![]),
                        V::Null => return self.throw("ArgumentNullException", ""),
                        v => {
                            let mut items = Vec::new();
                            for item in self.items(v)? {
                                items.push(self.coerce(item, of[0], || false)?);
                            }
                            Nat::List(items)
                        }
                    },
                    _ => return compile("arguments of a list"),
                }
            }
            s::Dictionary => match args {
                [] => Nat::Dict(BTreeMap::new()),
                [a] => match &a.v {
                    V::Int(..) => Nat::Dict(BTreeMap::new()),
                    V::Null => return self.throw("ArgumentNullException", ""),
                    v => match self.behind(v) {
                        V::Obj(o) => match &*o.nat.borrow() {
                            Nat::Dict(d) => Nat::Dict(d.clone()),
                            _ => return unsupported("new Dictionary"),
                        },
                        _ => return unsupported("new Dictionary"),
                    },
                },
                _ => return unsupported("new Dictionary"),
            },
            s::ReadOnlyCollection | s::ReadOnlyDictionary => match args {
                [a] => match &a.v {
                    V::Null => return self.throw("ArgumentNullException", ""),
                    v => {
                        let want = self.native(if n == s::ReadOnlyCollection { s::IList } else { s::IDictionary }, &of);
                        Nat::Wrap(self.coerce(v.clone(), want, || false)?)
                    }
                },
                _ => return compile(format!("`{}` takes one argument", name(n))),
            },
            s::UTF8Encoding if args.len() < 2 => Nat::None,
            s::StringBuilder => Nat::Text(match args {
                [] => String::new(),
                [a] => match &a.v {
                    V::Str(x) => x.to_string(),
                    _ => String::new(),
                },
                _ => return unsupported("new StringBuilder"),
            }),
            _ if name(n).ends_with("Exception") => Nat::Text(match args.first().map(|a| &a.v) {
                None | Some(V::Null) => String::new(),
                Some(V::Str(x)) => x.to_string(),
                Some(_) => return unsupported("arguments of an exception"),
            }),
            _ => return unsupported(format!("new {}", self.short_name(ty))),
        };
        *obj.nat.borrow_mut() = nat;
        Ok(())
    }

    // ------------------------------------------------------------ enumeration

    pub fn items(&self, v: &V) -> R<Vec<V>> {
        match v {
            V::Null => self.null_ref(),
            V::Arr(a) => Ok(a.items.borrow().clone()),
            V::Str(x) => Ok(x.encode_utf16().map(|c| V::Int(K::Char, c as i64)).collect()),
            V::Obj(o) => {
                if let Some(class) = &o.class {
                    let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                    if let Some((Slot::Methods(_), ..)) = self.member(class, &targs, s::GetEnumerator) {
                        let found = self.call_method(v, s::GetEnumerator, &[])?;
                        return self.items(&found);
                    }
                }
                match &*o.nat.borrow() {
                    Nat::List(items) => Ok(items.clone()),
                    Nat::Dict(d) => Ok(d.values().map(|(k, v)| self.pair(k.clone(), v.clone())).collect()),
                    Nat::Wrap(inner) => self.items(inner),
                    Nat::Iter(items, at) => Ok(items[(at + 1).clamp(0, items.len() as i64) as usize..].to_vec()),
                    _ => compile(format!("`{}` cannot be enumerated", self.short_name(o.ty))),
                }
            }
            _ => compile(format!("`{}` cannot be enumerated", self.short_name(self.type_of(v)))),
        }
    }

    /// Calls a method from outside of any class.
    pub fn call_method(&self, this: &V, n: Sym, args: &[ArgV]) -> R<V> {
        let V::Obj(o) = this else { return unsupported("call") };
        let Some(class) = &o.class else { return unsupported("call") };
        let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
        match self.member(class, &targs, n) {
            Some((Slot::Methods(ms), class, targs)) => match self.call_group(&class, &targs, &ms, this, args, &[], &mut vec![])? {
                Some(v) => Ok(v),
                None => compile(format!("no overload of `{}` fits", name(n))),
            },
            _ => compile(format!("no method `{}`", name(n))),
        }
    }

    pub fn text(&self, v: &V) -> R<String> {
        Ok(match v {
            V::Null | V::Default => String::new(),
            V::Bool(b) => if *b { "True" } else { "False" }.into(),
            V::Int(K::Char, c) => char_of(&V::Int(K::Char, *c)).to_string(),
            V::Int(K::U64, n) => (*n as u64).to_string(),
            V::Int(_, n) => n.to_string(),
            V::Str(x) => x.to_string(),
            V::Enum(t, n) => {
                let (class, targs) = self.as_class(*t).expect("an enum");
                let st = self.statics(&class, &targs)?;
                let values = st.values.borrow();
                let found = values.iter().position(|x| matches!(x, V::Enum(_, m) if m == n));
                match found {
                    Some(i) => name(self.table(&class).statics[i].name).to_string(),
                    None => n.to_string(),
                }
            }
            V::Type(t) => self.full_name(*t),
            V::Tuple(t) => {
                let mut parts = Vec::new();
                for item in &t.items {
                    parts.push(self.text(item)?);
                }
                format!("({})", parts.join(", "))
            }
            V::Obj(o) => {
                if let Some(class) = &o.class {
                    let Rt::Class(_, targs) = self.rt(o.ty) else { unreachable!() };
                    if let Some((Slot::Methods(ms), ..)) = self.member(class, &targs, s::ToString) {
                        if ms.iter().any(|m| m.params.is_empty() && !m.is_static) {
                            let out = self.call_method(v, s::ToString, &[])?;
                            return self.text(&out);
                        }
                    }
                    return Ok(self.full_name(o.ty));
                }
                match &*o.nat.borrow() {
                    Nat::Text(x) if matches!(self.rt(o.ty), Rt::Native(s::StringBuilder, _)) => x.clone(),
                    Nat::Text(x) => format!("{}: {}", self.full_name(o.ty), x),
                    Nat::Pair(k, v) => format!("[{}, {}]", self.text(k)?, self.text(v)?),
                    _ => self.full_name(o.ty),
                }
            }
            V::Arr(_) | V::Fun(_) => self.full_name(self.type_of(v)),
        })
    }

    fn format(&self, args: &[ArgV]) -> R<String> {
        let Some(ArgV { v: V::Str(form), .. }) = args.first() else { return self.throw("ArgumentNullException", "") };
        let mut values: Vec<V> = args[1..].iter().map(|a| a.v.clone()).collect();
        if let [V::Arr(a)] = &values[..] {
            if !self.is_value_type(a.item) {
                let items = a.items.borrow().clone();
                values = items;
            }
        }
        let mut out = String::new();
        let mut c = form.chars().peekable();
        while let Some(ch) = c.next() {
            match ch {
                '{' if c.peek() == Some(&'{') => {
                    c.next();
                    out.push('{');
                }
                '}' if c.peek() == Some(&'}') => {
                    c.next();
                    out.push('}');
                }
                '{' => {
                    let mut inner = String::new();
                    loop {
                        match c.next() {
                            Some('}') => break,
                            Some(x) => inner.push(x),
                            None => return self.throw("FormatException", &**form),
                        }
                    }
                    let Ok(i) = inner.trim().parse::<usize>() else { return unsupported(format!("format {{{}}}", inner)) };
                    match values.get(i) {
                        Some(v) => out.push_str(&self.text(v)?),
                        None => return self.throw("FormatException", &**form),
                    }
                }
                '}' => return self.throw("FormatException", &**form),
                ch => out.push(ch),
            }
        }
        Ok(out)
    }

    // ------------------------------------------------------------ properties

    pub fn native_get(&self, v: &V, n: Sym) -> R<Option<V>> {
        let int = |n: usize| Ok(Some(V::Int(K::I32, n as i64)));
        match v {
            V::Str(x) => match n {
                s::Length => int(x.encode_utf16().count()),
                _ => unsupported(format!("String.{}", name(n))),
            },
            V::Arr(a) => match n {
                s::Length | s::Count => int(a.items.borrow().len()),
                s::LongLength => Ok(Some(V::Int(K::I64, a.items.borrow().len() as i64))),
                s::Rank => int(1),
                _ => unsupported(format!("Array.{}", name(n))),
            },
            V::Type(t) => match n {
                s::FullName => Ok(Some(V::Str((*self.full_name(*t)).into()))),
                s::IsValueType => Ok(Some(V::Bool(self.is_value_type(*t)))),
                s::IsEnum => Ok(Some(V::Bool(self.as_class(*t).is_some_and(|(c, _)| c.kind == Kind::Enum)))),
                s::Name => {
                    let full = self.full_name(*t);
                    let own = full.split('[').next().unwrap().to_string();
                    let own = own.rsplit(['.', '+']).next().unwrap().to_string();
                    let own = if matches!(self.rt(*t), Rt::Array(_)) { format!("{}[]", own) } else { own };
                    Ok(Some(V::Str((*own).into())))
                }
                s::IsInterface => Ok(Some(V::Bool(match self.rt(*t) {
                    Rt::Class(c, _) => self.class(c).kind == Kind::Interface,
                    Rt::Native(n, _) => is_interface(n),
                    _ => false,
                }))),
                s::IsGenericType => Ok(Some(V::Bool(match self.rt(*t) {
                    Rt::Class(_, a) | Rt::Native(_, a) => !a.is_empty(),
                    Rt::Nullable(_) | Rt::Tuple(..) => true,
                    _ => false,
                }))),
                _ => unsupported(format!("Type.{}", name(n))),
            },
            V::Obj(o) => {
                if let Nat::Wrap(inner) = &*o.nat.borrow() {
                    return match n {
                        s::Items | s::Dictionary => Ok(Some(inner.clone())),
                        s::Count | s::Keys | s::Values => self.native_get(inner, n),
                        _ if o.class.is_some() => Ok(None),
                        _ => unsupported(format!("{}.{}", self.short_name(o.ty), name(n))),
                    };
                }
                match &*o.nat.borrow() {
                    Nat::List(items) => match n {
                        s::Count => return int(items.len()),
                        s::Capacity => return int(items.len()),
                        _ => (),
                    },
                    Nat::Dict(d) => {
                        let of = self.args_of(o.ty);
                        match n {
                            s::Count => return int(d.len()),
                            s::Keys => return Ok(Some(self.new_list(of[0], d.values().map(|x| x.0.clone()).collect()))),
                            s::Values => return Ok(Some(self.new_list(of[1], d.values().map(|x| x.1.clone()).collect()))),
                            _ => (),
                        }
                    }
                    Nat::Pair(k, v) => match n {
                        s::Key => return Ok(Some(k.clone())),
                        s::Value => return Ok(Some(v.clone())),
                        _ => (),
                    },
                    Nat::Iter(items, at) if n == s::Current => match items.get(*at as usize) {
                        Some(v) => return Ok(Some(v.clone())),
                        None => return unsupported("an enumerator's `Current` at no item"),
                    },
                    Nat::Text(x) => match n {
                        s::Message => return Ok(Some(V::Str((**x).into()))),
                        s::InnerException => return Ok(Some(V::Null)),
                        s::Length => return int(x.encode_utf16().count()),
                        _ => (),
                    },
                    Nat::Ctor(_, m) | Nat::Method(_, m) if n == s::Name => return Ok(Some(V::Str(name(m.name)))),
                    _ if o.class.is_some() => return Ok(None),
                    _ => (),
                }
                unsupported(format!("{}.{}", self.short_name(o.ty), name(n)))
            }
            V::Fun(_) | V::Tuple(_) => unsupported(format!("property {}", name(n))),
            _ => Ok(None),
        }
    }

    pub fn native_set(&self, v: &V, n: Sym, _to: V) -> R<()> {
        match v {
            V::Obj(o) if o.class.is_some() => compile(format!("`{}` has no member `{}`", self.short_name(o.ty), name(n))),
            _ => unsupported(format!("assignment to {}", name(n))),
        }
    }

    pub fn native_knows(&self, _n: Sym) -> bool {
        true
    }

    // ------------------------------------------------------------ indexers

    fn index_of(&self, v: &V, len: usize, kind: &str) -> R<usize> {
        match v {
            V::Int(_, i) if *i >= 0 && (*i as u64) < len as u64 => Ok(*i as usize),
            V::Int(..) => self.throw(kind, ""),
            _ => compile("index which is no number"),
        }
    }

    pub fn native_index(&self, v: &V, args: &[ArgV]) -> R<V> {
        let [at] = args else { return compile("number of indices") };
        match v {
            V::Arr(a) => {
                let items = a.items.borrow();
                let i = self.index_of(&at.v, items.len(), "IndexOutOfRangeException")?;
                Ok(items[i].clone())
            }
            V::Str(x) => {
                let units: Vec<u16> = x.encode_utf16().collect();
                let i = self.index_of(&at.v, units.len(), "IndexOutOfRangeException")?;
                Ok(V::Int(K::Char, units[i] as i64))
            }
            V::Obj(o) => match &*o.nat.borrow() {
                Nat::List(items) => {
                    self.list_index(at)?;
                    let i = self.index_of(&at.v, items.len(), "ArgumentOutOfRangeException")?;
                    Ok(items[i].clone())
                }
                Nat::Dict(d) => {
                    let key = self.coerce(at.v.clone(), self.args_of(o.ty)[0], || at.konst)?;
                    match d.get(&self.hkey(&key)?) {
                        Some((_, v)) => Ok(v.clone()),
                        None => self.throw("KeyNotFoundException", self.text(&key)?),
                    }
                }
                Nat::Wrap(inner) => self.native_index(inner, args),
                _ => compile(format!("cannot index `{}`", self.short_name(o.ty))),
            },
            _ => compile("cannot apply indexing"),
        }
    }

    /// Lists are indexed by `int` only, unlike arrays.
    fn list_index(&self, at: &ArgV) -> R<()> {
        self.coerce(at.v.clone(), prim(K::I32), || at.konst).map(|_| ())
    }

    pub fn native_set_index(&self, v: &V, args: &[ArgV], to: V, konst: bool) -> R<()> {
        let [at] = args else { return compile("number of indices") };
        match v {
            V::Arr(a) => {
                let to = self.coerce(to, a.item, || konst)?;
                let mut items = a.items.borrow_mut();
                let i = self.index_of(&at.v, items.len(), "IndexOutOfRangeException")?;
                items[i] = to;
                Ok(())
            }
            V::Obj(o) => {
                let of = self.args_of(o.ty);
                match &mut *o.nat.borrow_mut() {
                    Nat::List(items) => {
                        self.list_index(at)?;
                        let to = self.coerce(to, of[0], || konst)?;
                        let i = self.index_of(&at.v, items.len(), "ArgumentOutOfRangeException")?;
                        items[i] = to;
                        Ok(())
                    }
                    Nat::Dict(d) => {
                        let key = self.coerce(at.v.clone(), of[0], || at.konst)?;
                        let to = self.coerce(to, of[1], || konst)?;
                        d.insert(self.hkey(&key)?, (key, to));
                        Ok(())
                    }
                    _ => compile(format!("the indexer of `{}` is read only", self.short_name(o.ty))),
                }
            }
            _ => compile("cannot apply indexing"),
        }
    }

    // ------------------------------------------------------------ methods

    pub fn native_call(&self, this: &V, n: Sym, args: &[ArgV], out: &mut Vec<(usize, V)>) -> R<Option<V>> {
        match (n, args) {
            (s::ToString, []) => return Ok(Some(V::Str((*self.text(this)?).into()))),
            (s::GetType, []) => return Ok(Some(V::Type(self.type_of(this)))),
            (s::Equals, [a]) => return Ok(Some(V::Bool(self.same(this, &a.v)))),
            (s::GetHashCode, []) => {
                let h = match self.hkey(this)? {
                    HKey::Int(n) => n as i32 as i64,
                    HKey::Str(x) => x.bytes().fold(0i32, |h, b| h.wrapping_mul(31).wrapping_add(b as i32)) as i64,
                    HKey::Ptr(p) => p as i32 as i64,
                };
                return Ok(Some(V::Int(K::I32, h)));
            }
            _ => (),
        }
        match this {
            V::Str(x) => self.text_call(x, n, args),
            V::Arr(a) => {
                let mut items = a.items.borrow().clone();
                self.list_like(this, &mut items, a.item, true, n, args)
            }
            V::Type(t) => self.type_call(*t, n, args),
            V::Int(_, x) => match (n, args) {
                (s::CompareTo, [ArgV { v: V::Int(_, y), .. }]) => Ok(Some(V::Int(K::I32, x.cmp(y) as i64))),
                (s::GetValueOrDefault, _) => Ok(Some(this.clone())),
                _ => Ok(None),
            },
            V::Bool(_) | V::Enum(..) if n == s::GetValueOrDefault => Ok(Some(this.clone())),
            V::Obj(o) => {
                let wrapped = match &*o.nat.borrow() {
                    Nat::Wrap(inner) => Some(inner.clone()),
                    _ => None,
                };
                if let Some(inner) = wrapped {
                    return match n {
                        s::ContainsKey | s::TryGetValue | s::Contains | s::IndexOf | s::CopyTo | s::GetEnumerator => {
                            self.native_call(&inner, n, args, out)
                        }
                        _ => Ok(None),
                    };
                }
                let is_dict = matches!(&*o.nat.borrow(), Nat::Dict(_));
                if is_dict {
                    self.dict_call(o, n, args, out)
                } else {
                    self.obj_call(this, o, n, args)
                }
            }
            _ => Ok(None),
        }
    }

    fn obj_call(&self, this: &V, o: &Rc<Obj>, n: Sym, args: &[ArgV]) -> R<Option<V>> {
        if let (Nat::Iter(items, at), []) = (&mut *o.nat.borrow_mut(), args) {
            match n {
                s::MoveNext => {
                    *at = (*at + 1).min(items.len() as i64);
                    return Ok(Some(V::Bool((*at as usize) < items.len())));
                }
                s::Reset => *at = -1,
                s::Dispose => (),
                _ => return Ok(None),
            }
            return Ok(Some(V::Null));
        }
        let is_list = matches!(&*o.nat.borrow(), Nat::List(_));
        if is_list {
            let item = self.args_of(o.ty)[0];
            // Arguments which enumerate the list itself are read first.
            if matches!(n, s::AddRange | s::InsertRange) {
                let Some(last) = args.last() else { return Ok(None) };
                let items = self.items(&last.v)?;
                let mut nat = o.nat.borrow_mut();
                let Nat::List(list) = &mut *nat else { unreachable!() };
                let at = match args {
                    [_] => list.len(),
                    [i, _] => match i.v {
                        V::Int(_, i) if i >= 0 && i as usize <= list.len() => i as usize,
                        _ => return self.throw("ArgumentOutOfRangeException", ""),
                    },
                    _ => return Ok(None),
                };
                for (k, v) in items.into_iter().enumerate() {
                    list.insert(at + k, self.coerce(v, item, || false)?);
                }
                return Ok(Some(V::Null));
            }
            // What they call may look at the list.
            if args.iter().any(|a| matches!(a.v, V::Fun(_))) {
                let mut items = match &*o.nat.borrow() {
                    Nat::List(items) => items.clone(),
                    _ => unreachable!(),
                };
                return self.list_like(this, &mut items, item, true, n, args);
            }
            let mut items = match &mut *o.nat.borrow_mut() {
                Nat::List(items) => std::mem::take(items),
                _ => unreachable!(),
            };
            let out = self.list_like(this, &mut items, item, false, n, args);
            *o.nat.borrow_mut() = Nat::List(items);
            return out;
        }
        let kind = match self.rt(o.ty) {
            Rt::Native(k, _) => k,
            _ => return Ok(None),
        };
        match kind {
            s::StringBuilder => {
                let more = match (n, args) {
                    (s::Append, [a]) => self.text(&a.v)?,
                    (s::AppendLine, []) => "\n".into(),
                    (s::AppendLine, [a]) => self.text(&a.v)? + "\n",
                    (s::AppendFormat, _) => self.format(args)?,
                    (s::Insert, [ArgV { v: V::Int(_, at), .. }, a]) => {
                        let more = self.text(&a.v)?;
                        let mut nat = o.nat.borrow_mut();
                        let Nat::Text(x) = &mut *nat else { unreachable!() };
                        if *at < 0 || !x.is_char_boundary(*at as usize) {
                            return self.throw("ArgumentOutOfRangeException", "");
                        }
                        x.insert_str(*at as usize, &more);
                        return Ok(Some(this.clone()));
                    }
                    (s::Clear, []) => {
                        *o.nat.borrow_mut() = Nat::Text(String::new());
                        return Ok(Some(this.clone()));
                    }
                    _ => return Ok(None),
                };
                if let Nat::Text(x) = &mut *o.nat.borrow_mut() {
                    x.push_str(&more);
                }
                Ok(Some(this.clone()))
            }
            s::Console if matches!(n, s::WriteLine | s::Write) => {
                if args.len() > 1 {
                    self.format(args)?;
                } else if let [a] = args {
                    self.text(&a.v)?;
                }
                Ok(Some(V::Null))
            }
            s::Encoding | s::UTF8Encoding => match (n, args) {
                (s::GetString, [a, rest @ ..]) => {
                    let items = match &a.v {
                        V::Null => return self.throw("ArgumentNullException", ""),
                        v => self.items(v)?,
                    };
                    let items = match rest {
                        [] => &items[..],
                        [ArgV { v: V::Int(_, at), .. }, ArgV { v: V::Int(_, n), .. }] => {
                            if *at < 0 || *n < 0 || (at + n) as usize > items.len() {
                                return self.throw("ArgumentOutOfRangeException", "");
                            }
                            &items[*at as usize..(at + n) as usize]
                        }
                        _ => return Ok(None),
                    };
                    let bytes: Vec<u8> = items.iter().map(byte_of).collect();
                    let wide = |order: fn([u8; 2]) -> u16| {
                        let units: Vec<u16> = bytes.chunks(2).map(|b| if b.len() < 2 { 0xfffd } else { order([b[0], b[1]]) }).collect();
                        String::from_utf16_lossy(&units)
                    };
                    let text = match &*o.nat.borrow() {
                        Nat::Text(kind) => match &**kind {
                            "ASCII" => bytes.iter().map(|b| if *b < 128 { *b as char } else { '?' }).collect(),
                            "Latin1" => bytes.iter().map(|b| *b as char).collect(),
                            "Unicode" => wide(u16::from_le_bytes),
                            _ => wide(u16::from_be_bytes),
                        },
                        _ => String::from_utf8_lossy(&bytes).to_string(),
                    };
                    Ok(Some(V::Str((*text).into())))
                }
                (s::GetBytes, [ArgV { v: V::Str(x), .. }]) => {
                    let bytes: Vec<u8> = match &*o.nat.borrow() {
                        Nat::Text(kind) => match &**kind {
                            "ASCII" => x.encode_utf16().map(|u| if u < 128 { u as u8 } else { b'?' }).collect(),
                            "Latin1" => x.encode_utf16().map(|u| if u < 256 { u as u8 } else { b'?' }).collect(),
                            "Unicode" => x.encode_utf16().flat_map(u16::to_le_bytes).collect(),
                            _ => x.encode_utf16().flat_map(u16::to_be_bytes).collect(),
                        },
                        _ => x.as_bytes().to_vec(),
                    };
                    Ok(Some(self.bytes(&bytes)))
                }
                _ => Ok(None),
            },
            s::ConstructorInfo | s::MethodInfo if n == s::Invoke => {
                let target = match &*o.nat.borrow() {
                    Nat::Ctor(t, m) => (*t, m.clone(), true),
                    Nat::Method(t, m) => (*t, m.clone(), false),
                    _ => return Ok(None),
                };
                let list = match args.last().map(|a| &a.v) {
                    Some(V::Arr(a)) => a.items.borrow().clone(),
                    Some(V::Null) => vec![],
                    _ => return Ok(None),
                };
                let (ty, m, is_ctor) = target;
                if list.len() != m.params.len() {
                    return self.throw("TargetParameterCountException", "");
                }
                let list: Vec<ArgV> = list.into_iter().map(ArgV::plain).collect();
                let run = if is_ctor {
                    self.new_object(ty, &list)
                } else {
                    let (class, targs) = self.as_class(ty).expect("a class");
                    let this = if m.is_static { V::Null } else { args[0].v.clone() };
                    self.call_group(&class, &targs, &[m], &this, &list, &[], &mut vec![]).and_then(|v| match v {
                        Some(v) => Ok(v),
                        None => self.throw("ArgumentException", ""),
                    })
                };
                match run {
                    Ok(v) => Ok(Some(v)),
                    Err(Err::Throw(v)) => self.throw("TargetInvocationException", self.text(&v)?),
                    Err(e) => Err(e),
                }
            }
            _ => Ok(None),
        }
    }

    pub fn bytes(&self, bytes: &[u8]) -> V {
        let items = bytes.iter().map(|b| V::Int(K::Byte, *b as i64)).collect();
        V::Arr(Rc::new(Arr { item: prim(K::Byte), items: RefCell::new(items) }))
    }

    fn list_like(&self, this: &V, items: &mut Vec<V>, item: TypeId, fixed: bool, n: Sym, args: &[ArgV]) -> R<Option<V>> {
        let own = |a: &ArgV| self.coerce(a.v.clone(), item, || a.konst);
        let at = |a: &ArgV, len: usize| -> R<usize> {
            match a.v {
                V::Int(_, i) if i >= 0 && (i as usize) < len => Ok(i as usize),
                V::Int(..) => self.throw("ArgumentOutOfRangeException", ""),
                _ => compile("an index which is no number"),
            }
        };
        let truth = |f: &V, x: &V| -> R<bool> {
            match f {
                V::Fun(f) => match self.call_fun(f, vec![x.clone()])? {
                    V::Bool(b) => Ok(b),
                    _ => compile("predicate"),
                },
                _ => self.throw("ArgumentNullException", ""),
            }
        };
        let int = |n: i64| Some(V::Int(K::I32, n));
        let _ = this;
        Ok(match (n, args) {
            (s::Contains, [a]) => {
                let a = own(a)?;
                Some(V::Bool(items.iter().any(|x| self.same(x, &a))))
            }
            (s::IndexOf, [a]) => {
                let a = own(a)?;
                int(items.iter().position(|x| self.same(x, &a)).map_or(-1, |i| i as i64))
            }
            (s::ToArray, []) if !fixed => Some(V::Arr(Rc::new(Arr { item, items: RefCell::new(items.clone()) }))),
            (s::Clone, []) if fixed => Some(V::Arr(Rc::new(Arr { item, items: RefCell::new(items.clone()) }))),
            (s::GetEnumerator, []) => Some(self.enumerator(item, items.clone())),
            (s::CopyTo, [ArgV { v: V::Arr(to), .. }, ArgV { v: V::Int(_, from), .. }]) => {
                let mut to = to.items.borrow_mut();
                if *from < 0 || *from as usize + items.len() > to.len() {
                    return self.throw("ArgumentException", "");
                }
                for (i, x) in items.iter().enumerate() {
                    to[*from as usize + i] = x.clone();
                }
                Some(V::Null)
            }
            (s::Find, [f]) => {
                for x in items.iter() {
                    if truth(&f.v, x)? {
                        return Ok(Some(x.clone()));
                    }
                }
                Some(self.default_of(item))
            }
            (s::FindIndex, [f]) => {
                for (i, x) in items.iter().enumerate() {
                    if truth(&f.v, x)? {
                        return Ok(int(i as i64));
                    }
                }
                int(-1)
            }
            (s::Exists, [f]) => {
                for x in items.iter() {
                    if truth(&f.v, x)? {
                        return Ok(Some(V::Bool(true)));
                    }
                }
                Some(V::Bool(false))
            }
            (s::ForEach, [ArgV { v: V::Fun(f), .. }]) => {
                for x in items.iter() {
                    self.call_fun(f, vec![x.clone()])?;
                }
                Some(V::Null)
            }
            _ if fixed => None,
            (s::Add, [a]) => {
                items.push(own(a)?);
                Some(V::Null)
            }
            (s::Insert, [i, a]) => {
                let i = at(i, items.len() + 1)?;
                items.insert(i, own(a)?);
                Some(V::Null)
            }
            (s::Remove, [a]) => {
                let a = own(a)?;
                let found = items.iter().position(|x| self.same(x, &a));
                if let Some(i) = found {
                    items.remove(i);
                }
                Some(V::Bool(found.is_some()))
            }
            (s::RemoveAt, [i]) => {
                let i = at(i, items.len())?;
                items.remove(i);
                Some(V::Null)
            }
            (s::RemoveRange, [i, ArgV { v: V::Int(_, n), .. }]) => {
                let i = at(i, items.len() + 1)?;
                if *n < 0 || i + *n as usize > items.len() {
                    return self.throw("ArgumentException", "");
                }
                items.drain(i..i + *n as usize);
                Some(V::Null)
            }
            (s::GetRange, [i, ArgV { v: V::Int(_, n), .. }]) => {
                let i = at(i, items.len() + 1)?;
                if *n < 0 || i + *n as usize > items.len() {
                    return self.throw("ArgumentException", "");
                }
                Some(self.new_list(item, items[i..i + *n as usize].to_vec()))
            }
            (s::Clear, []) => {
                items.clear();
                Some(V::Null)
            }
            (s::Reverse, []) => {
                items.reverse();
                Some(V::Null)
            }
            (s::AsReadOnly, []) => {
                let ty = self.native(s::ReadOnlyCollection, &[item]);
                Some(self.nat_object(ty, Nat::Wrap(this.clone())))
            }
            _ => None,
        })
    }

    fn dict_call(&self, o: &Rc<Obj>, n: Sym, args: &[ArgV], out: &mut Vec<(usize, V)>) -> R<Option<V>> {
        let of = self.args_of(o.ty);
        let mut nat = o.nat.borrow_mut();
        let Nat::Dict(d) = &mut *nat else { unreachable!() };
        let key = |a: &ArgV| -> R<(HKey, V)> {
            let v = self.coerce(a.v.clone(), of[0], || a.konst)?;
            Ok((self.hkey(&v)?, v))
        };
        Ok(match (n, args) {
            (s::ContainsKey, [k]) => Some(V::Bool(d.contains_key(&key(k)?.0))),
            (s::TryGetValue, [k, _]) => {
                let found = d.get(&key(k)?.0).map(|x| x.1.clone());
                let is = found.is_some();
                out.push((1, found.unwrap_or_else(|| self.default_of(of[1]))));
                Some(V::Bool(is))
            }
            (s::Add | s::TryAdd, [k, v]) => {
                let (h, k) = key(k)?;
                let v = self.coerce(v.v.clone(), of[1], || v.konst)?;
                if d.contains_key(&h) {
                    if n == s::Add {
                        return self.throw("ArgumentException", "");
                    }
                    return Ok(Some(V::Bool(false)));
                }
                d.insert(h, (k, v));
                Some(if n == s::Add { V::Null } else { V::Bool(true) })
            }
            (s::GetEnumerator, []) => {
                let of = self.args_of(o.ty);
                let items = d.values().map(|(k, v)| self.pair(k.clone(), v.clone())).collect();
                Some(self.enumerator(self.native(s::KeyValuePair, &of), items))
            }
            (s::Remove, [k]) => Some(V::Bool(d.remove(&key(k)?.0).is_some())),
            (s::Clear, []) => {
                d.clear();
                Some(V::Null)
            }
            _ => None,
        })
    }

    fn text_call(&self, x: &Rc<str>, n: Sym, args: &[ArgV]) -> R<Option<V>> {
        let arg = |i: usize| match args.get(i).map(|a| &a.v) {
            Some(V::Str(y)) => Some(y.to_string()),
            Some(c @ V::Int(K::Char, _)) => Some(char_of(c).to_string()),
            _ => None,
        };
        let text = |t: String| Ok(Some(V::Str((*t).into())));
        match (n, args.len()) {
            (s::StartsWith, 1) => Ok(arg(0).map(|y| V::Bool(x.starts_with(&*y)))),
            (s::EndsWith, 1) => Ok(arg(0).map(|y| V::Bool(x.ends_with(&*y)))),
            (s::Contains, 1) => Ok(arg(0).map(|y| V::Bool(x.contains(&*y)))),
            (s::ToUpper, 0) => text(x.to_uppercase()),
            (s::ToLower, 0) => text(x.to_lowercase()),
            (s::Trim, 0) => text(x.trim().to_string()),
            (s::Replace, 2) => match (arg(0), arg(1)) {
                (Some(a), Some(b)) => text(x.replace(&*a, &b)),
                _ => Ok(None),
            },
            (s::IndexOf, 1) => Ok(arg(0).map(|y| V::Int(K::I32, x.find(&*y).map_or(-1, |i| x[..i].encode_utf16().count() as i64)))),
            (s::Substring, 1 | 2) => {
                let units: Vec<u16> = x.encode_utf16().collect();
                let (V::Int(_, at), n) = (&args[0].v, args.get(1).map(|a| &a.v)) else { return Ok(None) };
                let end = match n {
                    Some(V::Int(_, n)) => at + n,
                    None => units.len() as i64,
                    _ => return Ok(None),
                };
                if *at < 0 || end < *at || end as usize > units.len() {
                    return self.throw("ArgumentOutOfRangeException", "");
                }
                text(String::from_utf16_lossy(&units[*at as usize..end as usize]))
            }
            (s::CompareTo, 1) => Ok(arg(0).map(|y| V::Int(K::I32, (**x).cmp(&*y) as i64))),
            (s::GetEnumerator, 0) => Ok(Some(self.enumerator(prim(K::Char), self.items(&V::Str(x.clone()))?))),
            (s::ToCharArray, 0) => {
                let items = self.items(&V::Str(x.clone()))?;
                Ok(Some(V::Arr(Rc::new(Arr { item: prim(K::Char), items: RefCell::new(items) }))))
            }
            _ => Ok(None),
        }
    }

    fn types_in(&self, v: &V) -> R<Vec<TypeId>> {
        let mut out = Vec::new();
        for t in self.items(v)? {
            match t {
                V::Type(t) => out.push(t),
                _ => return self.throw("ArgumentNullException", ""),
            }
        }
        Ok(out)
    }

    fn type_call(&self, t: TypeId, n: Sym, args: &[ArgV]) -> R<Option<V>> {
        match (n, args) {
            (s::IsAssignableFrom, [ArgV { v: V::Type(u), .. }]) => Ok(Some(V::Bool(self.is_a(*u, t)))),
            (s::IsAssignableFrom, [ArgV { v: V::Null, .. }]) => Ok(Some(V::Bool(false))),
            (s::IsSubclassOf, [ArgV { v: V::Type(u), .. }]) => Ok(Some(V::Bool(*u != t && self.is_a(t, *u)))),
            (s::GetConstructor, [a]) => {
                let want = self.types_in(&a.v)?;
                let Some((class, targs)) = self.as_class(t) else { return unsupported("constructors of a native type") };
                let ty = self.native(s::ConstructorInfo, &[]);
                let found = self.find_exact(&class, &targs, &self.table(&class).ctors, &want)?;
                Ok(Some(found.map_or(V::Null, |m| self.nat_object(ty, Nat::Ctor(t, m)))))
            }
            (s::GetMethod, [ArgV { v: V::Str(n), .. }, rest @ ..]) => {
                let Some((class, targs)) = self.as_class(t) else { return unsupported("methods of a native type") };
                // Static ones of bases aren't found.
                let Some(Slot::Methods(ms)) = self.table(&class).members.get(&sym(n)).cloned() else {
                    return Ok(Some(V::Null));
                };
                let found = match rest {
                    [] => {
                        let public: Vec<_> = ms.iter().filter(|m| m.is_public).collect();
                        match public[..] {
                            [] => None,
                            [m] => Some(m.clone()),
                            _ => return self.throw("AmbiguousMatchException", &**n),
                        }
                    }
                    [a] if matches!(a.v, V::Arr(_)) => {
                        let want = self.types_in(&a.v)?;
                        self.find_exact(&class, &targs, &ms, &want)?
                    }
                    _ => return unsupported("GetMethod"),
                };
                let ty = self.native(s::MethodInfo, &[]);
                Ok(Some(found.map_or(V::Null, |m| self.nat_object(ty, Nat::Method(t, m)))))
            }
            (s::GetGenericArguments, []) => {
                let list: Vec<V> = match self.rt(t) {
                    Rt::Class(_, a) | Rt::Native(_, a) => a.iter().map(|t| V::Type(*t)).collect(),
                    _ => vec![],
                };
                Ok(Some(V::Arr(Rc::new(Arr { item: TYPE, items: RefCell::new(list) }))))
            }
            _ => Ok(None),
        }
    }

    fn find_exact(&self, class: &Rc<Class>, targs: &Rc<[TypeId]>, ms: &[Rc<Method>], want: &[TypeId]) -> R<Option<Rc<Method>>> {
        // Exact ones first, then those which would take such values.
        for exact in [true, false] {
            'find: for m in ms {
                if !m.is_public || m.params.len() != want.len() || !m.tparams.is_empty() {
                    continue;
                }
                for (p, want) in m.params.iter().zip(want) {
                    let ty = self.resolve(&p.ty, class, &[]).map_err(Err::Compile)?;
                    let ty = self.close(&ty, targs, &[]);
                    if ty != *want && (exact || !self.is_a(*want, ty)) {
                        continue 'find;
                    }
                }
                return Ok(Some(m.clone()));
            }
        }
        Ok(None)
    }

    // ------------------------------------------------------------ static members

    pub fn native_has_static(&self, ty: TypeId, n: Sym) -> bool {
        match self.rt(ty) {
            Rt::Native(s::String, _) => matches!(n, s::Format | s::Join | s::Concat | s::IsNullOrEmpty | s::IsNullOrWhiteSpace | s::Empty),
            Rt::Prim(_) => matches!(n, s::MaxValue | s::MinValue | s::Parse | s::TryParse),
            _ => false,
        }
    }

    pub fn native_static_get(&self, ty: TypeId, n: Sym) -> R<V> {
        match (self.rt(ty), n) {
            (Rt::Native(s::String, _), s::Empty) => Ok(V::Str("".into())),
            (Rt::Native(s::Encoding, _), n) => match &*name(n) {
                "UTF8" | "Default" => Ok(self.nat_object(ty, Nat::None)),
                kind @ ("ASCII" | "Unicode" | "BigEndianUnicode" | "Latin1") => Ok(self.nat_object(ty, Nat::Text(kind.into()))),
                other => unsupported(format!("Encoding.{}", other)),
            },
            (Rt::Native(s::Console, _), s::Error | s::Out) => Ok(self.nat_object(ty, Nat::None)),
            (Rt::Native(s::EventArgs, _), s::Empty) => Ok(self.nat_object(ty, Nat::None)),
            (Rt::Prim(k), s::MaxValue) => Ok(V::Int(
                k,
                match k {
                    K::Bool => return compile("`MaxValue` of a boolean"),
                    K::Byte => u8::MAX as i64,
                    K::SByte => i8::MAX as i64,
                    K::Char | K::U16 => u16::MAX as i64,
                    K::I16 => i16::MAX as i64,
                    K::U32 => u32::MAX as i64,
                    K::I32 => i32::MAX as i64,
                    K::U64 => u64::MAX as i64,
                    K::I64 => i64::MAX,
                },
            )),
            (Rt::Prim(k), s::MinValue) => Ok(V::Int(
                k,
                match k {
                    K::Bool => return compile("`MinValue` of a boolean"),
                    K::SByte => i8::MIN as i64,
                    K::I16 => i16::MIN as i64,
                    K::I32 => i32::MIN as i64,
                    K::I64 => i64::MIN,
                    _ => 0,
                },
            )),
            _ => unsupported(format!("{}.{}", self.short_name(ty), name(n))),
        }
    }

    pub fn native_static(&self, ty: TypeId, n: Sym, args: &[ArgV], given: &[TypeId], out: &mut Vec<(usize, V)>) -> R<V> {
        let text = |t: String| Ok(V::Str((*t).into()));
        let of = self.rt(ty);
        let Rt::Native(class, _) = of else {
            return match (n, args) {
                (s::Parse, [ArgV { v: V::Str(x), .. }]) => match (self.rt(ty), x.parse::<i128>()) {
                    (Rt::Prim(k), Ok(n)) if k != K::Bool && wrap_int(k, n as i64) as i128 == n => Ok(V::Int(k, n as i64)),
                    _ => self.throw("FormatException", &**x),
                },
                _ => unsupported(format!("{}.{}", self.short_name(ty), name(n))),
            };
        };
        let _ = out;
        match (class, n, args) {
            (s::String, s::Format, _) => text(self.format(args)?),
            (s::String, s::Concat, _) => {
                let mut all = String::new();
                let items = match args {
                    [a] if !matches!(a.v, V::Str(_)) => self.items(&a.v)?,
                    _ => args.iter().map(|a| a.v.clone()).collect(),
                };
                for v in items {
                    all.push_str(&self.text(&v)?);
                }
                text(all)
            }
            (s::String, s::Join, [sep, rest @ ..]) => {
                let items = match rest {
                    [a] if !matches!(a.v, V::Str(_)) => self.items(&a.v)?,
                    _ => rest.iter().map(|a| a.v.clone()).collect(),
                };
                let mut parts = Vec::new();
                for v in items {
                    parts.push(self.text(&v)?);
                }
                text(parts.join(&self.text(&sep.v)?))
            }
            (s::String, s::IsNullOrEmpty, [a]) => Ok(V::Bool(match &a.v {
                V::Null | V::Default => true,
                V::Str(x) => x.is_empty(),
                _ => return compile("argument of `IsNullOrEmpty`"),
            })),
            (s::Object | s::String, s::Equals | s::ReferenceEquals, [a, b]) => Ok(V::Bool(self.same(&a.v, &b.v))),
            (s::Math, s::Min | s::Max, [a, b]) => {
                let less = matches!(self.arith("<", &a.v, &b.v, a.konst, b.konst)?, V::Bool(true));
                let sum = self.arith("+", &a.v, &b.v, a.konst, b.konst)?;
                let k = match sum {
                    V::Int(k, _) => k,
                    _ => return compile("arguments of `Math`"),
                };
                let pick = if less == (n == s::Min) { &a.v } else { &b.v };
                match pick {
                    V::Int(_, x) => Ok(V::Int(k, *x)),
                    _ => compile("arguments of `Math`"),
                }
            }
            (s::Math, s::Abs, [ArgV { v: V::Int(k, x), .. }]) => Ok(V::Int(*k, x.wrapping_abs())),
            (s::Array, s::Empty, []) => {
                let item = given.first().copied().unwrap_or(OBJECT);
                Ok(V::Arr(Rc::new(Arr { item, items: Default::default() })))
            }
            (s::Array, s::AsReadOnly, [a]) => {
                let V::Arr(arr) = &a.v else { return self.throw("ArgumentNullException", "") };
                let ty = self.native(s::ReadOnlyCollection, &[arr.item]);
                Ok(self.nat_object(ty, Nat::Wrap(a.v.clone())))
            }
            (s::Array, s::IndexOf, [a, b]) => {
                let items = self.items(&a.v)?;
                Ok(V::Int(K::I32, items.iter().position(|x| self.same(x, &b.v)).map_or(-1, |i| i as i64)))
            }
            (s::Array, s::Reverse, [ArgV { v: V::Arr(a), .. }]) => {
                a.items.borrow_mut().reverse();
                Ok(V::Null)
            }
            (s::Array, s::Copy, [ArgV { v: V::Arr(from), .. }, ArgV { v: V::Arr(to), .. }, ArgV { v: V::Int(_, n), .. }]) => self.copy(from, 0, to, 0, *n),
            (s::Array | s::Buffer, s::Copy | s::BlockCopy, [ArgV { v: V::Arr(from), .. }, ArgV { v: V::Int(_, i), .. }, ArgV { v: V::Arr(to), .. }, ArgV { v: V::Int(_, j), .. }, ArgV { v: V::Int(_, n), .. }]) => {
                if class == s::Buffer && from.item != prim(K::Byte) {
                    return unsupported("Buffer.BlockCopy");
                }
                self.copy(from, *i, to, *j, *n)
            }
            (s::Console, s::WriteLine | s::Write, _) => {
                let line = match args {
                    [] => String::new(),
                    [a] => self.text(&a.v)?,
                    _ => self.format(args)?,
                };
                if let Some(out) = &mut *self.out.borrow_mut() {
                    out.push(line);
                }
                Ok(V::Null)
            }
            (s::Activator, s::CreateInstance, []) => match given {
                [t] => self.new_object(*t, &[]),
                _ => compile("type arguments"),
            },
            (s::Activator, s::CreateInstance, [ArgV { v: V::Type(t), .. }, rest @ ..]) => {
                let rest: Vec<ArgV> = match rest {
                    [ArgV { v: V::Arr(a), .. }] => a.items.borrow().iter().map(|v| ArgV::plain(v.clone())).collect(),
                    _ => rest.iter().map(|a| ArgV::plain(a.v.clone())).collect(),
                };
                match self.new_object(*t, &rest) {
                    Err(Err::Compile(e)) => self.throw("MissingMethodException", e),
                    Err(Err::Throw(v)) => self.throw("TargetInvocationException", self.text(&v)?),
                    v => v,
                }
            }
            (s::Enumerable, s::Empty, []) => Ok(self.new_list(given.first().copied().unwrap_or(OBJECT), vec![])),
            (s::Enumerable, s::Range, [ArgV { v: V::Int(_, i), .. }, ArgV { v: V::Int(_, n), .. }]) => {
                Ok(self.new_list(prim(K::I32), (*i..i + n).map(|x| V::Int(K::I32, x)).collect()))
            }
            (s::Enumerable, s::Repeat, [a, ArgV { v: V::Int(_, n), .. }]) => {
                Ok(self.new_list(self.type_of(&a.v), (0..*n).map(|_| a.v.clone()).collect()))
            }
            (s::Enumerable, _, [this, rest @ ..]) => {
                let rest: Vec<ArgV> = rest.iter().map(|a| ArgV::plain(a.v.clone())).collect();
                match self.linq(&this.v, n, &rest, given)? {
                    Some(v) => Ok(v),
                    None => unsupported(format!("Enumerable.{}", name(n))),
                }
            }
            _ => unsupported(format!("{}.{}", self.short_name(ty), name(n))),
        }
    }

    fn copy(&self, from: &Rc<Arr>, i: i64, to: &Rc<Arr>, j: i64, n: i64) -> R<V> {
        let items = from.items.borrow().clone();
        let mut target = to.items.borrow_mut();
        if i < 0 || j < 0 || n < 0 || (i + n) as usize > items.len() || (j + n) as usize > target.len() {
            return self.throw("ArgumentException", "");
        }
        for k in 0..n as usize {
            target[j as usize + k] = items[i as usize + k].clone();
        }
        Ok(V::Null)
    }

    // ------------------------------------------------------------ LINQ

    fn enumerator(&self, item: TypeId, items: Vec<V>) -> V {
        self.nat_object(self.native(s::IEnumerator, &[item]), Nat::Iter(items, -1))
    }

    pub fn is_open(&self, ty: TypeId) -> bool {
        matches!(self.rt(ty), Rt::Native(s::List, of) if of[0] == VOID)
    }

    /// A list of whatever type is wanted of it.
    fn open_list(&self, items: Vec<V>) -> V {
        self.new_list(VOID, items)
    }

    pub fn linq(&self, this: &V, n: Sym, args: &[ArgV], given: &[TypeId]) -> R<Option<V>> {
        let items = match this {
            V::Obj(_) | V::Arr(_) | V::Str(_) => match self.items(this) {
                Ok(items) => items,
                Err(Err::Compile(_)) => return Ok(None),
                Err(e) => return Err(e),
            },
            _ => return Ok(None),
        };
        let item = match (self.args_of(self.type_of(this)).as_ref(), this) {
            ([t], _) => *t,
            (_, V::Str(_)) => prim(K::Char),
            _ => {
                let found = self.supers(self.type_of(this)).iter().find_map(|t| match self.rt(*t) {
                    Rt::Native(s::IEnumerable, of) if of.len() == 1 => Some(of[0]),
                    _ => None,
                });
                found.unwrap_or(VOID)
            }
        };
        let call = |f: &V, list: Vec<V>| -> R<V> {
            match f {
                V::Fun(f) => self.call_fun(f, list),
                _ => self.throw("ArgumentNullException", ""),
            }
        };
        let truth = |f: &V, x: &V| -> R<bool> {
            match call(f, vec![x.clone()])? {
                V::Bool(b) => Ok(b),
                _ => compile("predicate"),
            }
        };
        let list = |items: Vec<V>| Ok(Some(self.new_list(item, items)));
        let open = |items: Vec<V>| Ok(Some(self.open_list(items)));
        match (n, args) {
            (s::ToList, []) => list(items),
            (s::ToArray, []) => {
                let item = match (item, items.first()) {
                    (VOID, Some(x)) => self.type_of(x),
                    (VOID, None) => return unsupported("array of an unknown type"),
                    (t, _) => t,
                };
                Ok(Some(V::Arr(Rc::new(Arr { item, items: RefCell::new(items) }))))
            }
            (s::Select, [f]) => {
                let mut out = Vec::new();
                for (i, x) in items.into_iter().enumerate() {
                    let both = matches!(&f.v, V::Fun(fun) if matches!(&**fun, Fun::Lambda(l, _) if l.params.len() == 2));
                    out.push(call(&f.v, if both { vec![x, V::Int(K::I32, i as i64)] } else { vec![x] })?);
                }
                open(out)
            }
            (s::Where, [f]) => {
                let mut out = Vec::new();
                for x in items {
                    if truth(&f.v, &x)? {
                        out.push(x);
                    }
                }
                list(out)
            }
            (s::Any, []) => Ok(Some(V::Bool(!items.is_empty()))),
            (s::Any, [f]) => {
                for x in &items {
                    if truth(&f.v, x)? {
                        return Ok(Some(V::Bool(true)));
                    }
                }
                Ok(Some(V::Bool(false)))
            }
            (s::All, [f]) => {
                for x in &items {
                    if !truth(&f.v, x)? {
                        return Ok(Some(V::Bool(false)));
                    }
                }
                Ok(Some(V::Bool(true)))
            }
            (s::Count, []) => Ok(Some(V::Int(K::I32, items.len() as i64))),
            (s::First | s::FirstOrDefault, rest) if rest.len() < 2 => {
                for x in items {
                    if rest.is_empty() || truth(&rest[0].v, &x)? {
                        return Ok(Some(x));
                    }
                }
                if n == s::First {
                    return self.throw("InvalidOperationException", "");
                }
                Ok(Some(V::Default))
            }
            (s::Last | s::LastOrDefault, []) => match items.last() {
                Some(x) => Ok(Some(x.clone())),
                None if n == s::Last => self.throw("InvalidOperationException", ""),
                None => Ok(Some(V::Default)),
            },
            (s::ElementAt, [ArgV { v: V::Int(_, i), .. }]) => match items.get(*i as usize) {
                Some(x) => Ok(Some(x.clone())),
                None => self.throw("ArgumentOutOfRangeException", ""),
            },
            (s::Skip, [ArgV { v: V::Int(_, i), .. }]) => list(items.into_iter().skip((*i).max(0) as usize).collect()),
            (s::Take, [ArgV { v: V::Int(_, i), .. }]) => list(items.into_iter().take((*i).max(0) as usize).collect()),
            (s::Reverse, []) => list(items.into_iter().rev().collect()),
            (s::Concat, [a]) => {
                let mut items = items;
                items.extend(self.items(&a.v)?);
                list(items)
            }
            (s::Append, [a]) => {
                let mut items = items;
                items.push(a.v.clone());
                list(items)
            }
            (s::Contains, [a]) => Ok(Some(V::Bool(items.iter().any(|x| self.same(x, &a.v))))),
            (s::SequenceEqual, [a]) => {
                let other = self.items(&a.v)?;
                Ok(Some(V::Bool(items.len() == other.len() && items.iter().zip(&other).all(|(a, b)| self.same(a, b)))))
            }
            (s::Aggregate, [seed, f]) => {
                let mut at = seed.v.clone();
                for x in items {
                    at = call(&f.v, vec![at, x])?;
                }
                Ok(Some(at))
            }
            (s::Cast | s::OfType, []) => {
                let [t] = given else { return compile("type arguments") };
                let mut out = Vec::new();
                for x in items {
                    if self.instance_of(&x, *t) {
                        out.push(x);
                    } else if n == s::Cast {
                        return self.throw("InvalidCastException", "");
                    }
                }
                Ok(Some(self.new_list(*t, out)))
            }
            (s::ToDictionary, [k, v]) => {
                let mut d = BTreeMap::new();
                let mut of = None;
                for x in items {
                    let (k, v) = (call(&k.v, vec![x.clone()])?, call(&v.v, vec![x])?);
                    of = Some((self.type_of(&k), self.type_of(&v)));
                    d.insert(self.hkey(&k)?, (k, v));
                }
                let Some((a, b)) = of else { return unsupported("dictionary of unknown types") };
                Ok(Some(self.nat_object(self.native(s::Dictionary, &[a, b]), Nat::Dict(d))))
            }
            _ => Ok(None),
        }
    }

    /// What a list of an open type is taken for.
    pub fn close_list(&self, v: &V, ty: TypeId) -> Option<V> {
        let V::Obj(o) = v else { return None };
        match self.rt(o.ty) {
            Rt::Native(s::List, of) if of[0] == VOID => (),
            _ => return None,
        }
        match self.rt(ty) {
            Rt::Native(s::List | s::IList | s::ICollection | s::IEnumerable | s::IReadOnlyList | s::IReadOnlyCollection, of) => {
                let mut items = Vec::new();
                for x in list_of(o)? {
                    items.push(self.coerce(x, of[0], || false).ok()?);
                }
                Some(self.new_list(of[0], items))
            }
            _ => None,
        }
    }
}

pub fn char_of(v: &V) -> char {
    match v {
        V::Int(_, c) => char::from_u32(*c as u32).unwrap_or('\u{fffd}'),
        _ => '\u{fffd}',
    }
}

fn byte_of(v: &V) -> u8 {
    match v {
        V::Int(_, b) => *b as u8,
        _ => 0,
    }
}
