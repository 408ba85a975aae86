//! What generated classes do, whatever they look like: they are run, together with the client's runtime.

use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

use csharp::{
    eval::{ArgV, Err, Nat, R, V},
    load::{Class, Fired, NameRes, Rt, Slot, TypeId, World, K, STRING},
    syntax::{self, name, sym},
};

use crate::{def::*, expect::*, schemas::MSGS};

pub const SPACE: &str = "Some.Space";

pub enum No {
    Bad(String),
    Unknown(String),
}

type Res<T> = Result<T, No>;

fn bad<T>(msg: impl Into<String>) -> Res<T> {
    Err(No::Bad(msg.into()))
}

macro_rules! must {
    ($cond:expr, $($msg:tt)*) => {
        if !$cond {
            return bad(format!($($msg)*));
        }
    };
}

fn runtime() -> Vec<(String, String)> {
    let home = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/steit-csharp/src");
    let mut dirs = vec![home.clone()];
    let mut files = Vec::new();
    while let Some(dir) = dirs.pop() {
        for entry in std::fs::read_dir(&dir).expect("harness: no sources of the client") {
            let path = entry.unwrap().path();
            let file = path.strip_prefix(&home).unwrap().to_string_lossy().to_string();
            if path.is_dir() {
                if !matches!(&*file, "bin" | "obj") {
                    dirs.push(path);
                }
            } else if file.ends_with(".cs") {
                files.push((file, std::fs::read_to_string(&path).expect("harness: no sources of the client")));
            }
        }
    }
    files.sort();
    files
}

struct Client {
    world: World,
    /// Arguments for type parameters, both here and there.
    reader: TypeId,
    wire_types: [V; 2],
    root: V,
}

thread_local! {
    static RUNTIME: RefCell<Option<Rc<Vec<(String, String)>>>> = RefCell::new(None);
}

impl Client {
    /// With one file to be judged, and others which it may need.
    fn load(file: &str, text: &str, others: &BTreeMap<String, String>) -> Res<Client> {
        let runtime = RUNTIME.with(|r| r.borrow_mut().get_or_insert_with(|| Rc::new(self::runtime())).clone());
        let mut units = Vec::new();
        for (file, text) in runtime.iter() {
            units.push(syntax::parse(file, text).map_err(|e| No::Unknown(format!("{}: {}", file, e)))?);
        }
        let unit = match syntax::parse(file, text) {
            Ok(unit) => unit,
            Err(e) if e.contains("unsupported") => return Err(No::Unknown(e)),
            Err(e) => return bad(e),
        };
        units.push(unit);
        for (other, text) in others {
            if other != file {
                // Others are judged on their own.
                units.extend(syntax::parse(other, text).ok());
            }
        }
        for ns in ["Zoo", "A.B"] {
            let text = format!("namespace {} {{ public static class Nothing {{ }} }}", ns);
            units.push(syntax::parse(ns, &text).expect("harness: a namespace"));
        }
        let world = World::new();
        world.load(units);
        world.fuel.set(20_000_000);
        let none: Rc<[TypeId]> = [].into();
        let class = |ns: &str, n: &str| {
            let id = world.top.borrow().get(&(ns.into(), sym(n), 0)).copied();
            id.map(|id| world.class(id)).ok_or_else(|| No::Unknown(format!("there is no {}.{}", ns, n)))
        };
        let fixed = |class: &Rc<Class>, n: &str| match world.member(class, &none, sym(n)) {
            Some((slot, class, targs)) => world.read(&V::Null, &slot, &class, &targs).map_err(|_| No::Unknown(format!("no {}", n))),
            None => Err(No::Unknown(format!("no {}", n))),
        };
        let reader = world.intern(Rt::Class(class("Steit.Codec", "ByteReader")?.id, none.clone()));
        let root = fixed(&class("Steit.State", "Path")?, "Root")?;
        let wire = class("Steit.Codec", "WireType")?;
        let wire_types = [fixed(&wire, "Varint")?, fixed(&wire, "Sized")?];
        Ok(Client { world, reader, wire_types, root })
    }

    fn fail(&self, what: &str, e: Err) -> No {
        match e {
            Err::Throw(v) => No::Bad(format!("{} throws {}", what, self.world.text(&v).unwrap_or_default())),
            Err::Unsupported(e) => No::Unknown(e),
            Err::Budget => No::Bad(format!("{} doesn't end", what)),
            Err::Compile(e) => No::Bad(format!("{} doesn't compile: {}", what, e)),
        }
    }

    fn ok<T>(&self, what: &str, r: R<T>) -> Res<T> {
        r.map_err(|e| self.fail(what, e))
    }

    fn type_id(&self, ty: &Type) -> Res<TypeId> {
        let generic = |n: &str, args: &[&Type]| -> Res<TypeId> {
            let args = args.iter().map(|a| self.type_id(a)).collect::<Res<Vec<_>>>()?;
            let found = [SPACE, "Steit.Builtins", "Steit.Collections", "Steit.State"]
                .iter()
                .find_map(|ns| self.world.top.borrow().get(&((*ns).into(), sym(n), args.len())).copied());
            match found {
                Some(id) => Ok(self.world.intern(Rt::Class(id, args.into()))),
                None => bad(format!("there is no class {}", n)),
            }
        };
        match ty {
            Type::Prim(p) if p == "String" => Ok(STRING),
            Type::Prim(_) => match self.world.in_namespace("System", sym(&cs_type(ty)), 0) {
                Some((NameRes::Type(ty), _)) => Ok(self.world.close(&ty, &[], &[])),
                _ => Err(No::Unknown(format!("there is no {}", cs_type(ty)))),
            },
            Type::Bytes => generic("Bytes", &[]),
            Type::Param(_) => unreachable!(),
            Type::Msg(i, args) => generic(given(MSGS[*i].rust, MSGS[*i].cs), &args.iter().collect::<Vec<_>>()),
            Type::Vec(t) | Type::Arr(t, _) => generic("Vector", &[t]),
            Type::Opt(t) => generic("Option", &[t]),
            Type::Box(t) => self.type_id(t),
            Type::List(t) => generic("StateList", &[t]),
            Type::Map(_, t) => generic("StateMap", &[t]),
        }
    }

    fn get(&self, v: &V, n: &str) -> Res<V> {
        let V::Obj(o) = v else { return bad(format!("nothing to read {} of", n)) };
        let Some((class, targs)) = self.world.as_class(o.ty) else { return bad(format!("nothing to read {} of", n)) };
        match self.world.member(&class, &targs, sym(n)) {
            Some((slot, class, targs)) => self.ok(n, self.world.read(v, &slot, &class, &targs)),
            None => bad(format!("{} has no {}", name(class.name), n)),
        }
    }

    fn call(&self, v: &V, n: &str, args: Vec<V>) -> Res<V> {
        let args: Vec<_> = args.into_iter().map(ArgV::plain).collect();
        self.ok(n, self.world.call_method(v, sym(n), &args))
    }

    fn call_static(&self, ty: TypeId, n: &str, args: Vec<V>) -> Res<V> {
        let Some((class, targs)) = self.world.as_class(ty) else { return bad(format!("no {}", n)) };
        let args: Vec<_> = args.into_iter().map(ArgV::plain).collect();
        match self.world.member(&class, &targs, sym(n)) {
            Some((Slot::Methods(ms), class, targs)) => {
                match self.ok(n, self.world.call_group(&class, &targs, &ms, &V::Null, &args, &[], &mut vec![]))? {
                    Some(v) => Ok(v),
                    None => bad(format!("no fitting {} in {}", n, name(class.name))),
                }
            }
            _ => bad(format!("no {} in {}", n, name(class.name))),
        }
    }

    fn make(&self, ty: TypeId, args: Vec<V>) -> Res<V> {
        let args: Vec<_> = args.into_iter().map(ArgV::plain).collect();
        self.ok(&format!("new {}", self.world.short_name(ty)), self.world.new_object(ty, &args))
    }

    fn reader(&self, bytes: &[u8]) -> Res<V> {
        self.make(self.reader, vec![self.world.bytes(bytes)])
    }

    fn ended(&self, reader: &V) -> Res<bool> {
        let id = self.world.top.borrow().get(&("Steit.Codec".into(), sym("Reader"), 0)).copied();
        let Some(id) = id else { return Err(No::Unknown("there is no Steit.Codec.Reader".into())) };
        let ty = self.world.intern(Rt::Class(id, [].into()));
        match self.call_static(ty, "EndOfStream", vec![reader.clone()])? {
            V::Bool(b) => Ok(b),
            _ => Err(No::Unknown("EndOfStream".into())),
        }
    }

    fn path(&self, tags: &[u32]) -> Res<V> {
        let mut path = self.root.clone();
        for tag in tags {
            path = self.call(&path, "GetNested", vec![tag_of(*tag)])?;
        }
        Ok(path)
    }

    fn tags(&self, path: &V) -> Res<Vec<u32>> {
        let (mut at, mut tags) = (path.clone(), Vec::new());
        loop {
            let parent = self.get(&at, "Parent")?;
            if matches!(parent, V::Null) {
                tags.reverse();
                return Ok(tags);
            }
            let V::Int(_, tag) = self.get(&at, "Tag")? else { return bad("a path without tags") };
            tags.push(tag as u32);
            at = parent;
        }
    }

    /// All that an object holds.
    fn dump(&self, v: &V, depth: usize) -> String {
        match v {
            _ if depth > 40 => "...".into(),
            V::Null => "null".into(),
            V::Default => "default".into(),
            V::Bool(b) => b.to_string(),
            V::Int(k, n) => format!("{:?}:{}", k, n),
            V::Enum(_, n) => format!("#{}", n),
            V::Str(s) => format!("{:?}", s),
            V::Fun(_) | V::Type(_) => "?".into(),
            V::Arr(a) => self.dump_all(&a.items.borrow(), depth),
            V::Tuple(t) => self.dump_all(&t.items, depth),
            V::Obj(o) => {
                let native = || -> String {
                    match &*o.nat.borrow() {
                        Nat::None => String::new(),
                        Nat::List(items) | Nat::Iter(items, _) => self.dump_all(items, depth),
                        Nat::Dict(items) => items.iter().map(|(k, v)| format!("{:?}={};", k, self.dump(&v.1, depth + 1))).collect(),
                        Nat::Wrap(v) => self.dump(v, depth + 1),
                        Nat::Text(s) => s.clone(),
                        Nat::Pair(a, b) => format!("{}={}", self.dump(a, depth + 1), self.dump(b, depth + 1)),
                        _ => "?".into(),
                    }
                };
                let Some(class) = &o.class else { return native() };
                if &*name(class.name) == "Path" {
                    return self.tags(v).map_or("?".into(), |tags| format!("{:?}", tags));
                }
                let mut fields = Vec::new();
                for (storage, v) in self.world.table(class).instance.iter().zip(o.fields.borrow().iter()) {
                    if !storage.is_event() {
                        fields.push(format!("{}:{}", name(storage.name), self.dump(v, depth + 1)));
                    }
                }
                format!("{}{{{}}}{}", self.world.short_name(o.ty), fields.join(","), native())
            }
        }
    }

    fn dump_all(&self, items: &[V], depth: usize) -> String {
        format!("[{}]", items.iter().map(|v| self.dump(v, depth + 1)).collect::<Vec<_>>().join(","))
    }

    fn shows(&self, v: &V) -> String {
        self.dump(v, 0)
    }

    fn wire(&self, v: &V, tag: u32) -> Res<Option<bool>> {
        let (V::Enum(_, varint), V::Enum(_, sized)) = (&self.wire_types[0], &self.wire_types[1]) else {
            return Err(No::Unknown("wire types".into()));
        };
        match self.call(v, "GetWireType", vec![tag_of(tag)])? {
            V::Null => Ok(None),
            V::Enum(_, n) if n == *varint => Ok(Some(true)),
            V::Enum(_, n) if n == *sized => Ok(Some(false)),
            v => bad(format!("wire type {}", self.shows(&v))),
        }
    }

    fn take_events(&self) -> Vec<Fired> {
        std::mem::take(&mut *self.world.hook.borrow_mut())
    }

    /// An instance of the given class of something with fields, at a path.
    fn fields(&self, ty: TypeId, fields: &[Field], env: &Env, at: &[u32]) -> Res<()> {
        let Some((class, targs)) = self.world.as_class(ty) else { return bad("no class") };
        let of = name(class.name);
        let path = self.path(at)?;
        let v = self.make(ty, vec![path.clone()])?;
        must!(self.tags(&self.get(&v, "Path")?)? == at, "path of {}", of);
        must!(self.tags(&self.get(&self.make(ty, vec![V::Null])?, "Path")?)?.is_empty(), "path of {} by default", of);
        let prop_of = |f: &Field| upper_camel(given(f.rust, f.cs));
        let mut ids = Vec::new();
        for f in fields {
            let closed = unboxed(&close(&f.ty, env)).clone();
            let id = self.type_id(&closed)?;
            let prop = prop_of(f);
            let Some((slot, owner, _)) = self.world.member(&class, &targs, sym(&prop)) else {
                return bad(format!("{} has no property {}", of, prop));
            };
            let declared = match &slot {
                Slot::Field(f, _) => f.ty.within(self, &owner, &targs)?,
                Slot::Prop(p, _) => p.ty.within(self, &owner, &targs)?,
                Slot::Methods(_) => return bad(format!("{} of {} is a method", prop, of)),
            };
            must!(declared == id, "{} of {} is of type {} instead of {}", prop, of, self.world.short_name(declared), self.world.short_name(id));
            ids.push((closed, id, prop));
        }
        let all = |v: &V| -> Res<Vec<String>> { ids.iter().map(|(_, _, prop)| Ok(self.shows(&self.get(v, prop)?))).collect() };
        let unknown: Vec<u32> = (0..20).chain([100, u32::MAX]).filter(|t| fields.iter().all(|f| f.tag != *t)).collect();
        for tag in &unknown {
            must!(self.wire(&v, *tag)?.is_none(), "{} has a wire type for tag {}", of, tag);
            must!(matches!(self.call(&v, "GetNested", vec![tag_of(*tag)])?, V::Null), "{} has something nested at {}", of, tag);
        }
        for (f, (closed, id, prop)) in fields.iter().zip(&ids) {
            let wire = self.wire(&v, f.tag)?;
            must!(wire == Some(is_varint(closed)), "wire type of {} of {}", prop, of);
            let is = self.get(&v, prop)?;
            let nested = self.call(&v, "GetNested", vec![tag_of(f.tag)])?;
            let here: Vec<u32> = at.iter().copied().chain([f.tag]).collect();
            if matches!(closed, Type::Prim(_)) {
                let zero = matches!(&is, V::Null | V::Default | V::Bool(false) | V::Int(_, 0)) || matches!(&is, V::Str(s) if s.is_empty());
                must!(zero, "{} of {} is {} at first", prop, of, self.shows(&is));
                must!(matches!(nested, V::Null), "{} of {} is a nested state", prop, of);
            } else {
                let fresh = self.make(*id, vec![self.path(&here)?])?;
                must!(self.shows(&is) == self.shows(&fresh), "{} of {} is {} at first instead of {}", prop, of, self.shows(&is), self.shows(&fresh));
                must!(matches!((&is, &nested), (V::Obj(a), V::Obj(b)) if Rc::ptr_eq(a, b)), "{} of {} isn't what is nested at {}", prop, of, f.tag);
            }
        }
        // Each field is read from what the server sends.
        for (i, (f, (closed, id, prop))) in fields.iter().zip(&ids).enumerate() {
            let here: Vec<u32> = at.iter().copied().chain([f.tag]).collect();
            let bytes = content(closed, 3);
            let wire = self.wire_types[!is_varint(closed) as usize].clone();
            let mut want = Vec::new();
            match closed {
                Type::Prim(p) => want.push(match &**p {
                    "String" => "\"x\"".to_string(),
                    "bool" => "true".into(),
                    p => self.shows(&V::Int(kind(p), if p.starts_with('i') { -1 } else { 1 })),
                }),
                _ => {
                    let path = self.path(&here)?;
                    want.push(self.shows(&self.call_static(*id, "Deserialize", vec![self.reader(&bytes)?, path])?));
                }
            }
            let v = self.make(ty, vec![path.clone()])?;
            let before = all(&v)?;
            let mut after = before.clone();
            after[i] = want[0].clone();
            for shouldnt in [true, false] {
                let v = self.make(ty, vec![path.clone()])?;
                let old = self.get(&v, prop)?;
                let reader = self.reader(&bytes)?;
                self.take_events();
                self.call(&v, "ReplaceAt", vec![tag_of(f.tag), wire.clone(), reader.clone(), V::Bool(!shouldnt)])?;
                let got = all(&v)?;
                must!(got == after, "{} of {} is replaced, giving {:?} instead of {:?}", prop, of, got, after);
                must!(self.ended(&reader)?, "{} of {} isn't read to the end", prop, of);
                let events = self.take_events();
                if shouldnt {
                    must!(events.is_empty(), "{} events as {} of {} is read", events.len(), prop, of);
                    continue;
                }
                must!(events.len() == 1, "{} events as {} of {} changes", events.len(), prop, of);
                let event = &events[0];
                must!(*name(event.event) == format!("On{}Update", prop) && event.owner == ty, "{} as {} of {} changes", name(event.event), prop, of);
                must!(self.shows(&self.get(&event.args, "Tag")?) == self.shows(&tag_of(f.tag)), "tag {} as {} of {} changes", self.shows(&self.get(&event.args, "Tag")?), prop, of);
                let told = (self.shows(&self.get(&event.args, "OldValue")?), self.shows(&self.get(&event.args, "NewValue")?));
                must!(told == (self.shows(&old), want[0].clone()), "old and new values {:?} as {} of {} changes", told, prop, of);
                let is = |a: &V| matches!((a, &v), (V::Obj(a), V::Obj(b)) if Rc::ptr_eq(a, b));
                must!(is(&event.sender) && is(&self.get(&event.args, "Container")?), "the sender as {} of {} changes", prop, of);
            }
            let whole = self.field_bytes(f, closed, &bytes);
            let got = all(&self.call_static(ty, "Deserialize", vec![self.reader(&whole)?, path.clone()])?)?;
            must!(got == after, "{} of {} is read, giving {:?} instead of {:?}", prop, of, got, after);
        }
        // What isn't known is skipped.
        for tag in [unknown[0], unknown[unknown.len() - 1]] {
            for (sized, bytes) in [(false, &[0x81, 0x01][..]), (true, &[1, 2, 3])] {
                let v = self.make(ty, vec![path.clone()])?;
                let before = all(&v)?;
                let reader = self.reader(bytes)?;
                self.take_events();
                self.call(&v, "ReplaceAt", vec![tag_of(tag), self.wire_types[sized as usize].clone(), reader.clone(), V::Bool(true)])?;
                must!(self.ended(&reader)?, "{} doesn't skip field {}", of, tag);
                if !sized {
                    // Only as much as needed, as more fields may follow.
                    let more = self.reader(&[bytes, &[5]].concat())?;
                    self.call(&v, "ReplaceAt", vec![tag_of(tag), self.wire_types[0].clone(), more.clone(), V::Bool(true)])?;
                    must!(!self.ended(&more)?, "{} skips more than field {}", of, tag);
                }
                must!(all(&v)? == before && self.take_events().is_empty(), "{} changes upon field {}", of, tag);
            }
        }
        Ok(())
    }

    /// A field as it is sent.
    fn field_bytes(&self, f: &Field, ty: &Type, content: &[u8]) -> Vec<u8> {
        let mut to = Vec::new();
        varint(f.tag << 3 | if is_varint(ty) { 0 } else { 2 }, &mut to);
        if !is_varint(ty) {
            varint(content.len() as u32, &mut to);
        }
        to.extend(content);
        to
    }

    fn variants(&self, ty: TypeId, variants: &[Variant], env: &Env) -> Res<()> {
        let Some((class, targs)) = self.world.as_class(ty) else { return bad("no class") };
        let of = name(class.name);
        let at = [3, 1];
        let path = self.path(&at)?;
        let class_of = |v: &Variant| given(v.rust, v.cs).to_string();
        let inner = |v: &Variant| -> Res<TypeId> {
            match class.nested.borrow().get(&(sym(&class_of(v)), 0)) {
                Some(id) => Ok(self.world.intern(Rt::Class(*id, targs.clone()))),
                None => bad(format!("no class for {}::{}", of, v.rust)),
            }
        };
        // Whether a value is of some variant, in full.
        let is = |v: &V, want: &Variant, at: &[u32]| -> Res<()> {
            let tag = self.shows(&self.get(v, "Tag")?);
            must!(tag == self.shows(&tag_of(want.tag)), "tag {} of {}::{}", tag, of, want.rust);
            let now = self.get(v, "Variant")?;
            let V::Obj(now) = &now else { return bad(format!("no variant of {}::{}", of, want.rust)) };
            must!(now.ty == inner(want)?, "{}::{} has a variant of {}", of, want.rust, self.world.short_name(now.ty));
            let here: Vec<u32> = at.iter().copied().chain([want.tag]).collect();
            let path = self.tags(&self.get(&V::Obj(now.clone()), "Path")?)?;
            must!(path == here, "path {:?} of {}::{}", path, of, want.rust);
            must!(self.tags(&self.get(v, "Path")?)? == at, "path of {}", of);
            for other in variants {
                let got = self.get(v, &format!("{}Variant", class_of(other)))?;
                let nested = self.call(v, "GetNested", vec![tag_of(other.tag)])?;
                for got in [got, nested] {
                    let fits = match &got {
                        V::Obj(o) => other.tag == want.tag && Rc::ptr_eq(o, now),
                        V::Null => other.tag != want.tag,
                        _ => false,
                    };
                    must!(fits, "{}Variant of {}::{}, or what is nested", class_of(other), of, want.rust);
                }
                must!(self.wire(v, other.tag)? == Some(false), "wire type of {}::{}", of, other.rust);
            }
            Ok(())
        };
        let zero = variants.iter().find(|v| v.tag == 0).unwrap();
        is(&self.make(ty, vec![path.clone()])?, zero, &at)?;
        is(&self.make(ty, vec![V::Null])?, zero, &[])?;
        let unknown: Vec<u32> = (0..20).chain([100, u32::MAX]).filter(|t| variants.iter().all(|v| v.tag != *t)).collect();
        for v in variants {
            let constant = format!("{}Tag", upper_camel(&class_of(v)));
            match self.world.member(&class, &targs, sym(&constant)) {
                Some((slot, class, targs)) => {
                    let got = self.ok(&constant, self.world.read(&V::Null, &slot, &class, &targs))?;
                    must!(self.shows(&got) == self.shows(&tag_of(v.tag)), "{} of {} is {}", constant, of, self.shows(&got));
                }
                None => return bad(format!("{} has no {}", of, constant)),
            }
            is(&self.make(ty, vec![path.clone(), tag_of(v.tag)])?, v, &at)?;
            // Factories of generic classes aren't usable.
            let factory = format!("New{}", upper_camel(&class_of(v)));
            if targs.is_empty() {
                is(&self.call_static(ty, &factory, vec![path.clone()])?, v, &at)?;
            } else {
                must!(self.world.member(&class, &targs, sym(&factory)).is_some(), "{} has no {}", of, factory);
            }
            // Empty contents, or some.
            let mut contents = vec![Vec::new()];
            for f in v.fields {
                let closed = unboxed(&close(&f.ty, env)).clone();
                contents.push(self.field_bytes(f, &closed, &content(&closed, 3)));
            }
            for bytes in contents {
                let here: Vec<u32> = at.iter().copied().chain([v.tag]).collect();
                let want = self.shows(&self.call_static(inner(v)?, "Deserialize", vec![self.reader(&bytes)?, self.path(&here)?])?);
                for from in variants {
                    for notify in [false, true] {
                        let e = self.make(ty, vec![path.clone(), tag_of(from.tag)])?;
                        let old = self.get(&e, "Variant")?;
                        let reader = self.reader(&bytes)?;
                        self.take_events();
                        self.call(&e, "ReplaceAt", vec![tag_of(v.tag), self.wire_types[1].clone(), reader.clone(), V::Bool(notify)])?;
                        is(&e, v, &at)?;
                        let got = self.shows(&self.get(&e, "Variant")?);
                        must!(got == want, "{}::{} is {} instead of {}", of, v.rust, got, want);
                        must!(self.ended(&reader)?, "{}::{} isn't read to the end", of, v.rust);
                        let events = self.take_events();
                        must!(events.len() == notify as usize, "{} events as {} becomes {}", events.len(), of, v.rust);
                        for event in events {
                            must!(&*name(event.event) == "OnUpdate" && event.owner == ty, "{} as {} becomes {}", name(event.event), of, v.rust);
                            let told = |n: &str| -> Res<String> { Ok(self.shows(&self.get(&event.args, n)?)) };
                            let all = [told("NewTag")?, told("NewVariant")?, told("OldTag")?, told("OldVariant")?];
                            let due = [self.shows(&tag_of(v.tag)), want.clone(), self.shows(&tag_of(from.tag)), self.shows(&old)];
                            must!(all == due, "{:?} instead of {:?} is told as {} becomes {}", all, due, of, v.rust);
                            let same = |a: &V| matches!((a, &e), (V::Obj(a), V::Obj(b)) if Rc::ptr_eq(a, b));
                            must!(same(&event.sender) && same(&self.get(&event.args, "Container")?), "the sender as {} becomes {}", of, v.rust);
                        }
                    }
                }
                let mut whole = Vec::new();
                varint(v.tag, &mut whole);
                whole.extend(&bytes);
                let e = self.call_static(ty, "Deserialize", vec![self.reader(&whole)?, path.clone()])?;
                is(&e, v, &at)?;
                let got = self.shows(&self.get(&e, "Variant")?);
                must!(got == want, "{}::{} is read as {} instead of {}", of, v.rust, got, want);
            }
            self.fields(inner(v)?, v.fields, env, &at)?;
        }
        for tag in unknown {
            let e = self.make(ty, vec![path.clone()])?;
            must!(self.wire(&e, tag)?.is_none(), "{} has a wire type for tag {}", of, tag);
            must!(matches!(self.call(&e, "GetNested", vec![tag_of(tag)])?, V::Null), "{} has something nested at {}", of, tag);
            let reader = self.reader(&[1, 2, 3])?;
            self.take_events();
            self.call(&e, "ReplaceAt", vec![tag_of(tag), self.wire_types[1].clone(), reader.clone(), V::Bool(true)])?;
            must!(self.ended(&reader)?, "{} doesn't skip variant {}", of, tag);
            must!(self.take_events().is_empty(), "an event upon variant {} of {}", tag, of);
            is(&e, zero, &at)?;
        }
        Ok(())
    }
}

/// A type, as declared in some class.
trait Declared {
    fn within(&self, client: &Client, class: &Rc<Class>, targs: &Rc<[TypeId]>) -> Res<TypeId>;
}

impl Declared for syntax::TyRef {
    fn within(&self, client: &Client, class: &Rc<Class>, targs: &Rc<[TypeId]>) -> Res<TypeId> {
        match client.world.resolve(self, class, &[]) {
            Ok(ty) => Ok(client.world.close(&ty, targs, &[])),
            Err(e) => bad(e),
        }
    }
}

fn tag_of(tag: u32) -> V {
    V::Int(K::U32, tag as i64)
}

fn kind(p: &str) -> K {
    match p {
        "u8" => K::Byte,
        "u16" => K::U16,
        "u32" => K::U32,
        "u64" => K::U64,
        "i8" => K::SByte,
        "i16" => K::I16,
        "i32" => K::I32,
        _ => K::I64,
    }
}

/// Whether a client can hold such a type: parameters are to be bytes or states.
fn held(ty: &Type) -> bool {
    closure(ty).iter().all(|t| match t {
        Type::Msg(i, args) => {
            let env = env(*i, args);
            all_fields(&MSGS[*i]).iter().all(|f| match unboxed(&close(&f.ty, &Env::new())) {
                Type::Param(p) => !matches!(unboxed(&env[&**p]), Type::Prim(p) if p == "String"),
                _ => true,
            })
        }
        _ => true,
    })
}

/// Runs a generated class, next to others.
pub fn behaves(file: &str, text: &str, others: &BTreeMap<String, String>, namespaces: &[String], msg: usize) -> Res<()> {
    let m = &MSGS[msg];
    let client = Client::load(file, text, others)?;
    let w = &client.world;
    let n = given(m.rust, m.cs);
    let found = w.top.borrow().get(&(SPACE.into(), sym(n), m.params.len())).copied();
    let Some(id) = found else { return bad(format!("there is no class {}", n)) };
    let class = w.class(id);
    must!(&*class.file == file, "class {} is in {}", n, class.file);
    for ns in namespaces {
        must!(class.usings.iter().any(|u| **u == **ns), "namespace {} isn't used", ns);
    }
    let mut choices = vec![Type::Prim("u8".into()), Type::List(Box::new(Type::Prim("u8".into())))];
    choices.truncate(if m.params.is_empty() { 1 } else { 2 });
    let mut assigned = vec![vec![]];
    for _ in m.params {
        assigned = assigned.into_iter().flat_map(|a: Vec<Type>| choices.iter().map(move |c| a.iter().cloned().chain([c.clone()]).collect()).collect::<Vec<Vec<Type>>>()).collect();
    }
    for args in assigned {
        let ty = Type::Msg(msg, args.clone());
        if !held(&ty) {
            return Err(No::Unknown(format!("parameters of {}", n)));
        }
        let id = client.type_id(&ty)?;
        let env = env(msg, &args);
        match m.kind {
            Kind::Struct(fields) => client.fields(id, fields, &env, &[2])?,
            Kind::Enum(variants) => client.variants(id, variants, &env)?,
        }
    }
    Ok(())
}
