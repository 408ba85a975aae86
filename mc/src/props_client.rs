//! C25: a C# client mirrors a server.
//!
//! Runs the client's runtime, as found in the working tree, and what is generated for the schemas, as the
//! generator in the working tree does, with an interpreter of C#.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    rc::Rc,
    sync::{Mutex, OnceLock},
};

use serde::{Deserialize, Serialize};
use serde_json::json;
use steit::{
    gen::{
        generators::{CSharpGenerator, CSharpSetting},
        Generator, Setting,
    },
    meta::{FieldMeta, FieldTypeMeta, HasMeta, MessageMeta, MetaLink, StructMeta, TypeMeta},
    types::{Bytes, List, Map, Maybe},
};

use crate::{
    cs::{
        eval::*,
        load::{Class, ClassId, NameRes, Rt, Slot, TypeId, World, K},
        syntax::{self, sym, Sym},
    },
    gen::{self, Level},
    hist::*,
    live::Model,
    model::*,
    props_hist::{all_roots, begin, CORE},
    run::{hash, Check, Run},
};

use Level::*;

const SPACE: &str = "Mc.Client";

// ---------------------------------------------------------------- sources

struct Source {
    file: String,
    text: String,
    generated: bool,
}

/// A type of clients.
pub struct Kind {
    name: String,
    ty: fn() -> Ty,
    meta: &'static TypeMeta,
    link: &'static MetaLink,
    generate: fn(&Setting<CSharpSetting>) -> std::io::Result<Vec<String>>,
}

fn kind<T: Model + HasMeta>(name: impl Into<String>) -> Kind {
    Kind {
        name: name.into(),
        ty: T::ty,
        meta: T::TYPE,
        link: T::LINK,
        generate: |setting| CSharpGenerator.generate::<T>(setting),
    }
}

struct Sources {
    files: Vec<Source>,
    /// Whether files which aren't generated are those this has been written for.
    known: bool,
    metas: HashMap<&'static str, &'static MessageMeta>,
}

fn kinds() -> &'static [Kind] {
    use crate::{for_roots, schemas::*};
    static KINDS: OnceLock<Vec<Kind>> = OnceLock::new();
    macro_rules! kinds {
        ($(($name:literal, $ty:ty))*) => { vec![$(kind::<$ty>($name)),*] };
    }
    macro_rules! plain {
        ($($t:ident)*) => { vec![$(
            kind::<$t>(stringify!($t)),
            kind::<Vec<$t>>(concat!("Vec<", stringify!($t), ">")),
            kind::<Option<$t>>(concat!("Option<", stringify!($t), ">")),
        )*] };
    }
    macro_rules! states {
        ($($t:ident)*) => { vec![$(
            kind::<$t>(stringify!($t)),
            kind::<List<$t>>(concat!("List<", stringify!($t), ">")),
            kind::<Map<u8, $t>>(concat!("Map<u8,", stringify!($t), ">")),
            kind::<Maybe<$t>>(concat!("Maybe<", stringify!($t), ">")),
            kind::<GenE<$t>>(concat!("GenE<", stringify!($t), ">")),
        )*] };
    }
    macro_rules! enums {
        ($($t:ident)*) => { vec![$(
            kind::<$t>(stringify!($t)),
            kind::<Vec<$t>>(concat!("Vec<", stringify!($t), ">")),
            kind::<[$t; 2]>(concat!("[", stringify!($t), ";2]")),
            kind::<Box<$t>>(concat!("Box<", stringify!($t), ">")),
        )*] };
    }
    KINDS.get_or_init(|| {
        let mut kinds: Vec<Kind> = for_roots!(kinds);
        kinds.extend(for_versions!(plain));
        kinds.extend(for_state_versions!(states));
        kinds.extend(for_enum_versions!(enums));
        macro_rules! more {
            ($($ty:ty),* $(,)?) => { kinds.extend([$(kind::<$ty>(stringify!($ty).replace(' ', ""))),*]) };
        }
        more!(
            u8, u16, u32, u64, i8, i16, i32, i64, bool, String, Bytes, Vec<u8>, Vec<i32>, Vec<Vec<u8>>, Vec<String>,
            Vec<Option<u8>>, Vec<bool>, Vec<Pp>, Vec<C3>, Option<u8>, Option<Option<u8>>, Option<String>, Option<Pp>,
            Option<Vec<u8>>, [u8; 1], [i32; 2], [String; 3], [Pp; 2], [Vec<u8>; 2], [u8; 7], [bool; 4], [Option<u8>; 2],
            Vec<[u8; 2]>, Box<u8>, Box<Pp>, Vec<Box<C3>>, Pp, C1, C3, C4, C5, Blob, Text, Option<Bytes>, Vec<Bytes>,
            Vec<u64>, Option<i64>, Vec<i64>, List<i64>, List<u64>, Map<u32, i64>,
        );
        for kind in &kinds {
            (kind.ty)();
        }
        kinds
    })
}

fn kind_named(name: &str) -> &'static Kind {
    kinds().iter().find(|k| k.name == name).expect("harness: unknown kind of clients")
}

fn links(link: &'static MetaLink, seen: &mut HashSet<*const MetaLink>, metas: &mut HashMap<&'static str, &'static MessageMeta>, depth: u32) {
    if !seen.insert(link) || depth > 60 {
        return;
    }
    if let Some(msg) = &link.msg {
        metas.insert(msg.rust_name(), msg);
    }
    for link in (link.links)() {
        links(link, seen, metas, depth + 1);
    }
}

/// Hashes of the client's own files which are fully understood.
const KNOWN: u64 = include!("client_known.in");

fn sources() -> &'static Sources {
    static SOURCES: OnceLock<Sources> = OnceLock::new();
    SOURCES.get_or_init(|| {
        let mut files = Vec::new();
        let home = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/steit-csharp/src");
        let mut dirs = vec![home.clone()];
        while let Some(dir) = dirs.pop() {
            for entry in std::fs::read_dir(&dir).expect("harness: no sources of the client") {
                let path = entry.unwrap().path();
                let file = path.strip_prefix(&home).unwrap().to_string_lossy().to_string();
                if path.is_dir() {
                    if !matches!(&*file, "bin" | "obj") {
                        dirs.push(path);
                    }
                } else if file.ends_with(".cs") && file != "Builtins/Maybe.cs" && file != "State/LogEntry.cs" {
                    let text = std::fs::read_to_string(&path).expect("harness: no sources of the client");
                    files.push(Source { file, text, generated: false });
                }
            }
        }
        files.sort_by(|a, b| a.file.cmp(&b.file));
        // Comments and blanks don't matter.
        let mut lines: Vec<String> = Vec::new();
        for f in &files {
            lines.push(f.file.clone());
            for line in f.text.lines() {
                let line = line.trim();
                if !line.is_empty() && !line.starts_with("//") {
                    lines.push(line.into());
                }
            }
        }
        let known = lines.iter().flat_map(|l| l.bytes().chain([b'\n'])).fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
        if std::env::var("MC_CLIENT_HASH").is_ok() {
            println!("{}", known);
        }
        let dir = std::env::temp_dir().join(format!("mc-client-{}", std::process::id()));
        let mut add = |ns: &str, builtins: bool, gens: &[fn(&Setting<CSharpSetting>) -> std::io::Result<Vec<String>>]| {
            std::fs::create_dir_all(&dir).expect("harness: cannot create a scratch directory");
            let setting = Setting::new(&dir, CSharpSetting::new(ns)).skip_builtins(!builtins);
            for gen in gens {
                gen(&setting).expect("harness: cannot generate");
            }
            let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
            names.sort();
            for path in names {
                let file = format!("generated/{}", path.file_name().unwrap().to_string_lossy());
                let text = std::fs::read_to_string(&path).expect("harness: cannot read what is generated");
                files.push(Source { file, text, generated: true });
            }
            std::fs::remove_dir_all(&dir).expect("harness: cannot remove a scratch directory");
        };
        add("Steit.State", true, &[|s| CSharpGenerator.generate::<steit::log::LogEntry>(s)]);
        add("Steit.Builtins", true, &[|s| CSharpGenerator.generate::<Maybe<u8>>(s)]);
        let gens: Vec<_> = kinds().iter().map(|k| k.generate).collect();
        add(SPACE, false, &gens);
        let [structs, enums] = crate::names::gens();
        add("Mc.Names.Structs", false, &structs);
        add("Mc.Names.Enums", false, &enums);
        let mut metas = HashMap::new();
        let mut seen = HashSet::new();
        for k in kinds() {
            links(k.link, &mut seen, &mut metas, 0);
        }
        Sources { files, known: known == KNOWN, metas }
    })
}

// ---------------------------------------------------------------- clients

/// Why a client cannot go on.
enum Fail {
    /// The property doesn't hold.
    Bad(String),
    /// What isn't understood.
    Unknown(String),
}

type F<T> = Result<T, Fail>;

fn bad<T>(msg: impl Into<String>) -> F<T> {
    Err(Fail::Bad(msg.into()))
}

macro_rules! must {
    ($cond:expr, $($msg:tt)*) => {
        if !$cond {
            return Err(Fail::Bad(format!($($msg)*)));
        }
    };
}

struct Client {
    world: World,
    types: RefCell<HashMap<*const TypeMeta, TypeId>>,
    props: RefCell<HashMap<(ClassId, String), Sym>>,
    reader: TypeId,
    replayer: Rc<Class>,
    factory: Rc<Class>,
    root_path: V,
    /// Methods which aren't understood or don't compile.
    broken: usize,
}

/// What was found upon loading sources.
#[derive(Default)]
struct Report {
    /// Problems of files which are generated: file, place and what is wrong.
    problems: Vec<[String; 3]>,
    unknown: Vec<String>,
}

const FUEL: u64 = 60_000_000;

impl Client {
    fn load() -> Result<(Client, Report), Report> {
        let s = sources();
        let mut report = Report::default();
        let world = World::new();
        let mut units = Vec::new();
        let mut failed = false;
        for f in &s.files {
            match syntax::parse(&f.file, &f.text) {
                Ok(u) => units.push(u),
                Err(e) => {
                    failed = true;
                    if e.contains("unsupported") || !(f.generated || s.known) {
                        report.unknown.push(format!("{}: {}", f.file, e));
                    } else {
                        report.problems.push([f.file.clone(), String::new(), e]);
                    }
                }
            }
        }
        if failed {
            return Err(report);
        }
        world.load(units);
        world.check();
        for p in world.errors.borrow().iter() {
            if p.file.starts_with("generated/") || s.known {
                report.problems.push([p.file.to_string(), p.within.clone(), p.what.clone()]);
            } else {
                report.unknown.push(format!("{}: {}: {}", p.file, p.within, p.what));
            }
        }
        report.unknown.extend(world.unsupported.borrow().iter().cloned());
        let class = |ns: &str, n: &str| {
            let id = world.top.borrow().get(&(ns.into(), sym(n), 0)).copied();
            id.map(|id| world.class(id)).ok_or_else(|| format!("there is no {}.{}", ns, n))
        };
        let found = (|| Ok((class("Steit.Codec", "ByteReader")?, class("Steit.State", "StateReplayer")?, class("Steit.State", "StateFactory")?, class("Steit.State", "Path")?)))();
        let (reader, replayer, factory, path): (Rc<Class>, _, _, Rc<Class>) = match found {
            Ok(found) => found,
            Err(e) => {
                report.unknown.push(e);
                return Err(report);
            }
        };
        world.fuel.set(FUEL);
        let none: Rc<[TypeId]> = [].into();
        let root = match world.member(&path, &none, sym("Root")) {
            Some((slot, class, targs)) => world.read(&V::Null, &slot, &class, &targs).ok(),
            None => None,
        };
        let Some(root_path) = root else {
            report.unknown.push("there is no Path.Root".into());
            return Err(report);
        };
        let reader = world.intern(Rt::Class(reader.id, none));
        let broken = report.problems.len();
        let client = Client { world, types: Default::default(), props: Default::default(), reader, replayer, factory, root_path, broken };
        Ok((client, report))
    }

    fn fail(&self, what: &str, e: Err) -> Fail {
        match e {
            Err::Throw(v) => Fail::Bad(format!("{}: throws {}", what, self.world.text(&v).unwrap_or_default())),
            Err::Unsupported(e) => Fail::Unknown(e),
            Err::Budget => Fail::Bad(format!("{}: doesn't end", what)),
            Err::Compile(e) if sources().known => Fail::Bad(format!("{}: doesn't compile: {}", what, e)),
            Err::Compile(e) => Fail::Unknown(e),
        }
    }

    fn class_of(&self, v: &V) -> Option<(Rc<Class>, Rc<[TypeId]>)> {
        let V::Obj(o) = v else { return None };
        let class = o.class.clone()?;
        match self.world.rt(o.ty) {
            Rt::Class(_, targs) => Some((class, targs)),
            _ => None,
        }
    }

    fn get(&self, v: &V, n: Sym) -> F<V> {
        let what = syntax::name(n);
        let Some((class, targs)) = self.class_of(v) else { return bad(format!("no object to read `{}` of", what)) };
        match self.world.member(&class, &targs, n) {
            Some((slot, class, targs)) => self.world.read(v, &slot, &class, &targs).map_err(|e| self.fail(&what, e)),
            None => bad(format!("`{}` has no `{}`", syntax::name(class.name), what)),
        }
    }

    fn prop(&self, v: &V, n: &str) -> F<V> {
        self.get(v, sym(n))
    }

    /// The member which stands for something of the given name.
    fn named(&self, class: &Rc<Class>, n: &str) -> F<Sym> {
        let key = (class.id, n.to_string());
        if let Some(n) = self.props.borrow().get(&key) {
            return Ok(*n);
        }
        let loose = |n: &str| n.replace('_', "").to_lowercase();
        let mut want = loose(n);
        if want.starts_with(|c: char| c.is_ascii_digit()) {
            want.insert(0, 'f');
        }
        // A first guess is the usual way of writing it.
        let mut usual = String::new();
        let mut up = true;
        for c in n.chars() {
            if c == '_' {
                up = true;
            } else if up {
                usual.extend(c.to_uppercase());
                up = false;
            } else {
                usual.push(c);
            }
        }
        let members = &self.world.table(class).members;
        let mut found: Vec<Sym> = members
            .iter()
            .filter(|(n, slot)| !matches!(slot, Slot::Methods(_)) && loose(&syntax::name(**n)) == want)
            .map(|(n, _)| *n)
            .collect();
        found.sort_by_key(|n| (*syntax::name(*n) != *usual, syntax::name(*n)));
        match found.first() {
            Some(n) => {
                self.props.borrow_mut().insert(key, *n);
                Ok(*n)
            }
            None => bad(format!("`{}` has nothing for `{}`", syntax::name(class.name), n)),
        }
    }

    fn ty_of(&self, meta: &'static TypeMeta) -> F<TypeId> {
        if let Some(ty) = self.types.borrow().get(&(meta as *const _)) {
            return Ok(*ty);
        }
        let w = &self.world;
        let ty = match meta {
            TypeMeta::Primitive(name, _) => match w.in_namespace("System", sym(&name.csharp(String::from)), 0) {
                Some((NameRes::Type(ty), _)) => w.close(&ty, &[], &[]),
                _ => return bad(format!("no primitive type `{}`", name.csharp(String::from))),
            },
            TypeMeta::Ref(name, args) => {
                let mut list = Vec::new();
                for arg in *args {
                    match arg {
                        FieldTypeMeta::Type(ty) => list.push(self.ty_of(ty)?),
                        FieldTypeMeta::TypeParam(_) => return Err(Fail::Unknown("a parameter within a type".into())),
                    }
                }
                if name.rust == "Box" && list.len() == 1 {
                    list[0]
                } else {
                    if name.rust == "Map" {
                        list.remove(0);
                    }
                    let n = sym(&name.csharp(String::from));
                    let found = [SPACE, "Steit.Collections", "Steit.Builtins", "Steit.State"]
                        .iter()
                        .find_map(|ns| w.top.borrow().get(&((*ns).into(), n, list.len())).copied());
                    match found {
                        Some(id) => w.intern(Rt::Class(id, list.into())),
                        None => return bad(format!("no class `{}` with {} parameters", name.csharp(String::from), list.len())),
                    }
                }
            }
        };
        self.types.borrow_mut().insert(meta, ty);
        Ok(ty)
    }

    fn read_from(&self, bytes: &[u8]) -> F<V> {
        let w = &self.world;
        w.new_object(self.reader, &[ArgV::plain(w.bytes(bytes))]).map_err(|e| self.fail("a reader", e))
    }

    /// Decodes a value the way a user does.
    fn decode(&self, ty: TypeId, bytes: &[u8]) -> F<V> {
        let w = &self.world;
        let reader = self.read_from(bytes)?;
        let args = [ArgV::plain(reader)];
        let made = match w.as_class(ty) {
            Some((class, targs)) => match w.member(&class, &targs, sym("Deserialize")) {
                Some((Slot::Methods(ms), class, targs)) => w.call_group(&class, &targs, &ms, &V::Null, &args, &[], &mut vec![]),
                _ => return bad(format!("`{}` has no `Deserialize`", w.short_name(ty))),
            },
            None => {
                let none: Rc<[TypeId]> = [].into();
                match w.member(&self.factory, &none, sym("Deserialize")) {
                    Some((Slot::Methods(ms), class, targs)) => w.call_group(&class, &targs, &ms, &V::Null, &args, &[ty], &mut vec![]),
                    _ => return Err(Fail::Unknown("there is no StateFactory.Deserialize".into())),
                }
            }
        };
        match made {
            Ok(Some(v)) => Ok(v),
            Ok(None) => bad(format!("`{}` has no fitting `Deserialize`", w.short_name(ty))),
            Err(e) => Err(self.fail("Deserialize", e)),
        }
    }

    fn replay(&self, ty: TypeId, root: &V, log: &[u8]) -> F<V> {
        let w = &self.world;
        let reader = self.read_from(log)?;
        let none: Rc<[TypeId]> = [].into();
        let Some((Slot::Methods(ms), class, targs)) = w.member(&self.replayer, &none, sym("Replay")) else {
            return Err(Fail::Unknown("there is no StateReplayer.Replay".into()));
        };
        let mut by_ref = ArgV::plain(root.clone());
        by_ref.by_ref = true;
        let mut out = Vec::new();
        match w.call_group(&class, &targs, &ms, &V::Null, &[by_ref, ArgV::plain(reader)], &[ty], &mut out) {
            Ok(Some(_)) => Ok(out.into_iter().find(|(i, _)| *i == 0).map_or(root.clone(), |(_, v)| v)),
            Ok(None) => Err(Fail::Unknown("no fitting StateReplayer.Replay".into())),
            Err(e) => Err(self.fail("Replay", e)),
        }
    }

    fn fields_of(&self, name: &str, at: &str) -> F<&'static StructMeta> {
        match sources().metas.get(name) {
            Some(MessageMeta::Struct(s)) => Ok(s),
            _ => bad(format!("{}: no description of `{}`", at, name)),
        }
    }

    fn field<'a>(meta: &'a StructMeta, tag: u32) -> F<&'a FieldMeta> {
        match meta.fields.iter().find(|f| f.tag == tag) {
            Some(f) => Ok(f),
            None => bad(format!("`{}` lacks field {}", meta.name.rust, tag)),
        }
    }

    fn variant_of(&self, name: &str, tag: u32) -> F<&'static StructMeta> {
        match sources().metas.get(name) {
            Some(MessageMeta::Enum(e)) => match e.variants.iter().find(|v| v.tag == tag) {
                Some(v) => Ok(&v.ty),
                None => bad(format!("`{}` lacks variant {}", name, tag)),
            },
            _ => bad(format!("no description of `{}`", name)),
        }
    }

    fn path_of(&self, v: &V) -> F<Vec<u32>> {
        let mut at = self.prop(v, "Path")?;
        let mut out = Vec::new();
        loop {
            must!(!matches!(at, V::Null), "a node has no path");
            let parent = self.prop(&at, "Parent")?;
            if matches!(parent, V::Null) {
                break;
            }
            match self.prop(&at, "Tag")? {
                V::Int(_, tag) => out.push(tag as u32),
                _ => return bad("a path has a part without a tag"),
            }
            at = parent;
        }
        out.reverse();
        Ok(out)
    }

    fn seq(&self, v: &V, n: usize, at: &str) -> F<Vec<V>> {
        let items = self.world.items(v).map_err(|e| self.fail(at, e))?;
        must!(items.len() == n, "{}: {} items instead of {}", at, items.len(), n);
        Ok(items)
    }

    /// Checks that an object has the given contents. Nodes are to know the given path, if any.
    fn look(&self, v: &V, ty: Ty, val: &Val, path: Option<&[u32]>, at: &str) -> F<()> {
        let w = &self.world;
        let node = !matches!(&**ty, TyDef::U(_) | TyDef::I(_) | TyDef::Bool | TyDef::Str);
        if node {
            must!(!matches!(v, V::Null), "{}: null instead of {:?}", at, val);
            if let Some(path) = path {
                let found = self.path_of(v)?;
                must!(found == path, "{}: knows path {:?} instead of {:?}", at, found, path);
            }
        }
        let nested = |tag: u32| path.map(|p| p.iter().copied().chain([tag]).collect::<Vec<u32>>());
        match (&**ty, val) {
            (TyDef::U(bits), Val::U(want)) => match v {
                V::Int(k, n) => {
                    let kind = match bits {
                        8 => K::Byte,
                        16 => K::U16,
                        32 => K::U32,
                        _ => K::U64,
                    };
                    must!(*k == kind && *n as u64 == *want, "{}: {:?} {} instead of {}", at, k, *n as u64, want);
                    Ok(())
                }
                _ => bad(format!("{}: no number", at)),
            },
            (TyDef::I(bits), Val::I(want)) => match v {
                V::Int(k, n) => {
                    let kind = match bits {
                        8 => K::SByte,
                        16 => K::I16,
                        32 => K::I32,
                        _ => K::I64,
                    };
                    must!(*k == kind && n == want, "{}: {:?} {} instead of {}", at, k, n, want);
                    Ok(())
                }
                _ => bad(format!("{}: no number", at)),
            },
            (TyDef::Bool, Val::B(want)) => {
                must!(matches!(v, V::Bool(b) if b == want), "{}: {} instead of {}", at, w.text(v).unwrap_or_default(), want);
                Ok(())
            }
            (TyDef::Str, Val::S(want)) => match v {
                // What hasn't been assigned.
                V::Null if want.is_empty() => Ok(()),
                V::Str(x) => {
                    must!(**x == **want, "{}: {:?} instead of {:?}", at, x, want);
                    Ok(())
                }
                _ => bad(format!("{}: no text instead of {:?}", at, want)),
            },
            (TyDef::Raw, Val::Raw(want)) => {
                for (i, x) in self.seq(v, want.len(), at)?.iter().enumerate() {
                    must!(matches!(x, V::Int(K::Byte, b) if *b == want[i] as i64), "{}: byte {} differs from {:?}", at, i, want);
                }
                Ok(())
            }
            (TyDef::Vec(t) | TyDef::Arr(_, t), Val::Seq(want)) => {
                for (i, (x, want)) in self.seq(v, want.len(), at)?.iter().zip(want).enumerate() {
                    self.look(x, t, want, None, &format!("{}/{}", at, i))?;
                }
                Ok(())
            }
            (TyDef::List(t), Val::Seq(want)) => {
                for (i, (x, want)) in self.seq(v, want.len(), at)?.iter().zip(want).enumerate() {
                    self.look(x, t, want, nested(i as u32).as_deref(), &format!("{}/{}", at, i))?;
                }
                Ok(())
            }
            (TyDef::Opt(t), Val::Opt(want)) => {
                let is = self.prop(v, "IsSome")?;
                must!(matches!(is, V::Bool(b) if b == want.is_some()), "{}: IsSome differs from {:?}", at, want);
                match want {
                    Some(want) => self.look(&self.prop(v, "ValueOrDefault")?, t, want, None, &format!("{}/some", at)),
                    None => Ok(()),
                }
            }
            (TyDef::Map(_, t), Val::Map(want)) => {
                let mut want: BTreeMap<u32, &Val> = want.iter().map(|(k, v)| (*k, v)).collect();
                for pair in self.seq(v, want.len(), at)? {
                    let V::Obj(o) = &pair else { return bad(format!("{}: no pairs", at)) };
                    let (key, value) = match &*o.nat.borrow() {
                        Nat::Pair(V::Int(_, k), v) => (*k as u32, v.clone()),
                        _ => return bad(format!("{}: no pairs", at)),
                    };
                    let Some(want) = want.remove(&key) else { return bad(format!("{}: unexpected key {}", at, key)) };
                    self.look(&value, t, want, nested(key).as_deref(), &format!("{}/{}", at, key))?;
                }
                Ok(())
            }
            (TyDef::Struct(name, fields), Val::Struct(vals)) => {
                let meta = self.fields_of(name, at)?;
                self.look_fields(v, meta, fields, vals, path, at)
            }
            (TyDef::Enum(name, variants), Val::Enum(tag, vals)) => {
                let found = self.prop(v, "Tag")?;
                must!(matches!(found, V::Int(_, n) if n as u32 == *tag), "{}: variant {} instead of {}", at, w.text(&found).unwrap_or_default(), tag);
                let current = self.prop(v, "Variant")?;
                let V::Obj(is) = &current else { return bad(format!("{}: no variant", at)) };
                let Some((class, _)) = self.class_of(v) else { return bad(format!("{}: no enum", at)) };
                for var in variants {
                    let meta = self.variant_of(name, var.tag)?;
                    let n = self.named(&class, &(meta.name.csharp(String::from) + "Variant"))?;
                    match self.get(v, n)? {
                        V::Obj(o) if var.tag == *tag => must!(Rc::ptr_eq(&o, is), "{}: `{}` isn't its variant", at, syntax::name(n)),
                        V::Null if var.tag != *tag => (),
                        _ => return bad(format!("{}: `{}` doesn't fit variant {}", at, syntax::name(n), tag)),
                    }
                    if var.tag == *tag {
                        let path = nested(*tag);
                        if let Some(path) = &path {
                            let found = self.path_of(&current)?;
                            must!(found == *path, "{}: a variant knows path {:?} instead of {:?}", at, found, path);
                        }
                        self.look_fields(&current, meta, &var.fields, vals, path.as_deref(), at)?;
                    }
                }
                Ok(())
            }
            _ => panic!("harness: values of C# clients"),
        }
    }

    fn look_fields(&self, v: &V, meta: &StructMeta, fields: &[Field], vals: &[Val], path: Option<&[u32]>, at: &str) -> F<()> {
        let Some((class, _)) = self.class_of(v) else { return bad(format!("{}: no object", at)) };
        let n = meta.name.csharp(String::from);
        must!(*syntax::name(class.name) == *n, "{}: an object of `{}` instead of `{}`", at, syntax::name(class.name), n);
        for (f, val) in fields.iter().zip(vals) {
            let n = self.named(&class, &Self::field(meta, f.tag)?.name.csharp(String::from))?;
            let nested = path.map(|p| p.iter().copied().chain([f.tag]).collect::<Vec<u32>>());
            self.look(&self.get(v, n)?, f.ty, val, nested.as_deref(), &format!("{}/{}", at, f.name))?;
        }
        Ok(())
    }

    /// What holds the position at the end of a path: an object, with its type, or a variant of an enum.
    fn holder(&self, root: &V, ty: Ty, val: &Val, path: &[u32]) -> F<(V, Ty, Val)> {
        let (mut v, mut ty, mut val) = (root.clone(), ty, val.clone());
        let mut path = path;
        while let Some((&tag, mut rest)) = path.split_first() {
            let (next, t, x) = match (&**ty, &val) {
                (TyDef::List(t), Val::Seq(items)) => {
                    let of = self.seq(&v, items.len(), "a list")?;
                    (of[tag as usize].clone(), *t, items[tag as usize].clone())
                }
                (TyDef::Map(_, t), Val::Map(pairs)) => {
                    let mut found = None;
                    for pair in self.seq(&v, pairs.len(), "a map")? {
                        if let V::Obj(o) = &pair {
                            if let Nat::Pair(V::Int(_, k), v) = &*o.nat.borrow() {
                                if *k as u32 == tag {
                                    found = Some(v.clone());
                                }
                            }
                        }
                    }
                    let val = pairs.iter().find(|p| p.0 == tag).expect("harness: a path").1.clone();
                    (found.expect("harness: a path"), *t, val)
                }
                (TyDef::Struct(name, fields), Val::Struct(vals)) => {
                    let Some((class, _)) = self.class_of(&v) else { return bad("no object") };
                    let i = fields.iter().position(|f| f.tag == tag).expect("harness: a path");
                    let n = self.named(&class, &Self::field(self.fields_of(name, "")?, tag)?.name.csharp(String::from))?;
                    (self.get(&v, n)?, fields[i].ty, vals[i].clone())
                }
                (TyDef::Enum(name, variants), Val::Enum(_, vals)) => {
                    let var = variants.iter().find(|x| x.tag == tag).expect("harness: a path");
                    let Some((&tag, more)) = rest.split_first() else { return Ok((self.prop(&v, "Variant")?, ty, val)) };
                    rest = more;
                    let v = self.prop(&v, "Variant")?;
                    let Some((class, _)) = self.class_of(&v) else { return bad("no variant") };
                    let i = var.fields.iter().position(|f| f.tag == tag).expect("harness: a path");
                    let n = self.named(&class, &Self::field(self.variant_of(name, var.tag)?, tag)?.name.csharp(String::from))?;
                    (self.get(&v, n)?, var.fields[i].ty, vals[i].clone())
                }
                _ => panic!("harness: a path"),
            };
            (v, ty, val) = (next, t, x);
            path = rest;
        }
        Ok((v, ty, val))
    }

    /// Replays a record on a client which has contents `before`, giving the root which results.
    fn follow(&self, kind: TypeId, root: &V, ty: Ty, before: &Val, rec: &Rec) -> F<(V, Val)> {
        let w = &self.world;
        let mut after = before.clone();
        if apply(ty, &mut after, rec).0.is_err() {
            panic!("harness: a server's record {:?}", rec);
        }
        let path = rec.path();
        // Where an event is due, and the field's tag.
        let due = match rec {
            Rec::Update(..) => path.split_last().map(|(tag, rest)| (rest, *tag)),
            _ => Some((path, 0)),
        };
        let holder = match due {
            Some((path, _)) => Some(self.holder(root, ty, before, path)?),
            None => None,
        };
        w.hook.borrow_mut().clear();
        let new = self.replay(kind, root, &rec.encode_nested())?;
        let fired = std::mem::take(&mut *w.hook.borrow_mut());
        self.look(&new, ty, &after, Some(&[]), "root")?;
        let (Some((_, tag)), Some((v, t, val))) = (due, holder) else {
            must!(fired.is_empty(), "an event is raised as the root is replaced");
            return Ok((new, after));
        };
        let V::Obj(obj) = &v else { return bad("no container") };
        must!(fired.len() == 1, "{} events are raised for {:?}", fired.len(), rec);
        let event = &fired[0];
        let is = syntax::name(event.event);
        let same = |what: &str, v: &V| match v {
            V::Obj(o) if Rc::ptr_eq(o, obj) => Ok(()),
            _ => bad(format!("{}: {} isn't the container of {:?}", is, what, rec)),
        };
        same("its sender", &event.sender)?;
        must!(w.as_class(event.owner).is_some_and(|(c, _)| Rc::ptr_eq(&c, obj.class.as_ref().unwrap())), "{}: raised by another class", is);
        let number = |n: &str, want: u32| -> F<()> {
            let found = self.prop(&event.args, n)?;
            must!(matches!(found, V::Int(_, n) if n as u32 == want), "{}: {} is {} instead of {}", is, n, w.text(&found).unwrap_or_default(), want);
            Ok(())
        };
        let named = |want: &str| -> F<()> {
            must!(*is == *want, "{} is raised instead of {} for {:?}", is, want, rec);
            Ok(())
        };
        let item_path: Vec<u32> = path.to_vec();
        let at = |tag: u32| -> Vec<u32> { path.iter().copied().chain([tag]).collect() };
        let update = |t: Ty, new: &Val, old: &Val| -> F<()> {
            number("Tag", tag)?;
            same("its container", &self.prop(&event.args, "Container")?)?;
            self.look(&self.prop(&event.args, "NewValue")?, t, new, Some(&item_path), &format!("{} new value", is))?;
            self.look(&self.prop(&event.args, "OldValue")?, t, old, Some(&item_path), &format!("{} old value", is))
        };
        let decoded = |t: Ty, bytes: &[u8]| decode(t, bytes).0.expect("harness: a record");
        match (&**t, &val, rec) {
            (TyDef::List(t), Val::Seq(items), Rec::Update(_, bytes)) => {
                named("OnUpdate")?;
                update(t, &decoded(t, bytes), &items[tag as usize])?;
            }
            (TyDef::List(t), Val::Seq(items), Rec::Push(_, bytes)) => {
                named("OnPush")?;
                number("Tag", items.len() as u32)?;
                same("its list", &self.prop(&event.args, "List")?)?;
                self.look(&self.prop(&event.args, "Item")?, t, &decoded(t, bytes), Some(&at(items.len() as u32)), "the pushed item")?;
            }
            (TyDef::List(t), Val::Seq(items), Rec::Pop(_)) => {
                named("OnPop")?;
                let last = items.len() as u32 - 1;
                number("Tag", last)?;
                same("its list", &self.prop(&event.args, "List")?)?;
                self.look(&self.prop(&event.args, "Item")?, t, items.last().unwrap(), Some(&at(last)), "the popped item")?;
            }
            (TyDef::Map(_, t), Val::Map(pairs), Rec::Update(_, bytes)) => match pairs.iter().find(|p| p.0 == tag) {
                Some((_, old)) => {
                    named("OnUpdate")?;
                    update(t, &decoded(t, bytes), old)?;
                }
                None => {
                    named("OnInsert")?;
                    number("Tag", tag)?;
                    same("its map", &self.prop(&event.args, "Map")?)?;
                    self.look(&self.prop(&event.args, "Value")?, t, &decoded(t, bytes), Some(&item_path), "the inserted value")?;
                }
            },
            (TyDef::Map(_, t), Val::Map(pairs), Rec::Remove(_, key)) => {
                named("OnRemove")?;
                number("Tag", *key)?;
                same("its map", &self.prop(&event.args, "Map")?)?;
                let old = &pairs.iter().find(|p| p.0 == *key).expect("harness: a key").1;
                self.look(&self.prop(&event.args, "Value")?, t, old, Some(&at(*key)), "the removed value")?;
            }
            (TyDef::Struct(name, fields), Val::Struct(vals), Rec::Update(_, bytes)) => {
                let n = self.named(obj.class.as_ref().unwrap(), &Self::field(self.fields_of(name, "")?, tag)?.name.csharp(String::from))?;
                named(&format!("On{}Update", syntax::name(n)))?;
                let i = fields.iter().position(|f| f.tag == tag).expect("harness: a field");
                update(fields[i].ty, &decoded(fields[i].ty, bytes), &vals[i])?;
            }
            (TyDef::Enum(name, variants), Val::Enum(var, vals), Rec::Update(_, bytes)) => {
                let n = self.named(obj.class.as_ref().unwrap(), &Self::field(self.variant_of(name, *var)?, tag)?.name.csharp(String::from))?;
                named(&format!("On{}Update", syntax::name(n)))?;
                let fields = &variant(variants, *var).expect("harness: a variant").fields;
                let i = fields.iter().position(|f| f.tag == tag).expect("harness: a field");
                update(fields[i].ty, &decoded(fields[i].ty, bytes), &vals[i])?;
            }
            _ => panic!("harness: a record {:?}", rec),
        }
        Ok((new, after))
    }
}

thread_local! {
    static CLIENT: RefCell<Option<Rc<Client>>> = const { RefCell::new(None) };
}

static UNKNOWN: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

/// Runs something with a client; what isn't understood is taken note of.
fn with_client(run: impl FnOnce(&Client) -> F<()>) -> Check {
    let client = CLIENT.with(|c| {
        c.borrow_mut()
            .get_or_insert_with(|| match Client::load() {
                Ok((client, _)) => Rc::new(client),
                Err(_) => panic!("harness: a client which has been loaded before"),
            })
            .clone()
    });
    client.world.fuel.set(FUEL);
    client.world.depth.set(0);
    client.world.hook.borrow_mut().clear();
    match run(&client) {
        Ok(()) => Ok(()),
        Err(Fail::Bad(msg)) => Err(msg),
        Err(Fail::Unknown(what)) => {
            *UNKNOWN.lock().unwrap().entry(what).or_default() += 1;
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- cases

fn history(h: &Hist) -> Check {
    let (root, mut server, log) = begin(h)?;
    let ty = (root.ty)();
    let kind = kind_named(&h.root);
    let start = server.val();
    let first = server.bytes();
    let mut logs = Vec::new();
    let mut last = first.clone();
    let mut before = start.clone();
    for step in &h.steps {
        last = server.bytes();
        before = server.val();
        act(&mut server, step);
        logs.push(drain(&log));
    }
    let now = server.val();
    with_client(|c| {
        let t = c.ty_of(kind.meta)?;
        // Starting from a snapshot taken just before the last step.
        let mut v = c.decode(t, &last)?;
        let mut val = before;
        c.look(&v, ty, &val, Some(&[]), "a snapshot")?;
        let recs = |log: &[u8]| decode_log(log).expect("harness: a server's log");
        for rec in logs.last().map(|l| recs(l)).unwrap_or_default() {
            (v, val) = c.follow(t, &v, ty, &val, &rec)?;
        }
        must!(val == now || logs.is_empty(), "harness: the log doesn't tell all");
        if logs.len() < 2 {
            return Ok(());
        }
        // Starting from the first one.
        let mut v = c.decode(t, &first)?;
        let mut val = start;
        for log in &logs[..logs.len() - 1] {
            v = c.replay(t, &v, log)?;
            for rec in recs(log) {
                let _ = apply(ty, &mut val, &rec);
            }
        }
        for rec in recs(logs.last().unwrap()) {
            (v, val) = c.follow(t, &v, ty, &val, &rec)?;
        }
        must!(val == now, "harness: the log doesn't tell all");
        Ok(())
    })
}

/// A server's history, mirrored by clients with other versions of its type.
fn mirrored(h: &Hist) -> Check {
    for to in kinds() {
        if family(&to.name).is_some_and(|f| Some(f) == family(&h.root)) && to.name != h.root && !to.name.contains("Sv16") {
            mirror(h, to)?;
        }
    }
    Ok(())
}

fn mirror(h: &Hist, to: &Kind) -> Check {
    let (_, mut server, log) = begin(h)?;
    let ty = (to.ty)();
    let first = server.bytes();
    let mut logs = Vec::new();
    for step in &h.steps {
        act(&mut server, step);
        logs.extend(drain(&log));
    }
    let last = server.bytes();
    let known = |bytes: &[u8]| match decode(ty, bytes) {
        (Ok(val), false) => val,
        _ => panic!("harness: versions"),
    };
    let now = known(&last);
    with_client(|c| {
        let t = c.ty_of(to.meta)?;
        let mut v = c.decode(t, &first)?;
        let mut val = known(&first);
        for rec in decode_log(&logs).expect("harness: a server's log") {
            if apply(ty, &mut val.clone(), &rec).0.is_ok() {
                (v, val) = c.follow(t, &v, ty, &val, &rec)?;
            } else {
                // Something which the client doesn't know has changed.
                c.world.hook.borrow_mut().clear();
                v = c.replay(t, &v, &rec.encode_nested())?;
                must!(c.world.hook.borrow().is_empty(), "an event is raised for a field which isn't known: {:?}", rec);
            }
            c.look(&v, ty, &val, Some(&[]), "a mirror")?;
        }
        must!(val == now, "harness: versions differ: {:?} {:?}", val, now);
        Ok(())
    })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Decoded {
    from: String,
    to: String,
    val: Val,
}

/// Decodes a server's value, perhaps with another version of its type.
fn decoded(case: &Decoded) -> Check {
    let (from, to) = (kind_named(&case.from), kind_named(&case.to));
    let bytes = encode((from.ty)(), &case.val);
    let ty = (to.ty)();
    let (want, lossy) = decode(ty, &bytes);
    let Ok(want) = want else { return Ok(()) };
    if lossy {
        return Ok(());
    }
    with_client(|c| {
        let t = c.ty_of(to.meta)?;
        let path: Option<&[u32]> = match &**ty {
            TyDef::U(_) | TyDef::I(_) | TyDef::Bool | TyDef::Str => None,
            _ => Some(&[]),
        };
        c.look(&c.decode(t, &bytes)?, ty, &want, path, "a value")
    })
}

/// Checks what can be made of a type without any input.
fn made(name: &String) -> Check {
    let kind = kind_named(name);
    let ty = (kind.ty)();
    with_client(|c| {
        let w = &c.world;
        let t = c.ty_of(kind.meta)?;
        let Some((class, targs)) = w.as_class(t) else { return Ok(()) };
        // Paths are handed on, too.
        let V::Obj(root) = &c.root_path else { return Ok(()) };
        let path = |at: &V, tag: u32| {
            let tag = ArgV::plain(V::Int(K::U32, tag as i64));
            w.call_method(at, sym("GetNested"), &[tag]).map_err(|e| c.fail("GetNested", e))
        };
        let nested = path(&path(&V::Obj(root.clone()), 3)?, 5)?;
        if !matches!(&**ty, TyDef::Raw) {
            let v = w.new_object(t, &[]).map_err(|e| c.fail("a constructor", e))?;
            // Clients don't know the lengths of arrays.
            if !has_arrays(ty, &mut vec![]) {
                c.look(&v, ty, &default(ty), Some(&[]), "a new object")?;
            }
            let v = w.new_object(t, &[ArgV::plain(nested.clone())]).map_err(|e| c.fail("a constructor", e))?;
            must!(c.path_of(&v)? == [3, 5], "a new object doesn't know its path");
            let none: Rc<[TypeId]> = [].into();
            if let Some((Slot::Methods(ms), class, targs)) = w.member(&c.factory, &none, sym("Construct")) {
                let made = w.call_group(&class, &targs, &ms, &V::Null, &[ArgV::plain(nested.clone())], &[t], &mut vec![]);
                match made.map_err(|e| c.fail("StateFactory.Construct", e))? {
                    Some(v) => must!(c.path_of(&v)? == [3, 5], "a constructed object doesn't know its path"),
                    None => return Err(Fail::Unknown("StateFactory.Construct".into())),
                }
            }
        }
        if let TyDef::Enum(name, variants) = &**ty {
            for var in variants {
                let meta = c.variant_of(name, var.tag)?;
                let n = meta.name.csharp(String::from);
                let tag = c.named(&class, &(n.clone() + "Tag"))?;
                let found = match w.member(&class, &targs, tag) {
                    Some((slot, class, targs)) => w.read(&V::Null, &slot, &class, &targs).map_err(|e| c.fail("a constant", e))?,
                    None => V::Null,
                };
                must!(matches!(found, V::Int(K::U32, n) if n as u32 == var.tag), "`{}` isn't {}", syntax::name(tag), var.tag);
                if !targs.is_empty() && c.broken > 0 {
                    // See what is found upon loading.
                    continue;
                }
                let loose = |n: &str| n.replace('_', "").to_lowercase();
                let want = loose(&("New".to_string() + &n));
                let made = w.table(&class).members.iter().find(|(n, slot)| matches!(slot, Slot::Methods(_)) && loose(&syntax::name(**n)) == want);
                let Some((_, Slot::Methods(ms))) = made else { return bad(format!("`{}` has no `New{}`", syntax::name(class.name), n)) };
                let made = w.call_group(&class, &targs, ms, &V::Null, &[], &[], &mut vec![]).map_err(|e| c.fail("a factory", e))?;
                let Some(v) = made else { return bad(format!("`New{}` takes arguments", n)) };
                c.look(&v, ty, &default_variant(var), Some(&[]), "a new variant")?;
            }
        }
        Ok(())
    })
}

pub fn c25(run: &Run) {
    run.assume("C# is run by an interpreter written for this, which was compared with the outcomes expected of the repository's own C# program, steit-csharp/tests/Test.cs");
    run.assume("constructs of C# which the interpreter doesn't know make a client impossible to judge, which is told in the evidence, and isn't an alarm");
    kinds();
    let s = sources();
    run.note("files", s.files.len());
    run.note("files_generated", s.files.iter().filter(|f| f.generated).count());
    run.note("runtime_as_known", s.known);
    let (problems, unknown, ok) = std::thread::scope(|scope| {
        let load = || match Client::load() {
            Ok((_, r)) => (r.problems, r.unknown, true),
            Err(r) => (r.problems, r.unknown, false),
        };
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(scope, load).unwrap().join().expect("harness: loading a client")
    });
    for [file, within, wrong] in &problems {
        let what = format!("what is generated doesn't compile: {}: {}: {}", file, within, wrong);
        let case = json!({"file": file, "within": within, "what": wrong});
        // Factories of generic enums lack the arguments of their types.
        let factory = wrong.starts_with("using the generic type") && within.contains(".New");
        // An enum named `Tag` gets a property of its own name.
        let tag = *file == "generated/Tag.cs" && *within == "Tag" && wrong.starts_with("member named like its class");
        if tag {
            run.finding("enum-named-tag", "an enum named `Tag` has a member named like its class", "compiled", case);
        } else if factory {
            run.finding("generic-enum-factory", "factories of generic enums lack the enum's type arguments", "compiled", case);
        } else {
            run.violation("compiled", case, &what);
        }
    }
    run.note("not_understood", &unknown);
    for what in &unknown {
        println!("NOTE: C25 cannot judge the client: {}", what);
    }
    if !ok {
        return;
    }
    run.note("classes", kinds().len());
    let replays = [
        run.replaying::<Hist>("history", history),
        run.replaying::<Decoded>("decoded", decoded),
        run.replaying::<Hist>("mirrored", mirrored),
        run.replaying::<String>("made", made),
    ];
    if replays.contains(&true) {
        return;
    }
    run.phase("made");
    run.par(kinds(), |k| run.case("made", &k.name, made));
    run.phase("decoded");
    run.par(kinds(), |k| {
        let ty = (k.ty)();
        let mut vals = gen::small(ty, Full);
        vals.extend((0..3).map(|n| gen::rich_n(ty, gen::FUEL, n)));
        vals.extend(gen::grown(ty, &[129, 40]));
        vals.extend(gen::deep(ty, 12));
        vals.extend(gen::many(ty, 2, if run.thorough { 3000 } else { 100 }));
        vals.extend(match **ty {
            TyDef::U(bits) => numbers(bits, run.thorough).into_iter().map(Val::U).collect(),
            TyDef::I(bits) => numbers(bits, run.thorough).into_iter().map(|n| Val::I(narrow(bits, n))).collect(),
            _ => vec![],
        });
        let mut seen = HashSet::new();
        for val in vals {
            if run.stopped() {
                return;
            }
            let case = Decoded { from: k.name.clone(), to: k.name.clone(), val };
            if seen.insert(hash(&case)) {
                run.case("decoded", &case, decoded);
            }
        }
        run.states_seen(seen);
    });
    run.phase("versions");
    let mut pairs = Vec::new();
    for a in kinds() {
        for b in kinds() {
            if a.name != b.name && family(&a.name).is_some() && family(&a.name) == family(&b.name) {
                pairs.push((a, b));
            }
        }
    }
    run.par(&pairs, |(a, b)| {
        let ty = (a.ty)();
        let mut seen = HashSet::new();
        let mut vals = gen::many(ty, 2, if run.thorough { 200 } else { 8 });
        vals.push(gen::rich_n(ty, gen::FUEL, 0));
        for val in vals {
            if run.stopped() {
                return;
            }
            let case = Decoded { from: a.name.clone(), to: b.name.clone(), val };
            if seen.insert(hash(&case)) {
                run.case("decoded", &case, decoded);
            }
        }
        run.states_seen(seen);
    });
    run.phase("mirrors");
    let depths: &[Level] = if run.thorough { &[Lean, Tiny] } else { &[Tiny] };
    let roots = version_roots().iter().map(|r| r.name).collect();
    let plan = Plan { roots, starts: Starts::Few, depths: depths.to_vec(), accesses: vec![0], logged: true };
    explore(run, "mirrored", &plan, |h, _| mirrored(h));
    let plan = |name: &str, roots: Vec<&'static str>, starts, depths: &[Level]| {
        if run.stopped() {
            return;
        }
        run.phase(name);
        let plan = Plan { roots, starts, depths: depths.to_vec(), accesses: vec![0], logged: true };
        explore(run, "history", &plan, |h, _| history(h));
    };
    plan("one_step", all_roots(), Starts::New, &[Full]);
    plan("one_step_few", all_roots(), Starts::Few, &[Lean]);
    plan("one_step_large", CORE.to_vec(), Starts::Large, &[Tiny]);
    run.phase("one_step_huge");
    let mut huge = Vec::new();
    for name in ["List<i32>", "List<Pt>", "List<Sh>", "Map<u16,Pt>", "Map<u32,Sh>", "List<List<u8>>"] {
        let ty = (root_named(name).ty)();
        for v in gen::grown(ty, &[300]) {
            huge.extend(gen::ops(ty, &v, Tiny).into_iter().map(|step| (name, v.clone(), step)));
        }
    }
    run.par(&huge, |(name, v, step)| {
        if !run.stopped() {
            let h = Hist { root: name.to_string(), start: Start::Built(v.clone()), steps: vec![step.clone()], access: 0 };
            run.case("history", &h, history);
        }
    });
    plan("two_steps", all_roots(), Starts::New, &[Lean, Tiny]);
    plan("three_steps", CORE.to_vec(), Starts::New, &[Tiny, Tiny, Tiny]);
    if run.thorough {
        plan("one_step_many", all_roots(), Starts::Many, &[Full]);
        plan("one_step_large_all", all_roots(), Starts::Large, &[Lean]);
        plan("two_steps_few", all_roots(), Starts::Few, &[Lean, Tiny]);
        plan("two_steps_full", all_roots(), Starts::New, &[Full, Lean]);
        plan("three_steps_lean", CORE.to_vec(), Starts::New, &[Lean, Tiny, Tiny]);
        plan("four_steps", CORE.to_vec(), Starts::New, &[Tiny, Tiny, Tiny, Tiny]);
    }
    let unknown = UNKNOWN.lock().unwrap();
    run.note("executions_not_understood", &*unknown);
    for (what, n) in &*unknown {
        println!("NOTE: C25 cannot judge {} executions: {}", n, what);
    }
}

fn has_arrays(ty: Ty, seen: &mut Vec<Ty>) -> bool {
    if seen.iter().any(|t| std::ptr::eq(*t, ty)) {
        return false;
    }
    seen.push(ty);
    let mut fields = |fields: &[Field]| fields.iter().any(|f| has_arrays(f.ty, seen));
    match &**ty {
        TyDef::Arr(..) => true,
        TyDef::Struct(_, f) => fields(f),
        TyDef::Enum(_, variants) => variants.iter().any(|v| fields(&v.fields)),
        _ => false,
    }
}

/// The family a version belongs to, with what is around it.
fn family(name: &str) -> Option<String> {
    let at = name.find("Ev").or(name.find("Sv")).or(name.find("Ee"))?;
    let digits = name[at + 2..].chars().take_while(|c| c.is_ascii_digit()).count();
    (digits > 0).then(|| format!("{}{}", &name[..at + 2], &name[at + 2 + digits..]))
}

/// Numbers near powers of two, or all of them.
fn numbers(bits: u32, all: bool) -> Vec<u64> {
    if bits <= 8 || (bits == 16 && all) {
        return (0..1 << bits).collect();
    }
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut out = Vec::new();
    for shift in 0..bits {
        for near in 0..5u64 {
            out.push((1u64 << shift).wrapping_add(near).wrapping_sub(2) & max);
            out.push(!((1u64 << shift).wrapping_add(near).wrapping_sub(2)) & max);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn narrow(bits: u32, n: u64) -> i64 {
    match bits {
        8 => n as i8 as i64,
        16 => n as i16 as i64,
        32 => n as i32 as i64,
        _ => n as i64,
    }
}
