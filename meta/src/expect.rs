//! What schemas imply: type expressions, reachable messages, C# names, encodings.

use std::collections::{BTreeMap, BTreeSet};

use crate::{def::*, schemas::MSGS};

/// A type without parameters.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Type {
    Prim(String),
    Bytes,
    Param(String),
    Msg(usize, Vec<Type>),
    Vec(Box<Type>),
    Arr(Box<Type>, usize),
    Opt(Box<Type>),
    Box(Box<Type>),
    List(Box<Type>),
    Map(String, Box<Type>),
}

pub type Env = BTreeMap<&'static str, Type>;

pub fn close(ty: &Ty, env: &Env) -> Type {
    let sub = |t: &Ty| Box::new(close(t, env));
    match ty {
        Ty::Prim(p) => Type::Prim(p.to_string()),
        Ty::Bytes => Type::Bytes,
        Ty::Param(p) => env.get(p).cloned().unwrap_or_else(|| Type::Param(p.to_string())),
        Ty::Msg(i, args) => Type::Msg(*i, args.iter().map(|a| close(a, env)).collect()),
        Ty::Vec(t) => Type::Vec(sub(t)),
        Ty::Arr(t, n) => Type::Arr(sub(t), *n),
        Ty::Opt(t) => Type::Opt(sub(t)),
        Ty::Box(t) => Type::Box(sub(t)),
        Ty::List(t) => Type::List(sub(t)),
        Ty::Map(k, t) => Type::Map(k.to_string(), sub(t)),
    }
}

pub fn env(msg: usize, args: &[Type]) -> Env {
    MSGS[msg].params.iter().copied().zip(args.iter().cloned()).collect()
}

/// All fields of a message, of all variants.
pub fn all_fields(msg: &Msg) -> Vec<&'static Field> {
    match msg.kind {
        Kind::Struct(fields) => fields.iter().collect(),
        Kind::Enum(variants) => variants.iter().flat_map(|v| v.fields).collect(),
    }
}

pub fn is_varint(ty: &Type) -> bool {
    match ty {
        Type::Prim(p) => p != "String",
        Type::Box(t) => is_varint(t),
        _ => false,
    }
}

fn cs_prim(p: &str) -> &'static str {
    match p {
        "u8" => "Byte",
        "u16" => "UInt16",
        "u32" => "UInt32",
        "u64" => "UInt64",
        "i8" => "SByte",
        "i16" => "Int16",
        "i32" => "Int32",
        "i64" => "Int64",
        "bool" => "Boolean",
        "String" => "String",
        _ => unreachable!(),
    }
}

pub fn given<'a>(rust: &'a str, cs: Option<&'a str>) -> &'a str {
    cs.unwrap_or(rust)
}

/// A type expression, in the notation of `meta::show`. Boxes don't show.
pub fn show(ty: &Type) -> String {
    let list = |args: &[Type]| args.iter().map(show).collect::<Vec<_>>().join(",");
    match ty {
        Type::Prim(p) => format!("{}/{}:{}", p, cs_prim(p), if p == "String" { "Sized" } else { "Varint" }),
        Type::Bytes => "Bytes/Bytes<>".into(),
        Type::Param(p) => format!("'{}", p),
        Type::Msg(i, args) => format!("{}/{}<{}>", MSGS[*i].rust, given(MSGS[*i].rust, MSGS[*i].cs), list(args)),
        Type::Vec(t) | Type::Arr(t, _) => format!("Vec/Vector<{}>", show(t)),
        Type::Opt(t) => format!("Option/Option<{}>", show(t)),
        Type::Box(t) => show(t),
        Type::List(t) => format!("List/StateList<{}>", show(t)),
        Type::Map(k, t) => format!("Map/StateMap<{},{}>", show(&Type::Prim(k.clone())), show(t)),
    }
}

/// The type of a property in C#.
pub fn cs_type(ty: &Type) -> String {
    match ty {
        Type::Prim(p) => cs_prim(p).into(),
        Type::Bytes => "Bytes".into(),
        Type::Param(p) => p.clone(),
        Type::Msg(i, args) => {
            let name = given(MSGS[*i].rust, MSGS[*i].cs);
            match args.is_empty() {
                true => name.into(),
                false => format!("{}<{}>", name, args.iter().map(cs_type).collect::<Vec<_>>().join(",")),
            }
        }
        Type::Vec(t) | Type::Arr(t, _) => format!("Vector<{}>", cs_type(t)),
        Type::Opt(t) => format!("Option<{}>", cs_type(t)),
        Type::Box(t) => cs_type(t),
        Type::List(t) => format!("StateList<{}>", cs_type(t)),
        Type::Map(_, t) => format!("StateMap<{}>", cs_type(t)),
    }
}

pub fn unboxed(ty: &Type) -> &Type {
    match ty {
        Type::Box(t) => unboxed(t),
        t => t,
    }
}

/// Types directly used by a type.
pub fn children(ty: &Type) -> Vec<Type> {
    match ty {
        Type::Prim(_) | Type::Bytes | Type::Param(_) => Vec::new(),
        Type::Msg(i, args) => {
            let env = env(*i, args);
            all_fields(&MSGS[*i]).iter().map(|f| close(&f.ty, &env)).collect()
        }
        Type::Vec(t) | Type::Arr(t, _) | Type::Opt(t) | Type::Box(t) | Type::List(t) | Type::Map(_, t) => vec![(**t).clone()],
    }
}

/// All types used by a type, itself included.
pub fn closure(ty: &Type) -> BTreeSet<Type> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![ty.clone()];
    while let Some(t) = todo.pop() {
        if seen.insert(t.clone()) {
            todo.extend(children(&t));
        }
    }
    seen
}

pub fn messages(ty: &Type) -> BTreeSet<usize> {
    closure(ty).iter().filter_map(|t| if let Type::Msg(i, _) = t { Some(*i) } else { None }).collect()
}

/// `snake_case` or `camelCase` to `UpperCamelCase`.
pub fn upper_camel(name: &str) -> String {
    name.split('_')
        .map(|word| {
            let mut chars = word.chars();
            chars.next().map_or(String::new(), |c| c.to_uppercase().chain(chars).collect())
        })
        .collect()
}

// --- Encodings ---

pub fn varint(mut n: u32, to: &mut Vec<u8>) {
    while n >= 0x80 {
        to.push(n as u8 | 0x80);
        n >>= 7;
    }
    to.push(n as u8);
}

/// Appends a value as an item or field, after its tag.
fn item(ty: &Type, depth: usize, to: &mut Vec<u8>) {
    if is_varint(ty) {
        return to.extend(content(ty, depth));
    }
    let bytes = content(ty, depth);
    varint(bytes.len() as u32, to);
    to.extend(bytes);
}

/// The encoding of some value of a type, as large as the depth permits.
pub fn content(ty: &Type, depth: usize) -> Vec<u8> {
    let mut to = Vec::new();
    match ty {
        Type::Prim(p) if p == "String" => to.push(b'x'),
        Type::Prim(_) => to.push(1),
        Type::Bytes => to.extend([7, 8, 9]),
        Type::Param(_) => unreachable!(),
        Type::Vec(_) | Type::List(_) | Type::Map(..) if depth == 0 => (),
        Type::Vec(t) | Type::List(t) => {
            item(t, depth - 1, &mut to);
            item(t, depth - 1, &mut to);
        }
        Type::Map(_, t) => {
            varint(5 << 3 | if is_varint(t) { 0 } else { 2 }, &mut to);
            item(t, depth - 1, &mut to);
        }
        Type::Opt(_) if depth == 0 => (),
        Type::Opt(t) => item(t, depth - 1, &mut to),
        Type::Arr(t, n) => (0..*n).for_each(|_| item(t, depth.saturating_sub(1), &mut to)),
        Type::Box(t) => return content(t, depth),
        Type::Msg(i, args) => {
            let fields = match MSGS[*i].kind {
                Kind::Struct(fields) => fields,
                Kind::Enum(variants) => {
                    let v = if depth == 0 { variants.iter().find(|v| v.tag == 0).unwrap() } else { variants.last().unwrap() };
                    varint(v.tag, &mut to);
                    v.fields
                }
            };
            if depth > 0 {
                let env = env(*i, args);
                for f in fields {
                    field(f.tag, &close(&f.ty, &env), depth - 1, &mut to);
                }
            }
            if depth == 0 {
                // What is not optional shows by default.
                let env = env(*i, args);
                for f in fields {
                    by_default(f.tag, &close(&f.ty, &env), &mut to);
                }
            }
        }
    }
    to
}

/// A field is left out if its value is empty.
fn field(tag: u32, ty: &Type, depth: usize, to: &mut Vec<u8>) {
    if !is_varint(ty) && content(ty, depth).is_empty() {
        return;
    }
    varint(tag << 3 | if is_varint(ty) { 0 } else { 2 }, to);
    item(ty, depth, to);
}

/// The encoding of a default value.
pub fn default(ty: &Type) -> Vec<u8> {
    let mut to = Vec::new();
    match ty {
        Type::Arr(t, n) => {
            for _ in 0..*n {
                if is_varint(t) {
                    to.push(0);
                } else {
                    let bytes = default(t);
                    varint(bytes.len() as u32, &mut to);
                    to.extend(bytes);
                }
            }
        }
        Type::Box(t) => return default(t),
        Type::Msg(i, args) => {
            let fields = match MSGS[*i].kind {
                Kind::Struct(fields) => fields,
                Kind::Enum(variants) => {
                    to.push(0);
                    variants.iter().find(|v| v.tag == 0).unwrap().fields
                }
            };
            let env = env(*i, args);
            for f in fields {
                by_default(f.tag, &close(&f.ty, &env), &mut to);
            }
        }
        _ => (),
    }
    to
}

fn by_default(tag: u32, ty: &Type, to: &mut Vec<u8>) {
    let bytes = if is_varint(ty) { Vec::new() } else { default(ty) };
    if !bytes.is_empty() {
        varint(tag << 3 | 2, to);
        varint(bytes.len() as u32, to);
        to.extend(bytes);
    }
}

/// An encoding with one field set, and the others by default.
pub fn with_field(fields: &[Field], env: &Env, which: usize) -> Vec<u8> {
    let mut to = Vec::new();
    for (i, f) in fields.iter().enumerate() {
        let ty = close(&f.ty, env);
        if i == which {
            field(f.tag, &ty, 3, &mut to);
        } else {
            by_default(f.tag, &ty, &mut to);
        }
    }
    to
}
