//! C22: metadata describe schemas exactly.

use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

use serde::{Deserialize, Serialize};
use steit::{meta::*, wire_fmt::WireType};

use crate::{
    def::{Field, Kind, Msg, Root},
    ensure,
    expect::*,
    run::{hash, Check, Run},
    schemas::{self, MSGS},
};

pub fn name(name: &NameMeta) -> String {
    format!("{}/{}", name.rust, name.csharp.unwrap_or(name.rust))
}

pub fn show(ty: &TypeMeta) -> String {
    match ty {
        TypeMeta::Primitive(n, WireType::Varint) => format!("{}:Varint", name(n)),
        TypeMeta::Primitive(n, WireType::Sized) => format!("{}:Sized", name(n)),
        TypeMeta::Ref(NameMeta { rust: "Box", .. }, [arg]) => show_field(arg),
        TypeMeta::Ref(n, args) => format!("{}<{}>", name(n), args.iter().map(show_field).collect::<Vec<_>>().join(",")),
    }
}

pub fn show_field(ty: &FieldTypeMeta) -> String {
    match ty {
        FieldTypeMeta::Type(ty) => show(ty),
        FieldTypeMeta::TypeParam(p) => format!("'{}", p),
    }
}

fn fields_match(got: &[FieldMeta], want: &[Field], of: &str) -> Check {
    let got: Vec<_> = got.iter().map(|f| (f.tag, f.name.rust, f.name.csharp, show_field(f.ty))).collect();
    let want: Vec<_> = want.iter().map(|f| (f.tag, f.rust, f.cs, crate::expect::show(&close(&f.ty, &Env::new())))).collect();
    ensure!(got == want, "fields of {} are {:?} instead of {:?}", of, got, want);
    Ok(())
}

/// Metadata of a message are those expected.
fn msg_matches(got: &MessageMeta, want: &Msg) -> Check {
    let of = want.rust;
    ensure!(got.rust_name() == want.rust, "{} is called {}", of, got.rust_name());
    ensure!(got.csharp_name() == given(want.rust, want.cs), "{} is called {} in C#", of, got.csharp_name());
    ensure!(got.is_builtin() == want.builtin, "whether {} is built in: {}", of, got.is_builtin());
    match (got, &want.kind) {
        (MessageMeta::Struct(got), Kind::Struct(fields)) => {
            ensure!((got.name.rust, got.name.csharp) == (want.rust, want.cs), "{} is named {:?}", of, got.name);
            ensure!(got.type_params == want.params, "{} has type parameters {:?}", of, got.type_params);
            fields_match(got.fields, fields, of)
        }
        (MessageMeta::Enum(got), Kind::Enum(variants)) => {
            ensure!((got.name.rust, got.name.csharp) == (want.rust, want.cs), "{} is named {:?}", of, got.name);
            ensure!(got.type_params == want.params, "{} has type parameters {:?}", of, got.type_params);
            let got_names: Vec<_> = got.variants.iter().map(|v| (v.tag, v.ty.name.rust, v.ty.name.csharp)).collect();
            let names: Vec<_> = variants.iter().map(|v| (v.tag, v.rust, v.cs)).collect();
            ensure!(got_names == names, "variants of {} are {:?} instead of {:?}", of, got_names, names);
            for (got, want) in got.variants.iter().zip(*variants) {
                ensure!(got.default() == (want.tag == 0), "default of {}::{}", of, want.rust);
                ensure!(got.ty.type_params.is_empty(), "{}::{} has type parameters", of, want.rust);
                ensure!(got.ty.builtin == MSGS.iter().any(|m| m.builtin && m.rust == of), "whether {}::{} is built in", of, want.rust);
                fields_match(got.ty.fields, want.fields, &format!("{}::{}", of, want.rust))?;
            }
            Ok(())
        }
        _ => Err(format!("{} is of another kind", of)),
    }
}

#[derive(Serialize, Deserialize)]
pub struct Case {
    pub root: String,
}

pub fn find<'a>(roots: &'a [Root], name: &str) -> &'a Root {
    roots.iter().find(|r| r.rust == name).expect("harness: no such root")
}

struct Walk {
    seen: HashSet<u64>,
    followed: u64,
    depth: usize,
}

/// Walks through all links from a root, each with the type it is for.
fn walk(root: &Root) -> Result<Walk, String> {
    let ty = close(root.ty, &Env::new());
    let Type::Msg(id, _) = &ty else { unreachable!() };
    let shown = crate::expect::show(&ty);
    ensure!((root.name.rust, root.name.csharp) == (MSGS[*id].rust, MSGS[*id].cs), "the name of {} is {:?}", root.rust, root.name);
    ensure!(show(root.ty_meta) == shown, "the type of {} is {} instead of {}", root.rust, show(root.ty_meta), shown);

    let all = closure(&ty);
    let mut reached = BTreeSet::new();
    let mut done = BTreeSet::new();
    let mut walk = Walk { seen: HashSet::new(), followed: 0, depth: 0 };
    let mut todo = VecDeque::from([(root.link, ty.clone(), 0)]);
    while let Some((mut link, ty, depth)) = todo.pop_front() {
        // A box may have a link of its own, or share the one of its contents.
        let ty = unboxed(&ty).clone();
        for _ in 0..9 {
            match (link.links)() {
                [inner] if link.msg.is_none() && show(inner.r#type) == show(link.r#type) => link = inner,
                _ => break,
            }
        }
        // What has been seen may have another address.
        if !done.insert((ty.clone(), link.msg.is_some())) {
            continue;
        }
        ensure!(done.len() <= 2 * all.len(), "links from {} do not end", root.rust);
        walk.seen.insert(hash(&(root.rust, &ty, link.msg.is_some())));
        walk.depth = walk.depth.max(depth);
        let shown = crate::expect::show(&ty);
        ensure!(show(link.r#type) == shown, "a link of {} is for {} instead of {}", root.rust, show(link.r#type), shown);
        let links = (link.links)();
        walk.followed += links.len() as u64;

        match (&ty, &link.msg) {
            (Type::Msg(i, _), Some(msg)) => {
                reached.insert(*i);
                msg_matches(msg, &MSGS[*i])?;
            }
            (Type::Msg(..), None) => return Err(format!("no message is linked to {}", shown)),
            (_, Some(msg)) => return Err(format!("message {} is linked to {}", msg.rust_name(), shown)),
            (_, None) => (),
        }

        let mut wanted: BTreeMap<String, Vec<Type>> = BTreeMap::new();
        for child in children(&ty) {
            wanted.entry(crate::expect::show(&child)).or_default().push(child);
        }
        let mut got: BTreeSet<String> = links.iter().map(|l| show(l.r#type)).collect();
        if let Type::Map(k, _) = &ty {
            // The key may be linked or not.
            let key = crate::expect::show(&Type::Prim(k.clone()));
            if !wanted.contains_key(&key) {
                got.remove(&key);
            }
        }
        let want: BTreeSet<String> = wanted.keys().cloned().collect();
        ensure!(got == want, "links of {} are for {:?} instead of {:?}", shown, got, want);
        for link in links {
            for child in wanted.get(&show(link.r#type)).into_iter().flatten() {
                todo.push_back((link, child.clone(), depth + 1));
            }
        }
    }
    let want = messages(&ty);
    ensure!(reached == want, "messages reached from {} are {:?} instead of {:?}", root.rust,
        reached.iter().map(|i| MSGS[*i].rust).collect::<Vec<_>>(), want.iter().map(|i| MSGS[*i].rust).collect::<Vec<_>>());
    Ok(walk)
}

pub fn check(run: &'static Run) {
    let roots = schemas::roots();
    if run.replaying("root", |c: &Case| walk(find(&roots, &c.root)).map(drop)) {
        return;
    }
    let mut families: Vec<_> = roots.iter().map(|r| r.family).collect();
    families.dedup();
    families.sort();
    families.dedup();
    for family in families {
        run.phase(family);
        let of: Vec<_> = roots.iter().filter(|r| r.family == family).collect();
        run.par(&of, |root| {
            run.case("root", &Case { root: root.rust.into() }, |_| {
                let walk = walk(root)?;
                run.transitions.fetch_add(walk.followed, std::sync::atomic::Ordering::Relaxed);
                run.states_seen(walk.seen);
                Ok(())
            });
        });
    }
    for root in roots.iter().step_by(roots.len() / 5) {
        run.sample(&(root.rust, format!("{}", show(root.ty_meta))));
    }
    run.note("roots", roots.len());
    run.note("messages", MSGS.len());
    run.note("bounds", "type expressions of up to three constructors; structs of up to 3 fields and enums of up to 3 variants with all permutations of tags among 4; all subsets of names overridden; all digraphs of 2 and (up to isomorphism) 3 messages, with 10 kinds of edges");
    run.assume("States are pairs of a link and the type it stands for; a link is told from another one by type and presence of a message.");
}
