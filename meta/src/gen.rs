//! C21: generated client code agrees with the wire schema.

use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering::*},
        Mutex,
    },
};

use serde::{Deserialize, Serialize};
use steit::gen::{generators::CSharpSetting, Setting};

use crate::{
    behaves::{behaves, No},
    csharp::{self, Class},
    def::*,
    ensure,
    expect::*,
    meta::find,
    run::{hash, Check, Run},
    schemas::{self, MSGS},
};

struct Scratch(PathBuf);

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    fn new() -> Self {
        let n = COUNT.fetch_add(1, SeqCst);
        let dir = std::env::temp_dir().join(format!("steit-gen-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&dir).expect("harness: scratch directory");
        Scratch(dir)
    }

    fn files(&self) -> BTreeMap<String, String> {
        let mut to = BTreeMap::new();
        for entry in std::fs::read_dir(&self.0).unwrap() {
            let path = entry.unwrap().path();
            let text = std::fs::read_to_string(&path).unwrap();
            to.insert(path.file_name().unwrap().to_str().unwrap().to_string(), text);
        }
        to
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub root: String,
    pub skip: Vec<String>,
    pub builtins: bool,
    pub rust_names: bool,
    pub namespaces: Vec<String>,
    /// Another root generated first, into the same directory.
    pub first: Option<String>,
}

impl Case {
    fn new(root: &Root) -> Self {
        Case { root: root.rust.into(), skip: vec![], builtins: true, rust_names: false, namespaces: vec![], first: None }
    }

    fn setting(&self, dir: &PathBuf) -> Setting<CSharpSetting> {
        let csharp = CSharpSetting::new("Some.Space").using_namespaces(&self.namespaces);
        let mut setting = Setting::new(dir, csharp).skip_builtins(!self.builtins).skip_names(&self.skip);
        if self.rust_names {
            setting = setting.get_name_rust();
        }
        setting
    }

    fn names(&self, root: &Root) -> BTreeMap<String, usize> {
        let ty = close(root.ty, &Env::new());
        messages(&ty)
            .into_iter()
            .filter(|i| self.builtins || !MSGS[*i].builtin)
            .map(|i| (if self.rust_names { MSGS[i].rust } else { given(MSGS[i].rust, MSGS[i].cs) }.to_string(), i))
            .filter(|(name, _)| !self.skip.contains(name))
            .collect()
    }
}

// --- What is in a class ---

fn set(map: BTreeMap<String, String>) -> BTreeSet<(String, String)> {
    map.into_iter().collect()
}


/// The fields of a class are those expected.
fn fields_agree(class: &Class, fields: &[Field]) -> Check {
    let of = &class.name;
    let mut props = BTreeSet::new();
    let mut init = BTreeSet::new();
    let mut wire = BTreeSet::from([("default".to_string(), "return null;".to_string())]);
    let mut nested = wire.clone();
    let mut replace = BTreeSet::new();
    for f in fields {
        let prop = upper_camel(given(f.rust, f.cs));
        let ty = close(&f.ty, &Env::new());
        let cs = cs_type(&ty);
        props.insert((cs.clone(), prop.clone()));
        let tag = f.tag.to_string();
        let read = match unboxed(&ty) {
            Type::Prim(p) => {
                let w = if p == "String" { "Sized" } else { "Varint" };
                wire.insert((tag.clone(), format!("return WireType.{};", w)));
                format!("reader.Read{}()", cs)
            }
            Type::Param(p) => {
                wire.insert((tag.clone(), format!("return StateFactory.IsStateType(typeof({}))?WireType.Sized:WireType.Varint;", p)));
                init.insert((prop.clone(), format!("StateFactory.Construct<{}>(this.Path.GetNested({}))", cs, tag)));
                nested.insert((tag.clone(), format!("return this.{} as IState;", prop)));
                format!("StateFactory.Deserialize<{}>(reader,this.Path,{})", cs, tag)
            }
            _ => {
                wire.insert((tag.clone(), "return WireType.Sized;".into()));
                init.insert((prop.clone(), format!("new {}(this.Path.GetNested({}))", cs, tag)));
                nested.insert((tag.clone(), format!("return this.{};", prop)));
                format!("{}.Deserialize(reader,this.Path.GetNested({}))", cs, tag)
            }
        };
        replace.insert((tag.clone(), format!("this.{1}=this.MaybeNotify({0},{2},this.{1},On{1}Update,shouldNotify);break;", tag, prop, read)));
    }
    replace.insert(("default".into(), "reader.SkipField(wireType);break;".into()));
    let got: BTreeSet<_> = class.props.iter().cloned().collect();
    ensure!(got == props && class.props.len() == fields.len(), "properties of {} are {:?} instead of {:?}", of, class.props, props);
    let got = set(class.cases("GetWireType(")?);
    ensure!(got == wire, "wire types of {} are {:?} instead of {:?}", of, got, wire);
    let got = set(class.cases("GetNested(")?);
    ensure!(got == nested, "nested states of {} are {:?} instead of {:?}", of, got, nested);
    let got = set(class.cases("ReplaceAt(")?);
    ensure!(got == replace, "{} reads {:?} instead of {:?}", of, got, replace);
    let mut got = class.assigned(&format!("{}(Path path=null)", of))?;
    ensure!(got.remove("Path").as_deref() == Some("path??Path.Root"), "path of {}", of);
    let got = set(got);
    ensure!(got == init, "{} constructs {:?} instead of {:?}", of, got, init);
    Ok(())
}

fn agrees(text: &str, case: &Case, msg: &Msg) -> Check {
    let file = csharp::parse(text)?;
    ensure!(file.namespace == "Some.Space", "namespace {}", file.namespace);
    for name in &case.namespaces {
        ensure!(file.usings.contains(name), "namespace {} isn't used", name);
    }
    let name = given(msg.rust, msg.cs);
    let [class] = &file.classes[..] else { return Err(format!("{} classes for {}", file.classes.len(), name)) };
    ensure!(class.name == name, "class {} instead of {}", class.name, name);
    ensure!(class.params == msg.params, "type parameters of {} are {:?}", name, class.params);
    match msg.kind {
        Kind::Struct(fields) => {
            ensure!(class.inner.is_empty() && class.consts.is_empty(), "variants in struct {}", name);
            fields_agree(class, fields)
        }
        Kind::Enum(variants) => {
            let class_of = |v: &Variant| given(v.rust, v.cs).to_string();
            let tags: BTreeSet<_> = variants.iter().map(|v| (format!("{}Tag", upper_camel(&class_of(v))), v.tag.to_string())).collect();
            let got: BTreeSet<_> = class.consts.iter().cloned().collect();
            ensure!(got == tags && class.consts.len() == tags.len(), "variants of {} are {:?} instead of {:?}", name, class.consts, tags);
            let zero = variants.iter().find(|v| v.tag == 0).unwrap();
            let mut wire = BTreeSet::from([("default".to_string(), "return null;".to_string())]);
            let mut construct = BTreeSet::from([("default".into(), format!("this.Variant=new {}(this.Path.GetNested(0));break;", class_of(zero)))]);
            let mut replace = BTreeSet::from([("default".into(), "reader.SkipToEnd();break;".into())]);
            for v in variants {
                let tag = v.tag.to_string();
                wire.insert((tag.clone(), "return WireType.Sized;".into()));
                construct.insert((tag.clone(), format!("this.Variant=new {}(this.Path.GetNested({}));break;", class_of(v), tag)));
                replace.insert((tag.clone(), format!("this.UpdateAndNotify({0},{1}.Deserialize(reader,this.Path.GetNested({0})),shouldNotify);break;", tag, class_of(v))));
            }
            let got = set(class.cases("GetWireType(")?);
            ensure!(got == wire, "wire types of {} are {:?} instead of {:?}", name, got, wire);
            let got = set(class.cases(&format!("{}(Path path,UInt32 tag)", name))?);
            ensure!(got == construct, "{} constructs {:?} instead of {:?}", name, got, construct);
            let got = set(class.cases("ReplaceAt(")?);
            ensure!(got == replace, "{} reads {:?} instead of {:?}", name, got, replace);
            class.member(&format!("public {}(Path path=null):this(path,0)", name))?;
            for v in variants {
                let made = class.member(&format!(" New{}(", upper_camel(&class_of(v))))?;
                ensure!(csharp::join(made).ends_with(&format!("(path,{});", v.tag)), "New{} of {} is {:?}", class_of(v), name, made);
                let got = csharp::join(class.member(&format!(" {}Variant", class_of(v)))?);
                ensure!(got == format!("get{{return this.Variant as {};}}", class_of(v)), "{}Variant of {} is {}", class_of(v), name, got);
            }
            ensure!(class.props.len() == 2, "properties of {} are {:?}", name, class.props);
            ensure!(class.inner.len() == variants.len(), "{} classes in {}", class.inner.len(), name);
            for v in variants {
                let inner = class.inner.iter().find(|c| c.name == class_of(v)).ok_or(format!("no class for {}::{}", name, v.rust))?;
                ensure!(inner.params.is_empty() && inner.inner.is_empty(), "{}::{} has type parameters", name, v.rust);
                fields_agree(inner, v.fields)?;
            }
            Ok(())
        }
    }
}

/// Generates with given settings, and checks all that is written.
fn generated(roots: &[Root], case: &Case) -> Result<BTreeMap<String, String>, String> {
    let root = find(roots, &case.root);
    let dir = Scratch::new();
    let mut wanted = BTreeMap::new();
    if let Some(first) = &case.first {
        let first = find(roots, first);
        (first.generate)(&case.setting(&dir.0)).map_err(|e| e.to_string())?;
        wanted.extend(case.names(first));
    }
    let names = case.names(root);
    let mut got = (root.generate)(&case.setting(&dir.0)).map_err(|e| e.to_string())?;
    got.sort();
    let want: Vec<_> = names.keys().cloned().collect();
    ensure!(got == want, "generates {:?} instead of {:?}", got, want);
    wanted.extend(names);
    let files = dir.files();
    let got: Vec<_> = files.keys().cloned().collect();
    let want: Vec<_> = wanted.keys().map(|n| format!("{}.cs", n)).collect();
    ensure!(got == want, "writes {:?} instead of {:?}", got, want);
    for (name, msg) in &wanted {
        let file = format!("{}.cs", name);
        let Err(differs) = agrees(&files[&file], case, &MSGS[*msg]) else { continue };
        // It isn't written as usual, but may be right.
        runs(roots, case, &file, &files[&file], *msg).map_err(|e| format!("{}: {} (and {})", file, e, differs))?;
    }
    Ok(files)
}

/// What classes have been found to do.
static RUNS: Mutex<BTreeMap<(usize, u64), Check>> = Mutex::new(BTreeMap::new());
/// Classes which aren't understood.
static UNKNOWN: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

/// Runs a class, next to all that is generated for its root.
fn runs(roots: &[Root], case: &Case, file: &str, text: &str, msg: usize) -> Check {
    let key = (msg, hash(&text));
    if let Some(known) = RUNS.lock().unwrap().get(&key) {
        return known.clone();
    }
    let dir = Scratch::new();
    let all = Case { skip: vec![], builtins: true, namespaces: vec![], ..case.clone() };
    for root in case.first.iter().chain([&case.root]) {
        (find(roots, root).generate)(&all.setting(&dir.0)).map_err(|e| e.to_string())?;
    }
    let result = match behaves(file, text, &dir.files(), &case.namespaces, msg) {
        Ok(()) => Ok(()),
        Err(No::Bad(e)) => Err(e),
        Err(No::Unknown(e)) => {
            UNKNOWN.lock().unwrap().entry(e).or_insert(file.to_string());
            Ok(())
        }
    };
    RUNS.lock().unwrap().insert(key, result.clone());
    result
}

/// What is generated is the same again, whatever is skipped and in whichever order roots come.
fn variants_agree(roots: &[Root], case: &Case) -> Check {
    let files = generated(roots, case)?;
    let again = generated(roots, case)?;
    ensure!(files == again, "generates something else the second time");
    let all = Case { skip: vec![], builtins: true, first: None, ..case.clone() };
    if case.first.is_none() {
        let all = generated(roots, &all)?;
        for (name, text) in &files {
            ensure!(all[name] == *text, "skipping others changes {}", name);
        }
    }
    Ok(())
}

// --- What the server does ---

#[derive(Serialize, Deserialize)]
struct Coded {
    root: String,
    /// Empty unless of an enum.
    variant: Option<usize>,
    field: usize,
}

/// The server encodes, and replays an update of, a field as the schema (and so the generated code) says.
fn coded_as_declared(roots: &[Root], case: &Coded) -> Check {
    let root = find(roots, &case.root);
    let ty = close(root.ty, &Env::new());
    let Type::Msg(i, args) = &ty else { unreachable!() };
    let env = env(*i, args);
    let (fields, head, path) = match (&MSGS[*i].kind, case.variant) {
        (Kind::Struct(fields), None) => (*fields, vec![], vec![]),
        (Kind::Enum(variants), Some(v)) => {
            let mut head = vec![];
            varint(variants[v].tag, &mut head);
            (variants[v].fields, head, vec![variants[v].tag])
        }
        _ => unreachable!(),
    };
    let mut bytes = head;
    bytes.extend(with_field(fields, &env, case.field));
    let got = (root.coded)(&bytes).map_err(|e| format!("{} isn't decoded: {}", hex(&bytes), e))?;
    ensure!(got == bytes, "{} is decoded, and encoded as {}", hex(&bytes), hex(&got));
    let Some(replayed) = root.replayed else { return Ok(()) };
    if case.variant.is_some_and(|_| path[0] != 0) || fields.is_empty() {
        return Ok(());
    }
    let mut tags = path;
    tags.push(fields[case.field].tag);
    let value = content(&close(&fields[case.field].ty, &env), 3);
    let got = replayed(&update(&tags, &value)).map_err(|e| format!("update of {:?} to {} isn't replayed: {}", tags, hex(&value), e))?;
    ensure!(got == bytes, "update of {:?} to {} gives {} instead of {}", tags, hex(&value), hex(&got), hex(&bytes));
    Ok(())
}

fn update(path: &[u32], value: &[u8]) -> Vec<u8> {
    let mut tags = vec![];
    path.iter().for_each(|t| varint(*t, &mut tags));
    let mut entry = vec![0, 2];
    varint(tags.len() as u32, &mut entry);
    entry.extend(tags);
    if !value.is_empty() {
        entry.push(1 << 3 | 2);
        varint(value.len() as u32, &mut entry);
        entry.extend(value);
    }
    let mut log = vec![];
    varint(entry.len() as u32, &mut log);
    log.extend(entry);
    log
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{:02x}", b)).collect()
}

/// Parameters given a type whose wire type isn't the one which the client infers.
fn inferred(run: &Run, root: &Root) {
    for ty in closure(&close(root.ty, &Env::new())) {
        let Type::Msg(i, args) = &ty else { continue };
        let env = env(*i, args);
        for f in all_fields(&MSGS[*i]) {
            let Type::Param(p) = unboxed(&close(&f.ty, &Env::new())).clone() else { continue };
            let actual = unboxed(&env[&*p]).clone();
            // All but primitives are states for the client.
            let inferred_sized = !matches!(actual, Type::Prim(_));
            if inferred_sized == is_varint(&actual) {
                let what = format!("{} has a field of type {}, which is sized, but generated code takes it for a varint", cs_type(&ty), cs_type(&actual));
                run.finding(&format!("parameter-{}", cs_type(&actual)), &what, "inferred", serde_json::json!(Case::new(root)));
            }
        }
    }
}

pub fn check(run: &'static Run) {
    let roots = schemas::roots();
    if run.replaying("files", |c: &Case| variants_agree(&roots, c))
        | run.replaying("coded", |c: &Coded| coded_as_declared(&roots, c))
        | run.replaying("inferred", |c: &Case| Ok(inferred(run, find(&roots, &c.root))))
    {
        return;
    }
    let files = |cases: Vec<Case>| {
        run.par(&cases, |case| {
            run.states_seen([hash(&format!("{:?}", case))].into());
            run.case("files", case, |c| variants_agree(&roots, c));
        });
    };
    let mut families: Vec<_> = roots.iter().map(|r| r.family).collect();
    families.sort();
    families.dedup();
    for family in families {
        run.phase(family);
        files(roots.iter().filter(|r| r.family == family).map(Case::new).collect());
    }

    // All settings, for roots which reach few messages.
    run.phase("settings");
    let mut cases = vec![];
    for root in &roots {
        let ty = close(root.ty, &Env::new());
        let reached = messages(&ty);
        let limit = if run.thorough { 6 } else { 2 + (root.family == "graphs" && hash(&root.rust) % 2 == 0) as usize };
        if reached.len() > limit {
            continue;
        }
        if !run.thorough && root.family == "shapes" && hash(&root.rust) % 8 != 0 {
            continue;
        }
        for rust_names in [false, true] {
            let case = Case { rust_names, ..Case::new(root) };
            let names: Vec<_> = case.names(root).into_keys().collect();
            for subset in 0..1 << names.len() {
                let skip: Vec<_> = names.iter().enumerate().filter(|(i, _)| subset >> i & 1 == 1).map(|(_, n)| n.clone()).collect();
                for builtins in [false, true] {
                    cases.push(Case { skip: skip.clone(), builtins, ..case.clone() });
                }
            }
            cases.push(Case { skip: vec!["Unrelated".into()], namespaces: vec!["Zoo".into(), "A.B".into()], ..case.clone() });
        }
    }
    files(cases);

    // Sequences of two roots, into the same directory.
    run.phase("sequences");
    let mut cases = vec![];
    let all: Vec<_> = roots.iter().filter(|r| r.family == "graphs").collect();
    for (i, root) in all.iter().enumerate() {
        let module = |r: &Root| r.rust.split(':').next().unwrap().to_string();
        for other in all[i.saturating_sub(3)..all.len().min(i + 3)].iter() {
            if module(other) == module(root) && (run.thorough || i % 4 < 2) {
                cases.push(Case { first: Some(other.rust.into()), ..Case::new(root) });
            }
        }
    }
    files(cases);

    run.phase("coded");
    let mut cases = vec![];
    for root in &roots {
        let Ty::Msg(i, _) = root.ty else { unreachable!() };
        match MSGS[*i].kind {
            Kind::Struct(fields) => cases.extend((0..fields.len().max(1)).map(|field| Coded { root: root.rust.into(), variant: None, field })),
            Kind::Enum(variants) => {
                for (v, variant) in variants.iter().enumerate() {
                    cases.extend((0..variant.fields.len().max(1)).map(|field| Coded { root: root.rust.into(), variant: Some(v), field }));
                }
            }
        }
    }
    run.par(&cases, |case| run.case("coded", case, |c| coded_as_declared(&roots, c)));
    run.transitions.fetch_add(cases.len() as u64, Relaxed);

    run.phase("parameters");
    for root in &roots {
        inferred(run, root);
    }
    run.transitions.fetch_add(COUNT.load(SeqCst), Relaxed);
    run.sample(&Case::new(&roots[0]));
    run.sample(&Case::new(&roots[roots.len() / 2]));
    run.sample(&cases[cases.len() / 2]);
    run.note("roots", roots.len());
    run.note("generations", COUNT.load(SeqCst));
    run.note("bounds", "type expressions of up to three constructors; structs of up to 3 fields and enums of up to 3 variants with all permutations of tags among 4; all subsets of names overridden; all digraphs of 2 and (up to isomorphism) 3 messages, with 10 kinds of edges; all settings for roots reaching few messages");
    run.note("classes_run", RUNS.lock().unwrap().len());
    for (what, file) in UNKNOWN.lock().unwrap().iter().take(20) {
        println!("NOTE: {} isn't understood: {}", file, what);
    }
    run.note("not_understood", UNKNOWN.lock().unwrap().len());
    run.assume("Generated classes which are written in the usual way are judged by their text: properties, wire types, nested paths, constructions and reads by tag, and variants. Others are run in an interpreter of C#, with parameters being bytes or lists of bytes.");
}
