//! What schemas are expected to be, independently of their metadata.

use std::io;

use steit::{
    de::{Deserialize, Reader},
    gen::{generators::{CSharpGenerator, CSharpSetting}, Generator, Setting},
    meta::{HasMeta, MetaLink, NameMeta, TypeMeta},
    rt::Runtime,
    ser::Serialize,
    state::State,
};

#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
pub enum Ty {
    Prim(&'static str),
    Bytes,
    Param(&'static str),
    Msg(usize, &'static [Ty]),
    Vec(&'static Ty),
    Arr(&'static Ty, usize),
    Opt(&'static Ty),
    Box(&'static Ty),
    List(&'static Ty),
    Map(&'static str, &'static Ty),
}

pub struct Msg {
    pub rust: &'static str,
    pub cs: Option<&'static str>,
    pub params: &'static [&'static str],
    pub builtin: bool,
    pub kind: Kind,
}

pub enum Kind {
    Struct(&'static [Field]),
    Enum(&'static [Variant]),
}

pub struct Variant {
    pub rust: &'static str,
    pub cs: Option<&'static str>,
    pub tag: u32,
    pub fields: &'static [Field],
}

pub struct Field {
    pub rust: &'static str,
    pub cs: Option<&'static str>,
    pub tag: u32,
    pub ty: Ty,
}

pub trait Value: Serialize + Deserialize + HasMeta {}
impl<T: Serialize + Deserialize + HasMeta> Value for T {}

type Generate = fn(&Setting<CSharpSetting>) -> io::Result<Vec<String>>;

pub struct Root {
    pub rust: &'static str,
    pub ty: &'static Ty,
    pub family: &'static str,
    pub link: &'static MetaLink,
    pub ty_meta: &'static TypeMeta,
    pub name: &'static NameMeta,
    pub generate: Generate,
    /// Decodes and encodes again.
    pub coded: fn(&[u8]) -> io::Result<Vec<u8>>,
    /// Replays a log on a new state, and encodes it.
    pub replayed: Option<fn(&[u8]) -> io::Result<Vec<u8>>>,
}

fn coded<T: Value>(bytes: &[u8]) -> io::Result<Vec<u8>> {
    Ok(T::deserialize(&mut Reader::new(bytes))?.to_bytes())
}

fn replayed<T: Value + State>(log: &[u8]) -> io::Result<Vec<u8>> {
    let mut state = T::with_runtime_of(Runtime::default());
    state.replay(&mut Reader::new(log))?;
    Ok(state.to_bytes())
}

trait WithRuntime {
    fn with_runtime_of(runtime: Runtime) -> Self;
}

impl<T: State> WithRuntime for T {
    fn with_runtime_of(runtime: Runtime) -> Self {
        let mut state = T::default();
        state.set_runtime(runtime);
        state
    }
}

pub fn root<T: Value>(rust: &'static str, ty: &'static Ty, family: &'static str) -> Root {
    Root {
        rust,
        ty,
        family,
        link: T::LINK,
        ty_meta: T::TYPE,
        name: T::NAME,
        generate: |setting| CSharpGenerator.generate::<T>(setting),
        coded: coded::<T>,
        replayed: None,
    }
}

pub fn state_root<T: Value + State>(rust: &'static str, ty: &'static Ty, family: &'static str) -> Root {
    Root { replayed: Some(replayed::<T>), ..root::<T>(rust, ty, family) }
}
