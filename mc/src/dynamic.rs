//! Object-safe views of live values, so that explorers aren't generic.

use std::{any::Any as StdAny, io};

use steit::{
    de::{Deserialize, Reader},
    rt::Runtime,
    ser::Serialize,
    state::State,
    wire_fmt::WireType,
};

use crate::{
    live::{Live, Model, Node, Perform},
    model::*,
    run::called,
};

/// An object-safe view of a live value.
pub trait Dyn {
    fn val(&self) -> Val;
    fn ty(&self) -> Ty;
    fn bytes(&self) -> Vec<u8>;
    fn compute_size(&self) -> u32;
    fn cache_size(&self) -> u32;
    fn cached_size(&self) -> u32;
    fn has_size_cache(&self) -> bool;
    fn is_omissible(&self, hint: Option<u32>) -> bool;
    fn write(&self, writer: &mut dyn io::Write) -> io::Result<()>;
    fn write_cached(&self, writer: &mut dyn io::Write) -> io::Result<()>;
    fn size_nested(&self, number: Option<u32>, omissible: bool) -> io::Result<u32>;
    fn write_nested(
        &self,
        number: Option<u32>,
        omissible: bool,
        writer: &mut dyn io::Write,
    ) -> io::Result<()>;
    /// Merges, then tells whether the input has been consumed.
    fn merge(&mut self, reader: &mut dyn io::Read) -> io::Result<bool>;
    /// Merges a nested value, and gives what follows it.
    fn merge_nested(&mut self, wire: u32, reader: &mut dyn io::Read) -> io::Result<Vec<u8>>;
    fn boxed(&self) -> Box<dyn Dyn>;
    fn equals(&self, other: &dyn Dyn) -> bool;
    fn std_any(&self) -> &dyn StdAny;
    fn into_std_any(self: Box<Self>) -> Box<dyn StdAny>;
}

fn wire_type(wire: u32) -> WireType {
    match wire {
        VARINT => WireType::Varint,
        _ => WireType::Sized,
    }
}

impl<T: Model> Dyn for T {
    fn val(&self) -> Val {
        Model::val(self)
    }
    fn ty(&self) -> Ty {
        <T as Model>::ty()
    }
    fn bytes(&self) -> Vec<u8> {
        called();
        self.to_bytes()
    }
    fn compute_size(&self) -> u32 {
        called();
        Serialize::compute_size(self)
    }
    fn cache_size(&self) -> u32 {
        Serialize::cache_size(self)
    }
    fn cached_size(&self) -> u32 {
        Serialize::cached_size(self)
    }
    fn has_size_cache(&self) -> bool {
        Serialize::size_cache(self).is_some()
    }
    fn is_omissible(&self, hint: Option<u32>) -> bool {
        Serialize::is_omissible(self, hint)
    }
    fn write(&self, mut writer: &mut dyn io::Write) -> io::Result<()> {
        called();
        self.steit_serialize(&mut writer)
    }
    fn write_cached(&self, mut writer: &mut dyn io::Write) -> io::Result<()> {
        called();
        self.serialize_cached(&mut writer)
    }
    fn size_nested(&self, number: Option<u32>, omissible: bool) -> io::Result<u32> {
        called();
        self.compute_size_nested(number, omissible)
    }
    fn write_nested(
        &self,
        number: Option<u32>,
        omissible: bool,
        mut writer: &mut dyn io::Write,
    ) -> io::Result<()> {
        self.serialize_nested(number, omissible, &mut writer)
    }
    fn merge(&mut self, reader: &mut dyn io::Read) -> io::Result<bool> {
        called();
        let mut reader = Reader::new(reader);
        Deserialize::merge(self, &mut reader)?;
        reader.eof()
    }
    fn merge_nested(&mut self, wire: u32, reader: &mut dyn io::Read) -> io::Result<Vec<u8>> {
        called();
        let mut reader = Reader::new(reader);
        Deserialize::merge_nested(self, wire_type(wire), &mut reader)?;
        let mut rest = Vec::new();
        io::Read::read_to_end(&mut reader, &mut rest)?;
        Ok(rest)
    }
    fn boxed(&self) -> Box<dyn Dyn> {
        Box::new(self.clone())
    }
    fn equals(&self, other: &dyn Dyn) -> bool {
        match other.std_any().downcast_ref::<T>() {
            Some(other) => self == other,
            None => panic!("harness: comparing different types"),
        }
    }
    fn std_any(&self) -> &dyn StdAny {
        self
    }
    fn into_std_any(self: Box<Self>) -> Box<dyn StdAny> {
        self
    }
}

/// An object-safe view of a live state.
pub trait DynState: Dyn {
    fn act(&mut self, path: &[u32], op: &Op) -> Perform;
    fn visit(&self, f: &mut dyn FnMut(Node));
    fn audit(&self) -> Result<(), String>;
    fn set_runtime(&mut self, runtime: Runtime);
    fn get_runtime(&self) -> Runtime;
    fn replay(&mut self, reader: &mut dyn io::Read) -> io::Result<()>;
    fn boxed_state(&self) -> Box<dyn DynState>;
    fn as_dyn(&self) -> &dyn Dyn;
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn DynState)) -> bool;
}

impl<T: Live> DynState for T {
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        Live::act(self, path, op)
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        Live::visit(self, f)
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(self)
    }
    fn set_runtime(&mut self, runtime: Runtime) {
        State::set_runtime(self, runtime)
    }
    fn get_runtime(&self) -> Runtime {
        self.runtime().clone()
    }
    fn replay(&mut self, reader: &mut dyn io::Read) -> io::Result<()> {
        called();
        State::replay(self, &mut Reader::new(reader))
    }
    fn boxed_state(&self) -> Box<dyn DynState> {
        Box::new(self.clone())
    }
    fn as_dyn(&self) -> &dyn Dyn {
        self
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn DynState)) -> bool {
        Live::at(self, path, f)
    }
}

/// A type of root states.
pub struct Root {
    pub name: &'static str,
    pub ty: fn() -> Ty,
    pub with_runtime: fn(Runtime) -> Box<dyn DynState>,
    pub build: fn(Runtime, &Val) -> Box<dyn DynState>,
    pub build_mut: fn(Runtime, &Val) -> Box<dyn DynState>,
    pub make: fn(&Val) -> Box<dyn DynState>,
    pub deserialize: fn(&mut dyn io::Read) -> io::Result<Box<dyn DynState>>,
    /// Gives back a state made into `Any`.
    pub take: fn(Box<dyn StdAny>) -> Box<dyn DynState>,
}

fn b<T: Live>(v: T) -> Box<dyn DynState> {
    Box::new(v)
}

pub fn root<T: Live>(name: &'static str) -> Root {
    Root {
        name,
        ty: T::ty,
        with_runtime: |rt| b(T::with_runtime(rt)),
        build: |rt, v| b(T::build(rt, v)),
        build_mut: |rt, v| b(T::build_mut(rt, v)),
        make: |v| b(T::make(v)),
        deserialize: |r| Ok(b(T::deserialize(&mut Reader::new(r))?)),
        take: |any| b(*any.downcast::<T>().expect("harness: wrong root")),
    }
}

/// A type of values.
pub struct Codec {
    pub name: &'static str,
    pub ty: fn() -> Ty,
    pub make: fn(&Val) -> Box<dyn Dyn>,
    pub default: fn() -> Box<dyn Dyn>,
    pub deserialize: fn(&mut dyn io::Read) -> io::Result<Box<dyn Dyn>>,
    pub deserialize_nested: fn(u32, &mut dyn io::Read) -> io::Result<Box<dyn Dyn>>,
}

pub fn codec<T: Model>(name: &'static str) -> Codec {
    Codec {
        name,
        ty: T::ty,
        make: |v| Box::new(T::make(v)),
        default: || Box::new(T::default()),
        deserialize: |r| {
            called();
            Ok(Box::new(T::deserialize(&mut Reader::new(r))?))
        },
        deserialize_nested: |wire, r| {
            called();
            Ok(Box::new(T::deserialize_nested(
                wire_type(wire),
                &mut Reader::new(r),
            )?))
        },
    }
}
