// Written by gen.py.
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case)]
use crate::def::*;
use steit::{de::Deserialize, ser::Serialize, meta::HasMeta, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};

#[steit_derive(State)] pub struct S0 { #[steit(tag = 0)] pub a: u8, }
#[steit_derive(State)] #[steit(csharp_name = "SuperOne")] pub struct S1 { #[steit(tag = 3)] pub x_y: S0, }
#[steit_derive(State)] pub enum E0 { #[steit(tag = 0)] No, #[steit(tag = 1)] Yes(#[steit(tag = 0)] i16), }
#[steit_derive(Serialize, Deserialize)] pub struct D0 { #[steit(tag = 0)] pub s: String, }
#[steit_derive(State)] pub struct G0<T: State> { #[steit(tag = 2)] pub item: T, }
pub mod ty { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct Ty0 { #[steit(tag = 0)] pub f0: u8, #[steit(tag = 1)] pub f1: u16, #[steit(tag = 2)] pub f2: u32, #[steit(tag = 3)] pub f3: u64, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty1 { #[steit(tag = 0)] pub f0: i8, #[steit(tag = 1)] pub f1: i16, #[steit(tag = 2)] pub f2: i32, #[steit(tag = 3)] pub f3: i64, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty2 { #[steit(tag = 0)] pub f0: bool, #[steit(tag = 1)] pub f1: String, #[steit(tag = 2)] pub f2: Bytes, #[steit(tag = 3)] pub f3: S0, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty3 { #[steit(tag = 0)] pub f0: S1, #[steit(tag = 1)] pub f1: E0, #[steit(tag = 2)] pub f2: D0, #[steit(tag = 3)] pub f3: Vec<u8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty4 { #[steit(tag = 0)] pub f0: Option<u8>, #[steit(tag = 1)] pub f1: [u8; 3], #[steit(tag = 2)] pub f2: Box<u8>, #[steit(tag = 3)] pub f3: List<u8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty5 { #[steit(tag = 0)] pub f0: Map<u8, u8>, #[steit(tag = 1)] pub f1: Map<u16, u8>, #[steit(tag = 2)] pub f2: Map<u32, u8>, #[steit(tag = 3)] pub f3: Maybe<u8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty6 { #[steit(tag = 0)] pub f0: G0<u8>, #[steit(tag = 1)] pub f1: Vec<u16>, #[steit(tag = 2)] pub f2: Option<u16>, #[steit(tag = 3)] pub f3: [u16; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty7 { #[steit(tag = 0)] pub f0: Box<u16>, #[steit(tag = 1)] pub f1: List<u16>, #[steit(tag = 2)] pub f2: Map<u8, u16>, #[steit(tag = 3)] pub f3: Map<u16, u16>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty8 { #[steit(tag = 0)] pub f0: Map<u32, u16>, #[steit(tag = 1)] pub f1: Maybe<u16>, #[steit(tag = 2)] pub f2: G0<u16>, #[steit(tag = 3)] pub f3: Vec<u32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty9 { #[steit(tag = 0)] pub f0: Option<u32>, #[steit(tag = 1)] pub f1: [u32; 3], #[steit(tag = 2)] pub f2: Box<u32>, #[steit(tag = 3)] pub f3: List<u32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty10 { #[steit(tag = 0)] pub f0: Map<u8, u32>, #[steit(tag = 1)] pub f1: Map<u16, u32>, #[steit(tag = 2)] pub f2: Map<u32, u32>, #[steit(tag = 3)] pub f3: Maybe<u32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty11 { #[steit(tag = 0)] pub f0: G0<u32>, #[steit(tag = 1)] pub f1: Vec<u64>, #[steit(tag = 2)] pub f2: Option<u64>, #[steit(tag = 3)] pub f3: [u64; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty12 { #[steit(tag = 0)] pub f0: Box<u64>, #[steit(tag = 1)] pub f1: List<u64>, #[steit(tag = 2)] pub f2: Map<u8, u64>, #[steit(tag = 3)] pub f3: Map<u16, u64>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty13 { #[steit(tag = 0)] pub f0: Map<u32, u64>, #[steit(tag = 1)] pub f1: Maybe<u64>, #[steit(tag = 2)] pub f2: G0<u64>, #[steit(tag = 3)] pub f3: Vec<i8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty14 { #[steit(tag = 0)] pub f0: Option<i8>, #[steit(tag = 1)] pub f1: [i8; 3], #[steit(tag = 2)] pub f2: Box<i8>, #[steit(tag = 3)] pub f3: List<i8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty15 { #[steit(tag = 0)] pub f0: Map<u8, i8>, #[steit(tag = 1)] pub f1: Map<u16, i8>, #[steit(tag = 2)] pub f2: Map<u32, i8>, #[steit(tag = 3)] pub f3: Maybe<i8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty16 { #[steit(tag = 0)] pub f0: G0<i8>, #[steit(tag = 1)] pub f1: Vec<i16>, #[steit(tag = 2)] pub f2: Option<i16>, #[steit(tag = 3)] pub f3: [i16; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty17 { #[steit(tag = 0)] pub f0: Box<i16>, #[steit(tag = 1)] pub f1: List<i16>, #[steit(tag = 2)] pub f2: Map<u8, i16>, #[steit(tag = 3)] pub f3: Map<u16, i16>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty18 { #[steit(tag = 0)] pub f0: Map<u32, i16>, #[steit(tag = 1)] pub f1: Maybe<i16>, #[steit(tag = 2)] pub f2: G0<i16>, #[steit(tag = 3)] pub f3: Vec<i32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty19 { #[steit(tag = 0)] pub f0: Option<i32>, #[steit(tag = 1)] pub f1: [i32; 3], #[steit(tag = 2)] pub f2: Box<i32>, #[steit(tag = 3)] pub f3: List<i32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty20 { #[steit(tag = 0)] pub f0: Map<u8, i32>, #[steit(tag = 1)] pub f1: Map<u16, i32>, #[steit(tag = 2)] pub f2: Map<u32, i32>, #[steit(tag = 3)] pub f3: Maybe<i32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty21 { #[steit(tag = 0)] pub f0: G0<i32>, #[steit(tag = 1)] pub f1: Vec<i64>, #[steit(tag = 2)] pub f2: Option<i64>, #[steit(tag = 3)] pub f3: [i64; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty22 { #[steit(tag = 0)] pub f0: Box<i64>, #[steit(tag = 1)] pub f1: List<i64>, #[steit(tag = 2)] pub f2: Map<u8, i64>, #[steit(tag = 3)] pub f3: Map<u16, i64>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty23 { #[steit(tag = 0)] pub f0: Map<u32, i64>, #[steit(tag = 1)] pub f1: Maybe<i64>, #[steit(tag = 2)] pub f2: G0<i64>, #[steit(tag = 3)] pub f3: Vec<bool>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty24 { #[steit(tag = 0)] pub f0: Option<bool>, #[steit(tag = 1)] pub f1: [bool; 3], #[steit(tag = 2)] pub f2: Box<bool>, #[steit(tag = 3)] pub f3: List<bool>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty25 { #[steit(tag = 0)] pub f0: Map<u8, bool>, #[steit(tag = 1)] pub f1: Map<u16, bool>, #[steit(tag = 2)] pub f2: Map<u32, bool>, #[steit(tag = 3)] pub f3: Maybe<bool>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty26 { #[steit(tag = 0)] pub f0: G0<bool>, #[steit(tag = 1)] pub f1: Vec<String>, #[steit(tag = 2)] pub f2: Option<String>, #[steit(tag = 3)] pub f3: [String; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty27 { #[steit(tag = 0)] pub f0: Box<String>, #[steit(tag = 1)] pub f1: Vec<Bytes>, #[steit(tag = 2)] pub f2: Option<Bytes>, #[steit(tag = 3)] pub f3: [Bytes; 3], }
#[steit_derive(Serialize, Deserialize)] pub struct Ty28 { #[steit(tag = 0)] pub f0: Vec<S0>, #[steit(tag = 1)] pub f1: Option<S0>, #[steit(tag = 2)] pub f2: [S0; 3], #[steit(tag = 3)] pub f3: Box<S0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty29 { #[steit(tag = 0)] pub f0: List<S0>, #[steit(tag = 1)] pub f1: Map<u8, S0>, #[steit(tag = 2)] pub f2: Map<u16, S0>, #[steit(tag = 3)] pub f3: Map<u32, S0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty30 { #[steit(tag = 0)] pub f0: Maybe<S0>, #[steit(tag = 1)] pub f1: G0<S0>, #[steit(tag = 2)] pub f2: Vec<S1>, #[steit(tag = 3)] pub f3: Option<S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty31 { #[steit(tag = 0)] pub f0: [S1; 3], #[steit(tag = 1)] pub f1: Box<S1>, #[steit(tag = 2)] pub f2: List<S1>, #[steit(tag = 3)] pub f3: Map<u8, S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty32 { #[steit(tag = 0)] pub f0: Map<u16, S1>, #[steit(tag = 1)] pub f1: Map<u32, S1>, #[steit(tag = 2)] pub f2: Maybe<S1>, #[steit(tag = 3)] pub f3: G0<S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty33 { #[steit(tag = 0)] pub f0: Vec<E0>, #[steit(tag = 1)] pub f1: Option<E0>, #[steit(tag = 2)] pub f2: [E0; 3], #[steit(tag = 3)] pub f3: Box<E0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty34 { #[steit(tag = 0)] pub f0: List<E0>, #[steit(tag = 1)] pub f1: Map<u8, E0>, #[steit(tag = 2)] pub f2: Map<u16, E0>, #[steit(tag = 3)] pub f3: Map<u32, E0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty35 { #[steit(tag = 0)] pub f0: Maybe<E0>, #[steit(tag = 1)] pub f1: G0<E0>, #[steit(tag = 2)] pub f2: Vec<D0>, #[steit(tag = 3)] pub f3: Option<D0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty36 { #[steit(tag = 0)] pub f0: [D0; 3], #[steit(tag = 1)] pub f1: Box<D0>, #[steit(tag = 2)] pub f2: Vec<Vec<u32>>, #[steit(tag = 3)] pub f3: Option<Vec<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty37 { #[steit(tag = 0)] pub f0: [Vec<u32>; 3], #[steit(tag = 1)] pub f1: Box<Vec<u32>>, #[steit(tag = 2)] pub f2: Vec<Option<u32>>, #[steit(tag = 3)] pub f3: Option<Option<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty38 { #[steit(tag = 0)] pub f0: [Option<u32>; 3], #[steit(tag = 1)] pub f1: Box<Option<u32>>, #[steit(tag = 2)] pub f2: Vec<[u32; 3]>, #[steit(tag = 3)] pub f3: Option<[u32; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty39 { #[steit(tag = 0)] pub f0: [[u32; 3]; 3], #[steit(tag = 1)] pub f1: Box<[u32; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<u32>>, #[steit(tag = 3)] pub f3: Option<Box<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty40 { #[steit(tag = 0)] pub f0: [Box<u32>; 3], #[steit(tag = 1)] pub f1: Box<Box<u32>>, #[steit(tag = 2)] pub f2: List<Box<u32>>, #[steit(tag = 3)] pub f3: Map<u8, Box<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty41 { #[steit(tag = 0)] pub f0: Maybe<Box<u32>>, #[steit(tag = 1)] pub f1: G0<Box<u32>>, #[steit(tag = 2)] pub f2: Vec<List<u32>>, #[steit(tag = 3)] pub f3: Option<List<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty42 { #[steit(tag = 0)] pub f0: [List<u32>; 3], #[steit(tag = 1)] pub f1: Box<List<u32>>, #[steit(tag = 2)] pub f2: List<List<u32>>, #[steit(tag = 3)] pub f3: Map<u8, List<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty43 { #[steit(tag = 0)] pub f0: Maybe<List<u32>>, #[steit(tag = 1)] pub f1: G0<List<u32>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, u32>>, #[steit(tag = 3)] pub f3: Option<Map<u8, u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty44 { #[steit(tag = 0)] pub f0: [Map<u8, u32>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, u32>>, #[steit(tag = 2)] pub f2: List<Map<u8, u32>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty45 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, u32>>, #[steit(tag = 1)] pub f1: G0<Map<u8, u32>>, #[steit(tag = 2)] pub f2: Vec<Maybe<u32>>, #[steit(tag = 3)] pub f3: Option<Maybe<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty46 { #[steit(tag = 0)] pub f0: [Maybe<u32>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<u32>>, #[steit(tag = 2)] pub f2: List<Maybe<u32>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty47 { #[steit(tag = 0)] pub f0: Maybe<Maybe<u32>>, #[steit(tag = 1)] pub f1: G0<Maybe<u32>>, #[steit(tag = 2)] pub f2: Vec<G0<u32>>, #[steit(tag = 3)] pub f3: Option<G0<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty48 { #[steit(tag = 0)] pub f0: [G0<u32>; 3], #[steit(tag = 1)] pub f1: Box<G0<u32>>, #[steit(tag = 2)] pub f2: List<G0<u32>>, #[steit(tag = 3)] pub f3: Map<u8, G0<u32>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty49 { #[steit(tag = 0)] pub f0: Maybe<G0<u32>>, #[steit(tag = 1)] pub f1: G0<G0<u32>>, #[steit(tag = 2)] pub f2: Vec<Vec<String>>, #[steit(tag = 3)] pub f3: Option<Vec<String>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty50 { #[steit(tag = 0)] pub f0: [Vec<String>; 3], #[steit(tag = 1)] pub f1: Box<Vec<String>>, #[steit(tag = 2)] pub f2: Vec<Option<String>>, #[steit(tag = 3)] pub f3: Option<Option<String>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty51 { #[steit(tag = 0)] pub f0: [Option<String>; 3], #[steit(tag = 1)] pub f1: Box<Option<String>>, #[steit(tag = 2)] pub f2: Vec<[String; 3]>, #[steit(tag = 3)] pub f3: Option<[String; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty52 { #[steit(tag = 0)] pub f0: [[String; 3]; 3], #[steit(tag = 1)] pub f1: Box<[String; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<String>>, #[steit(tag = 3)] pub f3: Option<Box<String>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty53 { #[steit(tag = 0)] pub f0: [Box<String>; 3], #[steit(tag = 1)] pub f1: Box<Box<String>>, #[steit(tag = 2)] pub f2: Vec<Vec<Bytes>>, #[steit(tag = 3)] pub f3: Option<Vec<Bytes>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty54 { #[steit(tag = 0)] pub f0: [Vec<Bytes>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Bytes>>, #[steit(tag = 2)] pub f2: Vec<Option<Bytes>>, #[steit(tag = 3)] pub f3: Option<Option<Bytes>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty55 { #[steit(tag = 0)] pub f0: [Option<Bytes>; 3], #[steit(tag = 1)] pub f1: Box<Option<Bytes>>, #[steit(tag = 2)] pub f2: Vec<[Bytes; 3]>, #[steit(tag = 3)] pub f3: Option<[Bytes; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty56 { #[steit(tag = 0)] pub f0: [[Bytes; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Bytes; 3]>, #[steit(tag = 2)] pub f2: Vec<Vec<S0>>, #[steit(tag = 3)] pub f3: Option<Vec<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty57 { #[steit(tag = 0)] pub f0: [Vec<S0>; 3], #[steit(tag = 1)] pub f1: Box<Vec<S0>>, #[steit(tag = 2)] pub f2: Vec<Option<S0>>, #[steit(tag = 3)] pub f3: Option<Option<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty58 { #[steit(tag = 0)] pub f0: [Option<S0>; 3], #[steit(tag = 1)] pub f1: Box<Option<S0>>, #[steit(tag = 2)] pub f2: Vec<[S0; 3]>, #[steit(tag = 3)] pub f3: Option<[S0; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty59 { #[steit(tag = 0)] pub f0: [[S0; 3]; 3], #[steit(tag = 1)] pub f1: Box<[S0; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<S0>>, #[steit(tag = 3)] pub f3: Option<Box<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty60 { #[steit(tag = 0)] pub f0: [Box<S0>; 3], #[steit(tag = 1)] pub f1: Box<Box<S0>>, #[steit(tag = 2)] pub f2: List<Box<S0>>, #[steit(tag = 3)] pub f3: Map<u8, Box<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty61 { #[steit(tag = 0)] pub f0: Maybe<Box<S0>>, #[steit(tag = 1)] pub f1: G0<Box<S0>>, #[steit(tag = 2)] pub f2: Vec<List<S0>>, #[steit(tag = 3)] pub f3: Option<List<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty62 { #[steit(tag = 0)] pub f0: [List<S0>; 3], #[steit(tag = 1)] pub f1: Box<List<S0>>, #[steit(tag = 2)] pub f2: List<List<S0>>, #[steit(tag = 3)] pub f3: Map<u8, List<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty63 { #[steit(tag = 0)] pub f0: Maybe<List<S0>>, #[steit(tag = 1)] pub f1: G0<List<S0>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, S0>>, #[steit(tag = 3)] pub f3: Option<Map<u8, S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty64 { #[steit(tag = 0)] pub f0: [Map<u8, S0>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, S0>>, #[steit(tag = 2)] pub f2: List<Map<u8, S0>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty65 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, S0>>, #[steit(tag = 1)] pub f1: G0<Map<u8, S0>>, #[steit(tag = 2)] pub f2: Vec<Maybe<S0>>, #[steit(tag = 3)] pub f3: Option<Maybe<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty66 { #[steit(tag = 0)] pub f0: [Maybe<S0>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<S0>>, #[steit(tag = 2)] pub f2: List<Maybe<S0>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty67 { #[steit(tag = 0)] pub f0: Maybe<Maybe<S0>>, #[steit(tag = 1)] pub f1: G0<Maybe<S0>>, #[steit(tag = 2)] pub f2: Vec<G0<S0>>, #[steit(tag = 3)] pub f3: Option<G0<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty68 { #[steit(tag = 0)] pub f0: [G0<S0>; 3], #[steit(tag = 1)] pub f1: Box<G0<S0>>, #[steit(tag = 2)] pub f2: List<G0<S0>>, #[steit(tag = 3)] pub f3: Map<u8, G0<S0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty69 { #[steit(tag = 0)] pub f0: Maybe<G0<S0>>, #[steit(tag = 1)] pub f1: G0<G0<S0>>, #[steit(tag = 2)] pub f2: Vec<Vec<D0>>, #[steit(tag = 3)] pub f3: Option<Vec<D0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty70 { #[steit(tag = 0)] pub f0: [Vec<D0>; 3], #[steit(tag = 1)] pub f1: Box<Vec<D0>>, #[steit(tag = 2)] pub f2: Vec<Option<D0>>, #[steit(tag = 3)] pub f3: Option<Option<D0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty71 { #[steit(tag = 0)] pub f0: [Option<D0>; 3], #[steit(tag = 1)] pub f1: Box<Option<D0>>, #[steit(tag = 2)] pub f2: Vec<[D0; 3]>, #[steit(tag = 3)] pub f3: Option<[D0; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty72 { #[steit(tag = 0)] pub f0: [[D0; 3]; 3], #[steit(tag = 1)] pub f1: Box<[D0; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<D0>>, #[steit(tag = 3)] pub f3: Option<Box<D0>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty73 { #[steit(tag = 0)] pub f0: [Box<D0>; 3], #[steit(tag = 1)] pub f1: Box<Box<D0>>, #[steit(tag = 2)] pub f2: Vec<Vec<Vec<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<Vec<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty74 { #[steit(tag = 0)] pub f0: [Vec<Vec<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Vec<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<Vec<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<Vec<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty75 { #[steit(tag = 0)] pub f0: [Option<Vec<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Vec<i64>>>, #[steit(tag = 2)] pub f2: Vec<[Vec<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[Vec<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty76 { #[steit(tag = 0)] pub f0: [[Vec<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Vec<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Vec<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<Vec<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty77 { #[steit(tag = 0)] pub f0: [Box<Vec<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Vec<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Option<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<Option<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty78 { #[steit(tag = 0)] pub f0: [Vec<Option<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Option<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<Option<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<Option<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty79 { #[steit(tag = 0)] pub f0: [Option<Option<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Option<i64>>>, #[steit(tag = 2)] pub f2: Vec<[Option<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[Option<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty80 { #[steit(tag = 0)] pub f0: [[Option<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Option<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Option<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<Option<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty81 { #[steit(tag = 0)] pub f0: [Box<Option<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Option<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<[i64; 3]>>, #[steit(tag = 3)] pub f3: Option<Vec<[i64; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty82 { #[steit(tag = 0)] pub f0: [Vec<[i64; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Vec<[i64; 3]>>, #[steit(tag = 2)] pub f2: Vec<Option<[i64; 3]>>, #[steit(tag = 3)] pub f3: Option<Option<[i64; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty83 { #[steit(tag = 0)] pub f0: [Option<[i64; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Option<[i64; 3]>>, #[steit(tag = 2)] pub f2: Vec<[[i64; 3]; 3]>, #[steit(tag = 3)] pub f3: Option<[[i64; 3]; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty84 { #[steit(tag = 0)] pub f0: [[[i64; 3]; 3]; 3], #[steit(tag = 1)] pub f1: Box<[[i64; 3]; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<[i64; 3]>>, #[steit(tag = 3)] pub f3: Option<Box<[i64; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty85 { #[steit(tag = 0)] pub f0: [Box<[i64; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Box<[i64; 3]>>, #[steit(tag = 2)] pub f2: Vec<Vec<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty86 { #[steit(tag = 0)] pub f0: [Vec<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty87 { #[steit(tag = 0)] pub f0: [Option<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<[Box<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[Box<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty88 { #[steit(tag = 0)] pub f0: [[Box<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Box<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty89 { #[steit(tag = 0)] pub f0: [Box<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Box<i64>>>, #[steit(tag = 2)] pub f2: List<Box<Box<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty90 { #[steit(tag = 0)] pub f0: Maybe<Box<Box<i64>>>, #[steit(tag = 1)] pub f1: G0<Box<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<List<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<List<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty91 { #[steit(tag = 0)] pub f0: [List<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<List<Box<i64>>>, #[steit(tag = 2)] pub f2: List<List<Box<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty92 { #[steit(tag = 0)] pub f0: Maybe<List<Box<i64>>>, #[steit(tag = 1)] pub f1: G0<List<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Box<i64>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty93 { #[steit(tag = 0)] pub f0: [Map<u8, Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Box<i64>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Box<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty94 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Box<i64>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty95 { #[steit(tag = 0)] pub f0: [Maybe<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Box<i64>>>, #[steit(tag = 2)] pub f2: List<Maybe<Box<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty96 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Box<i64>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<G0<Box<i64>>>, #[steit(tag = 3)] pub f3: Option<G0<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty97 { #[steit(tag = 0)] pub f0: [G0<Box<i64>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Box<i64>>>, #[steit(tag = 2)] pub f2: List<G0<Box<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Box<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty98 { #[steit(tag = 0)] pub f0: Maybe<G0<Box<i64>>>, #[steit(tag = 1)] pub f1: G0<G0<Box<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<List<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty99 { #[steit(tag = 0)] pub f0: [Vec<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<List<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty100 { #[steit(tag = 0)] pub f0: [Option<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<[List<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[List<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty101 { #[steit(tag = 0)] pub f0: [[List<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[List<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<List<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty102 { #[steit(tag = 0)] pub f0: [Box<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<List<i64>>>, #[steit(tag = 2)] pub f2: List<Box<List<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty103 { #[steit(tag = 0)] pub f0: Maybe<Box<List<i64>>>, #[steit(tag = 1)] pub f1: G0<Box<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<List<List<i64>>>, #[steit(tag = 3)] pub f3: Option<List<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty104 { #[steit(tag = 0)] pub f0: [List<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<List<List<i64>>>, #[steit(tag = 2)] pub f2: List<List<List<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, List<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty105 { #[steit(tag = 0)] pub f0: Maybe<List<List<i64>>>, #[steit(tag = 1)] pub f1: G0<List<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, List<i64>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty106 { #[steit(tag = 0)] pub f0: [Map<u8, List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, List<i64>>>, #[steit(tag = 2)] pub f2: List<Map<u8, List<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty107 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, List<i64>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, List<i64>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<List<i64>>>, #[steit(tag = 3)] pub f3: Option<Maybe<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty108 { #[steit(tag = 0)] pub f0: [Maybe<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<List<i64>>>, #[steit(tag = 2)] pub f2: List<Maybe<List<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty109 { #[steit(tag = 0)] pub f0: Maybe<Maybe<List<i64>>>, #[steit(tag = 1)] pub f1: G0<Maybe<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<G0<List<i64>>>, #[steit(tag = 3)] pub f3: Option<G0<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty110 { #[steit(tag = 0)] pub f0: [G0<List<i64>>; 3], #[steit(tag = 1)] pub f1: Box<G0<List<i64>>>, #[steit(tag = 2)] pub f2: List<G0<List<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<List<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty111 { #[steit(tag = 0)] pub f0: Maybe<G0<List<i64>>>, #[steit(tag = 1)] pub f1: G0<G0<List<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty112 { #[steit(tag = 0)] pub f0: [Vec<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<Option<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty113 { #[steit(tag = 0)] pub f0: [Option<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<[Map<u8, i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[Map<u8, i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty114 { #[steit(tag = 0)] pub f0: [[Map<u8, i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Map<u8, i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<Box<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty115 { #[steit(tag = 0)] pub f0: [Box<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: List<Box<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty116 { #[steit(tag = 0)] pub f0: Maybe<Box<Map<u8, i64>>>, #[steit(tag = 1)] pub f1: G0<Box<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<List<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<List<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty117 { #[steit(tag = 0)] pub f0: [List<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<List<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: List<List<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty118 { #[steit(tag = 0)] pub f0: Maybe<List<Map<u8, i64>>>, #[steit(tag = 1)] pub f1: G0<List<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty119 { #[steit(tag = 0)] pub f0: [Map<u8, Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Map<u8, i64>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty120 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Map<u8, i64>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty121 { #[steit(tag = 0)] pub f0: [Maybe<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: List<Maybe<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty122 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Map<u8, i64>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<G0<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Option<G0<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty123 { #[steit(tag = 0)] pub f0: [G0<Map<u8, i64>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: List<G0<Map<u8, i64>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Map<u8, i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty124 { #[steit(tag = 0)] pub f0: Maybe<G0<Map<u8, i64>>>, #[steit(tag = 1)] pub f1: G0<G0<Map<u8, i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty125 { #[steit(tag = 0)] pub f0: [Vec<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty126 { #[steit(tag = 0)] pub f0: [Option<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<[Maybe<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[Maybe<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty127 { #[steit(tag = 0)] pub f0: [[Maybe<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Maybe<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty128 { #[steit(tag = 0)] pub f0: [Box<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Maybe<i64>>>, #[steit(tag = 2)] pub f2: List<Box<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty129 { #[steit(tag = 0)] pub f0: Maybe<Box<Maybe<i64>>>, #[steit(tag = 1)] pub f1: G0<Box<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<List<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<List<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty130 { #[steit(tag = 0)] pub f0: [List<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<List<Maybe<i64>>>, #[steit(tag = 2)] pub f2: List<List<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty131 { #[steit(tag = 0)] pub f0: Maybe<List<Maybe<i64>>>, #[steit(tag = 1)] pub f1: G0<List<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty132 { #[steit(tag = 0)] pub f0: [Map<u8, Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Maybe<i64>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Maybe<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty133 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Maybe<i64>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty134 { #[steit(tag = 0)] pub f0: [Maybe<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Maybe<i64>>>, #[steit(tag = 2)] pub f2: List<Maybe<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty135 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Maybe<i64>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<G0<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Option<G0<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty136 { #[steit(tag = 0)] pub f0: [G0<Maybe<i64>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Maybe<i64>>>, #[steit(tag = 2)] pub f2: List<G0<Maybe<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Maybe<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty137 { #[steit(tag = 0)] pub f0: Maybe<G0<Maybe<i64>>>, #[steit(tag = 1)] pub f1: G0<G0<Maybe<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<Vec<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty138 { #[steit(tag = 0)] pub f0: [Vec<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<Option<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<Option<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty139 { #[steit(tag = 0)] pub f0: [Option<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Option<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<[G0<i64>; 3]>, #[steit(tag = 3)] pub f3: Option<[G0<i64>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty140 { #[steit(tag = 0)] pub f0: [[G0<i64>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[G0<i64>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<Box<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty141 { #[steit(tag = 0)] pub f0: [Box<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Box<G0<i64>>>, #[steit(tag = 2)] pub f2: List<Box<G0<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty142 { #[steit(tag = 0)] pub f0: Maybe<Box<G0<i64>>>, #[steit(tag = 1)] pub f1: G0<Box<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<List<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<List<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty143 { #[steit(tag = 0)] pub f0: [List<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<List<G0<i64>>>, #[steit(tag = 2)] pub f2: List<List<G0<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, List<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty144 { #[steit(tag = 0)] pub f0: Maybe<List<G0<i64>>>, #[steit(tag = 1)] pub f1: G0<List<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, G0<i64>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty145 { #[steit(tag = 0)] pub f0: [Map<u8, G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, G0<i64>>>, #[steit(tag = 2)] pub f2: List<Map<u8, G0<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty146 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, G0<i64>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<Maybe<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty147 { #[steit(tag = 0)] pub f0: [Maybe<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<G0<i64>>>, #[steit(tag = 2)] pub f2: List<Maybe<G0<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty148 { #[steit(tag = 0)] pub f0: Maybe<Maybe<G0<i64>>>, #[steit(tag = 1)] pub f1: G0<Maybe<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<G0<G0<i64>>>, #[steit(tag = 3)] pub f3: Option<G0<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty149 { #[steit(tag = 0)] pub f0: [G0<G0<i64>>; 3], #[steit(tag = 1)] pub f1: Box<G0<G0<i64>>>, #[steit(tag = 2)] pub f2: List<G0<G0<i64>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<G0<i64>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty150 { #[steit(tag = 0)] pub f0: Maybe<G0<G0<i64>>>, #[steit(tag = 1)] pub f1: G0<G0<G0<i64>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Vec<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<Vec<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty151 { #[steit(tag = 0)] pub f0: [Vec<Vec<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Vec<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<Vec<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<Vec<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty152 { #[steit(tag = 0)] pub f0: [Option<Vec<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Vec<S0>>>, #[steit(tag = 2)] pub f2: Vec<[Vec<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[Vec<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty153 { #[steit(tag = 0)] pub f0: [[Vec<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Vec<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Vec<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<Vec<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty154 { #[steit(tag = 0)] pub f0: [Box<Vec<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Vec<S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Option<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<Option<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty155 { #[steit(tag = 0)] pub f0: [Vec<Option<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Option<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<Option<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<Option<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty156 { #[steit(tag = 0)] pub f0: [Option<Option<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Option<S0>>>, #[steit(tag = 2)] pub f2: Vec<[Option<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[Option<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty157 { #[steit(tag = 0)] pub f0: [[Option<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Option<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Option<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<Option<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty158 { #[steit(tag = 0)] pub f0: [Box<Option<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Option<S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<[S0; 3]>>, #[steit(tag = 3)] pub f3: Option<Vec<[S0; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty159 { #[steit(tag = 0)] pub f0: [Vec<[S0; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Vec<[S0; 3]>>, #[steit(tag = 2)] pub f2: Vec<Option<[S0; 3]>>, #[steit(tag = 3)] pub f3: Option<Option<[S0; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty160 { #[steit(tag = 0)] pub f0: [Option<[S0; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Option<[S0; 3]>>, #[steit(tag = 2)] pub f2: Vec<[[S0; 3]; 3]>, #[steit(tag = 3)] pub f3: Option<[[S0; 3]; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty161 { #[steit(tag = 0)] pub f0: [[[S0; 3]; 3]; 3], #[steit(tag = 1)] pub f1: Box<[[S0; 3]; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<[S0; 3]>>, #[steit(tag = 3)] pub f3: Option<Box<[S0; 3]>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty162 { #[steit(tag = 0)] pub f0: [Box<[S0; 3]>; 3], #[steit(tag = 1)] pub f1: Box<Box<[S0; 3]>>, #[steit(tag = 2)] pub f2: Vec<Vec<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty163 { #[steit(tag = 0)] pub f0: [Vec<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty164 { #[steit(tag = 0)] pub f0: [Option<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<[Box<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[Box<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty165 { #[steit(tag = 0)] pub f0: [[Box<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Box<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty166 { #[steit(tag = 0)] pub f0: [Box<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Box<S0>>>, #[steit(tag = 2)] pub f2: List<Box<Box<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty167 { #[steit(tag = 0)] pub f0: Maybe<Box<Box<S0>>>, #[steit(tag = 1)] pub f1: G0<Box<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<List<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<List<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty168 { #[steit(tag = 0)] pub f0: [List<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<List<Box<S0>>>, #[steit(tag = 2)] pub f2: List<List<Box<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty169 { #[steit(tag = 0)] pub f0: Maybe<List<Box<S0>>>, #[steit(tag = 1)] pub f1: G0<List<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Box<S0>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty170 { #[steit(tag = 0)] pub f0: [Map<u8, Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Box<S0>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Box<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty171 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Box<S0>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty172 { #[steit(tag = 0)] pub f0: [Maybe<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Box<S0>>>, #[steit(tag = 2)] pub f2: List<Maybe<Box<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty173 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Box<S0>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<G0<Box<S0>>>, #[steit(tag = 3)] pub f3: Option<G0<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty174 { #[steit(tag = 0)] pub f0: [G0<Box<S0>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Box<S0>>>, #[steit(tag = 2)] pub f2: List<G0<Box<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Box<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty175 { #[steit(tag = 0)] pub f0: Maybe<G0<Box<S0>>>, #[steit(tag = 1)] pub f1: G0<G0<Box<S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<List<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty176 { #[steit(tag = 0)] pub f0: [Vec<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<List<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty177 { #[steit(tag = 0)] pub f0: [Option<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<[List<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[List<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty178 { #[steit(tag = 0)] pub f0: [[List<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[List<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<List<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty179 { #[steit(tag = 0)] pub f0: [Box<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<List<S0>>>, #[steit(tag = 2)] pub f2: List<Box<List<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty180 { #[steit(tag = 0)] pub f0: Maybe<Box<List<S0>>>, #[steit(tag = 1)] pub f1: G0<Box<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<List<List<S0>>>, #[steit(tag = 3)] pub f3: Option<List<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty181 { #[steit(tag = 0)] pub f0: [List<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<List<List<S0>>>, #[steit(tag = 2)] pub f2: List<List<List<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, List<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty182 { #[steit(tag = 0)] pub f0: Maybe<List<List<S0>>>, #[steit(tag = 1)] pub f1: G0<List<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, List<S0>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty183 { #[steit(tag = 0)] pub f0: [Map<u8, List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, List<S0>>>, #[steit(tag = 2)] pub f2: List<Map<u8, List<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty184 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, List<S0>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, List<S0>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<List<S0>>>, #[steit(tag = 3)] pub f3: Option<Maybe<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty185 { #[steit(tag = 0)] pub f0: [Maybe<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<List<S0>>>, #[steit(tag = 2)] pub f2: List<Maybe<List<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty186 { #[steit(tag = 0)] pub f0: Maybe<Maybe<List<S0>>>, #[steit(tag = 1)] pub f1: G0<Maybe<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<G0<List<S0>>>, #[steit(tag = 3)] pub f3: Option<G0<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty187 { #[steit(tag = 0)] pub f0: [G0<List<S0>>; 3], #[steit(tag = 1)] pub f1: Box<G0<List<S0>>>, #[steit(tag = 2)] pub f2: List<G0<List<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<List<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty188 { #[steit(tag = 0)] pub f0: Maybe<G0<List<S0>>>, #[steit(tag = 1)] pub f1: G0<G0<List<S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty189 { #[steit(tag = 0)] pub f0: [Vec<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<Option<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty190 { #[steit(tag = 0)] pub f0: [Option<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<[Map<u8, S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[Map<u8, S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty191 { #[steit(tag = 0)] pub f0: [[Map<u8, S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Map<u8, S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<Box<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty192 { #[steit(tag = 0)] pub f0: [Box<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: List<Box<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty193 { #[steit(tag = 0)] pub f0: Maybe<Box<Map<u8, S0>>>, #[steit(tag = 1)] pub f1: G0<Box<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<List<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<List<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty194 { #[steit(tag = 0)] pub f0: [List<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<List<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: List<List<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty195 { #[steit(tag = 0)] pub f0: Maybe<List<Map<u8, S0>>>, #[steit(tag = 1)] pub f1: G0<List<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty196 { #[steit(tag = 0)] pub f0: [Map<u8, Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Map<u8, S0>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty197 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Map<u8, S0>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty198 { #[steit(tag = 0)] pub f0: [Maybe<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: List<Maybe<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty199 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Map<u8, S0>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<G0<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Option<G0<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty200 { #[steit(tag = 0)] pub f0: [G0<Map<u8, S0>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: List<G0<Map<u8, S0>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Map<u8, S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty201 { #[steit(tag = 0)] pub f0: Maybe<G0<Map<u8, S0>>>, #[steit(tag = 1)] pub f1: G0<G0<Map<u8, S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty202 { #[steit(tag = 0)] pub f0: [Vec<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty203 { #[steit(tag = 0)] pub f0: [Option<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<[Maybe<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[Maybe<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty204 { #[steit(tag = 0)] pub f0: [[Maybe<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[Maybe<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty205 { #[steit(tag = 0)] pub f0: [Box<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<Maybe<S0>>>, #[steit(tag = 2)] pub f2: List<Box<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty206 { #[steit(tag = 0)] pub f0: Maybe<Box<Maybe<S0>>>, #[steit(tag = 1)] pub f1: G0<Box<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<List<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<List<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty207 { #[steit(tag = 0)] pub f0: [List<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<List<Maybe<S0>>>, #[steit(tag = 2)] pub f2: List<List<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, List<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty208 { #[steit(tag = 0)] pub f0: Maybe<List<Maybe<S0>>>, #[steit(tag = 1)] pub f1: G0<List<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty209 { #[steit(tag = 0)] pub f0: [Map<u8, Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, Maybe<S0>>>, #[steit(tag = 2)] pub f2: List<Map<u8, Maybe<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty210 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, Maybe<S0>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<Maybe<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty211 { #[steit(tag = 0)] pub f0: [Maybe<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<Maybe<S0>>>, #[steit(tag = 2)] pub f2: List<Maybe<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty212 { #[steit(tag = 0)] pub f0: Maybe<Maybe<Maybe<S0>>>, #[steit(tag = 1)] pub f1: G0<Maybe<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<G0<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Option<G0<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty213 { #[steit(tag = 0)] pub f0: [G0<Maybe<S0>>; 3], #[steit(tag = 1)] pub f1: Box<G0<Maybe<S0>>>, #[steit(tag = 2)] pub f2: List<G0<Maybe<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<Maybe<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty214 { #[steit(tag = 0)] pub f0: Maybe<G0<Maybe<S0>>>, #[steit(tag = 1)] pub f1: G0<G0<Maybe<S0>>>, #[steit(tag = 2)] pub f2: Vec<Vec<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<Vec<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty215 { #[steit(tag = 0)] pub f0: [Vec<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Vec<G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<Option<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<Option<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty216 { #[steit(tag = 0)] pub f0: [Option<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Option<G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<[G0<S0>; 3]>, #[steit(tag = 3)] pub f3: Option<[G0<S0>; 3]>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty217 { #[steit(tag = 0)] pub f0: [[G0<S0>; 3]; 3], #[steit(tag = 1)] pub f1: Box<[G0<S0>; 3]>, #[steit(tag = 2)] pub f2: Vec<Box<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<Box<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty218 { #[steit(tag = 0)] pub f0: [Box<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Box<G0<S0>>>, #[steit(tag = 2)] pub f2: List<Box<G0<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Box<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty219 { #[steit(tag = 0)] pub f0: Maybe<Box<G0<S0>>>, #[steit(tag = 1)] pub f1: G0<Box<G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<List<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<List<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty220 { #[steit(tag = 0)] pub f0: [List<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<List<G0<S0>>>, #[steit(tag = 2)] pub f2: List<List<G0<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, List<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty221 { #[steit(tag = 0)] pub f0: Maybe<List<G0<S0>>>, #[steit(tag = 1)] pub f1: G0<List<G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<Map<u8, G0<S0>>>, #[steit(tag = 3)] pub f3: Option<Map<u8, G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty222 { #[steit(tag = 0)] pub f0: [Map<u8, G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Map<u8, G0<S0>>>, #[steit(tag = 2)] pub f2: List<Map<u8, G0<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Map<u8, G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty223 { #[steit(tag = 0)] pub f0: Maybe<Map<u8, G0<S0>>>, #[steit(tag = 1)] pub f1: G0<Map<u8, G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<Maybe<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<Maybe<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty224 { #[steit(tag = 0)] pub f0: [Maybe<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<Maybe<G0<S0>>>, #[steit(tag = 2)] pub f2: List<Maybe<G0<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, Maybe<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty225 { #[steit(tag = 0)] pub f0: Maybe<Maybe<G0<S0>>>, #[steit(tag = 1)] pub f1: G0<Maybe<G0<S0>>>, #[steit(tag = 2)] pub f2: Vec<G0<G0<S0>>>, #[steit(tag = 3)] pub f3: Option<G0<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty226 { #[steit(tag = 0)] pub f0: [G0<G0<S0>>; 3], #[steit(tag = 1)] pub f1: Box<G0<G0<S0>>>, #[steit(tag = 2)] pub f2: List<G0<G0<S0>>>, #[steit(tag = 3)] pub f3: Map<u8, G0<G0<S0>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct Ty227 { #[steit(tag = 0)] pub f0: Maybe<G0<G0<S0>>>, #[steit(tag = 1)] pub f1: G0<G0<G0<S0>>>, }
pub type AliasMap = Map<u16, S0>; pub type AliasList = List<S1>; pub type AliasBox = Box<S1>; pub type AliasNested = Vec<Box<S1>>; pub type AliasPrim = u32; pub type AliasMsg = S1; pub type AliasMaybe = Maybe<Box<S1>>;
#[steit_derive(Serialize, Deserialize)] pub struct Note0 { #[steit(tag = 7)] pub f: AliasMap, }
#[steit_derive(Serialize, Deserialize)] pub struct Note1 { #[steit(tag = 7)] pub f: AliasList, }
#[steit_derive(Serialize, Deserialize)] pub struct Note2 { #[steit(tag = 7)] pub f: AliasBox, }
#[steit_derive(Serialize, Deserialize)] pub struct Note3 { #[steit(tag = 7)] pub f: AliasNested, }
#[steit_derive(Serialize, Deserialize)] pub struct Note4 { #[steit(tag = 7)] pub f: AliasPrim, }
#[steit_derive(Serialize, Deserialize)] pub struct Note5 { #[steit(tag = 7)] pub f: AliasMsg, }
#[steit_derive(Serialize, Deserialize)] pub struct Note6 { #[steit(tag = 7)] pub f: AliasMaybe, }
#[steit_derive(Serialize, Deserialize)] pub struct Note7 { #[steit(tag = 7)] pub f: Vec<AliasMap>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note8 { #[steit(tag = 7)] pub f: List<AliasMap>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note9 { #[steit(tag = 7)] pub f: Box<AliasBox>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note10 { #[steit(tag = 7)] pub f: (u8), }
#[steit_derive(Serialize, Deserialize)] pub struct Note11 { #[steit(tag = 7)] pub f: (S1), }
#[steit_derive(Serialize, Deserialize)] pub struct Note12 { #[steit(tag = 7)] pub f: Vec<(List<S0>)>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note13 { #[steit(tag = 7)] pub f: crate::schemas::S0, }
#[steit_derive(Serialize, Deserialize)] pub struct Note14 { #[steit(tag = 7)] pub f: super::S1, }
#[steit_derive(Serialize, Deserialize)] pub struct Note15 { #[steit(tag = 7)] pub f: steit::types::List<S0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note16 { #[steit(tag = 7)] pub f: std::vec::Vec<u8>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note17 { #[steit(tag = 7)] pub f: ::std::boxed::Box<S0>, }
#[steit_derive(Serialize, Deserialize)] pub struct Note18 { #[steit(tag = 7)] pub f: steit::types::Bytes, }
#[steit_derive(Serialize, Deserialize)] pub struct Note19 { #[steit(tag = 7)] pub f: std::primitive::u16, }
#[steit_derive(Serialize, Deserialize)] pub struct Note20 { #[steit(tag = 7)] pub f: ::std::string::String, }
#[steit_derive(Serialize, Deserialize)] pub struct Note21 { #[steit(tag = 7)] pub f: [(S0); 1], }
#[steit_derive(Serialize, Deserialize)] pub struct Note22 { #[steit(tag = 7)] pub f: [[S0; 2]; 7], }
}
pub mod shapes { use super::*;
#[steit_derive(State)] pub struct Sh0;
#[steit_derive(Serialize, Deserialize)] pub struct Sh1;
#[steit_derive(State)] pub struct Sh2 {  }
#[steit_derive(Serialize, Deserialize)] pub struct Sh3 {  }
#[steit_derive(State)] pub struct Sh4();
#[steit_derive(Serialize, Deserialize)] pub struct Sh5();
#[steit_derive(State)] pub struct Sh6 { #[steit(tag = 0)] pub first: Maybe<u16>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh7 { #[steit(tag = 0)] pub first: u8, }
#[steit_derive(State)] pub struct Sh8(#[steit(tag = 0)] pub S0);
#[steit_derive(Serialize, Deserialize)] pub struct Sh9(#[steit(tag = 0)] pub S0);
#[steit_derive(State)] pub struct Sh10 { #[steit(tag = 1)] pub first: E0, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh11 { #[steit(tag = 1)] pub first: Option<E0>, }
#[steit_derive(State)] pub struct Sh12(#[steit(tag = 1)] pub bool);
#[steit_derive(Serialize, Deserialize)] pub struct Sh13(#[steit(tag = 1)] pub List<u16>);
#[steit_derive(State)] pub struct Sh14 { #[steit(tag = 5)] pub first: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh15 { #[steit(tag = 5)] pub first: String, }
#[steit_derive(State)] pub struct Sh16(#[steit(tag = 5)] pub List<i32>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh17(#[steit(tag = 5)] pub Vec<i32>);
#[steit_derive(State)] pub struct Sh18 { #[steit(tag = 536870911)] pub first: Map<u8, S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh19 { #[steit(tag = 536870911)] pub first: bool, }
#[steit_derive(State)] pub struct Sh20(#[steit(tag = 536870911)] pub Maybe<u16>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh21(#[steit(tag = 536870911)] pub u8);
#[steit_derive(State)] pub struct Sh22 { #[steit(tag = 0)] pub first: S0, #[steit(tag = 1)] pub second_one: List<i32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh23 { #[steit(tag = 0)] pub first: S0, #[steit(tag = 1)] pub second_one: Vec<i32>, }
#[steit_derive(State)] pub struct Sh24(#[steit(tag = 0)] pub E0, #[steit(tag = 1)] pub Map<u8, S1>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh25(#[steit(tag = 0)] pub Option<E0>, #[steit(tag = 1)] pub bool);
#[steit_derive(State)] pub struct Sh26 { #[steit(tag = 0)] pub first: bool, #[steit(tag = 5)] pub second_one: Maybe<u16>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh27 { #[steit(tag = 0)] pub first: List<u16>, #[steit(tag = 5)] pub second_one: u8, }
#[steit_derive(State)] pub struct Sh28(#[steit(tag = 0)] pub u8, #[steit(tag = 5)] pub S0);
#[steit_derive(Serialize, Deserialize)] pub struct Sh29(#[steit(tag = 0)] pub String, #[steit(tag = 5)] pub S0);
#[steit_derive(State)] pub struct Sh30 { #[steit(tag = 0)] pub first: List<i32>, #[steit(tag = 536870911)] pub second_one: E0, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh31 { #[steit(tag = 0)] pub first: Vec<i32>, #[steit(tag = 536870911)] pub second_one: Option<E0>, }
#[steit_derive(State)] pub struct Sh32(#[steit(tag = 0)] pub Map<u8, S1>, #[steit(tag = 536870911)] pub bool);
#[steit_derive(Serialize, Deserialize)] pub struct Sh33(#[steit(tag = 0)] pub bool, #[steit(tag = 536870911)] pub List<u16>);
#[steit_derive(State)] pub struct Sh34 { #[steit(tag = 1)] pub first: Maybe<u16>, #[steit(tag = 0)] pub second_one: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh35 { #[steit(tag = 1)] pub first: u8, #[steit(tag = 0)] pub second_one: String, }
#[steit_derive(State)] pub struct Sh36(#[steit(tag = 1)] pub S0, #[steit(tag = 0)] pub List<i32>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh37(#[steit(tag = 1)] pub S0, #[steit(tag = 0)] pub Vec<i32>);
#[steit_derive(State)] pub struct Sh38 { #[steit(tag = 1)] pub first: E0, #[steit(tag = 5)] pub second_one: Map<u8, S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh39 { #[steit(tag = 1)] pub first: Option<E0>, #[steit(tag = 5)] pub second_one: bool, }
#[steit_derive(State)] pub struct Sh40(#[steit(tag = 1)] pub bool, #[steit(tag = 5)] pub Maybe<u16>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh41(#[steit(tag = 1)] pub List<u16>, #[steit(tag = 5)] pub u8);
#[steit_derive(State)] pub struct Sh42 { #[steit(tag = 1)] pub first: u8, #[steit(tag = 536870911)] pub second_one: S0, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh43 { #[steit(tag = 1)] pub first: String, #[steit(tag = 536870911)] pub second_one: S0, }
#[steit_derive(State)] pub struct Sh44(#[steit(tag = 1)] pub List<i32>, #[steit(tag = 536870911)] pub E0);
#[steit_derive(Serialize, Deserialize)] pub struct Sh45(#[steit(tag = 1)] pub Vec<i32>, #[steit(tag = 536870911)] pub Option<E0>);
#[steit_derive(State)] pub struct Sh46 { #[steit(tag = 5)] pub first: Map<u8, S1>, #[steit(tag = 0)] pub second_one: bool, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh47 { #[steit(tag = 5)] pub first: bool, #[steit(tag = 0)] pub second_one: List<u16>, }
#[steit_derive(State)] pub struct Sh48(#[steit(tag = 5)] pub Maybe<u16>, #[steit(tag = 0)] pub u8);
#[steit_derive(Serialize, Deserialize)] pub struct Sh49(#[steit(tag = 5)] pub u8, #[steit(tag = 0)] pub String);
#[steit_derive(State)] pub struct Sh50 { #[steit(tag = 5)] pub first: S0, #[steit(tag = 1)] pub second_one: List<i32>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh51 { #[steit(tag = 5)] pub first: S0, #[steit(tag = 1)] pub second_one: Vec<i32>, }
#[steit_derive(State)] pub struct Sh52(#[steit(tag = 5)] pub E0, #[steit(tag = 1)] pub Map<u8, S1>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh53(#[steit(tag = 5)] pub Option<E0>, #[steit(tag = 1)] pub bool);
#[steit_derive(State)] pub struct Sh54 { #[steit(tag = 5)] pub first: bool, #[steit(tag = 536870911)] pub second_one: Maybe<u16>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh55 { #[steit(tag = 5)] pub first: List<u16>, #[steit(tag = 536870911)] pub second_one: u8, }
#[steit_derive(State)] pub struct Sh56(#[steit(tag = 5)] pub u8, #[steit(tag = 536870911)] pub S0);
#[steit_derive(Serialize, Deserialize)] pub struct Sh57(#[steit(tag = 5)] pub String, #[steit(tag = 536870911)] pub S0);
#[steit_derive(State)] pub struct Sh58 { #[steit(tag = 536870911)] pub first: List<i32>, #[steit(tag = 0)] pub second_one: E0, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh59 { #[steit(tag = 536870911)] pub first: Vec<i32>, #[steit(tag = 0)] pub second_one: Option<E0>, }
#[steit_derive(State)] pub struct Sh60(#[steit(tag = 536870911)] pub Map<u8, S1>, #[steit(tag = 0)] pub bool);
#[steit_derive(Serialize, Deserialize)] pub struct Sh61(#[steit(tag = 536870911)] pub bool, #[steit(tag = 0)] pub List<u16>);
#[steit_derive(State)] pub struct Sh62 { #[steit(tag = 536870911)] pub first: Maybe<u16>, #[steit(tag = 1)] pub second_one: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh63 { #[steit(tag = 536870911)] pub first: u8, #[steit(tag = 1)] pub second_one: String, }
#[steit_derive(State)] pub struct Sh64(#[steit(tag = 536870911)] pub S0, #[steit(tag = 1)] pub List<i32>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh65(#[steit(tag = 536870911)] pub S0, #[steit(tag = 1)] pub Vec<i32>);
#[steit_derive(State)] pub struct Sh66 { #[steit(tag = 536870911)] pub first: E0, #[steit(tag = 5)] pub second_one: Map<u8, S1>, }
#[steit_derive(Serialize, Deserialize)] pub struct Sh67 { #[steit(tag = 536870911)] pub first: Option<E0>, #[steit(tag = 5)] pub second_one: bool, }
#[steit_derive(State)] pub struct Sh68(#[steit(tag = 536870911)] pub bool, #[steit(tag = 5)] pub Maybe<u16>);
#[steit_derive(Serialize, Deserialize)] pub struct Sh69(#[steit(tag = 536870911)] pub List<u16>, #[steit(tag = 5)] pub u8);
#[steit_derive(State)] pub struct Sh70 { #[steit(tag = 0)] pub first: u8, #[steit(tag = 1)] pub second_one: S0, #[steit(tag = 5)] pub theThird: List<i32>, }
#[steit_derive(State)] pub struct Sh72(#[steit(tag = 0)] pub List<i32>, #[steit(tag = 1)] pub E0, #[steit(tag = 5)] pub Map<u8, S1>);
#[steit_derive(State)] pub struct Sh74 { #[steit(tag = 0)] pub first: Map<u8, S1>, #[steit(tag = 1)] pub second_one: bool, #[steit(tag = 536870911)] pub theThird: Maybe<u16>, }
#[steit_derive(State)] pub struct Sh76(#[steit(tag = 0)] pub Maybe<u16>, #[steit(tag = 1)] pub u8, #[steit(tag = 536870911)] pub S0);
#[steit_derive(State)] pub struct Sh78 { #[steit(tag = 0)] pub first: S0, #[steit(tag = 5)] pub second_one: List<i32>, #[steit(tag = 1)] pub theThird: E0, }
#[steit_derive(State)] pub struct Sh80(#[steit(tag = 0)] pub E0, #[steit(tag = 5)] pub Map<u8, S1>, #[steit(tag = 1)] pub bool);
#[steit_derive(State)] pub struct Sh82 { #[steit(tag = 0)] pub first: bool, #[steit(tag = 5)] pub second_one: Maybe<u16>, #[steit(tag = 536870911)] pub theThird: u8, }
#[steit_derive(State)] pub struct Sh84(#[steit(tag = 0)] pub u8, #[steit(tag = 5)] pub S0, #[steit(tag = 536870911)] pub List<i32>);
#[steit_derive(State)] pub struct Sh86 { #[steit(tag = 0)] pub first: List<i32>, #[steit(tag = 536870911)] pub second_one: E0, #[steit(tag = 1)] pub theThird: Map<u8, S1>, }
#[steit_derive(State)] pub struct Sh88(#[steit(tag = 0)] pub Map<u8, S1>, #[steit(tag = 536870911)] pub bool, #[steit(tag = 1)] pub Maybe<u16>);
#[steit_derive(State)] pub struct Sh90 { #[steit(tag = 0)] pub first: Maybe<u16>, #[steit(tag = 536870911)] pub second_one: u8, #[steit(tag = 5)] pub theThird: S0, }
#[steit_derive(State)] pub struct Sh92(#[steit(tag = 0)] pub S0, #[steit(tag = 536870911)] pub List<i32>, #[steit(tag = 5)] pub E0);
#[steit_derive(State)] pub struct Sh94 { #[steit(tag = 1)] pub first: E0, #[steit(tag = 0)] pub second_one: Map<u8, S1>, #[steit(tag = 5)] pub theThird: bool, }
#[steit_derive(State)] pub struct Sh96(#[steit(tag = 1)] pub bool, #[steit(tag = 0)] pub Maybe<u16>, #[steit(tag = 5)] pub u8);
#[steit_derive(State)] pub struct Sh98 { #[steit(tag = 1)] pub first: u8, #[steit(tag = 0)] pub second_one: S0, #[steit(tag = 536870911)] pub theThird: List<i32>, }
#[steit_derive(State)] pub struct Sh100(#[steit(tag = 1)] pub List<i32>, #[steit(tag = 0)] pub E0, #[steit(tag = 536870911)] pub Map<u8, S1>);
#[steit_derive(State)] pub struct Sh102 { #[steit(tag = 1)] pub first: Map<u8, S1>, #[steit(tag = 5)] pub second_one: bool, #[steit(tag = 0)] pub theThird: Maybe<u16>, }
#[steit_derive(State)] pub struct Sh104(#[steit(tag = 1)] pub Maybe<u16>, #[steit(tag = 5)] pub u8, #[steit(tag = 0)] pub S0);
#[steit_derive(State)] pub struct Sh106 { #[steit(tag = 1)] pub first: S0, #[steit(tag = 5)] pub second_one: List<i32>, #[steit(tag = 536870911)] pub theThird: E0, }
#[steit_derive(State)] pub struct Sh108(#[steit(tag = 1)] pub E0, #[steit(tag = 5)] pub Map<u8, S1>, #[steit(tag = 536870911)] pub bool);
#[steit_derive(State)] pub struct Sh110 { #[steit(tag = 1)] pub first: bool, #[steit(tag = 536870911)] pub second_one: Maybe<u16>, #[steit(tag = 0)] pub theThird: u8, }
#[steit_derive(State)] pub struct Sh112(#[steit(tag = 1)] pub u8, #[steit(tag = 536870911)] pub S0, #[steit(tag = 0)] pub List<i32>);
#[steit_derive(State)] pub struct Sh114 { #[steit(tag = 1)] pub first: List<i32>, #[steit(tag = 536870911)] pub second_one: E0, #[steit(tag = 5)] pub theThird: Map<u8, S1>, }
#[steit_derive(State)] pub struct Sh116(#[steit(tag = 1)] pub Map<u8, S1>, #[steit(tag = 536870911)] pub bool, #[steit(tag = 5)] pub Maybe<u16>);
#[steit_derive(State)] pub struct Sh118 { #[steit(tag = 5)] pub first: Maybe<u16>, #[steit(tag = 0)] pub second_one: u8, #[steit(tag = 1)] pub theThird: S0, }
#[steit_derive(State)] pub struct Sh120(#[steit(tag = 5)] pub S0, #[steit(tag = 0)] pub List<i32>, #[steit(tag = 1)] pub E0);
#[steit_derive(State)] pub struct Sh122 { #[steit(tag = 5)] pub first: E0, #[steit(tag = 0)] pub second_one: Map<u8, S1>, #[steit(tag = 536870911)] pub theThird: bool, }
#[steit_derive(State)] pub struct Sh124(#[steit(tag = 5)] pub bool, #[steit(tag = 0)] pub Maybe<u16>, #[steit(tag = 536870911)] pub u8);
#[steit_derive(State)] pub struct Sh126 { #[steit(tag = 5)] pub first: u8, #[steit(tag = 1)] pub second_one: S0, #[steit(tag = 0)] pub theThird: List<i32>, }
#[steit_derive(State)] pub struct Sh128(#[steit(tag = 5)] pub List<i32>, #[steit(tag = 1)] pub E0, #[steit(tag = 0)] pub Map<u8, S1>);
#[steit_derive(State)] pub struct Sh130 { #[steit(tag = 5)] pub first: Map<u8, S1>, #[steit(tag = 1)] pub second_one: bool, #[steit(tag = 536870911)] pub theThird: Maybe<u16>, }
#[steit_derive(State)] pub struct Sh132(#[steit(tag = 5)] pub Maybe<u16>, #[steit(tag = 1)] pub u8, #[steit(tag = 536870911)] pub S0);
#[steit_derive(State)] pub struct Sh134 { #[steit(tag = 5)] pub first: S0, #[steit(tag = 536870911)] pub second_one: List<i32>, #[steit(tag = 0)] pub theThird: E0, }
#[steit_derive(State)] pub struct Sh136(#[steit(tag = 5)] pub E0, #[steit(tag = 536870911)] pub Map<u8, S1>, #[steit(tag = 0)] pub bool);
#[steit_derive(State)] pub struct Sh138 { #[steit(tag = 5)] pub first: bool, #[steit(tag = 536870911)] pub second_one: Maybe<u16>, #[steit(tag = 1)] pub theThird: u8, }
#[steit_derive(State)] pub struct Sh140(#[steit(tag = 5)] pub u8, #[steit(tag = 536870911)] pub S0, #[steit(tag = 1)] pub List<i32>);
#[steit_derive(State)] pub struct Sh142 { #[steit(tag = 536870911)] pub first: List<i32>, #[steit(tag = 0)] pub second_one: E0, #[steit(tag = 1)] pub theThird: Map<u8, S1>, }
#[steit_derive(State)] pub struct Sh144(#[steit(tag = 536870911)] pub Map<u8, S1>, #[steit(tag = 0)] pub bool, #[steit(tag = 1)] pub Maybe<u16>);
#[steit_derive(State)] pub struct Sh146 { #[steit(tag = 536870911)] pub first: Maybe<u16>, #[steit(tag = 0)] pub second_one: u8, #[steit(tag = 5)] pub theThird: S0, }
#[steit_derive(State)] pub struct Sh148(#[steit(tag = 536870911)] pub S0, #[steit(tag = 0)] pub List<i32>, #[steit(tag = 5)] pub E0);
#[steit_derive(State)] pub struct Sh150 { #[steit(tag = 536870911)] pub first: E0, #[steit(tag = 1)] pub second_one: Map<u8, S1>, #[steit(tag = 0)] pub theThird: bool, }
#[steit_derive(State)] pub struct Sh152(#[steit(tag = 536870911)] pub bool, #[steit(tag = 1)] pub Maybe<u16>, #[steit(tag = 0)] pub u8);
#[steit_derive(State)] pub struct Sh154 { #[steit(tag = 536870911)] pub first: u8, #[steit(tag = 1)] pub second_one: S0, #[steit(tag = 5)] pub theThird: List<i32>, }
#[steit_derive(State)] pub struct Sh156(#[steit(tag = 536870911)] pub List<i32>, #[steit(tag = 1)] pub E0, #[steit(tag = 5)] pub Map<u8, S1>);
#[steit_derive(State)] pub struct Sh158 { #[steit(tag = 536870911)] pub first: Map<u8, S1>, #[steit(tag = 5)] pub second_one: bool, #[steit(tag = 0)] pub theThird: Maybe<u16>, }
#[steit_derive(State)] pub struct Sh160(#[steit(tag = 536870911)] pub Maybe<u16>, #[steit(tag = 5)] pub u8, #[steit(tag = 0)] pub S0);
#[steit_derive(State)] pub struct Sh162 { #[steit(tag = 536870911)] pub first: S0, #[steit(tag = 5)] pub second_one: List<i32>, #[steit(tag = 1)] pub theThird: E0, }
#[steit_derive(State)] pub struct Sh164(#[steit(tag = 536870911)] pub E0, #[steit(tag = 5)] pub Map<u8, S1>, #[steit(tag = 1)] pub bool);
#[steit_derive(State)] pub enum En166 { #[steit(tag = 0)] Alpha, }
#[steit_derive(State)] pub enum En167 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(Serialize, Deserialize)] pub enum En168 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En169 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo, }
#[steit_derive(State)] pub enum En170 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] E0), }
#[steit_derive(Serialize, Deserialize)] pub enum En171 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En172 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 1)] BetaTwo, }
#[steit_derive(State)] pub enum En173 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(Serialize, Deserialize)] pub enum En174 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] List<u16>), #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En175 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 1)] BetaTwo, }
#[steit_derive(State)] pub enum En176 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] List<i32>), }
#[steit_derive(Serialize, Deserialize)] pub enum En177 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En178 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo, }
#[steit_derive(State)] pub enum En179 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] bool), }
#[steit_derive(Serialize, Deserialize)] pub enum En180 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En181 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 3)] BetaTwo, }
#[steit_derive(State)] pub enum En182 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] S0), }
#[steit_derive(Serialize, Deserialize)] pub enum En183 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] String), #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En184 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 3)] BetaTwo, }
#[steit_derive(State)] pub enum En185 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(Serialize, Deserialize)] pub enum En186 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En187 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo, }
#[steit_derive(State)] pub enum En188 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] u8), }
#[steit_derive(Serialize, Deserialize)] pub enum En189 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En190 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 536870911)] BetaTwo, }
#[steit_derive(State)] pub enum En191 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] List<i32>), #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] E0), }
#[steit_derive(Serialize, Deserialize)] pub enum En192 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Vec<i32>), #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En193 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 536870911)] BetaTwo, }
#[steit_derive(State)] pub enum En194 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(Serialize, Deserialize)] pub enum En195 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En196 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En197 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] List<i32>), }
#[steit_derive(Serialize, Deserialize)] pub enum En198 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En199 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] E0), #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En200 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] bool), }
#[steit_derive(Serialize, Deserialize)] pub enum En201 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En202 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En203 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] S0), }
#[steit_derive(Serialize, Deserialize)] pub enum En204 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En205 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En206 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(Serialize, Deserialize)] pub enum En207 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En208 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En209 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] u8), }
#[steit_derive(Serialize, Deserialize)] pub enum En210 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En211 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En212 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] E0), }
#[steit_derive(Serialize, Deserialize)] pub enum En213 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En214 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En215 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(Serialize, Deserialize)] pub enum En216 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En217 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En218 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] List<i32>), }
#[steit_derive(Serialize, Deserialize)] pub enum En219 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En220 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 0)] BetaTwo, }
#[steit_derive(State)] pub enum En221 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] bool), }
#[steit_derive(Serialize, Deserialize)] pub enum En222 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(Serialize, Deserialize)] pub enum En225 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En230 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] S0), }
#[steit_derive(State)] pub enum En235 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] bool), #[steit(tag = 3)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En240 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En245 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] S0), #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] List<i32>), }
#[steit_derive(State)] pub enum En250 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En255 { #[steit(tag = 0)] Alpha, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] Option<E0>), #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En260 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 1)] BetaTwo, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] E0), }
#[steit_derive(State)] pub enum En265 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En270 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 1)] BetaTwo, #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En275 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(State)] pub enum En280 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] S0), #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En285 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En290 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] E0), #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] bool), }
#[steit_derive(State)] pub enum En295 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 3)] BetaTwo, #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En300 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En305 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(State)] pub enum En310 { #[steit(tag = 0)] Alpha, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En315 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 3)] BetaTwo, #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En320 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] u8), }
#[steit_derive(State)] pub enum En325 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En330 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En335 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] S0), }
#[steit_derive(State)] pub enum En340 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En345 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] Vec<i32>), #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En350 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] List<i32>), }
#[steit_derive(State)] pub enum En355 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En360 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En365 { #[steit(tag = 0)] Alpha, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] E0), }
#[steit_derive(State)] pub enum En370 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 3)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En375 { #[steit(tag = 0)] Alpha(#[steit(tag = 0)] Option<E0>), #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En380 { #[steit(tag = 0)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] E0), #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(State)] pub enum En385 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo, #[steit(tag = 3)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En390 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] List<u16>), #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En395 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] E0), #[steit(tag = 0)] BetaTwo, #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] bool), }
#[steit_derive(State)] pub enum En400 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 3)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En405 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 0)] BetaTwo, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En410 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(State)] pub enum En415 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] E0), #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En420 { #[steit(tag = 1)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En425 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] u8), }
#[steit_derive(State)] pub enum En430 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 0)] BetaTwo, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En435 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] S0), #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En440 { #[steit(tag = 1)] Alpha, #[steit(tag = 3)] BetaTwo, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] S0), }
#[steit_derive(State)] pub enum En445 { #[steit(tag = 1)] Alpha, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En450 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 3)] BetaTwo, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En455 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] List<i32>), }
#[steit_derive(State)] pub enum En460 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En465 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En470 { #[steit(tag = 1)] Alpha, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] List<i32>), #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] E0), }
#[steit_derive(State)] pub enum En475 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] Maybe<u16>), #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En480 { #[steit(tag = 1)] Alpha(#[steit(tag = 0)] Option<E0>), #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] bool), #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En485 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(State)] pub enum En490 { #[steit(tag = 1)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En495 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo, #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En500 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] bool), }
#[steit_derive(State)] pub enum En505 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] List<i32>), #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En510 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] List<u16>), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En515 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] bool), #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(State)] pub enum En520 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En525 { #[steit(tag = 3)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] String), #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En530 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 0)] BetaTwo, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] u8), }
#[steit_derive(State)] pub enum En535 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] E0), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 536870911)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En540 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, #[steit(tag = 0)] BetaTwo, #[steit(tag = 536870911)] Gamma_three { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En545 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 536870911)] Gamma_three(#[steit(tag = 0)] S0), }
#[steit_derive(State)] pub enum En550 { #[steit(tag = 3)] Alpha, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] bool), #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En555 { #[steit(tag = 3)] Alpha, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En560 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] S0), #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] List<i32>), }
#[steit_derive(State)] pub enum En565 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 1)] BetaTwo, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En570 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] Option<E0>), #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En575 { #[steit(tag = 3)] Alpha, #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] E0), }
#[steit_derive(State)] pub enum En580 { #[steit(tag = 3)] Alpha, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En585 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] Option<E0>), #[steit(tag = 536870911)] BetaTwo, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En590 { #[steit(tag = 3)] Alpha(#[steit(tag = 0)] List<i32>), #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(State)] pub enum En595 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 536870911)] BetaTwo(#[steit(tag = 0)] S0), #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En600 { #[steit(tag = 3)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, #[steit(tag = 536870911)] BetaTwo { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
#[steit_derive(State)] pub enum En605 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] bool), }
#[steit_derive(State)] pub enum En610 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] S0), #[steit(tag = 0)] BetaTwo, #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En615 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] List<u16>), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 1)] Gamma_three { #[steit(tag = 1)] left: String, #[steit(tag = 0)] right_hand: Option<E0>, }, }
#[steit_derive(State)] pub enum En620 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: Map<u8, S1>, #[steit(tag = 0)] right_hand: u8, }, #[steit(tag = 0)] BetaTwo, #[steit(tag = 1)] Gamma_three(#[steit(tag = 0)] Maybe<u16>), }
#[steit_derive(State)] pub enum En625 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: E0, #[steit(tag = 0)] right_hand: Maybe<u16>, }, #[steit(tag = 1)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En630 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, }
#[steit_derive(State)] pub enum En635 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] u8), }
#[steit_derive(State)] pub enum En640 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] E0), #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] Map<u8, S1>), #[steit(tag = 3)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En645 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] String), #[steit(tag = 0)] BetaTwo { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 3)] Gamma_three { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, }
#[steit_derive(State)] pub enum En650 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 0)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 3)] Gamma_three(#[steit(tag = 0)] S0), }
#[steit_derive(State)] pub enum En655 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 1)] BetaTwo, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En660 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 1)] BetaTwo(#[steit(tag = 0)] Vec<i32>), #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: Option<E0>, #[steit(tag = 0)] right_hand: u8, }, }
#[steit_derive(State)] pub enum En665 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] u8), #[steit(tag = 1)] BetaTwo, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] List<i32>), }
#[steit_derive(State)] pub enum En670 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] bool), #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: Maybe<u16>, #[steit(tag = 0)] right_hand: List<i32>, }, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En675 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: Vec<i32>, #[steit(tag = 0)] right_hand: List<u16>, }, #[steit(tag = 1)] BetaTwo, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, }
#[steit_derive(State)] pub enum En680 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: S0, #[steit(tag = 0)] right_hand: Map<u8, S1>, }, #[steit(tag = 1)] BetaTwo { #[steit(tag = 1)] left: List<i32>, #[steit(tag = 0)] right_hand: bool, }, #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] E0), }
#[steit_derive(State)] pub enum En685 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] u8), #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En690 { #[steit(tag = 536870911)] Alpha, #[steit(tag = 3)] BetaTwo { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: List<u16>, #[steit(tag = 0)] right_hand: S0, }, }
#[steit_derive(State)] pub enum En695 { #[steit(tag = 536870911)] Alpha(#[steit(tag = 0)] List<i32>), #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] E0), #[steit(tag = 0)] Gamma_three(#[steit(tag = 0)] Map<u8, S1>), }
#[steit_derive(State)] pub enum En700 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: E0, }, #[steit(tag = 3)] BetaTwo, #[steit(tag = 0)] Gamma_three, }
#[steit_derive(Serialize, Deserialize)] pub enum En705 { #[steit(tag = 536870911)] Alpha { #[steit(tag = 1)] left: bool, #[steit(tag = 0)] right_hand: String, }, #[steit(tag = 3)] BetaTwo(#[steit(tag = 0)] List<u16>), #[steit(tag = 0)] Gamma_three { #[steit(tag = 1)] left: u8, #[steit(tag = 0)] right_hand: Vec<i32>, }, }
}
pub mod names { use super::*;
#[steit_derive(State)] pub struct Na0 { #[steit(tag = 0)] pub one_field: u8, #[steit(tag = 1)] pub other: S1, }
#[steit_derive(State)] pub struct Na1 { #[steit(tag = 0)] pub one_field: u8, #[steit(tag = 1, csharp_name = "GivenOther")] pub other: S1, }
#[steit_derive(State)] pub struct Na2 { #[steit(tag = 0, csharp_name = "given_one")] pub one_field: u8, #[steit(tag = 1)] pub other: S1, }
#[steit_derive(State)] pub struct Na3 { #[steit(tag = 0, csharp_name = "given_one")] pub one_field: u8, #[steit(tag = 1, csharp_name = "GivenOther")] pub other: S1, }
#[steit_derive(State)] #[steit(csharp_name = "Given4")] pub struct Na4 { #[steit(tag = 0)] pub one_field: u8, #[steit(tag = 1)] pub other: S1, }
#[steit_derive(State)] #[steit(csharp_name = "Given5")] pub struct Na5 { #[steit(tag = 0)] pub one_field: u8, #[steit(tag = 1, csharp_name = "GivenOther")] pub other: S1, }
#[steit_derive(State)] #[steit(csharp_name = "Given6")] pub struct Na6 { #[steit(tag = 0, csharp_name = "given_one")] pub one_field: u8, #[steit(tag = 1)] pub other: S1, }
#[steit_derive(State)] #[steit(csharp_name = "Given7")] pub struct Na7 { #[steit(tag = 0, csharp_name = "given_one")] pub one_field: u8, #[steit(tag = 1, csharp_name = "GivenOther")] pub other: S1, }
#[steit_derive(State)] pub enum Nb0 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb1 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb2 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb3 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb4 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb5 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb6 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb7 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb8 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb9 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb10 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb11 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb12 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb13 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] pub enum Nb14 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] pub enum Nb15 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum16")] pub enum Nb16 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum17")] pub enum Nb17 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum18")] pub enum Nb18 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum19")] pub enum Nb19 { #[steit(tag = 0)] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum20")] pub enum Nb20 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum21")] pub enum Nb21 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum22")] pub enum Nb22 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum23")] pub enum Nb23 { #[steit(tag = 0)] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum24")] pub enum Nb24 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum25")] pub enum Nb25 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum26")] pub enum Nb26 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum27")] pub enum Nb27 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0)] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum28")] pub enum Nb28 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum29")] pub enum Nb29 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2)] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum30")] pub enum Nb30 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4)] S1), }
#[steit_derive(State)] #[steit(csharp_name = "GivenEnum31")] pub enum Nb31 { #[steit(tag = 0, csharp_name = "First")] One { #[steit(tag = 0, csharp_name = "long_name")] a_b: u8, }, #[steit(tag = 2, csharp_name = "Second")] Two(#[steit(tag = 4, csharp_name = "inner")] S1), }
#[steit_derive(State)] #[steit(size_cache_renamed = "cs", runtime_renamed = "rt")] pub struct Nc0 { #[steit(tag = 0)] pub a: u8, }
#[steit_derive(State)] #[steit(no_size_cache)] pub struct Nc1 { #[steit(tag = 1)] pub a: S0, }
#[steit_derive(State)] #[steit(ctor_prefix = "make")] pub struct Nc2 { #[steit(tag = 1)] pub size: S0, #[steit(tag = 0)] pub reader: S1, }
}
pub mod generic { use super::*;
#[steit_derive(State)] pub struct G1<T: State, U: State> { #[steit(tag = 1)] pub b: U, #[steit(tag = 0)] pub a: T, #[steit(tag = 2)] pub c: Map<u8, T>, }
#[steit_derive(Serialize, Deserialize)] pub struct G2<T: Value> { #[steit(tag = 0)] pub v: Vec<T>, #[steit(tag = 1)] pub o: Option<T>, #[steit(tag = 2)] pub a: [T; 2], #[steit(tag = 3)] pub b: Box<T>, #[steit(tag = 5)] pub t: T, }
#[steit_derive(State)] pub struct G3<T: State> { #[steit(tag = 0)] pub l: List<T>, #[steit(tag = 1)] pub g: G0<T>, #[steit(tag = 2)] pub m: Maybe<T>, #[steit(tag = 3)] pub n: List<G0<List<T>>>, }
#[steit_derive(State)] pub struct G4<T: State> { #[steit(tag = 0)] pub w: generic::G1<T, G0<T>>, #[steit(tag = 1)] pub z: generic::G1<S0, T>, }
#[steit_derive(State)] #[steit(csharp_name = "Either")] pub enum G5<T: State, U: State> { #[steit(tag = 0)] Left(#[steit(tag = 0)] T), #[steit(tag = 1)] Right { #[steit(tag = 0)] item: U, #[steit(tag = 1)] both: generic::G1<T, U>, }, #[steit(tag = 2)] None, }
#[steit_derive(State)] pub struct G6<T: State> { #[steit(tag = 9)] pub t: T, }
#[steit_derive(State)] pub struct G7<T: State>(#[steit(tag = 0)] pub generic::G5<T, generic::G6<T>>);
#[steit_derive(State)] pub struct User0 { #[steit(tag = 0)] pub used: G0<S0>, }
#[steit_derive(State)] pub struct User1 { #[steit(tag = 0)] pub used: G0<S1>, }
#[steit_derive(State)] pub struct User2 { #[steit(tag = 0)] pub used: G0<E0>, }
#[steit_derive(State)] pub struct User3 { #[steit(tag = 0)] pub used: G0<List<S1>>, }
#[steit_derive(State)] pub struct User4 { #[steit(tag = 0)] pub used: G0<Map<u16, S0>>, }
#[steit_derive(State)] pub struct User5 { #[steit(tag = 0)] pub used: G0<G0<u8>>, }
#[steit_derive(State)] pub struct User6 { #[steit(tag = 0)] pub used: G0<G0<S1>>, }
#[steit_derive(State)] pub struct User7 { #[steit(tag = 0)] pub used: G0<Maybe<S1>>, }
#[steit_derive(State)] pub struct User8 { #[steit(tag = 0)] pub used: G0<Box<S1>>, }
#[steit_derive(State)] pub struct User9 { #[steit(tag = 0)] pub used: generic::G3<S0>, }
#[steit_derive(State)] pub struct User10 { #[steit(tag = 0)] pub used: generic::G3<S1>, }
#[steit_derive(State)] pub struct User11 { #[steit(tag = 0)] pub used: generic::G3<E0>, }
#[steit_derive(State)] pub struct User12 { #[steit(tag = 0)] pub used: generic::G3<List<S1>>, }
#[steit_derive(State)] pub struct User13 { #[steit(tag = 0)] pub used: generic::G3<Map<u16, S0>>, }
#[steit_derive(State)] pub struct User14 { #[steit(tag = 0)] pub used: generic::G3<G0<u8>>, }
#[steit_derive(State)] pub struct User15 { #[steit(tag = 0)] pub used: generic::G3<G0<S1>>, }
#[steit_derive(State)] pub struct User16 { #[steit(tag = 0)] pub used: generic::G3<Maybe<S1>>, }
#[steit_derive(State)] pub struct User17 { #[steit(tag = 0)] pub used: generic::G3<Box<S1>>, }
#[steit_derive(State)] pub struct User18 { #[steit(tag = 0)] pub used: generic::G4<S0>, }
#[steit_derive(State)] pub struct User19 { #[steit(tag = 0)] pub used: generic::G4<S1>, }
#[steit_derive(State)] pub struct User20 { #[steit(tag = 0)] pub used: generic::G4<E0>, }
#[steit_derive(State)] pub struct User21 { #[steit(tag = 0)] pub used: generic::G4<List<S1>>, }
#[steit_derive(State)] pub struct User22 { #[steit(tag = 0)] pub used: generic::G4<Map<u16, S0>>, }
#[steit_derive(State)] pub struct User23 { #[steit(tag = 0)] pub used: generic::G4<G0<u8>>, }
#[steit_derive(State)] pub struct User24 { #[steit(tag = 0)] pub used: generic::G4<G0<S1>>, }
#[steit_derive(State)] pub struct User25 { #[steit(tag = 0)] pub used: generic::G4<Maybe<S1>>, }
#[steit_derive(State)] pub struct User26 { #[steit(tag = 0)] pub used: generic::G4<Box<S1>>, }
#[steit_derive(State)] pub struct User27 { #[steit(tag = 0)] pub used: generic::G7<S0>, }
#[steit_derive(State)] pub struct User28 { #[steit(tag = 0)] pub used: generic::G7<S1>, }
#[steit_derive(State)] pub struct User29 { #[steit(tag = 0)] pub used: generic::G7<E0>, }
#[steit_derive(State)] pub struct User30 { #[steit(tag = 0)] pub used: generic::G7<List<S1>>, }
#[steit_derive(State)] pub struct User31 { #[steit(tag = 0)] pub used: generic::G7<Map<u16, S0>>, }
#[steit_derive(State)] pub struct User32 { #[steit(tag = 0)] pub used: generic::G7<G0<u8>>, }
#[steit_derive(State)] pub struct User33 { #[steit(tag = 0)] pub used: generic::G7<G0<S1>>, }
#[steit_derive(State)] pub struct User34 { #[steit(tag = 0)] pub used: generic::G7<Maybe<S1>>, }
#[steit_derive(State)] pub struct User35 { #[steit(tag = 0)] pub used: generic::G7<Box<S1>>, }
}
pub mod g0 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g0::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g1 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g1::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g2 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g2::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g3 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g3::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g4 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g4::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g5 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g5::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g6 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g6::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g7 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g7::A>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g8 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g8::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g9 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g9::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g10 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g10::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g11 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g11::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g12 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g12::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g13 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g13::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g14 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g14::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g15 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g15::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g16 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g16::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g17 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g17::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g18 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g18::A>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g19 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g19::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g20 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: g20::B, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g21 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: g21::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g22 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g22::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g23 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g23::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g24 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g24::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g25 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g25::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g26 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g26::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g27 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g27::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g28 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g28::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g29 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: List<g29::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g30 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g30::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g31 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Map<u32, g31::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g32 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g32::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g33 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g33::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g34 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g34::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g35 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: G0<List<g35::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g36 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g36::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g37 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g37::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g38 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g38::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g39 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g39::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g40 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g40::A, }
}
pub mod g41 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g41::A, }
}
pub mod g42 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g42::A>, }
}
pub mod g43 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g43::A>, }
}
pub mod g44 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g44::A>>, }
}
pub mod g45 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g45::A>>, }
}
pub mod g46 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g46::A>, }
}
pub mod g47 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g47::A>, }
}
pub mod g48 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g48::A>, }
}
pub mod g49 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g49::A>, }
}
pub mod g50 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g50::A>, }
}
pub mod g51 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g51::A>, }
}
pub mod g52 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g52::A>>, }
}
pub mod g53 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g53::A>>, }
}
pub mod g54 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g54::A>>, }
}
pub mod g55 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g55::A>>, }
}
pub mod g56 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g56::A>>, }
}
pub mod g57 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g57::A>>, }
}
pub mod g58 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g58::A>>>, }
}
pub mod g59 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g59::A>>>, }
}
pub mod g60 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g60::B>>, }
}
pub mod g61 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g61::B>>, }
}
pub mod g62 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g62::B>>, }
}
pub mod g63 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g63::B>>, }
}
pub mod g64 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g64::B>>, }
}
pub mod g65 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g65::B>>, }
}
pub mod g66 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g66::B>, }
}
pub mod g67 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g67::B>, }
}
pub mod g68 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g68::B>, }
}
pub mod g69 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g69::B>, }
}
pub mod g70 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g70::B>, }
}
pub mod g71 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g71::B>, }
}
pub mod g72 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g72::B>>, }
}
pub mod g73 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g73::B>>, }
}
pub mod g74 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g74::B>>, }
}
pub mod g75 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g75::B>>, }
}
pub mod g76 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g76::B>>, }
}
pub mod g77 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g77::B>>, }
}
pub mod g78 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g78::B>>>, }
}
pub mod g79 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g79::B>>>, }
}
pub mod g80 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g80::A>>, #[steit(tag = 2)] pub to_b: g80::B, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g81 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g81::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g81::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g82 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g82::A>>, #[steit(tag = 2)] pub to_b: Box<g82::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g83 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g83::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<g83::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g84 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g84::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g84::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g85 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g85::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g85::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g86 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g86::A>, #[steit(tag = 2)] pub to_b: Vec<g86::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g87 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g87::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g87::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g88 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g88::A>, #[steit(tag = 2)] pub to_b: List<g88::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g89 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g89::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: List<g89::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g90 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g90::A>, #[steit(tag = 2)] pub to_b: Map<u32, g90::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g91 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g91::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Map<u32, g91::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g92 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g92::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g92::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g93 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g93::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g93::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g94 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g94::A>>, #[steit(tag = 2)] pub to_b: G0<List<g94::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g95 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g95::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: G0<List<g95::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g96 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g96::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g96::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g97 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g97::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g97::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g98 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g98::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g98::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g99 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g99::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g99::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
}
pub mod g100 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g100::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g100::A, }
}
pub mod g101 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g101::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g101::A, }
}
pub mod g102 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g102::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g102::A>, }
}
pub mod g103 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g103::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g103::A>, }
}
pub mod g104 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g104::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g104::A>>, }
}
pub mod g105 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g105::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g105::A>>, }
}
pub mod g106 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g106::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g106::A>, }
}
pub mod g107 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g107::A>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g107::A>, }
}
pub mod g108 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g108::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g108::A>, }
}
pub mod g109 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g109::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g109::A>, }
}
pub mod g110 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g110::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g110::A>, }
}
pub mod g111 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g111::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g111::A>, }
}
pub mod g112 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g112::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g112::A>>, }
}
pub mod g113 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g113::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g113::A>>, }
}
pub mod g114 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g114::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g114::A>>, }
}
pub mod g115 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g115::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g115::A>>, }
}
pub mod g116 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g116::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g116::A>>, }
}
pub mod g117 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g117::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g117::A>>, }
}
pub mod g118 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g118::A>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g118::A>>>, }
}
pub mod g119 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g119::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g119::A>>>, }
}
pub mod g120 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g120::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g120::B>>, }
}
pub mod g121 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g121::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g121::B>>, }
}
pub mod g122 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g122::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g122::B>>, }
}
pub mod g123 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g123::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g123::B>>, }
}
pub mod g124 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g124::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g124::B>>, }
}
pub mod g125 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g125::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g125::B>>, }
}
pub mod g126 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g126::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g126::B>, }
}
pub mod g127 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g127::A>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g127::B>, }
}
pub mod g128 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g128::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g128::B>, }
}
pub mod g129 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g129::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g129::B>, }
}
pub mod g130 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g130::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g130::B>, }
}
pub mod g131 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g131::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g131::B>, }
}
pub mod g132 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g132::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g132::B>>, }
}
pub mod g133 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g133::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g133::B>>, }
}
pub mod g134 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g134::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g134::B>>, }
}
pub mod g135 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g135::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g135::B>>, }
}
pub mod g136 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g136::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g136::B>>, }
}
pub mod g137 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g137::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g137::B>>, }
}
pub mod g138 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g138::A>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g138::B>>>, }
}
pub mod g139 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g139::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g139::B>>>, }
}
pub mod g140 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g140::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g140::A>>, }
}
pub mod g141 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g141::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g141::A>>, }
}
pub mod g142 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g142::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g142::A>>, }
}
pub mod g143 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g143::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g143::A>>, }
}
pub mod g144 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g144::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g144::A>>, }
}
pub mod g145 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g145::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g145::A>>, }
}
pub mod g146 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g146::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g146::A>, }
}
pub mod g147 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g147::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g147::A>, }
}
pub mod g148 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g148::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g148::A>, }
}
pub mod g149 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: List<g149::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g149::A>, }
}
pub mod g150 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g150::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g150::A>, }
}
pub mod g151 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Map<u32, g151::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g151::A>, }
}
pub mod g152 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g152::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g152::A>>, }
}
pub mod g153 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g153::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g153::A>>, }
}
pub mod g154 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g154::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g154::A>>, }
}
pub mod g155 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: G0<List<g155::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g155::A>>, }
}
pub mod g156 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g156::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g156::A>>, }
}
pub mod g157 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g157::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g157::A>>, }
}
pub mod g158 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g158::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g158::A>>>, }
}
pub mod g159 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g159::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g159::A>>>, }
}
pub mod g160 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: g160::B, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g160::B>>, }
}
pub mod g161 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: g161::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g161::B>>, }
}
pub mod g162 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g162::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g162::B>>, }
}
pub mod g163 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g163::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g163::B>>, }
}
pub mod g164 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g164::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g164::B>>, }
}
pub mod g165 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g165::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g165::B>>, }
}
pub mod g166 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g166::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g166::B>, }
}
pub mod g167 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g167::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g167::B>, }
}
pub mod g168 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g168::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g168::B>, }
}
pub mod g169 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: List<g169::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g169::B>, }
}
pub mod g170 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g170::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g170::B>, }
}
pub mod g171 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Map<u32, g171::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g171::B>, }
}
pub mod g172 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g172::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g172::B>>, }
}
pub mod g173 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g173::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g173::B>>, }
}
pub mod g174 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g174::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g174::B>>, }
}
pub mod g175 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: G0<List<g175::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g175::B>>, }
}
pub mod g176 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g176::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g176::B>>, }
}
pub mod g177 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g177::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g177::B>>, }
}
pub mod g178 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g178::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g178::B>>>, }
}
pub mod g179 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g179::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g179::B>>>, }
}
pub mod g180 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g180::A, #[steit(tag = 2)] pub to_b: Option<Box<g180::B>>, }
}
pub mod g181 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g181::A, #[steit(tag = 2)] pub to_b: Option<Box<g181::B>>, }
}
pub mod g182 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g182::A>, #[steit(tag = 2)] pub to_b: Option<Box<g182::B>>, }
}
pub mod g183 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g183::A>, #[steit(tag = 2)] pub to_b: Option<Box<g183::B>>, }
}
pub mod g184 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g184::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g184::B>>, }
}
pub mod g185 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g185::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g185::B>>, }
}
pub mod g186 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g186::A>, #[steit(tag = 2)] pub to_b: Vec<g186::B>, }
}
pub mod g187 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g187::A>, #[steit(tag = 2)] pub to_b: Vec<g187::B>, }
}
pub mod g188 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g188::A>, #[steit(tag = 2)] pub to_b: List<g188::B>, }
}
pub mod g189 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g189::A>, #[steit(tag = 2)] pub to_b: List<g189::B>, }
}
pub mod g190 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g190::A>, #[steit(tag = 2)] pub to_b: Map<u32, g190::B>, }
}
pub mod g191 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g191::A>, #[steit(tag = 2)] pub to_b: Map<u32, g191::B>, }
}
pub mod g192 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g192::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g192::B>>, }
}
pub mod g193 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g193::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g193::B>>, }
}
pub mod g194 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g194::A>>, #[steit(tag = 2)] pub to_b: G0<List<g194::B>>, }
}
pub mod g195 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g195::A>>, #[steit(tag = 2)] pub to_b: G0<List<g195::B>>, }
}
pub mod g196 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g196::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g196::B>>, }
}
pub mod g197 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g197::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g197::B>>, }
}
pub mod g198 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g198::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g198::B>>>, }
}
pub mod g199 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g199::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g199::B>>>, }
}
pub mod g200 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g200::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g200::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g200::A>>, }
}
pub mod g201 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g201::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g201::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g201::A>>, }
}
pub mod g202 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g202::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g202::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g202::A>>, }
}
pub mod g203 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g203::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g203::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g203::A>>, }
}
pub mod g204 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g204::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g204::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g204::A>>, }
}
pub mod g205 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g205::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g205::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g205::A>>, }
}
pub mod g206 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g206::A>, #[steit(tag = 2)] pub to_b: Vec<g206::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g206::A>, }
}
pub mod g207 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g207::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g207::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g207::A>, }
}
pub mod g208 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g208::A>, #[steit(tag = 2)] pub to_b: List<g208::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g208::A>, }
}
pub mod g209 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g209::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: List<g209::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g209::A>, }
}
pub mod g210 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g210::A>, #[steit(tag = 2)] pub to_b: Map<u32, g210::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g210::A>, }
}
pub mod g211 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g211::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Map<u32, g211::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g211::A>, }
}
pub mod g212 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g212::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g212::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g212::A>>, }
}
pub mod g213 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g213::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g213::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g213::A>>, }
}
pub mod g214 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g214::A>>, #[steit(tag = 2)] pub to_b: G0<List<g214::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g214::A>>, }
}
pub mod g215 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g215::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: G0<List<g215::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g215::A>>, }
}
pub mod g216 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g216::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g216::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g216::A>>, }
}
pub mod g217 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g217::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g217::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g217::A>>, }
}
pub mod g218 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g218::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g218::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g218::A>>>, }
}
pub mod g219 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g219::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g219::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g219::A>>>, }
}
pub mod g220 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g220::A>>, #[steit(tag = 2)] pub to_b: g220::B, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g220::B>>, }
}
pub mod g221 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g221::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g221::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g221::B>>, }
}
pub mod g222 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g222::A>>, #[steit(tag = 2)] pub to_b: Box<g222::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g222::B>>, }
}
pub mod g223 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g223::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<g223::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g223::B>>, }
}
pub mod g224 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g224::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g224::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g224::B>>, }
}
pub mod g225 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g225::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g225::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g225::B>>, }
}
pub mod g226 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g226::A>, #[steit(tag = 2)] pub to_b: Vec<g226::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g226::B>, }
}
pub mod g227 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g227::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g227::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g227::B>, }
}
pub mod g228 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g228::A>, #[steit(tag = 2)] pub to_b: List<g228::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g228::B>, }
}
pub mod g229 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g229::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: List<g229::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g229::B>, }
}
pub mod g230 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g230::A>, #[steit(tag = 2)] pub to_b: Map<u32, g230::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g230::B>, }
}
pub mod g231 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g231::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Map<u32, g231::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g231::B>, }
}
pub mod g232 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g232::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g232::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g232::B>>, }
}
pub mod g233 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g233::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g233::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g233::B>>, }
}
pub mod g234 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g234::A>>, #[steit(tag = 2)] pub to_b: G0<List<g234::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g234::B>>, }
}
pub mod g235 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g235::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: G0<List<g235::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g235::B>>, }
}
pub mod g236 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g236::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g236::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g236::B>>, }
}
pub mod g237 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g237::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g237::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g237::B>>, }
}
pub mod g238 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g238::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g238::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g238::B>>>, }
}
pub mod g239 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g239::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g239::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g239::B>>>, }
}
pub mod g240 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g240::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g240::A, #[steit(tag = 2)] pub to_b: Option<Box<g240::B>>, }
}
pub mod g241 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g241::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g241::A, #[steit(tag = 2)] pub to_b: Option<Box<g241::B>>, }
}
pub mod g242 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g242::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g242::A>, #[steit(tag = 2)] pub to_b: Option<Box<g242::B>>, }
}
pub mod g243 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g243::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<g243::A>, #[steit(tag = 2)] pub to_b: Option<Box<g243::B>>, }
}
pub mod g244 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g244::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g244::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g244::B>>, }
}
pub mod g245 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g245::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g245::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g245::B>>, }
}
pub mod g246 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g246::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g246::A>, #[steit(tag = 2)] pub to_b: Vec<g246::B>, }
}
pub mod g247 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g247::A>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g247::A>, #[steit(tag = 2)] pub to_b: Vec<g247::B>, }
}
pub mod g248 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g248::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g248::A>, #[steit(tag = 2)] pub to_b: List<g248::B>, }
}
pub mod g249 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g249::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g249::A>, #[steit(tag = 2)] pub to_b: List<g249::B>, }
}
pub mod g250 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g250::A>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g250::A>, #[steit(tag = 2)] pub to_b: Map<u32, g250::B>, }
}
pub mod g251 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g251::A>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g251::A>, #[steit(tag = 2)] pub to_b: Map<u32, g251::B>, }
}
pub mod g252 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g252::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g252::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g252::B>>, }
}
pub mod g253 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g253::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g253::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g253::B>>, }
}
pub mod g254 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g254::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g254::A>>, #[steit(tag = 2)] pub to_b: G0<List<g254::B>>, }
}
pub mod g255 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g255::A>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g255::A>>, #[steit(tag = 2)] pub to_b: G0<List<g255::B>>, }
}
pub mod g256 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g256::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g256::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g256::B>>, }
}
pub mod g257 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g257::A>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g257::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g257::B>>, }
}
pub mod g258 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g258::A>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g258::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g258::B>>>, }
}
pub mod g259 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g259::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g259::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g259::B>>>, }
}
pub mod g260 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g260::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g260::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g260::B>>, }
}
pub mod g261 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g261::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g261::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g261::B>>, }
}
pub mod g262 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g262::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g262::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g262::B>>, }
}
pub mod g263 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g263::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g263::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g263::B>>, }
}
pub mod g264 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g264::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g264::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g264::B>>, }
}
pub mod g265 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g265::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g265::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g265::B>>, }
}
pub mod g266 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g266::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g266::A>, #[steit(tag = 2)] pub to_b: Vec<g266::B>, }
}
pub mod g267 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g267::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g267::A>, #[steit(tag = 2)] pub to_b: Vec<g267::B>, }
}
pub mod g268 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g268::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g268::A>, #[steit(tag = 2)] pub to_b: List<g268::B>, }
}
pub mod g269 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: List<g269::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g269::A>, #[steit(tag = 2)] pub to_b: List<g269::B>, }
}
pub mod g270 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g270::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g270::A>, #[steit(tag = 2)] pub to_b: Map<u32, g270::B>, }
}
pub mod g271 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Map<u32, g271::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g271::A>, #[steit(tag = 2)] pub to_b: Map<u32, g271::B>, }
}
pub mod g272 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g272::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g272::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g272::B>>, }
}
pub mod g273 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g273::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g273::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g273::B>>, }
}
pub mod g274 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g274::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g274::A>>, #[steit(tag = 2)] pub to_b: G0<List<g274::B>>, }
}
pub mod g275 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: G0<List<g275::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g275::A>>, #[steit(tag = 2)] pub to_b: G0<List<g275::B>>, }
}
pub mod g276 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g276::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g276::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g276::B>>, }
}
pub mod g277 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g277::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g277::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g277::B>>, }
}
pub mod g278 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<Option<Box<g278::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g278::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g278::B>>>, }
}
pub mod g279 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g279::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g279::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g279::B>>>, }
}
pub mod g280 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g280::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g280::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g280::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g280::B>>, }
}
pub mod g281 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g281::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g281::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g281::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g281::B>>, }
}
pub mod g282 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g282::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g282::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g282::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g282::B>>, }
}
pub mod g283 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g283::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g283::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g283::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g283::B>>, }
}
pub mod g284 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g284::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g284::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g284::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g284::B>>, }
}
pub mod g285 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g285::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g285::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g285::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g285::B>>, }
}
pub mod g286 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g286::A>, #[steit(tag = 2)] pub to_b: Vec<g286::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g286::A>, #[steit(tag = 2)] pub to_b: Vec<g286::B>, }
}
pub mod g287 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g287::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g287::B>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g287::A>, #[steit(tag = 2)] pub to_b: Vec<g287::B>, }
}
pub mod g288 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g288::A>, #[steit(tag = 2)] pub to_b: List<g288::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g288::A>, #[steit(tag = 2)] pub to_b: List<g288::B>, }
}
pub mod g289 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: List<g289::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: List<g289::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g289::A>, #[steit(tag = 2)] pub to_b: List<g289::B>, }
}
pub mod g290 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g290::A>, #[steit(tag = 2)] pub to_b: Map<u32, g290::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g290::A>, #[steit(tag = 2)] pub to_b: Map<u32, g290::B>, }
}
pub mod g291 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Map<u32, g291::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Map<u32, g291::B>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g291::A>, #[steit(tag = 2)] pub to_b: Map<u32, g291::B>, }
}
pub mod g292 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g292::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g292::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g292::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g292::B>>, }
}
pub mod g293 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Maybe<Box<g293::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Maybe<Box<g293::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g293::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g293::B>>, }
}
pub mod g294 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g294::A>>, #[steit(tag = 2)] pub to_b: G0<List<g294::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g294::A>>, #[steit(tag = 2)] pub to_b: G0<List<g294::B>>, }
}
pub mod g295 { use super::*;
#[steit_derive(State)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: G0<List<g295::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: G0<List<g295::B>>, }, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g295::A>>, #[steit(tag = 2)] pub to_b: G0<List<g295::B>>, }
}
pub mod g296 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g296::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g296::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g296::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g296::B>>, }
}
pub mod g297 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g297::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g297::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g297::A>>, #[steit(tag = 2)] pub to_b: Vec<Box<g297::B>>, }
}
pub mod g298 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g298::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g298::B>>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g298::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g298::B>>>, }
}
pub mod g299 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g299::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g299::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Box<Option<Box<g299::A>>>, #[steit(tag = 2)] pub to_b: Box<Option<Box<g299::B>>>, }
}
pub mod g300 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g300::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g300::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g301 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g301::A>>, #[steit(tag = 2)] pub to_b: List<g301::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g302 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g302::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g302::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g303 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g303::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g303::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g304 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g304::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g304::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g305 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g305::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g305::A, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g306 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g306::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g306::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g307 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g307::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g307::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g308 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g308::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g308::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g309 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g309::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g309::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g310 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g310::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g310::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g311 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g311::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: g311::C, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g312 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g312::B>, #[steit(tag = 2)] pub to_c: Option<Box<g312::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g313 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g313::B>>, #[steit(tag = 2)] pub to_c: List<g313::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g314 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g314::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: g314::C, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g315 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g315::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g315::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g316 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g316::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g316::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g317 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g317::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g317::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g318 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g318::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g318::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g319 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g319::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g319::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g320 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g320::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: g320::C, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g321 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g321::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g321::B>>, }
}
pub mod g322 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g322::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g322::B>, }
}
pub mod g323 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g323::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: g323::B, }, }
}
pub mod g324 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g324::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g324::B>>, #[steit(tag = 3)] pub to_c: Vec<g324::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g325 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g325::A>>, #[steit(tag = 2)] pub to_b: List<g325::B>, #[steit(tag = 3)] pub to_c: Map<u32, g325::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g326 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g326::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g326::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g326::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g327 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g327::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g327::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g327::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g328 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g328::A>>, #[steit(tag = 2)] pub to_b: List<g328::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g328::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g329 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g329::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g329::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g329::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g330 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g330::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g330::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g330::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g331 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g331::A>>, #[steit(tag = 2)] pub to_b: List<g331::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g331::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g332 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g332::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g332::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g332::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g333 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g333::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g333::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g333::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g334 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g334::A>>, #[steit(tag = 2)] pub to_b: List<g334::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g334::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g335 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g335::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g335::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g335::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g336 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g336::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g336::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g336::A>, }
}
pub mod g337 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g337::A>>, #[steit(tag = 2)] pub to_b: List<g337::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g337::A>, }
}
pub mod g338 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g338::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g338::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g338::A>>, }, }
}
pub mod g339 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g339::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g339::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g339::B>, }
}
pub mod g340 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g340::A>>, #[steit(tag = 2)] pub to_b: List<g340::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g340::B>, }
}
pub mod g341 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g341::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g341::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g341::B>>, }, }
}
pub mod g342 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g342::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g342::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g342::C>, }
}
pub mod g343 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g343::A>>, #[steit(tag = 2)] pub to_b: List<g343::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g343::C>, }
}
pub mod g344 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g344::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g344::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g344::C>>, }, }
}
pub mod g345 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g345::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g345::A>>, #[steit(tag = 2)] pub to_c: Vec<g345::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g346 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g346::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g346::A>, #[steit(tag = 2)] pub to_c: Map<u32, g346::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g347 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g347::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g347::A, #[steit(tag = 2)] pub to_c: Vec<Box<g347::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g348 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g348::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g348::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g348::A>, }
}
pub mod g349 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g349::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g349::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g349::A>, }
}
pub mod g350 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g350::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g350::A, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g350::A>>, }, }
}
pub mod g351 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g351::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g351::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g351::B>, }
}
pub mod g352 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g352::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g352::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g352::B>, }
}
pub mod g353 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g353::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g353::A, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g353::B>>, }, }
}
pub mod g354 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g354::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g354::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g354::C>, }
}
pub mod g355 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g355::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g355::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g355::C>, }
}
pub mod g356 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g356::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g356::A, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g356::C>>, }, }
}
pub mod g357 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g357::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g357::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g357::C>, }
}
pub mod g358 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g358::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g358::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g358::C>, }
}
pub mod g359 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g359::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g359::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g359::C>>, }, }
}
pub mod g360 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g360::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g360::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g360::B>, }
}
pub mod g361 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g361::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g361::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g361::B>, }
}
pub mod g362 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g362::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g362::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g362::B>>, }, }
}
pub mod g363 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g363::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g363::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g363::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g364 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g364::B>>, #[steit(tag = 2)] pub to_c: List<g364::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g364::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g365 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g365::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: g365::C, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g365::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g366 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g366::B>, #[steit(tag = 2)] pub to_c: Option<Box<g366::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g366::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g367 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g367::B>>, #[steit(tag = 2)] pub to_c: List<g367::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g367::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g368 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g368::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: g368::C, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g368::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g369 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g369::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g369::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g369::A>, }
}
pub mod g370 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g370::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g370::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g370::A>, }
}
pub mod g371 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g371::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g371::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g371::A>>, }, }
}
pub mod g372 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g372::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g372::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g372::A>, }
}
pub mod g373 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g373::B>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g373::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g373::A>, }
}
pub mod g374 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g374::B>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g374::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g374::A>>, }, }
}
pub mod g375 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g375::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g375::B>>, #[steit(tag = 3)] pub to_c: Vec<g375::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g375::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g376 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g376::A>>, #[steit(tag = 2)] pub to_b: List<g376::B>, #[steit(tag = 3)] pub to_c: Map<u32, g376::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g376::A>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g377 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g377::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g377::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g377::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g377::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g378 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g378::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g378::B>>, #[steit(tag = 3)] pub to_c: Vec<g378::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g378::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g379 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g379::A>>, #[steit(tag = 2)] pub to_b: List<g379::B>, #[steit(tag = 3)] pub to_c: Map<u32, g379::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g379::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g380 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g380::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g380::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g380::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g380::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g381 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g381::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g381::B>>, #[steit(tag = 3)] pub to_c: Vec<g381::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g381::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g382 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g382::A>>, #[steit(tag = 2)] pub to_b: List<g382::B>, #[steit(tag = 3)] pub to_c: Map<u32, g382::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g382::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g383 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g383::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g383::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g383::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Box<g383::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g384 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g384::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g384::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g384::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g384::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g385 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g385::A>>, #[steit(tag = 2)] pub to_b: List<g385::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g385::A>, #[steit(tag = 2)] pub to_b: G0<List<g385::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g386 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g386::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g386::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g386::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g386::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g387 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g387::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g387::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g387::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g387::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g388 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g388::A>>, #[steit(tag = 2)] pub to_b: List<g388::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g388::A>, #[steit(tag = 2)] pub to_c: G0<List<g388::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g389 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g389::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g389::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g389::A>>, #[steit(tag = 2)] pub to_c: Box<g389::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g390 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g390::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g390::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g390::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g390::A>>, }
}
pub mod g391 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g391::A>>, #[steit(tag = 2)] pub to_b: List<g391::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g391::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g391::A>>, }
}
pub mod g392 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g392::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g392::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g392::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g392::A>, }, }
}
pub mod g393 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g393::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g393::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g393::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g393::B>>, }
}
pub mod g394 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g394::A>>, #[steit(tag = 2)] pub to_b: List<g394::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g394::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g394::B>>, }
}
pub mod g395 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g395::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g395::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g395::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g395::B>, }, }
}
pub mod g396 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g396::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g396::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g396::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g396::C>>, }
}
pub mod g397 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g397::A>>, #[steit(tag = 2)] pub to_b: List<g397::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g397::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g397::C>>, }
}
pub mod g398 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g398::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g398::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g398::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Option<Box<g398::C>>, }, }
}
pub mod g399 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g399::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g399::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g399::B>, #[steit(tag = 2)] pub to_c: Vec<Box<g399::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g400 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g400::A>>, #[steit(tag = 2)] pub to_b: List<g400::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g400::B>, #[steit(tag = 2)] pub to_c: G0<List<g400::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g401 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g401::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g401::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g401::B>>, #[steit(tag = 2)] pub to_c: Box<g401::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g402 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g402::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g402::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g402::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g402::A>>, }
}
pub mod g403 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g403::A>>, #[steit(tag = 2)] pub to_b: List<g403::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g403::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g403::A>>, }
}
pub mod g404 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g404::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g404::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g404::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g404::A>, }, }
}
pub mod g405 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g405::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g405::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g405::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g405::B>>, }
}
pub mod g406 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g406::A>>, #[steit(tag = 2)] pub to_b: List<g406::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g406::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g406::B>>, }
}
pub mod g407 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g407::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g407::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g407::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g407::B>, }, }
}
pub mod g408 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g408::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g408::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g408::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g408::C>>, }
}
pub mod g409 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g409::A>>, #[steit(tag = 2)] pub to_b: List<g409::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g409::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g409::C>>, }
}
pub mod g410 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g410::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g410::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g410::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Option<Box<g410::C>>, }, }
}
pub mod g411 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g411::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g411::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g411::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g411::A>>, }
}
pub mod g412 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g412::A>>, #[steit(tag = 2)] pub to_b: List<g412::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g412::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g412::A>>, }
}
pub mod g413 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g413::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g413::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g413::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g413::A>>, }, }
}
pub mod g414 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g414::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g414::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g414::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g414::B>>, }
}
pub mod g415 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g415::A>>, #[steit(tag = 2)] pub to_b: List<g415::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g415::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g415::B>>, }
}
pub mod g416 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g416::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g416::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g416::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g416::B>>, }, }
}
pub mod g417 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g417::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g417::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g417::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g417::C>>, }
}
pub mod g418 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g418::A>>, #[steit(tag = 2)] pub to_b: List<g418::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g418::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g418::C>>, }
}
pub mod g419 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g419::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g419::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g419::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Option<Box<g419::C>>, }, }
}
pub mod g420 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g420::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g420::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g420::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g420::B>>, }
}
pub mod g421 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g421::A>>, #[steit(tag = 2)] pub to_b: List<g421::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g421::A>, #[steit(tag = 2)] pub to_b: G0<List<g421::B>>, }
}
pub mod g422 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g422::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g422::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<Box<g422::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<g422::B>, }, }
}
pub mod g423 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g423::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g423::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g423::B>, #[steit(tag = 2)] pub to_c: Vec<Box<g423::C>>, }
}
pub mod g424 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g424::A>>, #[steit(tag = 2)] pub to_b: List<g424::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g424::B>, #[steit(tag = 2)] pub to_c: G0<List<g424::C>>, }
}
pub mod g425 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g425::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g425::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g425::B>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g425::C>>, }, }
}
pub mod g426 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g426::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g426::A>>, #[steit(tag = 2)] pub to_c: Vec<g426::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g426::A>>, }
}
pub mod g427 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g427::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g427::A>, #[steit(tag = 2)] pub to_c: Map<u32, g427::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g427::A>>, }
}
pub mod g428 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g428::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g428::A, #[steit(tag = 2)] pub to_c: Vec<Box<g428::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g428::A>, }, }
}
pub mod g429 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g429::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g429::A>>, #[steit(tag = 2)] pub to_c: Vec<g429::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g429::B>>, }
}
pub mod g430 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g430::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g430::A>, #[steit(tag = 2)] pub to_c: Map<u32, g430::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g430::B>>, }
}
pub mod g431 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g431::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g431::A, #[steit(tag = 2)] pub to_c: Vec<Box<g431::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g431::B>>, }, }
}
pub mod g432 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g432::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g432::A>>, #[steit(tag = 2)] pub to_c: Vec<g432::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g432::C>>, }
}
pub mod g433 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g433::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g433::A>, #[steit(tag = 2)] pub to_c: Map<u32, g433::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g433::C>>, }
}
pub mod g434 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g434::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g434::A, #[steit(tag = 2)] pub to_c: Vec<Box<g434::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Option<Box<g434::C>>, }, }
}
pub mod g435 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g435::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g435::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g435::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g435::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g436 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g436::B>>, #[steit(tag = 2)] pub to_c: List<g436::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g436::A>, #[steit(tag = 2)] pub to_c: G0<List<g436::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g437 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g437::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: g437::C, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g437::A>>, #[steit(tag = 2)] pub to_c: Box<g437::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g438 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g438::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g438::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g438::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g438::A>>, }
}
pub mod g439 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g439::B>>, #[steit(tag = 2)] pub to_c: List<g439::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g439::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g439::A>>, }
}
pub mod g440 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g440::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g440::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g440::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g440::A>>, }, }
}
pub mod g441 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g441::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g441::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g441::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g441::B>>, }
}
pub mod g442 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g442::B>>, #[steit(tag = 2)] pub to_c: List<g442::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g442::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g442::B>>, }
}
pub mod g443 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g443::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g443::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g443::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g443::B>>, }, }
}
pub mod g444 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Box<g444::B>, #[steit(tag = 2)] pub to_c: Option<Box<g444::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g444::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g444::B>>, }
}
pub mod g445 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g445::B>>, #[steit(tag = 2)] pub to_c: List<g445::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g445::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g445::B>>, }
}
pub mod g446 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g446::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: g446::C, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g446::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Option<Box<g446::B>>, }, }
}
pub mod g447 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g447::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g447::B>>, #[steit(tag = 3)] pub to_c: Vec<g447::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g447::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g447::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g448 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g448::A>>, #[steit(tag = 2)] pub to_b: List<g448::B>, #[steit(tag = 3)] pub to_c: Map<u32, g448::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g448::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g448::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g449 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g449::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g449::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g449::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g449::A>>, #[steit(tag = 2)] pub to_b: Vec<g449::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g450 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g450::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g450::B>>, #[steit(tag = 3)] pub to_c: Vec<g450::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g450::A>>, #[steit(tag = 2)] pub to_c: g450::C, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g451 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g451::A>>, #[steit(tag = 2)] pub to_b: List<g451::B>, #[steit(tag = 3)] pub to_c: Map<u32, g451::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g451::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g451::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g452 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g452::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g452::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g452::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g452::A>>, #[steit(tag = 2)] pub to_c: Vec<g452::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g453 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g453::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g453::B>>, #[steit(tag = 3)] pub to_c: Vec<g453::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g453::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g453::A>>, }
}
pub mod g454 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g454::A>>, #[steit(tag = 2)] pub to_b: List<g454::B>, #[steit(tag = 3)] pub to_c: Map<u32, g454::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g454::A>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g454::A>>, }
}
pub mod g455 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g455::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g455::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g455::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g455::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g455::A>, }, }
}
pub mod g456 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g456::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g456::B>>, #[steit(tag = 3)] pub to_c: Vec<g456::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g456::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g456::B>>, }
}
pub mod g457 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g457::A>>, #[steit(tag = 2)] pub to_b: List<g457::B>, #[steit(tag = 3)] pub to_c: Map<u32, g457::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g457::A>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g457::B>>, }
}
pub mod g458 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g458::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g458::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g458::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g458::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g458::B>, }, }
}
pub mod g459 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g459::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g459::B>>, #[steit(tag = 3)] pub to_c: Vec<g459::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g459::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g459::C>>, }
}
pub mod g460 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g460::A>>, #[steit(tag = 2)] pub to_b: List<g460::B>, #[steit(tag = 3)] pub to_c: Map<u32, g460::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g460::A>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Maybe<Box<g460::C>>, }
}
pub mod g461 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g461::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g461::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g461::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g461::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<g461::C>, }, }
}
pub mod g462 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g462::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g462::B>>, #[steit(tag = 3)] pub to_c: Vec<g462::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g462::B>>, #[steit(tag = 2)] pub to_c: g462::C, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g463 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g463::A>>, #[steit(tag = 2)] pub to_b: List<g463::B>, #[steit(tag = 3)] pub to_c: Map<u32, g463::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g463::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g463::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g464 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g464::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g464::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g464::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g464::B>>, #[steit(tag = 2)] pub to_c: Vec<g464::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g465 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g465::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g465::B>>, #[steit(tag = 3)] pub to_c: Vec<g465::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g465::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: g465::B, }
}
pub mod g466 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g466::A>>, #[steit(tag = 2)] pub to_b: List<g466::B>, #[steit(tag = 3)] pub to_c: Map<u32, g466::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g466::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g466::B>>, }
}
pub mod g467 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g467::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g467::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g467::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g467::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g467::B>, }, }
}
pub mod g468 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g468::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g468::B>>, #[steit(tag = 3)] pub to_c: Vec<g468::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g468::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g468::C>>, }
}
pub mod g469 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g469::A>>, #[steit(tag = 2)] pub to_b: List<g469::B>, #[steit(tag = 3)] pub to_c: Map<u32, g469::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g469::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Maybe<Box<g469::C>>, }
}
pub mod g470 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g470::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g470::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g470::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g470::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<g470::C>, }, }
}
pub mod g471 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g471::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g471::B>>, #[steit(tag = 3)] pub to_c: Vec<g471::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g471::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g471::B>>, }
}
pub mod g472 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g472::A>>, #[steit(tag = 2)] pub to_b: List<g472::B>, #[steit(tag = 3)] pub to_c: Map<u32, g472::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: G0<List<g472::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g472::B>>, }
}
pub mod g473 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g473::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g473::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g473::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g473::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g473::B>, }, }
}
pub mod g474 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g474::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g474::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g474::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g474::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g474::A, }
}
pub mod g475 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g475::A>>, #[steit(tag = 2)] pub to_b: List<g475::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g475::A>, #[steit(tag = 2)] pub to_b: G0<List<g475::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g475::A>>, }
}
pub mod g476 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g476::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g476::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g476::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g476::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g476::A>, }, }
}
pub mod g477 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g477::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g477::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g477::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g477::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g477::C>>, }
}
pub mod g478 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g478::A>>, #[steit(tag = 2)] pub to_b: List<g478::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g478::A>, #[steit(tag = 2)] pub to_b: G0<List<g478::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Maybe<Box<g478::C>>, }
}
pub mod g479 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g479::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g479::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g479::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g479::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<g479::C>, }, }
}
pub mod g480 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g480::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g480::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g480::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g480::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g480::A>>, }
}
pub mod g481 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g481::A>>, #[steit(tag = 2)] pub to_b: List<g481::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g481::A>, #[steit(tag = 2)] pub to_c: G0<List<g481::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g481::A>>, }
}
pub mod g482 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g482::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g482::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g482::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g482::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g482::A>, }, }
}
pub mod g483 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g483::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g483::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g483::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g483::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g483::B>>, }
}
pub mod g484 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g484::A>>, #[steit(tag = 2)] pub to_b: List<g484::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g484::A>, #[steit(tag = 2)] pub to_c: G0<List<g484::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g484::B>>, }
}
pub mod g485 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g485::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g485::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g485::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g485::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g485::B>, }, }
}
pub mod g486 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g486::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g486::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g486::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g486::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g486::C>>, }
}
pub mod g487 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g487::A>>, #[steit(tag = 2)] pub to_b: List<g487::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g487::A>, #[steit(tag = 2)] pub to_c: G0<List<g487::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Maybe<Box<g487::C>>, }
}
pub mod g488 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g488::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g488::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g488::A>>, #[steit(tag = 2)] pub to_c: Box<g488::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<g488::C>, }, }
}
pub mod g489 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g489::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g489::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g489::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g489::A>>, #[steit(tag = 2)] pub to_b: g489::B, }
}
pub mod g490 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g490::A>>, #[steit(tag = 2)] pub to_b: List<g490::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g490::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g490::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g490::B>>, }
}
pub mod g491 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g491::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g491::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g491::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g491::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g491::B>, }, }
}
pub mod g492 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g492::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g492::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g492::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g492::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g492::C>>, }
}
pub mod g493 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g493::A>>, #[steit(tag = 2)] pub to_b: List<g493::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g493::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g493::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g493::C>>, }
}
pub mod g494 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g494::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g494::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g494::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g494::A>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Vec<g494::C>, }, }
}
pub mod g495 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g495::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g495::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g495::A>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g495::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g495::C>>, }
}
pub mod g496 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g496::A>>, #[steit(tag = 2)] pub to_b: List<g496::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g496::A>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g496::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g496::C>>, }
}
pub mod g497 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g497::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g497::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g497::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g497::B>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Vec<g497::C>, }, }
}
pub mod g498 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g498::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g498::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g498::B>, #[steit(tag = 2)] pub to_c: Vec<Box<g498::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g498::A>>, }
}
pub mod g499 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g499::A>>, #[steit(tag = 2)] pub to_b: List<g499::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g499::B>, #[steit(tag = 2)] pub to_c: G0<List<g499::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g499::A>>, }
}
pub mod g500 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g500::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g500::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g500::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g500::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g500::A>, }, }
}
pub mod g501 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g501::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g501::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g501::B>, #[steit(tag = 2)] pub to_c: Vec<Box<g501::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g501::C>>, }
}
pub mod g502 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g502::A>>, #[steit(tag = 2)] pub to_b: List<g502::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g502::B>, #[steit(tag = 2)] pub to_c: G0<List<g502::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Maybe<Box<g502::C>>, }
}
pub mod g503 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g503::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g503::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g503::B>>, #[steit(tag = 2)] pub to_c: Box<g503::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Vec<g503::C>, }, }
}
pub mod g504 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g504::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g504::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g504::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g504::A>>, #[steit(tag = 2)] pub to_b: g504::B, }
}
pub mod g505 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g505::A>>, #[steit(tag = 2)] pub to_b: List<g505::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g505::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g505::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g505::B>>, }
}
pub mod g506 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g506::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g506::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g506::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g506::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g506::B>, }, }
}
pub mod g507 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g507::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g507::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g507::B>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g507::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g507::C>>, }
}
pub mod g508 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g508::A>>, #[steit(tag = 2)] pub to_b: List<g508::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g508::B>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g508::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g508::C>>, }
}
pub mod g509 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g509::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g509::B, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g509::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<g509::B>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Vec<g509::C>, }, }
}
pub mod g510 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g510::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g510::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<g510::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g510::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g510::B>>, }
}
pub mod g511 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g511::A>>, #[steit(tag = 2)] pub to_b: List<g511::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g511::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g511::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g511::B>>, }
}
pub mod g512 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g512::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g512::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Vec<Box<g512::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g512::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g512::B>, }, }
}
pub mod g513 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g513::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g513::A>>, #[steit(tag = 2)] pub to_c: Vec<g513::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g513::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g513::B>>, }
}
pub mod g514 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g514::A>>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g514::A>, #[steit(tag = 2)] pub to_c: Map<u32, g514::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g514::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g514::B>>, }
}
pub mod g515 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g515::A>>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g515::A, #[steit(tag = 2)] pub to_c: Vec<Box<g515::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<g515::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<g515::B>, }, }
}
pub mod g516 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g516::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g516::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g516::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g516::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g516::A>>, }
}
pub mod g517 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g517::B>>, #[steit(tag = 2)] pub to_c: List<g517::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g517::A>, #[steit(tag = 2)] pub to_c: G0<List<g517::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g517::A>>, }
}
pub mod g518 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g518::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g518::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g518::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g518::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g518::A>, }, }
}
pub mod g519 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g519::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g519::B>>, #[steit(tag = 3)] pub to_c: Vec<g519::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g519::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g519::B>>, #[steit(tag = 3)] pub to_c: Box<g519::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g520 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g520::A>>, #[steit(tag = 2)] pub to_b: List<g520::B>, #[steit(tag = 3)] pub to_c: Map<u32, g520::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g520::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g520::B>>, #[steit(tag = 3)] pub to_c: List<g520::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, }
}
pub mod g521 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g521::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g521::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g521::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g521::A>>, #[steit(tag = 2)] pub to_b: Vec<g521::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g521::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, }
}
pub mod g522 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g522::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g522::B>>, #[steit(tag = 3)] pub to_c: Vec<g522::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g522::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g522::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g522::A>>, }
}
pub mod g523 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g523::A>>, #[steit(tag = 2)] pub to_b: List<g523::B>, #[steit(tag = 3)] pub to_c: Map<u32, g523::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g523::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g523::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g523::A>, }
}
pub mod g524 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g524::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g524::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g524::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g524::A>>, #[steit(tag = 2)] pub to_b: Vec<g524::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g524::A>>>, }, }
}
pub mod g525 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g525::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g525::B>>, #[steit(tag = 3)] pub to_c: Vec<g525::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g525::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g525::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g525::B>>, }
}
pub mod g526 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g526::A>>, #[steit(tag = 2)] pub to_b: List<g526::B>, #[steit(tag = 3)] pub to_c: Map<u32, g526::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g526::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g526::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g526::B>, }
}
pub mod g527 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g527::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g527::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g527::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g527::A>>, #[steit(tag = 2)] pub to_b: Vec<g527::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g527::B>>>, }, }
}
pub mod g528 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g528::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g528::B>>, #[steit(tag = 3)] pub to_c: Vec<g528::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g528::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g528::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g528::C>>, }
}
pub mod g529 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g529::A>>, #[steit(tag = 2)] pub to_b: List<g529::B>, #[steit(tag = 3)] pub to_c: Map<u32, g529::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g529::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g529::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g529::C>, }
}
pub mod g530 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g530::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g530::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g530::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g530::A>>, #[steit(tag = 2)] pub to_b: Vec<g530::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g530::C>>>, }, }
}
pub mod g531 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g531::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g531::B>>, #[steit(tag = 3)] pub to_c: Vec<g531::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g531::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g531::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g531::A>>, }
}
pub mod g532 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g532::A>>, #[steit(tag = 2)] pub to_b: List<g532::B>, #[steit(tag = 3)] pub to_c: Map<u32, g532::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g532::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g532::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g532::A>, }
}
pub mod g533 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g533::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g533::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g533::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g533::A>>, #[steit(tag = 2)] pub to_c: Vec<g533::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g533::A>>>, }, }
}
pub mod g534 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g534::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g534::B>>, #[steit(tag = 3)] pub to_c: Vec<g534::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g534::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g534::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g534::B>>, }
}
pub mod g535 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g535::A>>, #[steit(tag = 2)] pub to_b: List<g535::B>, #[steit(tag = 3)] pub to_c: Map<u32, g535::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g535::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g535::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g535::B>, }
}
pub mod g536 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g536::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g536::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g536::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g536::A>>, #[steit(tag = 2)] pub to_c: Vec<g536::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g536::B>>>, }, }
}
pub mod g537 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g537::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g537::B>>, #[steit(tag = 3)] pub to_c: Vec<g537::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g537::A>>, #[steit(tag = 2)] pub to_c: g537::C, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g537::C>>, }
}
pub mod g538 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g538::A>>, #[steit(tag = 2)] pub to_b: List<g538::B>, #[steit(tag = 3)] pub to_c: Map<u32, g538::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g538::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g538::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g538::C>, }
}
pub mod g539 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g539::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g539::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g539::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g539::A>>, #[steit(tag = 2)] pub to_c: Vec<g539::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g539::C>>>, }, }
}
pub mod g540 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g540::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g540::B>>, #[steit(tag = 3)] pub to_c: Vec<g540::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g540::A>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g540::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g540::C>>, }
}
pub mod g541 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g541::A>>, #[steit(tag = 2)] pub to_b: List<g541::B>, #[steit(tag = 3)] pub to_c: Map<u32, g541::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g541::A>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g541::B>>, #[steit(tag = 2)] pub to_c: List<g541::C>, }
}
pub mod g542 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g542::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g542::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g542::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g542::A>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g542::B>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g542::C>>>, }, }
}
pub mod g543 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g543::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g543::B>>, #[steit(tag = 3)] pub to_c: Vec<g543::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g543::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g543::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g543::B>>, }
}
pub mod g544 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g544::A>>, #[steit(tag = 2)] pub to_b: List<g544::B>, #[steit(tag = 3)] pub to_c: Map<u32, g544::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g544::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g544::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g544::B>, }
}
pub mod g545 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g545::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g545::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g545::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g545::B>>, #[steit(tag = 2)] pub to_c: Vec<g545::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g545::B>>>, }, }
}
pub mod g546 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g546::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g546::B>>, #[steit(tag = 3)] pub to_c: Vec<g546::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g546::B>>, #[steit(tag = 2)] pub to_c: g546::C, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g546::C>>, }
}
pub mod g547 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g547::A>>, #[steit(tag = 2)] pub to_b: List<g547::B>, #[steit(tag = 3)] pub to_c: Map<u32, g547::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g547::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g547::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: List<g547::C>, }
}
pub mod g548 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g548::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g548::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g548::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g548::B>>, #[steit(tag = 2)] pub to_c: Vec<g548::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g548::C>>>, }, }
}
pub mod g549 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g549::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g549::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g549::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g549::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g549::A, #[steit(tag = 2)] pub to_b: Box<g549::B>, }
}
pub mod g550 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g550::A>>, #[steit(tag = 2)] pub to_b: List<g550::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g550::A>, #[steit(tag = 2)] pub to_b: G0<List<g550::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g550::A>>, #[steit(tag = 2)] pub to_b: List<g550::B>, }
}
pub mod g551 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g551::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g551::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g551::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g551::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g551::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g551::B>>>, }, }
}
pub mod g552 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g552::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g552::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g552::A>, #[steit(tag = 2)] pub to_b: Vec<Box<g552::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: g552::A, #[steit(tag = 2)] pub to_c: Option<Box<g552::C>>, }
}
pub mod g553 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g553::A>>, #[steit(tag = 2)] pub to_b: List<g553::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g553::A>, #[steit(tag = 2)] pub to_b: G0<List<g553::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g553::A>>, #[steit(tag = 2)] pub to_c: List<g553::C>, }
}
pub mod g554 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g554::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g554::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g554::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g554::B>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g554::A>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g554::C>>>, }, }
}
pub mod g555 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g555::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g555::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g555::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g555::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g555::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g555::B>>, }
}
pub mod g556 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g556::A>>, #[steit(tag = 2)] pub to_b: List<g556::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g556::A>, #[steit(tag = 2)] pub to_c: G0<List<g556::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g556::A>>, #[steit(tag = 2)] pub to_b: List<g556::B>, }
}
pub mod g557 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g557::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g557::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g557::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g557::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g557::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g557::B>>>, }, }
}
pub mod g558 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g558::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g558::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g558::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g558::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g558::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g558::C>>, }
}
pub mod g559 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g559::A>>, #[steit(tag = 2)] pub to_b: List<g559::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g559::A>, #[steit(tag = 2)] pub to_c: G0<List<g559::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g559::A>>, #[steit(tag = 2)] pub to_c: List<g559::C>, }
}
pub mod g560 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g560::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g560::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g560::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g560::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g560::A>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g560::C>>>, }, }
}
pub mod g561 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g561::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g561::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g561::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g561::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g561::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g561::C>>, }
}
pub mod g562 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g562::A>>, #[steit(tag = 2)] pub to_b: List<g562::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g562::A>, #[steit(tag = 2)] pub to_c: G0<List<g562::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g562::B>>, #[steit(tag = 2)] pub to_c: List<g562::C>, }
}
pub mod g563 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g563::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g563::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g563::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g563::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Vec<g563::B>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g563::C>>>, }, }
}
pub mod g564 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g564::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g564::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<g564::B>, #[steit(tag = 2)] pub to_c: Vec<Box<g564::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g564::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g564::C>>, }
}
pub mod g565 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g565::A>>, #[steit(tag = 2)] pub to_b: List<g565::B>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Map<u32, g565::B>, #[steit(tag = 2)] pub to_c: G0<List<g565::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g565::A>>, #[steit(tag = 2)] pub to_c: List<g565::C>, }
}
pub mod g566 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g566::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g566::B>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g566::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g566::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g566::A>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Box<Option<Box<g566::C>>>, }, }
}
pub mod g567 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g567::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g567::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<g567::A>, #[steit(tag = 2)] pub to_c: Vec<Box<g567::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g567::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g567::B>>, }
}
pub mod g568 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Maybe<Box<g568::B>>, #[steit(tag = 2)] pub to_c: List<g568::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g568::A>, #[steit(tag = 2)] pub to_c: G0<List<g568::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g568::A>>, #[steit(tag = 2)] pub to_b: List<g568::B>, }
}
pub mod g569 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g569::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g569::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g569::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g569::C>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Vec<g569::A>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g569::B>>>, }, }
}
pub mod g570 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g570::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g570::B>>, #[steit(tag = 3)] pub to_c: Vec<g570::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g570::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g570::B>>, #[steit(tag = 3)] pub to_c: Option<Box<g570::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g570::A>>, }
}
pub mod g571 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g571::A>>, #[steit(tag = 2)] pub to_b: List<g571::B>, #[steit(tag = 3)] pub to_c: Map<u32, g571::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g571::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g571::B>>, #[steit(tag = 3)] pub to_c: List<g571::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g571::A>, }
}
pub mod g572 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g572::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g572::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g572::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g572::A>>, #[steit(tag = 2)] pub to_b: Vec<g572::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g572::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g572::A>>, }, }
}
pub mod g573 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g573::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g573::B>>, #[steit(tag = 3)] pub to_c: Vec<g573::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g573::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g573::B>>, #[steit(tag = 3)] pub to_c: Box<g573::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Option<Box<g573::C>>, }
}
pub mod g574 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g574::A>>, #[steit(tag = 2)] pub to_b: List<g574::B>, #[steit(tag = 3)] pub to_c: Map<u32, g574::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g574::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g574::B>>, #[steit(tag = 3)] pub to_c: List<g574::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_c: Map<u32, g574::C>, }
}
pub mod g575 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g575::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g575::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g575::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g575::A>>, #[steit(tag = 2)] pub to_b: Vec<g575::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g575::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToC { #[steit(tag = 0)] to_c: Option<Box<g575::C>>, }, }
}
pub mod g576 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g576::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g576::B>>, #[steit(tag = 3)] pub to_c: Vec<g576::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g576::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g576::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g576::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g576::B>>, }
}
pub mod g577 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g577::A>>, #[steit(tag = 2)] pub to_b: List<g577::B>, #[steit(tag = 3)] pub to_c: Map<u32, g577::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g577::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g577::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g577::A>, #[steit(tag = 2)] pub to_b: Map<u32, g577::B>, }
}
pub mod g578 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g578::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g578::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g578::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g578::A>>, #[steit(tag = 2)] pub to_b: Vec<g578::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g578::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g578::B>>, }, }
}
pub mod g579 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g579::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g579::B>>, #[steit(tag = 3)] pub to_c: Vec<g579::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g579::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g579::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g579::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g579::C>>, }
}
pub mod g580 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g580::A>>, #[steit(tag = 2)] pub to_b: List<g580::B>, #[steit(tag = 3)] pub to_c: Map<u32, g580::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g580::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g580::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g580::A>, #[steit(tag = 2)] pub to_c: Map<u32, g580::C>, }
}
pub mod g581 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g581::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g581::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g581::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g581::A>>, #[steit(tag = 2)] pub to_b: Vec<g581::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g581::A>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g581::C>>, }, }
}
pub mod g582 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g582::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g582::B>>, #[steit(tag = 3)] pub to_c: Vec<g582::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g582::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g582::B>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g582::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g582::C>>, }
}
pub mod g583 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g583::A>>, #[steit(tag = 2)] pub to_b: List<g583::B>, #[steit(tag = 3)] pub to_c: Map<u32, g583::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g583::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g583::B>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g583::B>, #[steit(tag = 2)] pub to_c: Map<u32, g583::C>, }
}
pub mod g584 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g584::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g584::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g584::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g584::A>>, #[steit(tag = 2)] pub to_b: Vec<g584::B>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g584::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g584::C>>, }, }
}
pub mod g585 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g585::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g585::B>>, #[steit(tag = 3)] pub to_c: Vec<g585::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g585::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g585::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g585::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g585::B>>, }
}
pub mod g586 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g586::A>>, #[steit(tag = 2)] pub to_b: List<g586::B>, #[steit(tag = 3)] pub to_c: Map<u32, g586::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g586::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g586::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: List<g586::A>, #[steit(tag = 2)] pub to_b: Map<u32, g586::B>, }
}
pub mod g587 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g587::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g587::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g587::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g587::A>>, #[steit(tag = 2)] pub to_c: Vec<g587::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g587::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g587::B>>, }, }
}
pub mod g588 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g588::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g588::B>>, #[steit(tag = 3)] pub to_c: Vec<g588::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g588::A>>, #[steit(tag = 2)] pub to_c: Option<Box<g588::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g588::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g588::C>>, }
}
pub mod g589 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g589::A>>, #[steit(tag = 2)] pub to_b: List<g589::B>, #[steit(tag = 3)] pub to_c: Map<u32, g589::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g589::A>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g589::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g589::B>, #[steit(tag = 2)] pub to_c: Map<u32, g589::C>, }
}
pub mod g590 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g590::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g590::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g590::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g590::A>>, #[steit(tag = 2)] pub to_c: Vec<g590::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g590::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g590::C>>, }, }
}
pub mod g591 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g591::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g591::B>>, #[steit(tag = 3)] pub to_c: Vec<g591::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Vec<Box<g591::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g591::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g591::B>>, #[steit(tag = 2)] pub to_c: Option<Box<g591::C>>, }
}
pub mod g592 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g592::A>>, #[steit(tag = 2)] pub to_b: List<g592::B>, #[steit(tag = 3)] pub to_c: Map<u32, g592::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: G0<List<g592::B>>, #[steit(tag = 2)] pub to_c: Maybe<Box<g592::C>>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: List<g592::B>, #[steit(tag = 2)] pub to_c: Map<u32, g592::C>, }
}
pub mod g593 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g593::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: g593::B, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g593::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_b: Option<Box<g593::B>>, #[steit(tag = 2)] pub to_c: Vec<g593::C>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToB { #[steit(tag = 0)] to_b: Box<Option<Box<g593::B>>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Option<Box<g593::C>>, }, }
}
pub mod g594 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g594::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g594::B>>, #[steit(tag = 3)] pub to_c: Vec<g594::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g594::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g594::B>>, #[steit(tag = 3)] pub to_c: Option<Box<g594::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g594::A>>, #[steit(tag = 2)] pub to_b: Vec<g594::B>, }
}
pub mod g595 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g595::A>>, #[steit(tag = 2)] pub to_b: List<g595::B>, #[steit(tag = 3)] pub to_c: Map<u32, g595::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g595::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g595::B>>, #[steit(tag = 3)] pub to_c: List<g595::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g595::A>, #[steit(tag = 2)] pub to_b: G0<List<g595::B>>, }
}
pub mod g596 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g596::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g596::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g596::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g596::A>>, #[steit(tag = 2)] pub to_b: Vec<g596::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g596::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g596::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g596::B>>, }, }
}
pub mod g597 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g597::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g597::B>>, #[steit(tag = 3)] pub to_c: Vec<g597::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g597::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g597::B>>, #[steit(tag = 3)] pub to_c: Option<Box<g597::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g597::A>>, #[steit(tag = 2)] pub to_c: Vec<g597::C>, }
}
pub mod g598 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g598::A>>, #[steit(tag = 2)] pub to_b: List<g598::B>, #[steit(tag = 3)] pub to_c: Map<u32, g598::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g598::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g598::B>>, #[steit(tag = 3)] pub to_c: List<g598::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g598::A>, #[steit(tag = 2)] pub to_c: G0<List<g598::C>>, }
}
pub mod g599 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g599::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g599::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g599::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g599::A>>, #[steit(tag = 2)] pub to_b: Vec<g599::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g599::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g599::A>>, }, #[steit(tag = 2)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g599::C>>, }, }
}
pub mod g600 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g600::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g600::B>>, #[steit(tag = 3)] pub to_c: Vec<g600::C>, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Vec<Box<g600::A>>, #[steit(tag = 2)] pub to_b: Option<Box<g600::B>>, #[steit(tag = 3)] pub to_c: Option<Box<g600::C>>, }
#[steit_derive(Serialize, Deserialize)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g600::A>>, #[steit(tag = 2)] pub to_b: Vec<g600::B>, #[steit(tag = 3)] pub to_c: Vec<Box<g600::C>>, }
}
pub mod g601 { use super::*;
#[steit_derive(State)] pub struct A { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Maybe<Box<g601::A>>, #[steit(tag = 2)] pub to_b: List<g601::B>, #[steit(tag = 3)] pub to_c: Map<u32, g601::C>, }
#[steit_derive(State)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: G0<List<g601::A>>, #[steit(tag = 2)] pub to_b: Maybe<Box<g601::B>>, #[steit(tag = 3)] pub to_c: List<g601::C>, }
#[steit_derive(State)] pub struct C { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Map<u32, g601::A>, #[steit(tag = 2)] pub to_b: G0<List<g601::B>>, #[steit(tag = 3)] pub to_c: Maybe<Box<g601::C>>, }
}
pub mod g602 { use super::*;
#[steit_derive(Serialize, Deserialize)] pub enum A { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Box<Option<Box<g602::A>>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Option<Box<g602::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Vec<Box<g602::C>>, }, }
#[steit_derive(Serialize, Deserialize)] pub struct B { #[steit(tag = 0)] pub own: u8, #[steit(tag = 1)] pub to_a: Option<Box<g602::A>>, #[steit(tag = 2)] pub to_b: Vec<g602::B>, #[steit(tag = 3)] pub to_c: Box<Option<Box<g602::C>>>, }
#[steit_derive(Serialize, Deserialize)] pub enum C { #[steit(tag = 0)] Own { #[steit(tag = 0)] own: u8, }, #[steit(tag = 1)] ToA { #[steit(tag = 0)] to_a: Option<Box<g602::A>>, }, #[steit(tag = 2)] ToB { #[steit(tag = 0)] to_b: Vec<Box<g602::B>>, }, #[steit(tag = 3)] ToC { #[steit(tag = 0)] to_c: Option<Box<g602::C>>, }, }
}
pub static MSGS: &[Msg] = &[
Msg { rust: "Maybe", cs: None, params: &["T"], builtin: true, kind: Kind::Enum(&[Variant { rust: "None", cs: None, tag: 0, fields: &[] }, Variant { rust: "Some", cs: None, tag: 1, fields: &[Field { rust: "value", cs: None, tag: 0, ty: Ty::Param("T") }] }]) },
Msg { rust: "LogEntry", cs: None, params: &[], builtin: true, kind: Kind::Enum(&[Variant { rust: "Update", cs: None, tag: 0, fields: &[Field { rust: "path", cs: Some("flatten_path"), tag: 0, ty: Ty::Vec(&Ty::Prim("u32")) }, Field { rust: "value", cs: None, tag: 1, ty: Ty::Bytes }] }, Variant { rust: "ListPush", cs: None, tag: 8, fields: &[Field { rust: "path", cs: Some("flatten_path"), tag: 0, ty: Ty::Vec(&Ty::Prim("u32")) }, Field { rust: "item", cs: None, tag: 1, ty: Ty::Bytes }] }, Variant { rust: "ListPop", cs: None, tag: 9, fields: &[Field { rust: "path", cs: Some("flatten_path"), tag: 0, ty: Ty::Vec(&Ty::Prim("u32")) }] }, Variant { rust: "MapRemove", cs: None, tag: 12, fields: &[Field { rust: "path", cs: Some("flatten_path"), tag: 0, ty: Ty::Vec(&Ty::Prim("u32")) }, Field { rust: "key", cs: None, tag: 1, ty: Ty::Prim("u32") }] }]) },
Msg { rust: "S0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "a", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "S1", cs: Some("SuperOne"), params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "x_y", cs: None, tag: 3, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "E0", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "No", cs: None, tag: 0, fields: &[] }, Variant { rust: "Yes", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("i16") }] }]) },
Msg { rust: "D0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "s", cs: None, tag: 0, ty: Ty::Prim("String") }]) },
Msg { rust: "G0", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "item", cs: None, tag: 2, ty: Ty::Param("T") }]) },
Msg { rust: "Ty0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("u16") }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Prim("u32") }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Prim("u64") }]) },
Msg { rust: "Ty1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("i8") }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("i16") }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Prim("i32") }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Prim("i64") }]) },
Msg { rust: "Ty2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Bytes }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Ty3", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(3, &[]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(5, &[]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Vec(&Ty::Prim("u8")) }]) },
Msg { rust: "Ty4", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Prim("u8")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Arr(&Ty::Prim("u8"), 3) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Box(&Ty::Prim("u8")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::List(&Ty::Prim("u8")) }]) },
Msg { rust: "Ty5", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Prim("u8")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u16", &Ty::Prim("u8")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Prim("u8")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Prim("u8")]) }]) },
Msg { rust: "Ty6", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Prim("u8")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("u16")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Prim("u16")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Prim("u16"), 3) }]) },
Msg { rust: "Ty7", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Box(&Ty::Prim("u16")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u8", &Ty::Prim("u16")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u16", &Ty::Prim("u16")) }]) },
Msg { rust: "Ty8", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Prim("u16")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::Prim("u16")]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Vec(&Ty::Prim("u32")) }]) },
Msg { rust: "Ty9", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Prim("u32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Arr(&Ty::Prim("u32"), 3) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Box(&Ty::Prim("u32")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::List(&Ty::Prim("u32")) }]) },
Msg { rust: "Ty10", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Prim("u32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u16", &Ty::Prim("u32")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Prim("u32")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Prim("u32")]) }]) },
Msg { rust: "Ty11", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Prim("u32")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("u64")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Prim("u64")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Prim("u64"), 3) }]) },
Msg { rust: "Ty12", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Box(&Ty::Prim("u64")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u64")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u8", &Ty::Prim("u64")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u16", &Ty::Prim("u64")) }]) },
Msg { rust: "Ty13", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Prim("u64")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u64")]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::Prim("u64")]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Vec(&Ty::Prim("i8")) }]) },
Msg { rust: "Ty14", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Prim("i8")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Arr(&Ty::Prim("i8"), 3) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Box(&Ty::Prim("i8")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::List(&Ty::Prim("i8")) }]) },
Msg { rust: "Ty15", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Prim("i8")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u16", &Ty::Prim("i8")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Prim("i8")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Prim("i8")]) }]) },
Msg { rust: "Ty16", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Prim("i8")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i16")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Prim("i16")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Prim("i16"), 3) }]) },
Msg { rust: "Ty17", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Box(&Ty::Prim("i16")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i16")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u8", &Ty::Prim("i16")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u16", &Ty::Prim("i16")) }]) },
Msg { rust: "Ty18", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Prim("i16")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("i16")]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::Prim("i16")]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Ty19", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Arr(&Ty::Prim("i32"), 3) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Box(&Ty::Prim("i32")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Ty20", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u16", &Ty::Prim("i32")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Prim("i32")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Prim("i32")]) }]) },
Msg { rust: "Ty21", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Prim("i32")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i64")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Prim("i64")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Prim("i64"), 3) }]) },
Msg { rust: "Ty22", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Box(&Ty::Prim("i64")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i64")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u8", &Ty::Prim("i64")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u16", &Ty::Prim("i64")) }]) },
Msg { rust: "Ty23", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Prim("i64")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("i64")]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::Prim("i64")]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Vec(&Ty::Prim("bool")) }]) },
Msg { rust: "Ty24", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Prim("bool")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Arr(&Ty::Prim("bool"), 3) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Box(&Ty::Prim("bool")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::List(&Ty::Prim("bool")) }]) },
Msg { rust: "Ty25", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Prim("bool")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u16", &Ty::Prim("bool")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Prim("bool")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Prim("bool")]) }]) },
Msg { rust: "Ty26", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Prim("bool")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("String")) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Prim("String")) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Prim("String"), 3) }]) },
Msg { rust: "Ty27", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Box(&Ty::Prim("String")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Bytes) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Opt(&Ty::Bytes) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Arr(&Ty::Bytes, 3) }]) },
Msg { rust: "Ty28", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(2, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(2, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Arr(&Ty::Msg(2, &[]), 3) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Box(&Ty::Msg(2, &[])) }]) },
Msg { rust: "Ty29", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(2, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(2, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u16", &Ty::Msg(2, &[])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2, &[])) }]) },
Msg { rust: "Ty30", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(2, &[])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(2, &[])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(3, &[])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(3, &[])) }]) },
Msg { rust: "Ty31", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(3, &[]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(3, &[])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Ty32", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u16", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Msg(3, &[])]) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Msg(6, &[Ty::Msg(3, &[])]) }]) },
Msg { rust: "Ty33", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(4, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Arr(&Ty::Msg(4, &[]), 3) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Box(&Ty::Msg(4, &[])) }]) },
Msg { rust: "Ty34", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(4, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(4, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Map("u16", &Ty::Msg(4, &[])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(4, &[])) }]) },
Msg { rust: "Ty35", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(4, &[])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(4, &[])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(5, &[])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(5, &[])) }]) },
Msg { rust: "Ty36", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(5, &[]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(5, &[])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty37", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Prim("u32")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Prim("u32"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty38", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Prim("u32")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Prim("u32"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Prim("u32"), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Prim("u32"), 3)) }]) },
Msg { rust: "Ty39", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Prim("u32"), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Prim("u32"), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty40", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Prim("u32")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Prim("u32"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty41", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Prim("u32"))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Prim("u32"))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty42", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Prim("u32")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Prim("u32"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Prim("u32"))) }]) },
Msg { rust: "Ty43", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Prim("u32"))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Prim("u32"))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Prim("u32"))) }]) },
Msg { rust: "Ty44", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Prim("u32")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Prim("u32"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Prim("u32"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("u32"))) }]) },
Msg { rust: "Ty45", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("u32"))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("u32"))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Prim("u32")])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Prim("u32")])) }]) },
Msg { rust: "Ty46", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Prim("u32")]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Prim("u32")])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Prim("u32")])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("u32")])) }]) },
Msg { rust: "Ty47", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("u32")])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("u32")])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Prim("u32")])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Prim("u32")])) }]) },
Msg { rust: "Ty48", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Prim("u32")]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Prim("u32")])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Prim("u32")])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("u32")])) }]) },
Msg { rust: "Ty49", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("u32")])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("u32")])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Prim("String"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Prim("String"))) }]) },
Msg { rust: "Ty50", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Prim("String")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Prim("String"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Prim("String"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Prim("String"))) }]) },
Msg { rust: "Ty51", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Prim("String")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Prim("String"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Prim("String"), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Prim("String"), 3)) }]) },
Msg { rust: "Ty52", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Prim("String"), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Prim("String"), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Prim("String"))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Prim("String"))) }]) },
Msg { rust: "Ty53", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Prim("String")), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Prim("String"))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Bytes)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Bytes)) }]) },
Msg { rust: "Ty54", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Bytes), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Bytes)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Bytes)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Bytes)) }]) },
Msg { rust: "Ty55", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Bytes), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Bytes)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Bytes, 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Bytes, 3)) }]) },
Msg { rust: "Ty56", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Bytes, 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Bytes, 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty57", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(2, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(2, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty58", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(2, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(2, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(2, &[]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(2, &[]), 3)) }]) },
Msg { rust: "Ty59", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(2, &[]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty60", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(2, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(2, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty61", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty62", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Msg(2, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Msg(2, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty63", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty64", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Msg(2, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[]))) }]) },
Msg { rust: "Ty65", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Msg(2, &[])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Msg(2, &[])])) }]) },
Msg { rust: "Ty66", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Msg(2, &[])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])])) }]) },
Msg { rust: "Ty67", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Msg(2, &[])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Msg(2, &[])])) }]) },
Msg { rust: "Ty68", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Msg(2, &[])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])])) }]) },
Msg { rust: "Ty69", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(5, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(5, &[]))) }]) },
Msg { rust: "Ty70", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(5, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(5, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(5, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(5, &[]))) }]) },
Msg { rust: "Ty71", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(5, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(5, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(5, &[]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(5, &[]), 3)) }]) },
Msg { rust: "Ty72", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(5, &[]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(5, &[]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(5, &[]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(5, &[]))) }]) },
Msg { rust: "Ty73", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(5, &[])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(5, &[]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Vec(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty74", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Vec(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Vec(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty75", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Vec(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Vec(&Ty::Prim("i64")), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Vec(&Ty::Prim("i64")), 3)) }]) },
Msg { rust: "Ty76", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Vec(&Ty::Prim("i64")), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Vec(&Ty::Prim("i64")), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Vec(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty77", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Vec(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Vec(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Opt(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty78", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Opt(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Opt(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty79", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Opt(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Opt(&Ty::Prim("i64")), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Opt(&Ty::Prim("i64")), 3)) }]) },
Msg { rust: "Ty80", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Opt(&Ty::Prim("i64")), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Opt(&Ty::Prim("i64")), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Opt(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty81", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Opt(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Opt(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Arr(&Ty::Prim("i64"), 3))) }]) },
Msg { rust: "Ty82", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Arr(&Ty::Prim("i64"), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Arr(&Ty::Prim("i64"), 3))) }]) },
Msg { rust: "Ty83", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Arr(&Ty::Prim("i64"), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Arr(&Ty::Prim("i64"), 3), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Arr(&Ty::Prim("i64"), 3), 3)) }]) },
Msg { rust: "Ty84", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Arr(&Ty::Prim("i64"), 3), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Arr(&Ty::Prim("i64"), 3), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Arr(&Ty::Prim("i64"), 3))) }]) },
Msg { rust: "Ty85", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Arr(&Ty::Prim("i64"), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Arr(&Ty::Prim("i64"), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty86", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Box(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty87", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Box(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Box(&Ty::Prim("i64")), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Box(&Ty::Prim("i64")), 3)) }]) },
Msg { rust: "Ty88", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Box(&Ty::Prim("i64")), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Box(&Ty::Prim("i64")), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty89", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Box(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty90", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty91", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Box(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty92", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty93", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Box(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty94", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Box(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty95", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty96", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Box(&Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty97", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty98", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Box(&Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty99", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::List(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty100", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::List(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::List(&Ty::Prim("i64")), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::List(&Ty::Prim("i64")), 3)) }]) },
Msg { rust: "Ty101", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::List(&Ty::Prim("i64")), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::List(&Ty::Prim("i64")), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty102", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::List(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty103", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty104", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::List(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty105", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty106", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::List(&Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))) }]) },
Msg { rust: "Ty107", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::List(&Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty108", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty109", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::List(&Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty110", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty111", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::List(&Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty112", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Map("u8", &Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty113", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Map("u8", &Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Map("u8", &Ty::Prim("i64")), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Map("u8", &Ty::Prim("i64")), 3)) }]) },
Msg { rust: "Ty114", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Map("u8", &Ty::Prim("i64")), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Map("u8", &Ty::Prim("i64")), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty115", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Map("u8", &Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty116", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty117", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Map("u8", &Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty118", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty119", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64"))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))) }]) },
Msg { rust: "Ty120", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Map("u8", &Ty::Prim("i64")))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty121", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty122", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Map("u8", &Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty123", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])) }]) },
Msg { rust: "Ty124", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Map("u8", &Ty::Prim("i64"))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty125", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(0, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty126", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(0, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(0, &[Ty::Prim("i64")]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(0, &[Ty::Prim("i64")]), 3)) }]) },
Msg { rust: "Ty127", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(0, &[Ty::Prim("i64")]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(0, &[Ty::Prim("i64")]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty128", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty129", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty130", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty131", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty132", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty133", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(0, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty134", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty135", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(0, &[Ty::Prim("i64")])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty136", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty137", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(0, &[Ty::Prim("i64")])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty138", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(6, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty139", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(6, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(6, &[Ty::Prim("i64")]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(6, &[Ty::Prim("i64")]), 3)) }]) },
Msg { rust: "Ty140", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(6, &[Ty::Prim("i64")]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(6, &[Ty::Prim("i64")]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty141", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty142", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty143", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty144", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty145", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))) }]) },
Msg { rust: "Ty146", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(6, &[Ty::Prim("i64")]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty147", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty148", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("i64")])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty149", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])) }]) },
Msg { rust: "Ty150", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("i64")])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Vec(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty151", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Vec(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Vec(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty152", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Vec(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Vec(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Vec(&Ty::Msg(2, &[])), 3)) }]) },
Msg { rust: "Ty153", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Vec(&Ty::Msg(2, &[])), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Vec(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Vec(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty154", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Vec(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Vec(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Opt(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty155", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Opt(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Opt(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty156", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Opt(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Opt(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Opt(&Ty::Msg(2, &[])), 3)) }]) },
Msg { rust: "Ty157", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Opt(&Ty::Msg(2, &[])), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Opt(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Opt(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty158", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Opt(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Opt(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }]) },
Msg { rust: "Ty159", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Arr(&Ty::Msg(2, &[]), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }]) },
Msg { rust: "Ty160", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Arr(&Ty::Msg(2, &[]), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 3), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 3), 3)) }]) },
Msg { rust: "Ty161", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 3), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 3), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }]) },
Msg { rust: "Ty162", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Arr(&Ty::Msg(2, &[]), 3)), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Arr(&Ty::Msg(2, &[]), 3))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty163", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Box(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty164", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Box(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Box(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Box(&Ty::Msg(2, &[])), 3)) }]) },
Msg { rust: "Ty165", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Box(&Ty::Msg(2, &[])), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Box(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty166", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Box(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty167", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty168", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Box(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty169", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty170", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty171", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Box(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty172", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty173", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Box(&Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty174", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty175", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Box(&Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty176", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::List(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty177", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::List(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::List(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::List(&Ty::Msg(2, &[])), 3)) }]) },
Msg { rust: "Ty178", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::List(&Ty::Msg(2, &[])), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::List(&Ty::Msg(2, &[])), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty179", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::List(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty180", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty181", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::List(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty182", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty183", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty184", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::List(&Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty185", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty186", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::List(&Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty187", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty188", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::List(&Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty189", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Map("u8", &Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty190", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Map("u8", &Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Map("u8", &Ty::Msg(2, &[])), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Map("u8", &Ty::Msg(2, &[])), 3)) }]) },
Msg { rust: "Ty191", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Map("u8", &Ty::Msg(2, &[])), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Map("u8", &Ty::Msg(2, &[])), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty192", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty193", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty194", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty195", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty196", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[]))), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))) }]) },
Msg { rust: "Ty197", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(2, &[])))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty198", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty199", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty200", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])) }]) },
Msg { rust: "Ty201", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(2, &[]))])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty202", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(0, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty203", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(0, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(0, &[Ty::Msg(2, &[])]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(0, &[Ty::Msg(2, &[])]), 3)) }]) },
Msg { rust: "Ty204", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(0, &[Ty::Msg(2, &[])]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(0, &[Ty::Msg(2, &[])]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty205", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty206", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty207", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty208", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty209", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty210", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty211", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty212", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty213", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty214", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Vec(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Vec(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty215", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Vec(&Ty::Msg(6, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Vec(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Opt(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Opt(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty216", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Opt(&Ty::Msg(6, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Arr(&Ty::Msg(6, &[Ty::Msg(2, &[])]), 3)) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Arr(&Ty::Msg(6, &[Ty::Msg(2, &[])]), 3)) }]) },
Msg { rust: "Ty217", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(6, &[Ty::Msg(2, &[])]), 3), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Arr(&Ty::Msg(6, &[Ty::Msg(2, &[])]), 3)) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty218", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty219", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty220", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty221", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty222", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])])), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))) }]) },
Msg { rust: "Ty223", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(2, &[])]))]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty224", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty225", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Opt(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty226", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Arr(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])]), 3) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f2", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }, Field { rust: "f3", cs: None, tag: 3, ty: Ty::Map("u8", &Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])) }]) },
Msg { rust: "Ty227", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(2, &[])])])]) }]) },
Msg { rust: "Note0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Map("u16", &Ty::Msg(2, &[])) }]) },
Msg { rust: "Note1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::List(&Ty::Msg(3, &[])) }]) },
Msg { rust: "Note2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Box(&Ty::Msg(3, &[])) }]) },
Msg { rust: "Note3", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Vec(&Ty::Box(&Ty::Msg(3, &[]))) }]) },
Msg { rust: "Note4", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Prim("u32") }]) },
Msg { rust: "Note5", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Note6", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "Note7", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Vec(&Ty::Map("u16", &Ty::Msg(2, &[]))) }]) },
Msg { rust: "Note8", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::List(&Ty::Map("u16", &Ty::Msg(2, &[]))) }]) },
Msg { rust: "Note9", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Box(&Ty::Box(&Ty::Msg(3, &[]))) }]) },
Msg { rust: "Note10", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Prim("u8") }]) },
Msg { rust: "Note11", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Note12", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Vec(&Ty::List(&Ty::Msg(2, &[]))) }]) },
Msg { rust: "Note13", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Note14", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Note15", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::List(&Ty::Msg(2, &[])) }]) },
Msg { rust: "Note16", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Vec(&Ty::Prim("u8")) }]) },
Msg { rust: "Note17", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Box(&Ty::Msg(2, &[])) }]) },
Msg { rust: "Note18", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Bytes }]) },
Msg { rust: "Note19", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Prim("u16") }]) },
Msg { rust: "Note20", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Prim("String") }]) },
Msg { rust: "Note21", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Arr(&Ty::Msg(2, &[]), 1) }]) },
Msg { rust: "Note22", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f", cs: None, tag: 7, ty: Ty::Arr(&Ty::Arr(&Ty::Msg(2, &[]), 2), 7) }]) },
Msg { rust: "Sh0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh3", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh4", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh5", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[]) },
Msg { rust: "Sh6", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh7", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh8", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh9", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh10", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh11", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }]) },
Msg { rust: "Sh12", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh13", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }]) },
Msg { rust: "Sh14", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh15", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("String") }]) },
Msg { rust: "Sh16", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh17", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh18", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh19", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh20", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh21", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh22", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh23", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh24", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh25", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh26", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh27", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh28", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh29", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("String") }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh30", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh31", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Opt(&Ty::Msg(4, &[])) }]) },
Msg { rust: "Sh32", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh33", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("u16")) }]) },
Msg { rust: "Sh34", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh35", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Prim("String") }]) },
Msg { rust: "Sh36", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh37", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh38", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh39", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh40", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh41", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh42", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh43", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh44", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh45", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Opt(&Ty::Msg(4, &[])) }]) },
Msg { rust: "Sh46", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh47", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }]) },
Msg { rust: "Sh48", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh49", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Prim("String") }]) },
Msg { rust: "Sh50", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh51", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh52", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh53", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh54", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh55", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh56", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh57", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Prim("String") }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh58", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh59", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }]) },
Msg { rust: "Sh60", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh61", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }]) },
Msg { rust: "Sh62", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh63", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Prim("String") }]) },
Msg { rust: "Sh64", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh65", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh66", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh67", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh68", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh69", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh70", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh72", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh74", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh76", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh78", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh80", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh82", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh84", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh86", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh88", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Prim("bool") }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh90", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Prim("u8") }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh92", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh94", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh96", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh98", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh100", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh102", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh104", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh106", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh108", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh110", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh112", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh114", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh116", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Prim("bool") }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh118", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh120", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh122", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Msg(4, &[]) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh124", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh126", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh128", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh130", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "theThird", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh132", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "f2", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh134", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh136", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh138", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "second_one", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh140", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "f1", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh142", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh144", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::Prim("bool") }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh146", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "second_one", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh148", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "f1", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh150", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::Prim("bool") }]) },
Msg { rust: "Sh152", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Prim("bool") }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Sh154", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Prim("u8") }, Field { rust: "second_one", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "theThird", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }]) },
Msg { rust: "Sh156", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "f1", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "f2", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }]) },
Msg { rust: "Sh158", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::Prim("bool") }, Field { rust: "theThird", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }]) },
Msg { rust: "Sh160", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Prim("u8") }, Field { rust: "f2", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Sh162", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "first", cs: None, tag: 536870911, ty: Ty::Msg(2, &[]) }, Field { rust: "second_one", cs: None, tag: 5, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "theThird", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }]) },
Msg { rust: "Sh164", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 536870911, ty: Ty::Msg(4, &[]) }, Field { rust: "f1", cs: None, tag: 5, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "f2", cs: None, tag: 1, ty: Ty::Prim("bool") }]) },
Msg { rust: "En166", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En167", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En168", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En169", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En170", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En171", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En172", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En173", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En174", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En175", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En176", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En177", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En178", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En179", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En180", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En181", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En182", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En183", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En184", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En185", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En186", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En187", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En188", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En189", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En190", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En191", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En192", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En193", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En194", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En195", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En196", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En197", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En198", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En199", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En200", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En201", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En202", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En203", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En204", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En205", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En206", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En207", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En208", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En209", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En210", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En211", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En212", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En213", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En214", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En215", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En216", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En217", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En218", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En219", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En220", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En221", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En222", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En225", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En230", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En235", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En240", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En245", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En250", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En255", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En260", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En265", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En270", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En275", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En280", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En285", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En290", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En295", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En300", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En305", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En310", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En315", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En320", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En325", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En330", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En335", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En340", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En345", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En350", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En355", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En360", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En365", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En370", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En375", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En380", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En385", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En390", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En395", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En400", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En405", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En410", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En415", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En420", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En425", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En430", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En435", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En440", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En445", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En450", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En455", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En460", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En465", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En470", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En475", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En480", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En485", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En490", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En495", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En500", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En505", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En510", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En515", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En520", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En525", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En530", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En535", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[] }]) },
Msg { rust: "En540", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En545", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En550", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En555", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En560", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En565", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En570", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En575", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En580", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En585", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En590", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En595", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En600", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "BetaTwo", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En605", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En610", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En615", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("String") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Opt(&Ty::Msg(4, &[])) }] }]) },
Msg { rust: "En620", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }]) },
Msg { rust: "En625", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(4, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 1, fields: &[] }]) },
Msg { rust: "En630", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }]) },
Msg { rust: "En635", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En640", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[] }]) },
Msg { rust: "En645", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }]) },
Msg { rust: "En650", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En655", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En660", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Opt(&Ty::Msg(4, &[])) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "En665", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }]) },
Msg { rust: "En670", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Prim("u16")]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En675", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Vec(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }]) },
Msg { rust: "En680", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }, Variant { rust: "BetaTwo", cs: None, tag: 1, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("i32")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("bool") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }]) },
Msg { rust: "En685", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En690", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::List(&Ty::Prim("u16")) }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(2, &[]) }] }]) },
Msg { rust: "En695", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("i32")) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Map("u8", &Ty::Msg(3, &[])) }] }]) },
Msg { rust: "En700", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Msg(4, &[]) }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[] }]) },
Msg { rust: "En705", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Alpha", cs: None, tag: 536870911, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("bool") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Prim("String") }] }, Variant { rust: "BetaTwo", cs: None, tag: 3, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::List(&Ty::Prim("u16")) }] }, Variant { rust: "Gamma_three", cs: None, tag: 0, fields: &[Field { rust: "left", cs: None, tag: 1, ty: Ty::Prim("u8") }, Field { rust: "right_hand", cs: None, tag: 0, ty: Ty::Vec(&Ty::Prim("i32")) }] }]) },
Msg { rust: "Na0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: None, tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: Some("GivenOther"), tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: Some("given_one"), tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: None, tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na3", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: Some("given_one"), tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: Some("GivenOther"), tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na4", cs: Some("Given4"), params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: None, tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na5", cs: Some("Given5"), params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: Some("GivenOther"), tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na6", cs: Some("Given6"), params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: Some("given_one"), tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: None, tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Na7", cs: Some("Given7"), params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "one_field", cs: Some("given_one"), tag: 0, ty: Ty::Prim("u8") }, Field { rust: "other", cs: Some("GivenOther"), tag: 1, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "Nb0", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb1", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb2", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb3", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb4", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb5", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb6", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb7", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb8", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb9", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb10", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb11", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb12", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb13", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb14", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb15", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb16", cs: Some("GivenEnum16"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb17", cs: Some("GivenEnum17"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb18", cs: Some("GivenEnum18"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb19", cs: Some("GivenEnum19"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb20", cs: Some("GivenEnum20"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb21", cs: Some("GivenEnum21"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb22", cs: Some("GivenEnum22"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb23", cs: Some("GivenEnum23"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: None, tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb24", cs: Some("GivenEnum24"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb25", cs: Some("GivenEnum25"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb26", cs: Some("GivenEnum26"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb27", cs: Some("GivenEnum27"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb28", cs: Some("GivenEnum28"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb29", cs: Some("GivenEnum29"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: None, tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb30", cs: Some("GivenEnum30"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: None, tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nb31", cs: Some("GivenEnum31"), params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "One", cs: Some("First"), tag: 0, fields: &[Field { rust: "a_b", cs: Some("long_name"), tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "Two", cs: Some("Second"), tag: 2, fields: &[Field { rust: "f0", cs: Some("inner"), tag: 4, ty: Ty::Msg(3, &[]) }] }]) },
Msg { rust: "Nc0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "a", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "Nc1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "a", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }]) },
Msg { rust: "Nc2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "size", cs: None, tag: 1, ty: Ty::Msg(2, &[]) }, Field { rust: "reader", cs: None, tag: 0, ty: Ty::Msg(3, &[]) }]) },
Msg { rust: "G1", cs: None, params: &["T", "U"], builtin: false, kind: Kind::Struct(&[Field { rust: "b", cs: None, tag: 1, ty: Ty::Param("U") }, Field { rust: "a", cs: None, tag: 0, ty: Ty::Param("T") }, Field { rust: "c", cs: None, tag: 2, ty: Ty::Map("u8", &Ty::Param("T")) }]) },
Msg { rust: "G2", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "v", cs: None, tag: 0, ty: Ty::Vec(&Ty::Param("T")) }, Field { rust: "o", cs: None, tag: 1, ty: Ty::Opt(&Ty::Param("T")) }, Field { rust: "a", cs: None, tag: 2, ty: Ty::Arr(&Ty::Param("T"), 2) }, Field { rust: "b", cs: None, tag: 3, ty: Ty::Box(&Ty::Param("T")) }, Field { rust: "t", cs: None, tag: 5, ty: Ty::Param("T") }]) },
Msg { rust: "G3", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "l", cs: None, tag: 0, ty: Ty::List(&Ty::Param("T")) }, Field { rust: "g", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::Param("T")]) }, Field { rust: "m", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Param("T")]) }, Field { rust: "n", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(6, &[Ty::List(&Ty::Param("T"))])) }]) },
Msg { rust: "G4", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "w", cs: None, tag: 0, ty: Ty::Msg(573, &[Ty::Param("T"), Ty::Msg(6, &[Ty::Param("T")])]) }, Field { rust: "z", cs: None, tag: 1, ty: Ty::Msg(573, &[Ty::Msg(2, &[]), Ty::Param("T")]) }]) },
Msg { rust: "G5", cs: Some("Either"), params: &["T", "U"], builtin: false, kind: Kind::Enum(&[Variant { rust: "Left", cs: None, tag: 0, fields: &[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Param("T") }] }, Variant { rust: "Right", cs: None, tag: 1, fields: &[Field { rust: "item", cs: None, tag: 0, ty: Ty::Param("U") }, Field { rust: "both", cs: None, tag: 1, ty: Ty::Msg(573, &[Ty::Param("T"), Ty::Param("U")]) }] }, Variant { rust: "None", cs: None, tag: 2, fields: &[] }]) },
Msg { rust: "G6", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "t", cs: None, tag: 9, ty: Ty::Param("T") }]) },
Msg { rust: "G7", cs: None, params: &["T"], builtin: false, kind: Kind::Struct(&[Field { rust: "f0", cs: None, tag: 0, ty: Ty::Msg(577, &[Ty::Param("T"), Ty::Msg(578, &[Ty::Param("T")])]) }]) },
Msg { rust: "User0", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(2, &[])]) }]) },
Msg { rust: "User1", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(3, &[])]) }]) },
Msg { rust: "User2", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(4, &[])]) }]) },
Msg { rust: "User3", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User4", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }]) },
Msg { rust: "User5", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }]) },
Msg { rust: "User6", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User7", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User8", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::Box(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User9", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(2, &[])]) }]) },
Msg { rust: "User10", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(3, &[])]) }]) },
Msg { rust: "User11", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(4, &[])]) }]) },
Msg { rust: "User12", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::List(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User13", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }]) },
Msg { rust: "User14", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }]) },
Msg { rust: "User15", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User16", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User17", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(575, &[Ty::Box(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User18", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(2, &[])]) }]) },
Msg { rust: "User19", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(3, &[])]) }]) },
Msg { rust: "User20", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(4, &[])]) }]) },
Msg { rust: "User21", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::List(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User22", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }]) },
Msg { rust: "User23", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }]) },
Msg { rust: "User24", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User25", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User26", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(576, &[Ty::Box(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User27", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(2, &[])]) }]) },
Msg { rust: "User28", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(3, &[])]) }]) },
Msg { rust: "User29", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(4, &[])]) }]) },
Msg { rust: "User30", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::List(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "User31", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }]) },
Msg { rust: "User32", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }]) },
Msg { rust: "User33", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User34", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }]) },
Msg { rust: "User35", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "used", cs: None, tag: 0, ty: Ty::Msg(579, &[Ty::Box(&Ty::Msg(3, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(616, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(618, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(620, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(622, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(624, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(626, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(628, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(630, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(632, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(634, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(636, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(638, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(640, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(642, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(644, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(646, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(648, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(650, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(652, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(654, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(657, &[]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(659, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(661, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(663, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(665, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(667, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(669, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(671, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(673, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(675, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(677, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(679, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(681, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(683, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(685, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(687, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(689, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(691, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(693, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(695, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(696, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(698, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(700, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(702, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(704, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(706, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(708, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(710, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(712, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(714, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(716, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(718, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(720, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(722, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(724, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(726, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(728, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(730, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(732, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(734, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(737, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(739, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(741, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(743, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(745, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(747, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(749, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(751, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(753, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(755, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(757, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(759, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(761, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(763, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(765, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(767, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(769, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(771, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(773, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(775, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(776, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(777, &[]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(778, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(779, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(780, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(781, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(782, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(783, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(784, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(785, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(786, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(787, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(788, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(789, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(790, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(791, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(792, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(793, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(794, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(795, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(796, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(797, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(798, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(799, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(800, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(801, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(802, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(803, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(804, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(805, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(806, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(807, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(808, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(809, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(810, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(811, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(812, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(813, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(814, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(815, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(816, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(816, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(818, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(818, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(820, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(820, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(822, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(822, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(824, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(824, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(826, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(826, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(828, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(828, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(830, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(830, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(832, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(832, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(834, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(834, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(836, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(836, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(838, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(838, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(840, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(840, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(842, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(842, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(844, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(844, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(846, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(846, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(848, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(848, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(850, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(850, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(852, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(852, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(854, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(854, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(856, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(857, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(858, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(859, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(860, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(861, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(862, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(863, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(864, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(865, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(866, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(867, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(868, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(869, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(870, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(871, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(872, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(873, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(874, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(875, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(876, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(877, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(878, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(879, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(880, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(881, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(882, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(883, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(884, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(885, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(886, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(887, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(888, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(889, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(890, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(891, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(892, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(893, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(894, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(895, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(897, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(896, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(899, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(898, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(901, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(900, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(903, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(902, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(905, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(904, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(907, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(906, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(909, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(908, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(911, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(910, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(913, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(912, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(915, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(914, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(917, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(916, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(919, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(918, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(921, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(920, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(923, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(922, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(925, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(924, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(927, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(926, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(929, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(928, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(931, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(930, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(933, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(932, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(935, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(934, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(937, &[]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(937, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(939, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(939, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(941, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(941, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(943, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(943, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(945, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(945, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(947, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(947, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(949, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(949, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(951, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(951, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(953, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(953, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(955, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(955, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(957, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(957, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(959, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(959, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(961, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(961, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(963, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(963, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(965, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(965, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(967, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(967, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(969, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(969, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(971, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(971, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(973, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(973, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(975, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(975, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(976, &[]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(977, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(978, &[]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(979, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(980, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(981, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(982, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(983, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(984, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(985, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(986, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(987, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(988, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(989, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(990, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(991, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(992, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(993, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(994, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(995, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(996, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(997, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(998, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(999, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1000, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1001, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1002, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1003, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1004, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1005, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1006, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1007, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1008, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1009, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1010, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1011, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1012, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1013, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1014, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1015, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1016, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1017, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1016, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1018, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1019, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1018, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1020, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1021, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1020, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1022, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1023, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1022, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1024, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1025, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1024, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1026, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1027, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1026, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1028, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1029, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1028, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1030, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1031, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1030, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1032, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1033, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1032, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1034, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1035, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1034, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1036, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1037, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1036, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1038, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1039, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1038, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1040, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1041, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1040, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1042, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1043, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1042, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1044, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1045, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1044, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1046, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1047, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1046, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1048, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1049, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1048, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1050, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1051, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1050, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1052, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1053, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1052, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1054, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1055, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1054, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1056, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(1057, &[]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1057, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1058, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1059, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1059, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1060, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1061, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1061, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1062, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1063, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1063, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1064, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1065, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1065, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1066, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1067, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1067, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1068, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1069, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1069, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1070, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1071, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1071, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1072, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1073, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1073, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1074, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1075, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1075, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1076, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1077, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1077, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1078, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1079, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1079, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1080, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1081, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1081, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1082, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1083, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1083, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1084, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1085, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1085, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1086, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1087, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1087, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1088, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1089, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1089, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1090, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1091, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1091, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1092, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1093, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1093, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1094, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1095, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1095, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1096, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1096, &[]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1097, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1098, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1098, &[]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1099, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1100, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1100, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1101, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1102, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1102, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1103, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1104, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1104, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1105, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1106, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1106, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1107, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1108, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1108, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1109, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1110, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1110, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1111, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1112, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1112, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1113, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1114, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1114, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1115, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1116, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1116, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1117, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1118, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1118, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1119, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1120, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1120, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1121, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1122, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1122, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1123, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1124, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1124, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1125, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1126, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1126, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1127, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1128, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1128, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1129, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1130, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1130, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1131, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1132, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1132, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1133, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1134, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1134, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1135, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1137, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1136, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1137, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1139, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1138, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1139, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1141, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1140, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1141, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1143, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1142, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1143, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1145, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1144, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1145, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1147, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1146, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1147, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1149, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1148, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1149, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1151, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1150, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1151, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1153, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1152, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1153, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1155, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1154, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1155, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1157, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1156, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1157, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1159, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1158, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1159, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1161, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1160, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1161, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1163, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1162, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1163, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1165, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1164, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1165, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1167, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1166, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1167, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1169, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1168, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1169, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1171, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1170, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1171, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1173, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1172, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1173, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1175, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1174, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1175, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1176, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1177, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1176, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1177, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1178, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1179, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1178, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1179, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1180, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1181, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1180, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1181, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1182, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1183, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1182, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1183, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1184, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1185, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1184, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1185, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1186, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1187, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1186, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1187, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1188, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1189, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1188, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1189, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1190, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1191, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1190, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1191, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1192, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1193, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1192, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1193, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1194, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::List(&Ty::Msg(1195, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1194, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1195, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1196, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1197, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1196, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1197, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1198, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Map("u32", &Ty::Msg(1199, &[])) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1198, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1199, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1200, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1201, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1200, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1201, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1202, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1203, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1202, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1203, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1204, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1205, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1204, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1205, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1206, &[]))]) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1207, &[]))]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1206, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1207, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1208, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1209, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1208, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1209, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1210, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1211, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1210, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1211, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1212, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1213, &[])))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1212, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1213, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1214, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1215, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1214, &[])))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1215, &[])))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1216, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1217, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1219, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1220, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1222, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1223, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1225, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1225, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1228, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1228, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1231, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1231, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1234, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1235, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1237, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1238, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1240, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1241, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1243, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1245, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1246, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1248, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1249, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(1251, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1253, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1254, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1256, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1257, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1259, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Msg(1260, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1262, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1261, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1265, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1264, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1268, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1267, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1271, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1272, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1274, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1275, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1277, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(1278, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1280, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1280, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1283, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1283, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1286, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1286, &[]) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1288, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1289, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1290, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1291, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1292, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1293, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1294, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1295, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1296, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1297, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1298, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1297, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1300, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1301, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1300, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1303, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1304, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1303, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1306, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1307, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1307, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1309, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1310, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1310, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1312, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1313, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1313, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1315, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1316, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1317, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1318, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1319, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1320, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1321, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1322, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1323, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1324, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1325, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1324, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1327, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1328, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1327, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1330, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1331, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1330, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1333, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1334, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1334, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1336, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1337, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1337, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1339, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1340, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1340, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1342, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1343, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1344, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1345, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1346, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1347, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1348, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1349, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1350, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1351, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1351, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1353, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1354, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1354, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1356, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1357, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1357, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1359, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1360, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1360, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1360, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1363, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1363, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1363, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1366, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1366, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1366, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1369, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1369, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1370, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1372, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1372, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1373, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1375, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1375, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1376, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1378, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1378, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1380, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1381, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1381, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1383, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1384, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1384, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1386, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1387, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1388, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1389, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1390, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1391, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1392, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1393, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1394, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1395, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1396, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1398, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1397, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1399, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1401, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1400, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1402, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1404, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1403, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1406, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1407, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1405, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1409, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1410, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1408, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1412, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Msg(1413, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1411, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1415, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1416, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1416, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1418, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1419, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1419, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1421, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Msg(1422, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1422, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1424, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1423, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1423, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1427, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1426, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1426, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1430, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1429, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1429, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1433, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1434, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1432, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1436, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1437, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1435, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1439, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1440, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1438, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1441, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1442, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1443, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1441, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1444, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1445, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1446, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1444, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1447, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1448, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1449, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1447, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1450, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1451, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1452, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1451, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1453, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1454, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1455, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1454, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1456, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1457, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1458, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1457, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1459, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1460, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1461, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1461, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1462, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1463, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1464, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1464, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1465, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1466, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1467, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1467, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1468, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1469, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1468, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1469, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1471, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1472, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1471, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1472, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1474, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1475, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1474, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1475, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1477, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1478, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1477, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1479, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1480, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1481, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1480, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1482, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1483, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1484, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1483, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1485, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1486, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1487, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1486, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1486, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1489, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1490, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1489, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1489, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1492, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1493, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1492, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1492, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1495, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1496, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1495, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1496, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1498, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1499, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1498, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1499, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1501, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1502, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1501, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1502, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1504, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1505, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1504, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1506, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1507, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1508, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1507, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1509, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1510, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1511, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1510, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1512, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1513, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1514, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1514, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1515, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1516, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1517, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1517, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1518, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1519, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1520, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1520, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1521, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1522, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1523, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1523, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1522, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1525, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1526, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1526, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1525, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1528, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1529, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1529, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1528, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1531, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1532, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1532, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1532, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1534, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1535, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1535, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1535, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1537, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1538, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1538, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1538, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1540, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1541, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1541, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1542, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1543, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1544, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1544, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1545, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1546, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1547, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1547, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1548, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1549, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1550, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1551, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1549, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1552, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1553, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1554, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1552, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1555, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1556, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1557, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1555, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1558, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1559, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1560, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1559, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1561, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1562, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1563, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1562, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1564, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1565, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1566, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1565, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1567, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1568, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1569, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1569, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1570, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1571, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1572, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1572, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1573, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1574, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1575, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1575, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1576, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1577, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1576, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1577, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1579, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1580, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1579, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1580, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1582, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1583, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1582, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1583, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1585, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1586, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1586, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1587, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1588, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1589, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1589, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1590, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1591, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1592, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1592, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1593, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1594, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1594, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1596, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1594, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1597, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1597, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1599, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1597, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1600, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1600, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1602, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1600, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1603, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1603, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1605, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1604, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1606, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1606, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1608, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1607, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1609, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1609, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1611, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1610, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1612, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1612, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1614, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1614, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1615, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1615, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1617, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1617, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1618, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1618, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1620, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1620, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1622, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1623, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1621, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1623, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1625, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1626, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1624, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1626, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1628, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Msg(1629, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1627, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1629, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1631, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1632, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1630, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1630, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1634, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1635, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1633, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1633, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1637, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1638, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1636, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1636, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1640, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1641, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1639, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1640, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1643, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1644, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1642, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1643, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1646, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1647, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1645, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1646, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Box(&Ty::Msg(1649, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1650, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1650, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1649, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1652, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1653, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1653, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1652, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1655, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Msg(1656, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1656, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1655, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1657, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1658, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1659, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1657, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1658, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1660, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1661, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1662, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1660, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1661, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1663, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1664, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1665, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1663, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1664, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1666, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1667, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1668, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1666, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(1668, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1669, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1670, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1671, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1669, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1671, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1672, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1673, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1674, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1672, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1674, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1675, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1676, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1677, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1675, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1675, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1678, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1679, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1680, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1678, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1678, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1681, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1682, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1683, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1681, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1681, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1684, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1685, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1686, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1684, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1685, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1687, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1688, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1689, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1687, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1688, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1690, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1691, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1692, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1690, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1691, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1693, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1694, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1695, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1693, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1695, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1696, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1697, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1698, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1696, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1698, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1699, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1700, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1701, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1699, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1701, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1702, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1703, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1704, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1703, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(1704, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1705, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1706, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1707, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1706, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1707, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1708, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1709, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1710, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1709, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1710, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1711, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1712, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1713, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1712, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(1712, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1714, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1715, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1716, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1715, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1715, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1717, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1718, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1719, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1718, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1718, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1720, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1721, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1722, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1721, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1722, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1723, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1724, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1725, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1724, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1725, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1726, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1727, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1728, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1727, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1728, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1729, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1730, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1731, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1731, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1730, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1732, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1733, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1734, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1734, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1733, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1735, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1736, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1737, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1737, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1736, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1738, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1739, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1738, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1739, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1738, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1741, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1742, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1741, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1742, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1741, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1744, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1745, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1744, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1745, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1744, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1747, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1748, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1747, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1748, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1749, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1750, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1751, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1750, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1751, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1752, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1753, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1754, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1753, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1754, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1755, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1756, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1757, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1756, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1758, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1756, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1759, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1760, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1759, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1761, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1759, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1762, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1763, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1762, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1764, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1762, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1765, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1766, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1765, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1767, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1766, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1768, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1769, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1768, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1770, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1769, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1771, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1772, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1771, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1773, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1772, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1774, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1775, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1774, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1776, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1776, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1777, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1778, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1777, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1779, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1779, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1780, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1781, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1780, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1782, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1782, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1783, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1784, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1783, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1783, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(1784, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1786, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1787, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1786, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1786, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1787, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1789, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1790, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1789, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1789, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1790, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1792, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1793, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1792, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1792, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1794, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1795, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1796, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1795, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1795, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1797, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1798, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1799, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1798, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1798, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1800, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1801, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1802, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1801, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1802, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1803, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1804, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1805, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1804, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1805, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1806, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1807, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1808, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1807, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1808, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1809, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1810, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1811, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1811, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1812, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1810, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1813, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1814, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1814, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1815, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1813, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1816, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1817, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1817, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1818, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1816, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1819, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1820, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1820, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1821, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1821, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1822, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1823, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1823, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1824, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1824, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1825, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1826, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1826, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1827, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1827, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1828, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1829, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1829, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1828, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(1829, &[]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1831, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1832, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1832, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1831, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1832, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1834, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1835, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1835, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1834, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1835, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1837, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1838, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1838, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1838, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1839, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1840, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1841, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1841, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1841, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1842, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1843, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1844, &[]) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1844, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1844, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1845, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1846, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1847, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1848, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1846, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1847, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1849, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1850, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1851, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1849, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1850, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1852, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1853, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1854, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1852, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1853, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1855, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1855, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1857, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1855, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1856, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1858, &[]))]) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1858, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(1860, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1858, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1859, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1861, &[])))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1861, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1863, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Msg(1861, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1862, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1865, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1866, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1864, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1866, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1864, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1868, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1869, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1867, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1869, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1867, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1871, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1872, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1870, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1872, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1870, &[])) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1873, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1874, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1875, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1873, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1874, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Msg(1875, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1876, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1877, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1878, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1876, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1877, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(1878, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1879, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1880, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1881, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1879, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1880, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1881, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1882, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1883, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1884, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1882, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1883, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1882, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1885, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1886, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1887, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1885, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1886, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1885, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1888, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1889, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1890, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1888, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1889, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1888, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1891, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1892, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1893, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1891, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1892, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1892, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1894, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1895, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1896, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1894, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1895, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1895, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1897, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1898, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1899, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1897, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1898, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1898, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1900, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1901, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1902, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1900, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1901, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1902, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1903, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1904, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1905, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1903, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1904, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1905, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1906, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1907, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1908, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1906, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1907, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1908, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1909, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1910, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1911, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1909, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1911, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1909, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1912, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1913, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1914, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1912, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1914, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1912, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1915, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1916, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1917, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1915, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1917, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1915, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1918, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1919, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1920, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1918, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1920, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1919, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1921, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1922, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1923, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1921, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1923, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1922, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1924, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1925, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1926, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1924, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1926, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1925, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1927, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1928, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1929, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1927, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(1929, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1929, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1930, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1931, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1932, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1930, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1932, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1932, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1933, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1934, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1935, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1933, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1935, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1935, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1936, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1937, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1938, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1936, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1937, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1938, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1939, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1940, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1941, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1939, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1940, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1941, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1942, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1943, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1944, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1942, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1943, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1944, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1945, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1946, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1947, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1946, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1947, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1946, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1948, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1949, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1950, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1949, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1950, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1949, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1951, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1952, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1953, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1952, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1953, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1952, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1954, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1955, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(1956, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1955, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(1956, &[]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1956, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1957, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1958, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(1959, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1958, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1959, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(1959, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1960, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(1961, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1962, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1961, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(1962, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1962, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1963, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1964, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1963, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1964, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1963, &[]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Box(&Ty::Msg(1964, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1966, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1967, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1966, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1967, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1966, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1967, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1969, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1970, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1969, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1970, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1969, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1970, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1972, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1973, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1972, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1973, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(1972, &[]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1974, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1975, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1976, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1975, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1976, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1975, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1977, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1978, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1979, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1978, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1979, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1978, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1980, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1981, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1982, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1981, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1983, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1981, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1982, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1984, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1985, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1984, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1986, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1984, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1985, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1987, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1988, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1987, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1989, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1987, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1988, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1990, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1991, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1990, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1992, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1990, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1992, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1993, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1994, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(1993, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(1995, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(1993, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(1995, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1996, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1997, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(1996, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1998, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(1996, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(1998, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(1999, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2000, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(1999, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2001, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2000, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2001, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2002, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2003, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2002, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2004, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2003, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2004, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2005, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2006, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2005, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2007, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(2006, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2007, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2008, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2009, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(2009, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2010, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2008, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2010, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2011, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2012, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2012, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2013, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2011, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2013, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2014, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2015, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2015, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2016, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(2014, &[])) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2016, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2018, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2019, &[]))) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Msg(2017, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2019, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2017, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2018, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2021, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2022, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2020, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2022, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2020, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2021, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2024, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2025, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2023, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2025, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Vec(&Ty::Msg(2023, &[])) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2024, &[])))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2026, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2027, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2028, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2026, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2027, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2028, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2026, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2029, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2030, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2031, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2029, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2030, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(2031, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2029, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2032, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2033, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2034, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2032, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2033, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2034, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2032, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2035, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2036, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2037, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2035, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2036, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Msg(2037, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2037, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2038, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2039, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2040, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2038, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2039, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(2040, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_c", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2040, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2041, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2042, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2043, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2041, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2042, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2043, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToC", cs: None, tag: 1, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2043, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2044, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2045, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2046, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2044, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2045, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2044, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2045, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2047, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2048, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2049, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2047, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2048, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2047, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2048, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2050, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2051, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2052, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2050, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2051, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2050, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2051, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2053, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2054, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2055, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2053, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2054, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2053, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2055, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2056, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2057, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2058, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2056, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2057, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2056, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2058, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2059, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2060, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2061, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2059, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2060, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2059, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2061, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2062, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2063, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2064, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2062, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2063, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2063, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2064, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2065, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2066, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2067, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2065, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2066, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2066, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2067, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2068, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2069, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2070, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2068, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2069, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2069, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2070, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2071, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2072, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2073, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2071, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2073, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2071, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2072, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2074, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2075, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2076, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2074, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2076, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2074, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2075, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2077, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2078, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2079, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2077, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2079, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2077, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2078, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2080, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2081, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2082, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2080, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2082, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2081, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2082, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2083, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2084, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2085, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2083, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2085, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2084, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2085, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2086, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2087, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2088, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2086, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2088, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2087, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2088, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2089, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2090, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2091, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2090, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2091, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2090, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2091, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2092, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2093, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2094, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2093, &[]))]) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2094, &[]))]) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::List(&Ty::Msg(2093, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Map("u32", &Ty::Msg(2094, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2095, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Msg(2096, &[]) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2097, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_b", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2096, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2097, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToB", cs: None, tag: 1, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2096, &[])))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2097, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2098, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2099, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2100, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2098, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2099, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2100, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2098, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2099, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2101, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2102, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2103, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2101, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2102, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(2103, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2101, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2102, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2104, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2105, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2106, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2104, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2105, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2106, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2104, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2105, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2107, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2108, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2109, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2107, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2108, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2109, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2107, &[]))) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2109, &[])) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2110, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2111, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2112, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2110, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2111, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(2112, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2110, &[])) }, Field { rust: "to_c", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2112, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2113, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2114, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2115, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2113, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2114, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2115, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2113, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 2, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2115, &[]))) }] }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2116, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2117, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Msg(2118, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2116, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2117, &[]))) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2118, &[]))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2116, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2117, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2118, &[]))) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2119, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::List(&Ty::Msg(2120, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Map("u32", &Ty::Msg(2121, &[])) }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2119, &[]))]) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2120, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::List(&Ty::Msg(2121, &[])) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Map("u32", &Ty::Msg(2119, &[])) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Msg(6, &[Ty::List(&Ty::Msg(2120, &[]))]) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Msg(0, &[Ty::Box(&Ty::Msg(2121, &[]))]) }]) },
Msg { rust: "A", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2122, &[])))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2123, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2124, &[]))) }] }]) },
Msg { rust: "B", cs: None, params: &[], builtin: false, kind: Kind::Struct(&[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }, Field { rust: "to_a", cs: None, tag: 1, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2122, &[]))) }, Field { rust: "to_b", cs: None, tag: 2, ty: Ty::Vec(&Ty::Msg(2123, &[])) }, Field { rust: "to_c", cs: None, tag: 3, ty: Ty::Box(&Ty::Opt(&Ty::Box(&Ty::Msg(2124, &[])))) }]) },
Msg { rust: "C", cs: None, params: &[], builtin: false, kind: Kind::Enum(&[Variant { rust: "Own", cs: None, tag: 0, fields: &[Field { rust: "own", cs: None, tag: 0, ty: Ty::Prim("u8") }] }, Variant { rust: "ToA", cs: None, tag: 1, fields: &[Field { rust: "to_a", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2122, &[]))) }] }, Variant { rust: "ToB", cs: None, tag: 2, fields: &[Field { rust: "to_b", cs: None, tag: 0, ty: Ty::Vec(&Ty::Box(&Ty::Msg(2123, &[]))) }] }, Variant { rust: "ToC", cs: None, tag: 3, fields: &[Field { rust: "to_c", cs: None, tag: 0, ty: Ty::Opt(&Ty::Box(&Ty::Msg(2124, &[]))) }] }]) },
];
fn roots0(to: &mut Vec<Root>) {
to.push(root::<steit::log::LogEntry>(r#"steit::log::LogEntry"#, const { &Ty::Msg(1, &[]) }, "builtin"));
to.push(state_root::<S0>(r#"S0"#, const { &Ty::Msg(2, &[]) }, "leaf"));
to.push(state_root::<S1>(r#"S1"#, const { &Ty::Msg(3, &[]) }, "leaf"));
to.push(state_root::<E0>(r#"E0"#, const { &Ty::Msg(4, &[]) }, "leaf"));
to.push(root::<D0>(r#"D0"#, const { &Ty::Msg(5, &[]) }, "leaf"));
to.push(root::<ty::Ty0>(r#"ty::Ty0"#, const { &Ty::Msg(7, &[]) }, "types"));
to.push(root::<ty::Ty1>(r#"ty::Ty1"#, const { &Ty::Msg(8, &[]) }, "types"));
to.push(root::<ty::Ty2>(r#"ty::Ty2"#, const { &Ty::Msg(9, &[]) }, "types"));
to.push(root::<ty::Ty3>(r#"ty::Ty3"#, const { &Ty::Msg(10, &[]) }, "types"));
to.push(root::<ty::Ty4>(r#"ty::Ty4"#, const { &Ty::Msg(11, &[]) }, "types"));
to.push(root::<ty::Ty5>(r#"ty::Ty5"#, const { &Ty::Msg(12, &[]) }, "types"));
to.push(root::<ty::Ty6>(r#"ty::Ty6"#, const { &Ty::Msg(13, &[]) }, "types"));
to.push(root::<ty::Ty7>(r#"ty::Ty7"#, const { &Ty::Msg(14, &[]) }, "types"));
to.push(root::<ty::Ty8>(r#"ty::Ty8"#, const { &Ty::Msg(15, &[]) }, "types"));
to.push(root::<ty::Ty9>(r#"ty::Ty9"#, const { &Ty::Msg(16, &[]) }, "types"));
to.push(root::<ty::Ty10>(r#"ty::Ty10"#, const { &Ty::Msg(17, &[]) }, "types"));
to.push(root::<ty::Ty11>(r#"ty::Ty11"#, const { &Ty::Msg(18, &[]) }, "types"));
to.push(root::<ty::Ty12>(r#"ty::Ty12"#, const { &Ty::Msg(19, &[]) }, "types"));
to.push(root::<ty::Ty13>(r#"ty::Ty13"#, const { &Ty::Msg(20, &[]) }, "types"));
to.push(root::<ty::Ty14>(r#"ty::Ty14"#, const { &Ty::Msg(21, &[]) }, "types"));
to.push(root::<ty::Ty15>(r#"ty::Ty15"#, const { &Ty::Msg(22, &[]) }, "types"));
to.push(root::<ty::Ty16>(r#"ty::Ty16"#, const { &Ty::Msg(23, &[]) }, "types"));
to.push(root::<ty::Ty17>(r#"ty::Ty17"#, const { &Ty::Msg(24, &[]) }, "types"));
to.push(root::<ty::Ty18>(r#"ty::Ty18"#, const { &Ty::Msg(25, &[]) }, "types"));
to.push(root::<ty::Ty19>(r#"ty::Ty19"#, const { &Ty::Msg(26, &[]) }, "types"));
to.push(root::<ty::Ty20>(r#"ty::Ty20"#, const { &Ty::Msg(27, &[]) }, "types"));
to.push(root::<ty::Ty21>(r#"ty::Ty21"#, const { &Ty::Msg(28, &[]) }, "types"));
to.push(root::<ty::Ty22>(r#"ty::Ty22"#, const { &Ty::Msg(29, &[]) }, "types"));
to.push(root::<ty::Ty23>(r#"ty::Ty23"#, const { &Ty::Msg(30, &[]) }, "types"));
to.push(root::<ty::Ty24>(r#"ty::Ty24"#, const { &Ty::Msg(31, &[]) }, "types"));
to.push(root::<ty::Ty25>(r#"ty::Ty25"#, const { &Ty::Msg(32, &[]) }, "types"));
to.push(root::<ty::Ty26>(r#"ty::Ty26"#, const { &Ty::Msg(33, &[]) }, "types"));
to.push(root::<ty::Ty27>(r#"ty::Ty27"#, const { &Ty::Msg(34, &[]) }, "types"));
to.push(root::<ty::Ty28>(r#"ty::Ty28"#, const { &Ty::Msg(35, &[]) }, "types"));
to.push(root::<ty::Ty29>(r#"ty::Ty29"#, const { &Ty::Msg(36, &[]) }, "types"));
to.push(root::<ty::Ty30>(r#"ty::Ty30"#, const { &Ty::Msg(37, &[]) }, "types"));
to.push(root::<ty::Ty31>(r#"ty::Ty31"#, const { &Ty::Msg(38, &[]) }, "types"));
to.push(root::<ty::Ty32>(r#"ty::Ty32"#, const { &Ty::Msg(39, &[]) }, "types"));
to.push(root::<ty::Ty33>(r#"ty::Ty33"#, const { &Ty::Msg(40, &[]) }, "types"));
to.push(root::<ty::Ty34>(r#"ty::Ty34"#, const { &Ty::Msg(41, &[]) }, "types"));
to.push(root::<ty::Ty35>(r#"ty::Ty35"#, const { &Ty::Msg(42, &[]) }, "types"));
to.push(root::<ty::Ty36>(r#"ty::Ty36"#, const { &Ty::Msg(43, &[]) }, "types"));
to.push(root::<ty::Ty37>(r#"ty::Ty37"#, const { &Ty::Msg(44, &[]) }, "types"));
to.push(root::<ty::Ty38>(r#"ty::Ty38"#, const { &Ty::Msg(45, &[]) }, "types"));
to.push(root::<ty::Ty39>(r#"ty::Ty39"#, const { &Ty::Msg(46, &[]) }, "types"));
to.push(root::<ty::Ty40>(r#"ty::Ty40"#, const { &Ty::Msg(47, &[]) }, "types"));
to.push(root::<ty::Ty41>(r#"ty::Ty41"#, const { &Ty::Msg(48, &[]) }, "types"));
to.push(root::<ty::Ty42>(r#"ty::Ty42"#, const { &Ty::Msg(49, &[]) }, "types"));
to.push(root::<ty::Ty43>(r#"ty::Ty43"#, const { &Ty::Msg(50, &[]) }, "types"));
to.push(root::<ty::Ty44>(r#"ty::Ty44"#, const { &Ty::Msg(51, &[]) }, "types"));
to.push(root::<ty::Ty45>(r#"ty::Ty45"#, const { &Ty::Msg(52, &[]) }, "types"));
to.push(root::<ty::Ty46>(r#"ty::Ty46"#, const { &Ty::Msg(53, &[]) }, "types"));
to.push(root::<ty::Ty47>(r#"ty::Ty47"#, const { &Ty::Msg(54, &[]) }, "types"));
to.push(root::<ty::Ty48>(r#"ty::Ty48"#, const { &Ty::Msg(55, &[]) }, "types"));
to.push(root::<ty::Ty49>(r#"ty::Ty49"#, const { &Ty::Msg(56, &[]) }, "types"));
to.push(root::<ty::Ty50>(r#"ty::Ty50"#, const { &Ty::Msg(57, &[]) }, "types"));
to.push(root::<ty::Ty51>(r#"ty::Ty51"#, const { &Ty::Msg(58, &[]) }, "types"));
to.push(root::<ty::Ty52>(r#"ty::Ty52"#, const { &Ty::Msg(59, &[]) }, "types"));
to.push(root::<ty::Ty53>(r#"ty::Ty53"#, const { &Ty::Msg(60, &[]) }, "types"));
to.push(root::<ty::Ty54>(r#"ty::Ty54"#, const { &Ty::Msg(61, &[]) }, "types"));
to.push(root::<ty::Ty55>(r#"ty::Ty55"#, const { &Ty::Msg(62, &[]) }, "types"));
to.push(root::<ty::Ty56>(r#"ty::Ty56"#, const { &Ty::Msg(63, &[]) }, "types"));
to.push(root::<ty::Ty57>(r#"ty::Ty57"#, const { &Ty::Msg(64, &[]) }, "types"));
to.push(root::<ty::Ty58>(r#"ty::Ty58"#, const { &Ty::Msg(65, &[]) }, "types"));
to.push(root::<ty::Ty59>(r#"ty::Ty59"#, const { &Ty::Msg(66, &[]) }, "types"));
to.push(root::<ty::Ty60>(r#"ty::Ty60"#, const { &Ty::Msg(67, &[]) }, "types"));
to.push(root::<ty::Ty61>(r#"ty::Ty61"#, const { &Ty::Msg(68, &[]) }, "types"));
to.push(root::<ty::Ty62>(r#"ty::Ty62"#, const { &Ty::Msg(69, &[]) }, "types"));
to.push(root::<ty::Ty63>(r#"ty::Ty63"#, const { &Ty::Msg(70, &[]) }, "types"));
to.push(root::<ty::Ty64>(r#"ty::Ty64"#, const { &Ty::Msg(71, &[]) }, "types"));
to.push(root::<ty::Ty65>(r#"ty::Ty65"#, const { &Ty::Msg(72, &[]) }, "types"));
to.push(root::<ty::Ty66>(r#"ty::Ty66"#, const { &Ty::Msg(73, &[]) }, "types"));
to.push(root::<ty::Ty67>(r#"ty::Ty67"#, const { &Ty::Msg(74, &[]) }, "types"));
to.push(root::<ty::Ty68>(r#"ty::Ty68"#, const { &Ty::Msg(75, &[]) }, "types"));
to.push(root::<ty::Ty69>(r#"ty::Ty69"#, const { &Ty::Msg(76, &[]) }, "types"));
to.push(root::<ty::Ty70>(r#"ty::Ty70"#, const { &Ty::Msg(77, &[]) }, "types"));
to.push(root::<ty::Ty71>(r#"ty::Ty71"#, const { &Ty::Msg(78, &[]) }, "types"));
to.push(root::<ty::Ty72>(r#"ty::Ty72"#, const { &Ty::Msg(79, &[]) }, "types"));
to.push(root::<ty::Ty73>(r#"ty::Ty73"#, const { &Ty::Msg(80, &[]) }, "types"));
to.push(root::<ty::Ty74>(r#"ty::Ty74"#, const { &Ty::Msg(81, &[]) }, "types"));
to.push(root::<ty::Ty75>(r#"ty::Ty75"#, const { &Ty::Msg(82, &[]) }, "types"));
to.push(root::<ty::Ty76>(r#"ty::Ty76"#, const { &Ty::Msg(83, &[]) }, "types"));
to.push(root::<ty::Ty77>(r#"ty::Ty77"#, const { &Ty::Msg(84, &[]) }, "types"));
to.push(root::<ty::Ty78>(r#"ty::Ty78"#, const { &Ty::Msg(85, &[]) }, "types"));
to.push(root::<ty::Ty79>(r#"ty::Ty79"#, const { &Ty::Msg(86, &[]) }, "types"));
to.push(root::<ty::Ty80>(r#"ty::Ty80"#, const { &Ty::Msg(87, &[]) }, "types"));
to.push(root::<ty::Ty81>(r#"ty::Ty81"#, const { &Ty::Msg(88, &[]) }, "types"));
to.push(root::<ty::Ty82>(r#"ty::Ty82"#, const { &Ty::Msg(89, &[]) }, "types"));
to.push(root::<ty::Ty83>(r#"ty::Ty83"#, const { &Ty::Msg(90, &[]) }, "types"));
to.push(root::<ty::Ty84>(r#"ty::Ty84"#, const { &Ty::Msg(91, &[]) }, "types"));
to.push(root::<ty::Ty85>(r#"ty::Ty85"#, const { &Ty::Msg(92, &[]) }, "types"));
to.push(root::<ty::Ty86>(r#"ty::Ty86"#, const { &Ty::Msg(93, &[]) }, "types"));
to.push(root::<ty::Ty87>(r#"ty::Ty87"#, const { &Ty::Msg(94, &[]) }, "types"));
to.push(root::<ty::Ty88>(r#"ty::Ty88"#, const { &Ty::Msg(95, &[]) }, "types"));
to.push(root::<ty::Ty89>(r#"ty::Ty89"#, const { &Ty::Msg(96, &[]) }, "types"));
to.push(root::<ty::Ty90>(r#"ty::Ty90"#, const { &Ty::Msg(97, &[]) }, "types"));
to.push(root::<ty::Ty91>(r#"ty::Ty91"#, const { &Ty::Msg(98, &[]) }, "types"));
to.push(root::<ty::Ty92>(r#"ty::Ty92"#, const { &Ty::Msg(99, &[]) }, "types"));
to.push(root::<ty::Ty93>(r#"ty::Ty93"#, const { &Ty::Msg(100, &[]) }, "types"));
to.push(root::<ty::Ty94>(r#"ty::Ty94"#, const { &Ty::Msg(101, &[]) }, "types"));
}
fn roots1(to: &mut Vec<Root>) {
to.push(root::<ty::Ty95>(r#"ty::Ty95"#, const { &Ty::Msg(102, &[]) }, "types"));
to.push(root::<ty::Ty96>(r#"ty::Ty96"#, const { &Ty::Msg(103, &[]) }, "types"));
to.push(root::<ty::Ty97>(r#"ty::Ty97"#, const { &Ty::Msg(104, &[]) }, "types"));
to.push(root::<ty::Ty98>(r#"ty::Ty98"#, const { &Ty::Msg(105, &[]) }, "types"));
to.push(root::<ty::Ty99>(r#"ty::Ty99"#, const { &Ty::Msg(106, &[]) }, "types"));
to.push(root::<ty::Ty100>(r#"ty::Ty100"#, const { &Ty::Msg(107, &[]) }, "types"));
to.push(root::<ty::Ty101>(r#"ty::Ty101"#, const { &Ty::Msg(108, &[]) }, "types"));
to.push(root::<ty::Ty102>(r#"ty::Ty102"#, const { &Ty::Msg(109, &[]) }, "types"));
to.push(root::<ty::Ty103>(r#"ty::Ty103"#, const { &Ty::Msg(110, &[]) }, "types"));
to.push(root::<ty::Ty104>(r#"ty::Ty104"#, const { &Ty::Msg(111, &[]) }, "types"));
to.push(root::<ty::Ty105>(r#"ty::Ty105"#, const { &Ty::Msg(112, &[]) }, "types"));
to.push(root::<ty::Ty106>(r#"ty::Ty106"#, const { &Ty::Msg(113, &[]) }, "types"));
to.push(root::<ty::Ty107>(r#"ty::Ty107"#, const { &Ty::Msg(114, &[]) }, "types"));
to.push(root::<ty::Ty108>(r#"ty::Ty108"#, const { &Ty::Msg(115, &[]) }, "types"));
to.push(root::<ty::Ty109>(r#"ty::Ty109"#, const { &Ty::Msg(116, &[]) }, "types"));
to.push(root::<ty::Ty110>(r#"ty::Ty110"#, const { &Ty::Msg(117, &[]) }, "types"));
to.push(root::<ty::Ty111>(r#"ty::Ty111"#, const { &Ty::Msg(118, &[]) }, "types"));
to.push(root::<ty::Ty112>(r#"ty::Ty112"#, const { &Ty::Msg(119, &[]) }, "types"));
to.push(root::<ty::Ty113>(r#"ty::Ty113"#, const { &Ty::Msg(120, &[]) }, "types"));
to.push(root::<ty::Ty114>(r#"ty::Ty114"#, const { &Ty::Msg(121, &[]) }, "types"));
to.push(root::<ty::Ty115>(r#"ty::Ty115"#, const { &Ty::Msg(122, &[]) }, "types"));
to.push(root::<ty::Ty116>(r#"ty::Ty116"#, const { &Ty::Msg(123, &[]) }, "types"));
to.push(root::<ty::Ty117>(r#"ty::Ty117"#, const { &Ty::Msg(124, &[]) }, "types"));
to.push(root::<ty::Ty118>(r#"ty::Ty118"#, const { &Ty::Msg(125, &[]) }, "types"));
to.push(root::<ty::Ty119>(r#"ty::Ty119"#, const { &Ty::Msg(126, &[]) }, "types"));
to.push(root::<ty::Ty120>(r#"ty::Ty120"#, const { &Ty::Msg(127, &[]) }, "types"));
to.push(root::<ty::Ty121>(r#"ty::Ty121"#, const { &Ty::Msg(128, &[]) }, "types"));
to.push(root::<ty::Ty122>(r#"ty::Ty122"#, const { &Ty::Msg(129, &[]) }, "types"));
to.push(root::<ty::Ty123>(r#"ty::Ty123"#, const { &Ty::Msg(130, &[]) }, "types"));
to.push(root::<ty::Ty124>(r#"ty::Ty124"#, const { &Ty::Msg(131, &[]) }, "types"));
to.push(root::<ty::Ty125>(r#"ty::Ty125"#, const { &Ty::Msg(132, &[]) }, "types"));
to.push(root::<ty::Ty126>(r#"ty::Ty126"#, const { &Ty::Msg(133, &[]) }, "types"));
to.push(root::<ty::Ty127>(r#"ty::Ty127"#, const { &Ty::Msg(134, &[]) }, "types"));
to.push(root::<ty::Ty128>(r#"ty::Ty128"#, const { &Ty::Msg(135, &[]) }, "types"));
to.push(root::<ty::Ty129>(r#"ty::Ty129"#, const { &Ty::Msg(136, &[]) }, "types"));
to.push(root::<ty::Ty130>(r#"ty::Ty130"#, const { &Ty::Msg(137, &[]) }, "types"));
to.push(root::<ty::Ty131>(r#"ty::Ty131"#, const { &Ty::Msg(138, &[]) }, "types"));
to.push(root::<ty::Ty132>(r#"ty::Ty132"#, const { &Ty::Msg(139, &[]) }, "types"));
to.push(root::<ty::Ty133>(r#"ty::Ty133"#, const { &Ty::Msg(140, &[]) }, "types"));
to.push(root::<ty::Ty134>(r#"ty::Ty134"#, const { &Ty::Msg(141, &[]) }, "types"));
to.push(root::<ty::Ty135>(r#"ty::Ty135"#, const { &Ty::Msg(142, &[]) }, "types"));
to.push(root::<ty::Ty136>(r#"ty::Ty136"#, const { &Ty::Msg(143, &[]) }, "types"));
to.push(root::<ty::Ty137>(r#"ty::Ty137"#, const { &Ty::Msg(144, &[]) }, "types"));
to.push(root::<ty::Ty138>(r#"ty::Ty138"#, const { &Ty::Msg(145, &[]) }, "types"));
to.push(root::<ty::Ty139>(r#"ty::Ty139"#, const { &Ty::Msg(146, &[]) }, "types"));
to.push(root::<ty::Ty140>(r#"ty::Ty140"#, const { &Ty::Msg(147, &[]) }, "types"));
to.push(root::<ty::Ty141>(r#"ty::Ty141"#, const { &Ty::Msg(148, &[]) }, "types"));
to.push(root::<ty::Ty142>(r#"ty::Ty142"#, const { &Ty::Msg(149, &[]) }, "types"));
to.push(root::<ty::Ty143>(r#"ty::Ty143"#, const { &Ty::Msg(150, &[]) }, "types"));
to.push(root::<ty::Ty144>(r#"ty::Ty144"#, const { &Ty::Msg(151, &[]) }, "types"));
to.push(root::<ty::Ty145>(r#"ty::Ty145"#, const { &Ty::Msg(152, &[]) }, "types"));
to.push(root::<ty::Ty146>(r#"ty::Ty146"#, const { &Ty::Msg(153, &[]) }, "types"));
to.push(root::<ty::Ty147>(r#"ty::Ty147"#, const { &Ty::Msg(154, &[]) }, "types"));
to.push(root::<ty::Ty148>(r#"ty::Ty148"#, const { &Ty::Msg(155, &[]) }, "types"));
to.push(root::<ty::Ty149>(r#"ty::Ty149"#, const { &Ty::Msg(156, &[]) }, "types"));
to.push(root::<ty::Ty150>(r#"ty::Ty150"#, const { &Ty::Msg(157, &[]) }, "types"));
to.push(root::<ty::Ty151>(r#"ty::Ty151"#, const { &Ty::Msg(158, &[]) }, "types"));
to.push(root::<ty::Ty152>(r#"ty::Ty152"#, const { &Ty::Msg(159, &[]) }, "types"));
to.push(root::<ty::Ty153>(r#"ty::Ty153"#, const { &Ty::Msg(160, &[]) }, "types"));
to.push(root::<ty::Ty154>(r#"ty::Ty154"#, const { &Ty::Msg(161, &[]) }, "types"));
to.push(root::<ty::Ty155>(r#"ty::Ty155"#, const { &Ty::Msg(162, &[]) }, "types"));
to.push(root::<ty::Ty156>(r#"ty::Ty156"#, const { &Ty::Msg(163, &[]) }, "types"));
to.push(root::<ty::Ty157>(r#"ty::Ty157"#, const { &Ty::Msg(164, &[]) }, "types"));
to.push(root::<ty::Ty158>(r#"ty::Ty158"#, const { &Ty::Msg(165, &[]) }, "types"));
to.push(root::<ty::Ty159>(r#"ty::Ty159"#, const { &Ty::Msg(166, &[]) }, "types"));
to.push(root::<ty::Ty160>(r#"ty::Ty160"#, const { &Ty::Msg(167, &[]) }, "types"));
to.push(root::<ty::Ty161>(r#"ty::Ty161"#, const { &Ty::Msg(168, &[]) }, "types"));
to.push(root::<ty::Ty162>(r#"ty::Ty162"#, const { &Ty::Msg(169, &[]) }, "types"));
to.push(root::<ty::Ty163>(r#"ty::Ty163"#, const { &Ty::Msg(170, &[]) }, "types"));
to.push(root::<ty::Ty164>(r#"ty::Ty164"#, const { &Ty::Msg(171, &[]) }, "types"));
to.push(root::<ty::Ty165>(r#"ty::Ty165"#, const { &Ty::Msg(172, &[]) }, "types"));
to.push(root::<ty::Ty166>(r#"ty::Ty166"#, const { &Ty::Msg(173, &[]) }, "types"));
to.push(root::<ty::Ty167>(r#"ty::Ty167"#, const { &Ty::Msg(174, &[]) }, "types"));
to.push(root::<ty::Ty168>(r#"ty::Ty168"#, const { &Ty::Msg(175, &[]) }, "types"));
to.push(root::<ty::Ty169>(r#"ty::Ty169"#, const { &Ty::Msg(176, &[]) }, "types"));
to.push(root::<ty::Ty170>(r#"ty::Ty170"#, const { &Ty::Msg(177, &[]) }, "types"));
to.push(root::<ty::Ty171>(r#"ty::Ty171"#, const { &Ty::Msg(178, &[]) }, "types"));
to.push(root::<ty::Ty172>(r#"ty::Ty172"#, const { &Ty::Msg(179, &[]) }, "types"));
to.push(root::<ty::Ty173>(r#"ty::Ty173"#, const { &Ty::Msg(180, &[]) }, "types"));
to.push(root::<ty::Ty174>(r#"ty::Ty174"#, const { &Ty::Msg(181, &[]) }, "types"));
to.push(root::<ty::Ty175>(r#"ty::Ty175"#, const { &Ty::Msg(182, &[]) }, "types"));
to.push(root::<ty::Ty176>(r#"ty::Ty176"#, const { &Ty::Msg(183, &[]) }, "types"));
to.push(root::<ty::Ty177>(r#"ty::Ty177"#, const { &Ty::Msg(184, &[]) }, "types"));
to.push(root::<ty::Ty178>(r#"ty::Ty178"#, const { &Ty::Msg(185, &[]) }, "types"));
to.push(root::<ty::Ty179>(r#"ty::Ty179"#, const { &Ty::Msg(186, &[]) }, "types"));
to.push(root::<ty::Ty180>(r#"ty::Ty180"#, const { &Ty::Msg(187, &[]) }, "types"));
to.push(root::<ty::Ty181>(r#"ty::Ty181"#, const { &Ty::Msg(188, &[]) }, "types"));
to.push(root::<ty::Ty182>(r#"ty::Ty182"#, const { &Ty::Msg(189, &[]) }, "types"));
to.push(root::<ty::Ty183>(r#"ty::Ty183"#, const { &Ty::Msg(190, &[]) }, "types"));
to.push(root::<ty::Ty184>(r#"ty::Ty184"#, const { &Ty::Msg(191, &[]) }, "types"));
to.push(root::<ty::Ty185>(r#"ty::Ty185"#, const { &Ty::Msg(192, &[]) }, "types"));
to.push(root::<ty::Ty186>(r#"ty::Ty186"#, const { &Ty::Msg(193, &[]) }, "types"));
to.push(root::<ty::Ty187>(r#"ty::Ty187"#, const { &Ty::Msg(194, &[]) }, "types"));
to.push(root::<ty::Ty188>(r#"ty::Ty188"#, const { &Ty::Msg(195, &[]) }, "types"));
to.push(root::<ty::Ty189>(r#"ty::Ty189"#, const { &Ty::Msg(196, &[]) }, "types"));
to.push(root::<ty::Ty190>(r#"ty::Ty190"#, const { &Ty::Msg(197, &[]) }, "types"));
to.push(root::<ty::Ty191>(r#"ty::Ty191"#, const { &Ty::Msg(198, &[]) }, "types"));
to.push(root::<ty::Ty192>(r#"ty::Ty192"#, const { &Ty::Msg(199, &[]) }, "types"));
to.push(root::<ty::Ty193>(r#"ty::Ty193"#, const { &Ty::Msg(200, &[]) }, "types"));
to.push(root::<ty::Ty194>(r#"ty::Ty194"#, const { &Ty::Msg(201, &[]) }, "types"));
}
fn roots2(to: &mut Vec<Root>) {
to.push(root::<ty::Ty195>(r#"ty::Ty195"#, const { &Ty::Msg(202, &[]) }, "types"));
to.push(root::<ty::Ty196>(r#"ty::Ty196"#, const { &Ty::Msg(203, &[]) }, "types"));
to.push(root::<ty::Ty197>(r#"ty::Ty197"#, const { &Ty::Msg(204, &[]) }, "types"));
to.push(root::<ty::Ty198>(r#"ty::Ty198"#, const { &Ty::Msg(205, &[]) }, "types"));
to.push(root::<ty::Ty199>(r#"ty::Ty199"#, const { &Ty::Msg(206, &[]) }, "types"));
to.push(root::<ty::Ty200>(r#"ty::Ty200"#, const { &Ty::Msg(207, &[]) }, "types"));
to.push(root::<ty::Ty201>(r#"ty::Ty201"#, const { &Ty::Msg(208, &[]) }, "types"));
to.push(root::<ty::Ty202>(r#"ty::Ty202"#, const { &Ty::Msg(209, &[]) }, "types"));
to.push(root::<ty::Ty203>(r#"ty::Ty203"#, const { &Ty::Msg(210, &[]) }, "types"));
to.push(root::<ty::Ty204>(r#"ty::Ty204"#, const { &Ty::Msg(211, &[]) }, "types"));
to.push(root::<ty::Ty205>(r#"ty::Ty205"#, const { &Ty::Msg(212, &[]) }, "types"));
to.push(root::<ty::Ty206>(r#"ty::Ty206"#, const { &Ty::Msg(213, &[]) }, "types"));
to.push(root::<ty::Ty207>(r#"ty::Ty207"#, const { &Ty::Msg(214, &[]) }, "types"));
to.push(root::<ty::Ty208>(r#"ty::Ty208"#, const { &Ty::Msg(215, &[]) }, "types"));
to.push(root::<ty::Ty209>(r#"ty::Ty209"#, const { &Ty::Msg(216, &[]) }, "types"));
to.push(root::<ty::Ty210>(r#"ty::Ty210"#, const { &Ty::Msg(217, &[]) }, "types"));
to.push(root::<ty::Ty211>(r#"ty::Ty211"#, const { &Ty::Msg(218, &[]) }, "types"));
to.push(root::<ty::Ty212>(r#"ty::Ty212"#, const { &Ty::Msg(219, &[]) }, "types"));
to.push(root::<ty::Ty213>(r#"ty::Ty213"#, const { &Ty::Msg(220, &[]) }, "types"));
to.push(root::<ty::Ty214>(r#"ty::Ty214"#, const { &Ty::Msg(221, &[]) }, "types"));
to.push(root::<ty::Ty215>(r#"ty::Ty215"#, const { &Ty::Msg(222, &[]) }, "types"));
to.push(root::<ty::Ty216>(r#"ty::Ty216"#, const { &Ty::Msg(223, &[]) }, "types"));
to.push(root::<ty::Ty217>(r#"ty::Ty217"#, const { &Ty::Msg(224, &[]) }, "types"));
to.push(root::<ty::Ty218>(r#"ty::Ty218"#, const { &Ty::Msg(225, &[]) }, "types"));
to.push(root::<ty::Ty219>(r#"ty::Ty219"#, const { &Ty::Msg(226, &[]) }, "types"));
to.push(root::<ty::Ty220>(r#"ty::Ty220"#, const { &Ty::Msg(227, &[]) }, "types"));
to.push(root::<ty::Ty221>(r#"ty::Ty221"#, const { &Ty::Msg(228, &[]) }, "types"));
to.push(root::<ty::Ty222>(r#"ty::Ty222"#, const { &Ty::Msg(229, &[]) }, "types"));
to.push(root::<ty::Ty223>(r#"ty::Ty223"#, const { &Ty::Msg(230, &[]) }, "types"));
to.push(root::<ty::Ty224>(r#"ty::Ty224"#, const { &Ty::Msg(231, &[]) }, "types"));
to.push(root::<ty::Ty225>(r#"ty::Ty225"#, const { &Ty::Msg(232, &[]) }, "types"));
to.push(root::<ty::Ty226>(r#"ty::Ty226"#, const { &Ty::Msg(233, &[]) }, "types"));
to.push(root::<ty::Ty227>(r#"ty::Ty227"#, const { &Ty::Msg(234, &[]) }, "types"));
to.push(root::<ty::Note0>(r#"ty::Note0"#, const { &Ty::Msg(235, &[]) }, "notations"));
to.push(root::<ty::Note1>(r#"ty::Note1"#, const { &Ty::Msg(236, &[]) }, "notations"));
to.push(root::<ty::Note2>(r#"ty::Note2"#, const { &Ty::Msg(237, &[]) }, "notations"));
to.push(root::<ty::Note3>(r#"ty::Note3"#, const { &Ty::Msg(238, &[]) }, "notations"));
to.push(root::<ty::Note4>(r#"ty::Note4"#, const { &Ty::Msg(239, &[]) }, "notations"));
to.push(root::<ty::Note5>(r#"ty::Note5"#, const { &Ty::Msg(240, &[]) }, "notations"));
to.push(root::<ty::Note6>(r#"ty::Note6"#, const { &Ty::Msg(241, &[]) }, "notations"));
to.push(root::<ty::Note7>(r#"ty::Note7"#, const { &Ty::Msg(242, &[]) }, "notations"));
to.push(root::<ty::Note8>(r#"ty::Note8"#, const { &Ty::Msg(243, &[]) }, "notations"));
to.push(root::<ty::Note9>(r#"ty::Note9"#, const { &Ty::Msg(244, &[]) }, "notations"));
to.push(root::<ty::Note10>(r#"ty::Note10"#, const { &Ty::Msg(245, &[]) }, "notations"));
to.push(root::<ty::Note11>(r#"ty::Note11"#, const { &Ty::Msg(246, &[]) }, "notations"));
to.push(root::<ty::Note12>(r#"ty::Note12"#, const { &Ty::Msg(247, &[]) }, "notations"));
to.push(root::<ty::Note13>(r#"ty::Note13"#, const { &Ty::Msg(248, &[]) }, "notations"));
to.push(root::<ty::Note14>(r#"ty::Note14"#, const { &Ty::Msg(249, &[]) }, "notations"));
to.push(root::<ty::Note15>(r#"ty::Note15"#, const { &Ty::Msg(250, &[]) }, "notations"));
to.push(root::<ty::Note16>(r#"ty::Note16"#, const { &Ty::Msg(251, &[]) }, "notations"));
to.push(root::<ty::Note17>(r#"ty::Note17"#, const { &Ty::Msg(252, &[]) }, "notations"));
to.push(root::<ty::Note18>(r#"ty::Note18"#, const { &Ty::Msg(253, &[]) }, "notations"));
to.push(root::<ty::Note19>(r#"ty::Note19"#, const { &Ty::Msg(254, &[]) }, "notations"));
to.push(root::<ty::Note20>(r#"ty::Note20"#, const { &Ty::Msg(255, &[]) }, "notations"));
to.push(root::<ty::Note21>(r#"ty::Note21"#, const { &Ty::Msg(256, &[]) }, "notations"));
to.push(root::<ty::Note22>(r#"ty::Note22"#, const { &Ty::Msg(257, &[]) }, "notations"));
to.push(state_root::<shapes::Sh0>(r#"shapes::Sh0"#, const { &Ty::Msg(258, &[]) }, "shapes"));
to.push(root::<shapes::Sh1>(r#"shapes::Sh1"#, const { &Ty::Msg(259, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh2>(r#"shapes::Sh2"#, const { &Ty::Msg(260, &[]) }, "shapes"));
to.push(root::<shapes::Sh3>(r#"shapes::Sh3"#, const { &Ty::Msg(261, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh4>(r#"shapes::Sh4"#, const { &Ty::Msg(262, &[]) }, "shapes"));
to.push(root::<shapes::Sh5>(r#"shapes::Sh5"#, const { &Ty::Msg(263, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh6>(r#"shapes::Sh6"#, const { &Ty::Msg(264, &[]) }, "shapes"));
to.push(root::<shapes::Sh7>(r#"shapes::Sh7"#, const { &Ty::Msg(265, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh8>(r#"shapes::Sh8"#, const { &Ty::Msg(266, &[]) }, "shapes"));
to.push(root::<shapes::Sh9>(r#"shapes::Sh9"#, const { &Ty::Msg(267, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh10>(r#"shapes::Sh10"#, const { &Ty::Msg(268, &[]) }, "shapes"));
to.push(root::<shapes::Sh11>(r#"shapes::Sh11"#, const { &Ty::Msg(269, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh12>(r#"shapes::Sh12"#, const { &Ty::Msg(270, &[]) }, "shapes"));
to.push(root::<shapes::Sh13>(r#"shapes::Sh13"#, const { &Ty::Msg(271, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh14>(r#"shapes::Sh14"#, const { &Ty::Msg(272, &[]) }, "shapes"));
to.push(root::<shapes::Sh15>(r#"shapes::Sh15"#, const { &Ty::Msg(273, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh16>(r#"shapes::Sh16"#, const { &Ty::Msg(274, &[]) }, "shapes"));
to.push(root::<shapes::Sh17>(r#"shapes::Sh17"#, const { &Ty::Msg(275, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh18>(r#"shapes::Sh18"#, const { &Ty::Msg(276, &[]) }, "shapes"));
to.push(root::<shapes::Sh19>(r#"shapes::Sh19"#, const { &Ty::Msg(277, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh20>(r#"shapes::Sh20"#, const { &Ty::Msg(278, &[]) }, "shapes"));
to.push(root::<shapes::Sh21>(r#"shapes::Sh21"#, const { &Ty::Msg(279, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh22>(r#"shapes::Sh22"#, const { &Ty::Msg(280, &[]) }, "shapes"));
to.push(root::<shapes::Sh23>(r#"shapes::Sh23"#, const { &Ty::Msg(281, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh24>(r#"shapes::Sh24"#, const { &Ty::Msg(282, &[]) }, "shapes"));
to.push(root::<shapes::Sh25>(r#"shapes::Sh25"#, const { &Ty::Msg(283, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh26>(r#"shapes::Sh26"#, const { &Ty::Msg(284, &[]) }, "shapes"));
to.push(root::<shapes::Sh27>(r#"shapes::Sh27"#, const { &Ty::Msg(285, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh28>(r#"shapes::Sh28"#, const { &Ty::Msg(286, &[]) }, "shapes"));
to.push(root::<shapes::Sh29>(r#"shapes::Sh29"#, const { &Ty::Msg(287, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh30>(r#"shapes::Sh30"#, const { &Ty::Msg(288, &[]) }, "shapes"));
to.push(root::<shapes::Sh31>(r#"shapes::Sh31"#, const { &Ty::Msg(289, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh32>(r#"shapes::Sh32"#, const { &Ty::Msg(290, &[]) }, "shapes"));
to.push(root::<shapes::Sh33>(r#"shapes::Sh33"#, const { &Ty::Msg(291, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh34>(r#"shapes::Sh34"#, const { &Ty::Msg(292, &[]) }, "shapes"));
to.push(root::<shapes::Sh35>(r#"shapes::Sh35"#, const { &Ty::Msg(293, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh36>(r#"shapes::Sh36"#, const { &Ty::Msg(294, &[]) }, "shapes"));
to.push(root::<shapes::Sh37>(r#"shapes::Sh37"#, const { &Ty::Msg(295, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh38>(r#"shapes::Sh38"#, const { &Ty::Msg(296, &[]) }, "shapes"));
to.push(root::<shapes::Sh39>(r#"shapes::Sh39"#, const { &Ty::Msg(297, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh40>(r#"shapes::Sh40"#, const { &Ty::Msg(298, &[]) }, "shapes"));
to.push(root::<shapes::Sh41>(r#"shapes::Sh41"#, const { &Ty::Msg(299, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh42>(r#"shapes::Sh42"#, const { &Ty::Msg(300, &[]) }, "shapes"));
to.push(root::<shapes::Sh43>(r#"shapes::Sh43"#, const { &Ty::Msg(301, &[]) }, "shapes"));
}
fn roots3(to: &mut Vec<Root>) {
to.push(state_root::<shapes::Sh44>(r#"shapes::Sh44"#, const { &Ty::Msg(302, &[]) }, "shapes"));
to.push(root::<shapes::Sh45>(r#"shapes::Sh45"#, const { &Ty::Msg(303, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh46>(r#"shapes::Sh46"#, const { &Ty::Msg(304, &[]) }, "shapes"));
to.push(root::<shapes::Sh47>(r#"shapes::Sh47"#, const { &Ty::Msg(305, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh48>(r#"shapes::Sh48"#, const { &Ty::Msg(306, &[]) }, "shapes"));
to.push(root::<shapes::Sh49>(r#"shapes::Sh49"#, const { &Ty::Msg(307, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh50>(r#"shapes::Sh50"#, const { &Ty::Msg(308, &[]) }, "shapes"));
to.push(root::<shapes::Sh51>(r#"shapes::Sh51"#, const { &Ty::Msg(309, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh52>(r#"shapes::Sh52"#, const { &Ty::Msg(310, &[]) }, "shapes"));
to.push(root::<shapes::Sh53>(r#"shapes::Sh53"#, const { &Ty::Msg(311, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh54>(r#"shapes::Sh54"#, const { &Ty::Msg(312, &[]) }, "shapes"));
to.push(root::<shapes::Sh55>(r#"shapes::Sh55"#, const { &Ty::Msg(313, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh56>(r#"shapes::Sh56"#, const { &Ty::Msg(314, &[]) }, "shapes"));
to.push(root::<shapes::Sh57>(r#"shapes::Sh57"#, const { &Ty::Msg(315, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh58>(r#"shapes::Sh58"#, const { &Ty::Msg(316, &[]) }, "shapes"));
to.push(root::<shapes::Sh59>(r#"shapes::Sh59"#, const { &Ty::Msg(317, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh60>(r#"shapes::Sh60"#, const { &Ty::Msg(318, &[]) }, "shapes"));
to.push(root::<shapes::Sh61>(r#"shapes::Sh61"#, const { &Ty::Msg(319, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh62>(r#"shapes::Sh62"#, const { &Ty::Msg(320, &[]) }, "shapes"));
to.push(root::<shapes::Sh63>(r#"shapes::Sh63"#, const { &Ty::Msg(321, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh64>(r#"shapes::Sh64"#, const { &Ty::Msg(322, &[]) }, "shapes"));
to.push(root::<shapes::Sh65>(r#"shapes::Sh65"#, const { &Ty::Msg(323, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh66>(r#"shapes::Sh66"#, const { &Ty::Msg(324, &[]) }, "shapes"));
to.push(root::<shapes::Sh67>(r#"shapes::Sh67"#, const { &Ty::Msg(325, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh68>(r#"shapes::Sh68"#, const { &Ty::Msg(326, &[]) }, "shapes"));
to.push(root::<shapes::Sh69>(r#"shapes::Sh69"#, const { &Ty::Msg(327, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh70>(r#"shapes::Sh70"#, const { &Ty::Msg(328, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh72>(r#"shapes::Sh72"#, const { &Ty::Msg(329, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh74>(r#"shapes::Sh74"#, const { &Ty::Msg(330, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh76>(r#"shapes::Sh76"#, const { &Ty::Msg(331, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh78>(r#"shapes::Sh78"#, const { &Ty::Msg(332, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh80>(r#"shapes::Sh80"#, const { &Ty::Msg(333, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh82>(r#"shapes::Sh82"#, const { &Ty::Msg(334, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh84>(r#"shapes::Sh84"#, const { &Ty::Msg(335, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh86>(r#"shapes::Sh86"#, const { &Ty::Msg(336, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh88>(r#"shapes::Sh88"#, const { &Ty::Msg(337, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh90>(r#"shapes::Sh90"#, const { &Ty::Msg(338, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh92>(r#"shapes::Sh92"#, const { &Ty::Msg(339, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh94>(r#"shapes::Sh94"#, const { &Ty::Msg(340, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh96>(r#"shapes::Sh96"#, const { &Ty::Msg(341, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh98>(r#"shapes::Sh98"#, const { &Ty::Msg(342, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh100>(r#"shapes::Sh100"#, const { &Ty::Msg(343, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh102>(r#"shapes::Sh102"#, const { &Ty::Msg(344, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh104>(r#"shapes::Sh104"#, const { &Ty::Msg(345, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh106>(r#"shapes::Sh106"#, const { &Ty::Msg(346, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh108>(r#"shapes::Sh108"#, const { &Ty::Msg(347, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh110>(r#"shapes::Sh110"#, const { &Ty::Msg(348, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh112>(r#"shapes::Sh112"#, const { &Ty::Msg(349, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh114>(r#"shapes::Sh114"#, const { &Ty::Msg(350, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh116>(r#"shapes::Sh116"#, const { &Ty::Msg(351, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh118>(r#"shapes::Sh118"#, const { &Ty::Msg(352, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh120>(r#"shapes::Sh120"#, const { &Ty::Msg(353, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh122>(r#"shapes::Sh122"#, const { &Ty::Msg(354, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh124>(r#"shapes::Sh124"#, const { &Ty::Msg(355, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh126>(r#"shapes::Sh126"#, const { &Ty::Msg(356, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh128>(r#"shapes::Sh128"#, const { &Ty::Msg(357, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh130>(r#"shapes::Sh130"#, const { &Ty::Msg(358, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh132>(r#"shapes::Sh132"#, const { &Ty::Msg(359, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh134>(r#"shapes::Sh134"#, const { &Ty::Msg(360, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh136>(r#"shapes::Sh136"#, const { &Ty::Msg(361, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh138>(r#"shapes::Sh138"#, const { &Ty::Msg(362, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh140>(r#"shapes::Sh140"#, const { &Ty::Msg(363, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh142>(r#"shapes::Sh142"#, const { &Ty::Msg(364, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh144>(r#"shapes::Sh144"#, const { &Ty::Msg(365, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh146>(r#"shapes::Sh146"#, const { &Ty::Msg(366, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh148>(r#"shapes::Sh148"#, const { &Ty::Msg(367, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh150>(r#"shapes::Sh150"#, const { &Ty::Msg(368, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh152>(r#"shapes::Sh152"#, const { &Ty::Msg(369, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh154>(r#"shapes::Sh154"#, const { &Ty::Msg(370, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh156>(r#"shapes::Sh156"#, const { &Ty::Msg(371, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh158>(r#"shapes::Sh158"#, const { &Ty::Msg(372, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh160>(r#"shapes::Sh160"#, const { &Ty::Msg(373, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh162>(r#"shapes::Sh162"#, const { &Ty::Msg(374, &[]) }, "shapes"));
to.push(state_root::<shapes::Sh164>(r#"shapes::Sh164"#, const { &Ty::Msg(375, &[]) }, "shapes"));
to.push(state_root::<shapes::En166>(r#"shapes::En166"#, const { &Ty::Msg(376, &[]) }, "shapes"));
to.push(state_root::<shapes::En167>(r#"shapes::En167"#, const { &Ty::Msg(377, &[]) }, "shapes"));
to.push(root::<shapes::En168>(r#"shapes::En168"#, const { &Ty::Msg(378, &[]) }, "shapes"));
to.push(state_root::<shapes::En169>(r#"shapes::En169"#, const { &Ty::Msg(379, &[]) }, "shapes"));
to.push(state_root::<shapes::En170>(r#"shapes::En170"#, const { &Ty::Msg(380, &[]) }, "shapes"));
to.push(root::<shapes::En171>(r#"shapes::En171"#, const { &Ty::Msg(381, &[]) }, "shapes"));
to.push(state_root::<shapes::En172>(r#"shapes::En172"#, const { &Ty::Msg(382, &[]) }, "shapes"));
to.push(state_root::<shapes::En173>(r#"shapes::En173"#, const { &Ty::Msg(383, &[]) }, "shapes"));
to.push(root::<shapes::En174>(r#"shapes::En174"#, const { &Ty::Msg(384, &[]) }, "shapes"));
to.push(state_root::<shapes::En175>(r#"shapes::En175"#, const { &Ty::Msg(385, &[]) }, "shapes"));
to.push(state_root::<shapes::En176>(r#"shapes::En176"#, const { &Ty::Msg(386, &[]) }, "shapes"));
to.push(root::<shapes::En177>(r#"shapes::En177"#, const { &Ty::Msg(387, &[]) }, "shapes"));
to.push(state_root::<shapes::En178>(r#"shapes::En178"#, const { &Ty::Msg(388, &[]) }, "shapes"));
to.push(state_root::<shapes::En179>(r#"shapes::En179"#, const { &Ty::Msg(389, &[]) }, "shapes"));
to.push(root::<shapes::En180>(r#"shapes::En180"#, const { &Ty::Msg(390, &[]) }, "shapes"));
to.push(state_root::<shapes::En181>(r#"shapes::En181"#, const { &Ty::Msg(391, &[]) }, "shapes"));
to.push(state_root::<shapes::En182>(r#"shapes::En182"#, const { &Ty::Msg(392, &[]) }, "shapes"));
to.push(root::<shapes::En183>(r#"shapes::En183"#, const { &Ty::Msg(393, &[]) }, "shapes"));
to.push(state_root::<shapes::En184>(r#"shapes::En184"#, const { &Ty::Msg(394, &[]) }, "shapes"));
to.push(state_root::<shapes::En185>(r#"shapes::En185"#, const { &Ty::Msg(395, &[]) }, "shapes"));
to.push(root::<shapes::En186>(r#"shapes::En186"#, const { &Ty::Msg(396, &[]) }, "shapes"));
to.push(state_root::<shapes::En187>(r#"shapes::En187"#, const { &Ty::Msg(397, &[]) }, "shapes"));
to.push(state_root::<shapes::En188>(r#"shapes::En188"#, const { &Ty::Msg(398, &[]) }, "shapes"));
to.push(root::<shapes::En189>(r#"shapes::En189"#, const { &Ty::Msg(399, &[]) }, "shapes"));
to.push(state_root::<shapes::En190>(r#"shapes::En190"#, const { &Ty::Msg(400, &[]) }, "shapes"));
to.push(state_root::<shapes::En191>(r#"shapes::En191"#, const { &Ty::Msg(401, &[]) }, "shapes"));
}
fn roots4(to: &mut Vec<Root>) {
to.push(root::<shapes::En192>(r#"shapes::En192"#, const { &Ty::Msg(402, &[]) }, "shapes"));
to.push(state_root::<shapes::En193>(r#"shapes::En193"#, const { &Ty::Msg(403, &[]) }, "shapes"));
to.push(state_root::<shapes::En194>(r#"shapes::En194"#, const { &Ty::Msg(404, &[]) }, "shapes"));
to.push(root::<shapes::En195>(r#"shapes::En195"#, const { &Ty::Msg(405, &[]) }, "shapes"));
to.push(state_root::<shapes::En196>(r#"shapes::En196"#, const { &Ty::Msg(406, &[]) }, "shapes"));
to.push(state_root::<shapes::En197>(r#"shapes::En197"#, const { &Ty::Msg(407, &[]) }, "shapes"));
to.push(root::<shapes::En198>(r#"shapes::En198"#, const { &Ty::Msg(408, &[]) }, "shapes"));
to.push(state_root::<shapes::En199>(r#"shapes::En199"#, const { &Ty::Msg(409, &[]) }, "shapes"));
to.push(state_root::<shapes::En200>(r#"shapes::En200"#, const { &Ty::Msg(410, &[]) }, "shapes"));
to.push(root::<shapes::En201>(r#"shapes::En201"#, const { &Ty::Msg(411, &[]) }, "shapes"));
to.push(state_root::<shapes::En202>(r#"shapes::En202"#, const { &Ty::Msg(412, &[]) }, "shapes"));
to.push(state_root::<shapes::En203>(r#"shapes::En203"#, const { &Ty::Msg(413, &[]) }, "shapes"));
to.push(root::<shapes::En204>(r#"shapes::En204"#, const { &Ty::Msg(414, &[]) }, "shapes"));
to.push(state_root::<shapes::En205>(r#"shapes::En205"#, const { &Ty::Msg(415, &[]) }, "shapes"));
to.push(state_root::<shapes::En206>(r#"shapes::En206"#, const { &Ty::Msg(416, &[]) }, "shapes"));
to.push(root::<shapes::En207>(r#"shapes::En207"#, const { &Ty::Msg(417, &[]) }, "shapes"));
to.push(state_root::<shapes::En208>(r#"shapes::En208"#, const { &Ty::Msg(418, &[]) }, "shapes"));
to.push(state_root::<shapes::En209>(r#"shapes::En209"#, const { &Ty::Msg(419, &[]) }, "shapes"));
to.push(root::<shapes::En210>(r#"shapes::En210"#, const { &Ty::Msg(420, &[]) }, "shapes"));
to.push(state_root::<shapes::En211>(r#"shapes::En211"#, const { &Ty::Msg(421, &[]) }, "shapes"));
to.push(state_root::<shapes::En212>(r#"shapes::En212"#, const { &Ty::Msg(422, &[]) }, "shapes"));
to.push(root::<shapes::En213>(r#"shapes::En213"#, const { &Ty::Msg(423, &[]) }, "shapes"));
to.push(state_root::<shapes::En214>(r#"shapes::En214"#, const { &Ty::Msg(424, &[]) }, "shapes"));
to.push(state_root::<shapes::En215>(r#"shapes::En215"#, const { &Ty::Msg(425, &[]) }, "shapes"));
to.push(root::<shapes::En216>(r#"shapes::En216"#, const { &Ty::Msg(426, &[]) }, "shapes"));
to.push(state_root::<shapes::En217>(r#"shapes::En217"#, const { &Ty::Msg(427, &[]) }, "shapes"));
to.push(state_root::<shapes::En218>(r#"shapes::En218"#, const { &Ty::Msg(428, &[]) }, "shapes"));
to.push(root::<shapes::En219>(r#"shapes::En219"#, const { &Ty::Msg(429, &[]) }, "shapes"));
to.push(state_root::<shapes::En220>(r#"shapes::En220"#, const { &Ty::Msg(430, &[]) }, "shapes"));
to.push(state_root::<shapes::En221>(r#"shapes::En221"#, const { &Ty::Msg(431, &[]) }, "shapes"));
to.push(root::<shapes::En222>(r#"shapes::En222"#, const { &Ty::Msg(432, &[]) }, "shapes"));
to.push(root::<shapes::En225>(r#"shapes::En225"#, const { &Ty::Msg(433, &[]) }, "shapes"));
to.push(state_root::<shapes::En230>(r#"shapes::En230"#, const { &Ty::Msg(434, &[]) }, "shapes"));
to.push(state_root::<shapes::En235>(r#"shapes::En235"#, const { &Ty::Msg(435, &[]) }, "shapes"));
to.push(root::<shapes::En240>(r#"shapes::En240"#, const { &Ty::Msg(436, &[]) }, "shapes"));
to.push(state_root::<shapes::En245>(r#"shapes::En245"#, const { &Ty::Msg(437, &[]) }, "shapes"));
to.push(state_root::<shapes::En250>(r#"shapes::En250"#, const { &Ty::Msg(438, &[]) }, "shapes"));
to.push(root::<shapes::En255>(r#"shapes::En255"#, const { &Ty::Msg(439, &[]) }, "shapes"));
to.push(state_root::<shapes::En260>(r#"shapes::En260"#, const { &Ty::Msg(440, &[]) }, "shapes"));
to.push(state_root::<shapes::En265>(r#"shapes::En265"#, const { &Ty::Msg(441, &[]) }, "shapes"));
to.push(root::<shapes::En270>(r#"shapes::En270"#, const { &Ty::Msg(442, &[]) }, "shapes"));
to.push(state_root::<shapes::En275>(r#"shapes::En275"#, const { &Ty::Msg(443, &[]) }, "shapes"));
to.push(state_root::<shapes::En280>(r#"shapes::En280"#, const { &Ty::Msg(444, &[]) }, "shapes"));
to.push(root::<shapes::En285>(r#"shapes::En285"#, const { &Ty::Msg(445, &[]) }, "shapes"));
to.push(state_root::<shapes::En290>(r#"shapes::En290"#, const { &Ty::Msg(446, &[]) }, "shapes"));
to.push(state_root::<shapes::En295>(r#"shapes::En295"#, const { &Ty::Msg(447, &[]) }, "shapes"));
to.push(root::<shapes::En300>(r#"shapes::En300"#, const { &Ty::Msg(448, &[]) }, "shapes"));
to.push(state_root::<shapes::En305>(r#"shapes::En305"#, const { &Ty::Msg(449, &[]) }, "shapes"));
to.push(state_root::<shapes::En310>(r#"shapes::En310"#, const { &Ty::Msg(450, &[]) }, "shapes"));
to.push(root::<shapes::En315>(r#"shapes::En315"#, const { &Ty::Msg(451, &[]) }, "shapes"));
to.push(state_root::<shapes::En320>(r#"shapes::En320"#, const { &Ty::Msg(452, &[]) }, "shapes"));
to.push(state_root::<shapes::En325>(r#"shapes::En325"#, const { &Ty::Msg(453, &[]) }, "shapes"));
to.push(root::<shapes::En330>(r#"shapes::En330"#, const { &Ty::Msg(454, &[]) }, "shapes"));
to.push(state_root::<shapes::En335>(r#"shapes::En335"#, const { &Ty::Msg(455, &[]) }, "shapes"));
to.push(state_root::<shapes::En340>(r#"shapes::En340"#, const { &Ty::Msg(456, &[]) }, "shapes"));
to.push(root::<shapes::En345>(r#"shapes::En345"#, const { &Ty::Msg(457, &[]) }, "shapes"));
to.push(state_root::<shapes::En350>(r#"shapes::En350"#, const { &Ty::Msg(458, &[]) }, "shapes"));
to.push(state_root::<shapes::En355>(r#"shapes::En355"#, const { &Ty::Msg(459, &[]) }, "shapes"));
to.push(root::<shapes::En360>(r#"shapes::En360"#, const { &Ty::Msg(460, &[]) }, "shapes"));
to.push(state_root::<shapes::En365>(r#"shapes::En365"#, const { &Ty::Msg(461, &[]) }, "shapes"));
to.push(state_root::<shapes::En370>(r#"shapes::En370"#, const { &Ty::Msg(462, &[]) }, "shapes"));
to.push(root::<shapes::En375>(r#"shapes::En375"#, const { &Ty::Msg(463, &[]) }, "shapes"));
to.push(state_root::<shapes::En380>(r#"shapes::En380"#, const { &Ty::Msg(464, &[]) }, "shapes"));
to.push(state_root::<shapes::En385>(r#"shapes::En385"#, const { &Ty::Msg(465, &[]) }, "shapes"));
to.push(root::<shapes::En390>(r#"shapes::En390"#, const { &Ty::Msg(466, &[]) }, "shapes"));
to.push(state_root::<shapes::En395>(r#"shapes::En395"#, const { &Ty::Msg(467, &[]) }, "shapes"));
to.push(state_root::<shapes::En400>(r#"shapes::En400"#, const { &Ty::Msg(468, &[]) }, "shapes"));
to.push(root::<shapes::En405>(r#"shapes::En405"#, const { &Ty::Msg(469, &[]) }, "shapes"));
to.push(state_root::<shapes::En410>(r#"shapes::En410"#, const { &Ty::Msg(470, &[]) }, "shapes"));
to.push(state_root::<shapes::En415>(r#"shapes::En415"#, const { &Ty::Msg(471, &[]) }, "shapes"));
to.push(root::<shapes::En420>(r#"shapes::En420"#, const { &Ty::Msg(472, &[]) }, "shapes"));
to.push(state_root::<shapes::En425>(r#"shapes::En425"#, const { &Ty::Msg(473, &[]) }, "shapes"));
to.push(state_root::<shapes::En430>(r#"shapes::En430"#, const { &Ty::Msg(474, &[]) }, "shapes"));
to.push(root::<shapes::En435>(r#"shapes::En435"#, const { &Ty::Msg(475, &[]) }, "shapes"));
to.push(state_root::<shapes::En440>(r#"shapes::En440"#, const { &Ty::Msg(476, &[]) }, "shapes"));
to.push(state_root::<shapes::En445>(r#"shapes::En445"#, const { &Ty::Msg(477, &[]) }, "shapes"));
to.push(root::<shapes::En450>(r#"shapes::En450"#, const { &Ty::Msg(478, &[]) }, "shapes"));
to.push(state_root::<shapes::En455>(r#"shapes::En455"#, const { &Ty::Msg(479, &[]) }, "shapes"));
to.push(state_root::<shapes::En460>(r#"shapes::En460"#, const { &Ty::Msg(480, &[]) }, "shapes"));
to.push(root::<shapes::En465>(r#"shapes::En465"#, const { &Ty::Msg(481, &[]) }, "shapes"));
to.push(state_root::<shapes::En470>(r#"shapes::En470"#, const { &Ty::Msg(482, &[]) }, "shapes"));
to.push(state_root::<shapes::En475>(r#"shapes::En475"#, const { &Ty::Msg(483, &[]) }, "shapes"));
to.push(root::<shapes::En480>(r#"shapes::En480"#, const { &Ty::Msg(484, &[]) }, "shapes"));
to.push(state_root::<shapes::En485>(r#"shapes::En485"#, const { &Ty::Msg(485, &[]) }, "shapes"));
to.push(state_root::<shapes::En490>(r#"shapes::En490"#, const { &Ty::Msg(486, &[]) }, "shapes"));
to.push(root::<shapes::En495>(r#"shapes::En495"#, const { &Ty::Msg(487, &[]) }, "shapes"));
to.push(state_root::<shapes::En500>(r#"shapes::En500"#, const { &Ty::Msg(488, &[]) }, "shapes"));
to.push(state_root::<shapes::En505>(r#"shapes::En505"#, const { &Ty::Msg(489, &[]) }, "shapes"));
to.push(root::<shapes::En510>(r#"shapes::En510"#, const { &Ty::Msg(490, &[]) }, "shapes"));
to.push(state_root::<shapes::En515>(r#"shapes::En515"#, const { &Ty::Msg(491, &[]) }, "shapes"));
to.push(state_root::<shapes::En520>(r#"shapes::En520"#, const { &Ty::Msg(492, &[]) }, "shapes"));
to.push(root::<shapes::En525>(r#"shapes::En525"#, const { &Ty::Msg(493, &[]) }, "shapes"));
to.push(state_root::<shapes::En530>(r#"shapes::En530"#, const { &Ty::Msg(494, &[]) }, "shapes"));
to.push(state_root::<shapes::En535>(r#"shapes::En535"#, const { &Ty::Msg(495, &[]) }, "shapes"));
to.push(root::<shapes::En540>(r#"shapes::En540"#, const { &Ty::Msg(496, &[]) }, "shapes"));
to.push(state_root::<shapes::En545>(r#"shapes::En545"#, const { &Ty::Msg(497, &[]) }, "shapes"));
to.push(state_root::<shapes::En550>(r#"shapes::En550"#, const { &Ty::Msg(498, &[]) }, "shapes"));
to.push(root::<shapes::En555>(r#"shapes::En555"#, const { &Ty::Msg(499, &[]) }, "shapes"));
to.push(state_root::<shapes::En560>(r#"shapes::En560"#, const { &Ty::Msg(500, &[]) }, "shapes"));
to.push(state_root::<shapes::En565>(r#"shapes::En565"#, const { &Ty::Msg(501, &[]) }, "shapes"));
}
fn roots5(to: &mut Vec<Root>) {
to.push(root::<shapes::En570>(r#"shapes::En570"#, const { &Ty::Msg(502, &[]) }, "shapes"));
to.push(state_root::<shapes::En575>(r#"shapes::En575"#, const { &Ty::Msg(503, &[]) }, "shapes"));
to.push(state_root::<shapes::En580>(r#"shapes::En580"#, const { &Ty::Msg(504, &[]) }, "shapes"));
to.push(root::<shapes::En585>(r#"shapes::En585"#, const { &Ty::Msg(505, &[]) }, "shapes"));
to.push(state_root::<shapes::En590>(r#"shapes::En590"#, const { &Ty::Msg(506, &[]) }, "shapes"));
to.push(state_root::<shapes::En595>(r#"shapes::En595"#, const { &Ty::Msg(507, &[]) }, "shapes"));
to.push(root::<shapes::En600>(r#"shapes::En600"#, const { &Ty::Msg(508, &[]) }, "shapes"));
to.push(state_root::<shapes::En605>(r#"shapes::En605"#, const { &Ty::Msg(509, &[]) }, "shapes"));
to.push(state_root::<shapes::En610>(r#"shapes::En610"#, const { &Ty::Msg(510, &[]) }, "shapes"));
to.push(root::<shapes::En615>(r#"shapes::En615"#, const { &Ty::Msg(511, &[]) }, "shapes"));
to.push(state_root::<shapes::En620>(r#"shapes::En620"#, const { &Ty::Msg(512, &[]) }, "shapes"));
to.push(state_root::<shapes::En625>(r#"shapes::En625"#, const { &Ty::Msg(513, &[]) }, "shapes"));
to.push(root::<shapes::En630>(r#"shapes::En630"#, const { &Ty::Msg(514, &[]) }, "shapes"));
to.push(state_root::<shapes::En635>(r#"shapes::En635"#, const { &Ty::Msg(515, &[]) }, "shapes"));
to.push(state_root::<shapes::En640>(r#"shapes::En640"#, const { &Ty::Msg(516, &[]) }, "shapes"));
to.push(root::<shapes::En645>(r#"shapes::En645"#, const { &Ty::Msg(517, &[]) }, "shapes"));
to.push(state_root::<shapes::En650>(r#"shapes::En650"#, const { &Ty::Msg(518, &[]) }, "shapes"));
to.push(state_root::<shapes::En655>(r#"shapes::En655"#, const { &Ty::Msg(519, &[]) }, "shapes"));
to.push(root::<shapes::En660>(r#"shapes::En660"#, const { &Ty::Msg(520, &[]) }, "shapes"));
to.push(state_root::<shapes::En665>(r#"shapes::En665"#, const { &Ty::Msg(521, &[]) }, "shapes"));
to.push(state_root::<shapes::En670>(r#"shapes::En670"#, const { &Ty::Msg(522, &[]) }, "shapes"));
to.push(root::<shapes::En675>(r#"shapes::En675"#, const { &Ty::Msg(523, &[]) }, "shapes"));
to.push(state_root::<shapes::En680>(r#"shapes::En680"#, const { &Ty::Msg(524, &[]) }, "shapes"));
to.push(state_root::<shapes::En685>(r#"shapes::En685"#, const { &Ty::Msg(525, &[]) }, "shapes"));
to.push(root::<shapes::En690>(r#"shapes::En690"#, const { &Ty::Msg(526, &[]) }, "shapes"));
to.push(state_root::<shapes::En695>(r#"shapes::En695"#, const { &Ty::Msg(527, &[]) }, "shapes"));
to.push(state_root::<shapes::En700>(r#"shapes::En700"#, const { &Ty::Msg(528, &[]) }, "shapes"));
to.push(root::<shapes::En705>(r#"shapes::En705"#, const { &Ty::Msg(529, &[]) }, "shapes"));
to.push(state_root::<names::Na0>(r#"names::Na0"#, const { &Ty::Msg(530, &[]) }, "names"));
to.push(state_root::<names::Na1>(r#"names::Na1"#, const { &Ty::Msg(531, &[]) }, "names"));
to.push(state_root::<names::Na2>(r#"names::Na2"#, const { &Ty::Msg(532, &[]) }, "names"));
to.push(state_root::<names::Na3>(r#"names::Na3"#, const { &Ty::Msg(533, &[]) }, "names"));
to.push(state_root::<names::Na4>(r#"names::Na4"#, const { &Ty::Msg(534, &[]) }, "names"));
to.push(state_root::<names::Na5>(r#"names::Na5"#, const { &Ty::Msg(535, &[]) }, "names"));
to.push(state_root::<names::Na6>(r#"names::Na6"#, const { &Ty::Msg(536, &[]) }, "names"));
to.push(state_root::<names::Na7>(r#"names::Na7"#, const { &Ty::Msg(537, &[]) }, "names"));
to.push(state_root::<names::Nb0>(r#"names::Nb0"#, const { &Ty::Msg(538, &[]) }, "names"));
to.push(state_root::<names::Nb1>(r#"names::Nb1"#, const { &Ty::Msg(539, &[]) }, "names"));
to.push(state_root::<names::Nb2>(r#"names::Nb2"#, const { &Ty::Msg(540, &[]) }, "names"));
to.push(state_root::<names::Nb3>(r#"names::Nb3"#, const { &Ty::Msg(541, &[]) }, "names"));
to.push(state_root::<names::Nb4>(r#"names::Nb4"#, const { &Ty::Msg(542, &[]) }, "names"));
to.push(state_root::<names::Nb5>(r#"names::Nb5"#, const { &Ty::Msg(543, &[]) }, "names"));
to.push(state_root::<names::Nb6>(r#"names::Nb6"#, const { &Ty::Msg(544, &[]) }, "names"));
to.push(state_root::<names::Nb7>(r#"names::Nb7"#, const { &Ty::Msg(545, &[]) }, "names"));
to.push(state_root::<names::Nb8>(r#"names::Nb8"#, const { &Ty::Msg(546, &[]) }, "names"));
to.push(state_root::<names::Nb9>(r#"names::Nb9"#, const { &Ty::Msg(547, &[]) }, "names"));
to.push(state_root::<names::Nb10>(r#"names::Nb10"#, const { &Ty::Msg(548, &[]) }, "names"));
to.push(state_root::<names::Nb11>(r#"names::Nb11"#, const { &Ty::Msg(549, &[]) }, "names"));
to.push(state_root::<names::Nb12>(r#"names::Nb12"#, const { &Ty::Msg(550, &[]) }, "names"));
to.push(state_root::<names::Nb13>(r#"names::Nb13"#, const { &Ty::Msg(551, &[]) }, "names"));
to.push(state_root::<names::Nb14>(r#"names::Nb14"#, const { &Ty::Msg(552, &[]) }, "names"));
to.push(state_root::<names::Nb15>(r#"names::Nb15"#, const { &Ty::Msg(553, &[]) }, "names"));
to.push(state_root::<names::Nb16>(r#"names::Nb16"#, const { &Ty::Msg(554, &[]) }, "names"));
to.push(state_root::<names::Nb17>(r#"names::Nb17"#, const { &Ty::Msg(555, &[]) }, "names"));
to.push(state_root::<names::Nb18>(r#"names::Nb18"#, const { &Ty::Msg(556, &[]) }, "names"));
to.push(state_root::<names::Nb19>(r#"names::Nb19"#, const { &Ty::Msg(557, &[]) }, "names"));
to.push(state_root::<names::Nb20>(r#"names::Nb20"#, const { &Ty::Msg(558, &[]) }, "names"));
to.push(state_root::<names::Nb21>(r#"names::Nb21"#, const { &Ty::Msg(559, &[]) }, "names"));
to.push(state_root::<names::Nb22>(r#"names::Nb22"#, const { &Ty::Msg(560, &[]) }, "names"));
to.push(state_root::<names::Nb23>(r#"names::Nb23"#, const { &Ty::Msg(561, &[]) }, "names"));
to.push(state_root::<names::Nb24>(r#"names::Nb24"#, const { &Ty::Msg(562, &[]) }, "names"));
to.push(state_root::<names::Nb25>(r#"names::Nb25"#, const { &Ty::Msg(563, &[]) }, "names"));
to.push(state_root::<names::Nb26>(r#"names::Nb26"#, const { &Ty::Msg(564, &[]) }, "names"));
to.push(state_root::<names::Nb27>(r#"names::Nb27"#, const { &Ty::Msg(565, &[]) }, "names"));
to.push(state_root::<names::Nb28>(r#"names::Nb28"#, const { &Ty::Msg(566, &[]) }, "names"));
to.push(state_root::<names::Nb29>(r#"names::Nb29"#, const { &Ty::Msg(567, &[]) }, "names"));
to.push(state_root::<names::Nb30>(r#"names::Nb30"#, const { &Ty::Msg(568, &[]) }, "names"));
to.push(state_root::<names::Nb31>(r#"names::Nb31"#, const { &Ty::Msg(569, &[]) }, "names"));
to.push(state_root::<names::Nc0>(r#"names::Nc0"#, const { &Ty::Msg(570, &[]) }, "names"));
to.push(state_root::<names::Nc1>(r#"names::Nc1"#, const { &Ty::Msg(571, &[]) }, "names"));
to.push(state_root::<names::Nc2>(r#"names::Nc2"#, const { &Ty::Msg(572, &[]) }, "names"));
to.push(state_root::<G0<u8>>(r#"G0<u8>"#, const { &Ty::Msg(6, &[Ty::Prim("u8")]) }, "generic"));
to.push(state_root::<G0<bool>>(r#"G0<bool>"#, const { &Ty::Msg(6, &[Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<G0<i64>>(r#"G0<i64>"#, const { &Ty::Msg(6, &[Ty::Prim("i64")]) }, "generic"));
to.push(state_root::<G0<S0>>(r#"G0<S0>"#, const { &Ty::Msg(6, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<G0<S1>>(r#"G0<S1>"#, const { &Ty::Msg(6, &[Ty::Msg(3, &[])]) }, "generic"));
to.push(state_root::<G0<E0>>(r#"G0<E0>"#, const { &Ty::Msg(6, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<G0<List<S1>>>(r#"G0<List<S1>>"#, const { &Ty::Msg(6, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<G0<Map<u16, S0>>>(r#"G0<Map<u16, S0>>"#, const { &Ty::Msg(6, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<G0<G0<u8>>>(r#"G0<G0<u8>>"#, const { &Ty::Msg(6, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(state_root::<G0<G0<S1>>>(r#"G0<G0<S1>>"#, const { &Ty::Msg(6, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<G0<Maybe<S1>>>(r#"G0<Maybe<S1>>"#, const { &Ty::Msg(6, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<G0<Box<S1>>>(r#"G0<Box<S1>>"#, const { &Ty::Msg(6, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G3<u8>>(r#"generic::G3<u8>"#, const { &Ty::Msg(575, &[Ty::Prim("u8")]) }, "generic"));
to.push(state_root::<generic::G3<bool>>(r#"generic::G3<bool>"#, const { &Ty::Msg(575, &[Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G3<i64>>(r#"generic::G3<i64>"#, const { &Ty::Msg(575, &[Ty::Prim("i64")]) }, "generic"));
to.push(state_root::<generic::G3<S0>>(r#"generic::G3<S0>"#, const { &Ty::Msg(575, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G3<S1>>(r#"generic::G3<S1>"#, const { &Ty::Msg(575, &[Ty::Msg(3, &[])]) }, "generic"));
to.push(state_root::<generic::G3<E0>>(r#"generic::G3<E0>"#, const { &Ty::Msg(575, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G3<List<S1>>>(r#"generic::G3<List<S1>>"#, const { &Ty::Msg(575, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G3<Map<u16, S0>>>(r#"generic::G3<Map<u16, S0>>"#, const { &Ty::Msg(575, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G3<G0<u8>>>(r#"generic::G3<G0<u8>>"#, const { &Ty::Msg(575, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(state_root::<generic::G3<G0<S1>>>(r#"generic::G3<G0<S1>>"#, const { &Ty::Msg(575, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G3<Maybe<S1>>>(r#"generic::G3<Maybe<S1>>"#, const { &Ty::Msg(575, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G3<Box<S1>>>(r#"generic::G3<Box<S1>>"#, const { &Ty::Msg(575, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G4<u8>>(r#"generic::G4<u8>"#, const { &Ty::Msg(576, &[Ty::Prim("u8")]) }, "generic"));
to.push(state_root::<generic::G4<bool>>(r#"generic::G4<bool>"#, const { &Ty::Msg(576, &[Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G4<i64>>(r#"generic::G4<i64>"#, const { &Ty::Msg(576, &[Ty::Prim("i64")]) }, "generic"));
to.push(state_root::<generic::G4<S0>>(r#"generic::G4<S0>"#, const { &Ty::Msg(576, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G4<S1>>(r#"generic::G4<S1>"#, const { &Ty::Msg(576, &[Ty::Msg(3, &[])]) }, "generic"));
}
fn roots6(to: &mut Vec<Root>) {
to.push(state_root::<generic::G4<E0>>(r#"generic::G4<E0>"#, const { &Ty::Msg(576, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G4<List<S1>>>(r#"generic::G4<List<S1>>"#, const { &Ty::Msg(576, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G4<Map<u16, S0>>>(r#"generic::G4<Map<u16, S0>>"#, const { &Ty::Msg(576, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G4<G0<u8>>>(r#"generic::G4<G0<u8>>"#, const { &Ty::Msg(576, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(state_root::<generic::G4<G0<S1>>>(r#"generic::G4<G0<S1>>"#, const { &Ty::Msg(576, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G4<Maybe<S1>>>(r#"generic::G4<Maybe<S1>>"#, const { &Ty::Msg(576, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G4<Box<S1>>>(r#"generic::G4<Box<S1>>"#, const { &Ty::Msg(576, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G6<u8>>(r#"generic::G6<u8>"#, const { &Ty::Msg(578, &[Ty::Prim("u8")]) }, "generic"));
to.push(state_root::<generic::G6<bool>>(r#"generic::G6<bool>"#, const { &Ty::Msg(578, &[Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G6<i64>>(r#"generic::G6<i64>"#, const { &Ty::Msg(578, &[Ty::Prim("i64")]) }, "generic"));
to.push(state_root::<generic::G6<S0>>(r#"generic::G6<S0>"#, const { &Ty::Msg(578, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G6<S1>>(r#"generic::G6<S1>"#, const { &Ty::Msg(578, &[Ty::Msg(3, &[])]) }, "generic"));
to.push(state_root::<generic::G6<E0>>(r#"generic::G6<E0>"#, const { &Ty::Msg(578, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G6<List<S1>>>(r#"generic::G6<List<S1>>"#, const { &Ty::Msg(578, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G6<Map<u16, S0>>>(r#"generic::G6<Map<u16, S0>>"#, const { &Ty::Msg(578, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G6<G0<u8>>>(r#"generic::G6<G0<u8>>"#, const { &Ty::Msg(578, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(state_root::<generic::G6<G0<S1>>>(r#"generic::G6<G0<S1>>"#, const { &Ty::Msg(578, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G6<Maybe<S1>>>(r#"generic::G6<Maybe<S1>>"#, const { &Ty::Msg(578, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G6<Box<S1>>>(r#"generic::G6<Box<S1>>"#, const { &Ty::Msg(578, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G7<u8>>(r#"generic::G7<u8>"#, const { &Ty::Msg(579, &[Ty::Prim("u8")]) }, "generic"));
to.push(state_root::<generic::G7<bool>>(r#"generic::G7<bool>"#, const { &Ty::Msg(579, &[Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G7<i64>>(r#"generic::G7<i64>"#, const { &Ty::Msg(579, &[Ty::Prim("i64")]) }, "generic"));
to.push(state_root::<generic::G7<S0>>(r#"generic::G7<S0>"#, const { &Ty::Msg(579, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G7<S1>>(r#"generic::G7<S1>"#, const { &Ty::Msg(579, &[Ty::Msg(3, &[])]) }, "generic"));
to.push(state_root::<generic::G7<E0>>(r#"generic::G7<E0>"#, const { &Ty::Msg(579, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G7<List<S1>>>(r#"generic::G7<List<S1>>"#, const { &Ty::Msg(579, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G7<Map<u16, S0>>>(r#"generic::G7<Map<u16, S0>>"#, const { &Ty::Msg(579, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G7<G0<u8>>>(r#"generic::G7<G0<u8>>"#, const { &Ty::Msg(579, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(state_root::<generic::G7<G0<S1>>>(r#"generic::G7<G0<S1>>"#, const { &Ty::Msg(579, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G7<Maybe<S1>>>(r#"generic::G7<Maybe<S1>>"#, const { &Ty::Msg(579, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G7<Box<S1>>>(r#"generic::G7<Box<S1>>"#, const { &Ty::Msg(579, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(root::<generic::G2<u8>>(r#"generic::G2<u8>"#, const { &Ty::Msg(574, &[Ty::Prim("u8")]) }, "generic"));
to.push(root::<generic::G2<bool>>(r#"generic::G2<bool>"#, const { &Ty::Msg(574, &[Ty::Prim("bool")]) }, "generic"));
to.push(root::<generic::G2<i64>>(r#"generic::G2<i64>"#, const { &Ty::Msg(574, &[Ty::Prim("i64")]) }, "generic"));
to.push(root::<generic::G2<S0>>(r#"generic::G2<S0>"#, const { &Ty::Msg(574, &[Ty::Msg(2, &[])]) }, "generic"));
to.push(root::<generic::G2<S1>>(r#"generic::G2<S1>"#, const { &Ty::Msg(574, &[Ty::Msg(3, &[])]) }, "generic"));
to.push(root::<generic::G2<E0>>(r#"generic::G2<E0>"#, const { &Ty::Msg(574, &[Ty::Msg(4, &[])]) }, "generic"));
to.push(root::<generic::G2<List<S1>>>(r#"generic::G2<List<S1>>"#, const { &Ty::Msg(574, &[Ty::List(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(root::<generic::G2<Map<u16, S0>>>(r#"generic::G2<Map<u16, S0>>"#, const { &Ty::Msg(574, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(root::<generic::G2<G0<u8>>>(r#"generic::G2<G0<u8>>"#, const { &Ty::Msg(574, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "generic"));
to.push(root::<generic::G2<G0<S1>>>(r#"generic::G2<G0<S1>>"#, const { &Ty::Msg(574, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(root::<generic::G2<Maybe<S1>>>(r#"generic::G2<Maybe<S1>>"#, const { &Ty::Msg(574, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(root::<generic::G2<Box<S1>>>(r#"generic::G2<Box<S1>>"#, const { &Ty::Msg(574, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(root::<generic::G2<String>>(r#"generic::G2<String>"#, const { &Ty::Msg(574, &[Ty::Prim("String")]) }, "generic"));
to.push(root::<generic::G2<Vec<S1>>>(r#"generic::G2<Vec<S1>>"#, const { &Ty::Msg(574, &[Ty::Vec(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(root::<generic::G2<Option<u8>>>(r#"generic::G2<Option<u8>>"#, const { &Ty::Msg(574, &[Ty::Opt(&Ty::Prim("u8"))]) }, "generic"));
to.push(root::<generic::G2<Bytes>>(r#"generic::G2<Bytes>"#, const { &Ty::Msg(574, &[Ty::Bytes]) }, "generic"));
to.push(root::<generic::G2<D0>>(r#"generic::G2<D0>"#, const { &Ty::Msg(574, &[Ty::Msg(5, &[])]) }, "generic"));
to.push(state_root::<generic::G1<u8, bool>>(r#"generic::G1<u8, bool>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<u8, S0>>(r#"generic::G1<u8, S0>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<u8, E0>>(r#"generic::G1<u8, E0>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<u8, Map<u16, S0>>>(r#"generic::G1<u8, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<u8, G0<S1>>>(r#"generic::G1<u8, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<u8, Box<S1>>>(r#"generic::G1<u8, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::Prim("u8"), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<i64, bool>>(r#"generic::G1<i64, bool>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<i64, S0>>(r#"generic::G1<i64, S0>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<i64, E0>>(r#"generic::G1<i64, E0>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<i64, Map<u16, S0>>>(r#"generic::G1<i64, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<i64, G0<S1>>>(r#"generic::G1<i64, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<i64, Box<S1>>>(r#"generic::G1<i64, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::Prim("i64"), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<S1, bool>>(r#"generic::G1<S1, bool>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<S1, S0>>(r#"generic::G1<S1, S0>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<S1, E0>>(r#"generic::G1<S1, E0>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<S1, Map<u16, S0>>>(r#"generic::G1<S1, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<S1, G0<S1>>>(r#"generic::G1<S1, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<S1, Box<S1>>>(r#"generic::G1<S1, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(3, &[]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, bool>>(r#"generic::G1<List<S1>, bool>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, S0>>(r#"generic::G1<List<S1>, S0>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, E0>>(r#"generic::G1<List<S1>, E0>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, Map<u16, S0>>>(r#"generic::G1<List<S1>, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, G0<S1>>>(r#"generic::G1<List<S1>, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<List<S1>, Box<S1>>>(r#"generic::G1<List<S1>, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::List(&Ty::Msg(3, &[])), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, bool>>(r#"generic::G1<G0<u8>, bool>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, S0>>(r#"generic::G1<G0<u8>, S0>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, E0>>(r#"generic::G1<G0<u8>, E0>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, Map<u16, S0>>>(r#"generic::G1<G0<u8>, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, G0<S1>>>(r#"generic::G1<G0<u8>, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<G0<u8>, Box<S1>>>(r#"generic::G1<G0<u8>, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, bool>>(r#"generic::G1<Maybe<S1>, bool>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, S0>>(r#"generic::G1<Maybe<S1>, S0>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, E0>>(r#"generic::G1<Maybe<S1>, E0>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, Map<u16, S0>>>(r#"generic::G1<Maybe<S1>, Map<u16, S0>>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, G0<S1>>>(r#"generic::G1<Maybe<S1>, G0<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G1<Maybe<S1>, Box<S1>>>(r#"generic::G1<Maybe<S1>, Box<S1>>"#, const { &Ty::Msg(573, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<u8, bool>>(r#"generic::G5<u8, bool>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<u8, S0>>(r#"generic::G5<u8, S0>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<u8, E0>>(r#"generic::G5<u8, E0>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<u8, Map<u16, S0>>>(r#"generic::G5<u8, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<u8, G0<S1>>>(r#"generic::G5<u8, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<u8, Box<S1>>>(r#"generic::G5<u8, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::Prim("u8"), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<i64, bool>>(r#"generic::G5<i64, bool>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<i64, S0>>(r#"generic::G5<i64, S0>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<i64, E0>>(r#"generic::G5<i64, E0>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<i64, Map<u16, S0>>>(r#"generic::G5<i64, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<i64, G0<S1>>>(r#"generic::G5<i64, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<i64, Box<S1>>>(r#"generic::G5<i64, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::Prim("i64"), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<S1, bool>>(r#"generic::G5<S1, bool>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<S1, S0>>(r#"generic::G5<S1, S0>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<S1, E0>>(r#"generic::G5<S1, E0>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<S1, Map<u16, S0>>>(r#"generic::G5<S1, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
}
fn roots7(to: &mut Vec<Root>) {
to.push(state_root::<generic::G5<S1, G0<S1>>>(r#"generic::G5<S1, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<S1, Box<S1>>>(r#"generic::G5<S1, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(3, &[]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, bool>>(r#"generic::G5<List<S1>, bool>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, S0>>(r#"generic::G5<List<S1>, S0>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, E0>>(r#"generic::G5<List<S1>, E0>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, Map<u16, S0>>>(r#"generic::G5<List<S1>, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, G0<S1>>>(r#"generic::G5<List<S1>, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<List<S1>, Box<S1>>>(r#"generic::G5<List<S1>, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::List(&Ty::Msg(3, &[])), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, bool>>(r#"generic::G5<G0<u8>, bool>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, S0>>(r#"generic::G5<G0<u8>, S0>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, E0>>(r#"generic::G5<G0<u8>, E0>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, Map<u16, S0>>>(r#"generic::G5<G0<u8>, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, G0<S1>>>(r#"generic::G5<G0<u8>, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<G0<u8>, Box<S1>>>(r#"generic::G5<G0<u8>, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(6, &[Ty::Prim("u8")]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, bool>>(r#"generic::G5<Maybe<S1>, bool>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Prim("bool")]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, S0>>(r#"generic::G5<Maybe<S1>, S0>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(2, &[])]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, E0>>(r#"generic::G5<Maybe<S1>, E0>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(4, &[])]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, Map<u16, S0>>>(r#"generic::G5<Maybe<S1>, Map<u16, S0>>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, G0<S1>>>(r#"generic::G5<Maybe<S1>, G0<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "generic"));
to.push(state_root::<generic::G5<Maybe<S1>, Box<S1>>>(r#"generic::G5<Maybe<S1>, Box<S1>>"#, const { &Ty::Msg(577, &[Ty::Msg(0, &[Ty::Msg(3, &[])]), Ty::Box(&Ty::Msg(3, &[]))]) }, "generic"));
to.push(state_root::<Maybe<u8>>(r#"Maybe<u8>"#, const { &Ty::Msg(0, &[Ty::Prim("u8")]) }, "builtin"));
to.push(state_root::<Maybe<bool>>(r#"Maybe<bool>"#, const { &Ty::Msg(0, &[Ty::Prim("bool")]) }, "builtin"));
to.push(state_root::<Maybe<i64>>(r#"Maybe<i64>"#, const { &Ty::Msg(0, &[Ty::Prim("i64")]) }, "builtin"));
to.push(state_root::<Maybe<S0>>(r#"Maybe<S0>"#, const { &Ty::Msg(0, &[Ty::Msg(2, &[])]) }, "builtin"));
to.push(state_root::<Maybe<S1>>(r#"Maybe<S1>"#, const { &Ty::Msg(0, &[Ty::Msg(3, &[])]) }, "builtin"));
to.push(state_root::<Maybe<E0>>(r#"Maybe<E0>"#, const { &Ty::Msg(0, &[Ty::Msg(4, &[])]) }, "builtin"));
to.push(state_root::<Maybe<List<S1>>>(r#"Maybe<List<S1>>"#, const { &Ty::Msg(0, &[Ty::List(&Ty::Msg(3, &[]))]) }, "builtin"));
to.push(state_root::<Maybe<Map<u16, S0>>>(r#"Maybe<Map<u16, S0>>"#, const { &Ty::Msg(0, &[Ty::Map("u16", &Ty::Msg(2, &[]))]) }, "builtin"));
to.push(state_root::<Maybe<G0<u8>>>(r#"Maybe<G0<u8>>"#, const { &Ty::Msg(0, &[Ty::Msg(6, &[Ty::Prim("u8")])]) }, "builtin"));
to.push(state_root::<Maybe<G0<S1>>>(r#"Maybe<G0<S1>>"#, const { &Ty::Msg(0, &[Ty::Msg(6, &[Ty::Msg(3, &[])])]) }, "builtin"));
to.push(state_root::<Maybe<Maybe<S1>>>(r#"Maybe<Maybe<S1>>"#, const { &Ty::Msg(0, &[Ty::Msg(0, &[Ty::Msg(3, &[])])]) }, "builtin"));
to.push(state_root::<Maybe<Box<S1>>>(r#"Maybe<Box<S1>>"#, const { &Ty::Msg(0, &[Ty::Box(&Ty::Msg(3, &[]))]) }, "builtin"));
to.push(state_root::<generic::User0>(r#"generic::User0"#, const { &Ty::Msg(580, &[]) }, "generic"));
to.push(state_root::<generic::User1>(r#"generic::User1"#, const { &Ty::Msg(581, &[]) }, "generic"));
to.push(state_root::<generic::User2>(r#"generic::User2"#, const { &Ty::Msg(582, &[]) }, "generic"));
to.push(state_root::<generic::User3>(r#"generic::User3"#, const { &Ty::Msg(583, &[]) }, "generic"));
to.push(state_root::<generic::User4>(r#"generic::User4"#, const { &Ty::Msg(584, &[]) }, "generic"));
to.push(state_root::<generic::User5>(r#"generic::User5"#, const { &Ty::Msg(585, &[]) }, "generic"));
to.push(state_root::<generic::User6>(r#"generic::User6"#, const { &Ty::Msg(586, &[]) }, "generic"));
to.push(state_root::<generic::User7>(r#"generic::User7"#, const { &Ty::Msg(587, &[]) }, "generic"));
to.push(state_root::<generic::User8>(r#"generic::User8"#, const { &Ty::Msg(588, &[]) }, "generic"));
to.push(state_root::<generic::User9>(r#"generic::User9"#, const { &Ty::Msg(589, &[]) }, "generic"));
to.push(state_root::<generic::User10>(r#"generic::User10"#, const { &Ty::Msg(590, &[]) }, "generic"));
to.push(state_root::<generic::User11>(r#"generic::User11"#, const { &Ty::Msg(591, &[]) }, "generic"));
to.push(state_root::<generic::User12>(r#"generic::User12"#, const { &Ty::Msg(592, &[]) }, "generic"));
to.push(state_root::<generic::User13>(r#"generic::User13"#, const { &Ty::Msg(593, &[]) }, "generic"));
to.push(state_root::<generic::User14>(r#"generic::User14"#, const { &Ty::Msg(594, &[]) }, "generic"));
to.push(state_root::<generic::User15>(r#"generic::User15"#, const { &Ty::Msg(595, &[]) }, "generic"));
to.push(state_root::<generic::User16>(r#"generic::User16"#, const { &Ty::Msg(596, &[]) }, "generic"));
to.push(state_root::<generic::User17>(r#"generic::User17"#, const { &Ty::Msg(597, &[]) }, "generic"));
to.push(state_root::<generic::User18>(r#"generic::User18"#, const { &Ty::Msg(598, &[]) }, "generic"));
to.push(state_root::<generic::User19>(r#"generic::User19"#, const { &Ty::Msg(599, &[]) }, "generic"));
to.push(state_root::<generic::User20>(r#"generic::User20"#, const { &Ty::Msg(600, &[]) }, "generic"));
to.push(state_root::<generic::User21>(r#"generic::User21"#, const { &Ty::Msg(601, &[]) }, "generic"));
to.push(state_root::<generic::User22>(r#"generic::User22"#, const { &Ty::Msg(602, &[]) }, "generic"));
to.push(state_root::<generic::User23>(r#"generic::User23"#, const { &Ty::Msg(603, &[]) }, "generic"));
to.push(state_root::<generic::User24>(r#"generic::User24"#, const { &Ty::Msg(604, &[]) }, "generic"));
to.push(state_root::<generic::User25>(r#"generic::User25"#, const { &Ty::Msg(605, &[]) }, "generic"));
to.push(state_root::<generic::User26>(r#"generic::User26"#, const { &Ty::Msg(606, &[]) }, "generic"));
to.push(state_root::<generic::User27>(r#"generic::User27"#, const { &Ty::Msg(607, &[]) }, "generic"));
to.push(state_root::<generic::User28>(r#"generic::User28"#, const { &Ty::Msg(608, &[]) }, "generic"));
to.push(state_root::<generic::User29>(r#"generic::User29"#, const { &Ty::Msg(609, &[]) }, "generic"));
to.push(state_root::<generic::User30>(r#"generic::User30"#, const { &Ty::Msg(610, &[]) }, "generic"));
to.push(state_root::<generic::User31>(r#"generic::User31"#, const { &Ty::Msg(611, &[]) }, "generic"));
to.push(state_root::<generic::User32>(r#"generic::User32"#, const { &Ty::Msg(612, &[]) }, "generic"));
to.push(state_root::<generic::User33>(r#"generic::User33"#, const { &Ty::Msg(613, &[]) }, "generic"));
to.push(state_root::<generic::User34>(r#"generic::User34"#, const { &Ty::Msg(614, &[]) }, "generic"));
to.push(state_root::<generic::User35>(r#"generic::User35"#, const { &Ty::Msg(615, &[]) }, "generic"));
to.push(root::<g0::A>(r#"g0::A"#, const { &Ty::Msg(616, &[]) }, "graphs"));
to.push(root::<g0::B>(r#"g0::B"#, const { &Ty::Msg(617, &[]) }, "graphs"));
to.push(root::<g1::A>(r#"g1::A"#, const { &Ty::Msg(618, &[]) }, "graphs"));
to.push(root::<g1::B>(r#"g1::B"#, const { &Ty::Msg(619, &[]) }, "graphs"));
to.push(root::<g2::A>(r#"g2::A"#, const { &Ty::Msg(620, &[]) }, "graphs"));
to.push(root::<g2::B>(r#"g2::B"#, const { &Ty::Msg(621, &[]) }, "graphs"));
to.push(root::<g3::A>(r#"g3::A"#, const { &Ty::Msg(622, &[]) }, "graphs"));
to.push(root::<g3::B>(r#"g3::B"#, const { &Ty::Msg(623, &[]) }, "graphs"));
to.push(root::<g4::A>(r#"g4::A"#, const { &Ty::Msg(624, &[]) }, "graphs"));
to.push(root::<g4::B>(r#"g4::B"#, const { &Ty::Msg(625, &[]) }, "graphs"));
to.push(root::<g5::A>(r#"g5::A"#, const { &Ty::Msg(626, &[]) }, "graphs"));
to.push(root::<g5::B>(r#"g5::B"#, const { &Ty::Msg(627, &[]) }, "graphs"));
to.push(root::<g6::A>(r#"g6::A"#, const { &Ty::Msg(628, &[]) }, "graphs"));
to.push(root::<g6::B>(r#"g6::B"#, const { &Ty::Msg(629, &[]) }, "graphs"));
to.push(root::<g7::A>(r#"g7::A"#, const { &Ty::Msg(630, &[]) }, "graphs"));
to.push(root::<g7::B>(r#"g7::B"#, const { &Ty::Msg(631, &[]) }, "graphs"));
to.push(state_root::<g8::A>(r#"g8::A"#, const { &Ty::Msg(632, &[]) }, "graphs"));
to.push(state_root::<g8::B>(r#"g8::B"#, const { &Ty::Msg(633, &[]) }, "graphs"));
to.push(state_root::<g9::A>(r#"g9::A"#, const { &Ty::Msg(634, &[]) }, "graphs"));
to.push(state_root::<g9::B>(r#"g9::B"#, const { &Ty::Msg(635, &[]) }, "graphs"));
to.push(state_root::<g10::A>(r#"g10::A"#, const { &Ty::Msg(636, &[]) }, "graphs"));
to.push(state_root::<g10::B>(r#"g10::B"#, const { &Ty::Msg(637, &[]) }, "graphs"));
to.push(state_root::<g11::A>(r#"g11::A"#, const { &Ty::Msg(638, &[]) }, "graphs"));
to.push(state_root::<g11::B>(r#"g11::B"#, const { &Ty::Msg(639, &[]) }, "graphs"));
to.push(state_root::<g12::A>(r#"g12::A"#, const { &Ty::Msg(640, &[]) }, "graphs"));
to.push(state_root::<g12::B>(r#"g12::B"#, const { &Ty::Msg(641, &[]) }, "graphs"));
to.push(state_root::<g13::A>(r#"g13::A"#, const { &Ty::Msg(642, &[]) }, "graphs"));
to.push(state_root::<g13::B>(r#"g13::B"#, const { &Ty::Msg(643, &[]) }, "graphs"));
to.push(state_root::<g14::A>(r#"g14::A"#, const { &Ty::Msg(644, &[]) }, "graphs"));
to.push(state_root::<g14::B>(r#"g14::B"#, const { &Ty::Msg(645, &[]) }, "graphs"));
to.push(state_root::<g15::A>(r#"g15::A"#, const { &Ty::Msg(646, &[]) }, "graphs"));
to.push(state_root::<g15::B>(r#"g15::B"#, const { &Ty::Msg(647, &[]) }, "graphs"));
}
fn roots8(to: &mut Vec<Root>) {
to.push(root::<g16::A>(r#"g16::A"#, const { &Ty::Msg(648, &[]) }, "graphs"));
to.push(root::<g16::B>(r#"g16::B"#, const { &Ty::Msg(649, &[]) }, "graphs"));
to.push(root::<g17::A>(r#"g17::A"#, const { &Ty::Msg(650, &[]) }, "graphs"));
to.push(root::<g17::B>(r#"g17::B"#, const { &Ty::Msg(651, &[]) }, "graphs"));
to.push(root::<g18::A>(r#"g18::A"#, const { &Ty::Msg(652, &[]) }, "graphs"));
to.push(root::<g18::B>(r#"g18::B"#, const { &Ty::Msg(653, &[]) }, "graphs"));
to.push(root::<g19::A>(r#"g19::A"#, const { &Ty::Msg(654, &[]) }, "graphs"));
to.push(root::<g19::B>(r#"g19::B"#, const { &Ty::Msg(655, &[]) }, "graphs"));
to.push(root::<g20::A>(r#"g20::A"#, const { &Ty::Msg(656, &[]) }, "graphs"));
to.push(root::<g20::B>(r#"g20::B"#, const { &Ty::Msg(657, &[]) }, "graphs"));
to.push(root::<g21::A>(r#"g21::A"#, const { &Ty::Msg(658, &[]) }, "graphs"));
to.push(root::<g21::B>(r#"g21::B"#, const { &Ty::Msg(659, &[]) }, "graphs"));
to.push(root::<g22::A>(r#"g22::A"#, const { &Ty::Msg(660, &[]) }, "graphs"));
to.push(root::<g22::B>(r#"g22::B"#, const { &Ty::Msg(661, &[]) }, "graphs"));
to.push(root::<g23::A>(r#"g23::A"#, const { &Ty::Msg(662, &[]) }, "graphs"));
to.push(root::<g23::B>(r#"g23::B"#, const { &Ty::Msg(663, &[]) }, "graphs"));
to.push(root::<g24::A>(r#"g24::A"#, const { &Ty::Msg(664, &[]) }, "graphs"));
to.push(root::<g24::B>(r#"g24::B"#, const { &Ty::Msg(665, &[]) }, "graphs"));
to.push(root::<g25::A>(r#"g25::A"#, const { &Ty::Msg(666, &[]) }, "graphs"));
to.push(root::<g25::B>(r#"g25::B"#, const { &Ty::Msg(667, &[]) }, "graphs"));
to.push(root::<g26::A>(r#"g26::A"#, const { &Ty::Msg(668, &[]) }, "graphs"));
to.push(root::<g26::B>(r#"g26::B"#, const { &Ty::Msg(669, &[]) }, "graphs"));
to.push(root::<g27::A>(r#"g27::A"#, const { &Ty::Msg(670, &[]) }, "graphs"));
to.push(root::<g27::B>(r#"g27::B"#, const { &Ty::Msg(671, &[]) }, "graphs"));
to.push(state_root::<g28::A>(r#"g28::A"#, const { &Ty::Msg(672, &[]) }, "graphs"));
to.push(state_root::<g28::B>(r#"g28::B"#, const { &Ty::Msg(673, &[]) }, "graphs"));
to.push(state_root::<g29::A>(r#"g29::A"#, const { &Ty::Msg(674, &[]) }, "graphs"));
to.push(state_root::<g29::B>(r#"g29::B"#, const { &Ty::Msg(675, &[]) }, "graphs"));
to.push(state_root::<g30::A>(r#"g30::A"#, const { &Ty::Msg(676, &[]) }, "graphs"));
to.push(state_root::<g30::B>(r#"g30::B"#, const { &Ty::Msg(677, &[]) }, "graphs"));
to.push(state_root::<g31::A>(r#"g31::A"#, const { &Ty::Msg(678, &[]) }, "graphs"));
to.push(state_root::<g31::B>(r#"g31::B"#, const { &Ty::Msg(679, &[]) }, "graphs"));
to.push(state_root::<g32::A>(r#"g32::A"#, const { &Ty::Msg(680, &[]) }, "graphs"));
to.push(state_root::<g32::B>(r#"g32::B"#, const { &Ty::Msg(681, &[]) }, "graphs"));
to.push(state_root::<g33::A>(r#"g33::A"#, const { &Ty::Msg(682, &[]) }, "graphs"));
to.push(state_root::<g33::B>(r#"g33::B"#, const { &Ty::Msg(683, &[]) }, "graphs"));
to.push(state_root::<g34::A>(r#"g34::A"#, const { &Ty::Msg(684, &[]) }, "graphs"));
to.push(state_root::<g34::B>(r#"g34::B"#, const { &Ty::Msg(685, &[]) }, "graphs"));
to.push(state_root::<g35::A>(r#"g35::A"#, const { &Ty::Msg(686, &[]) }, "graphs"));
to.push(state_root::<g35::B>(r#"g35::B"#, const { &Ty::Msg(687, &[]) }, "graphs"));
to.push(root::<g36::A>(r#"g36::A"#, const { &Ty::Msg(688, &[]) }, "graphs"));
to.push(root::<g36::B>(r#"g36::B"#, const { &Ty::Msg(689, &[]) }, "graphs"));
to.push(root::<g37::A>(r#"g37::A"#, const { &Ty::Msg(690, &[]) }, "graphs"));
to.push(root::<g37::B>(r#"g37::B"#, const { &Ty::Msg(691, &[]) }, "graphs"));
to.push(root::<g38::A>(r#"g38::A"#, const { &Ty::Msg(692, &[]) }, "graphs"));
to.push(root::<g38::B>(r#"g38::B"#, const { &Ty::Msg(693, &[]) }, "graphs"));
to.push(root::<g39::A>(r#"g39::A"#, const { &Ty::Msg(694, &[]) }, "graphs"));
to.push(root::<g39::B>(r#"g39::B"#, const { &Ty::Msg(695, &[]) }, "graphs"));
to.push(root::<g40::A>(r#"g40::A"#, const { &Ty::Msg(696, &[]) }, "graphs"));
to.push(root::<g40::B>(r#"g40::B"#, const { &Ty::Msg(697, &[]) }, "graphs"));
to.push(root::<g41::A>(r#"g41::A"#, const { &Ty::Msg(698, &[]) }, "graphs"));
to.push(root::<g41::B>(r#"g41::B"#, const { &Ty::Msg(699, &[]) }, "graphs"));
to.push(root::<g42::A>(r#"g42::A"#, const { &Ty::Msg(700, &[]) }, "graphs"));
to.push(root::<g42::B>(r#"g42::B"#, const { &Ty::Msg(701, &[]) }, "graphs"));
to.push(root::<g43::A>(r#"g43::A"#, const { &Ty::Msg(702, &[]) }, "graphs"));
to.push(root::<g43::B>(r#"g43::B"#, const { &Ty::Msg(703, &[]) }, "graphs"));
to.push(root::<g44::A>(r#"g44::A"#, const { &Ty::Msg(704, &[]) }, "graphs"));
to.push(root::<g44::B>(r#"g44::B"#, const { &Ty::Msg(705, &[]) }, "graphs"));
to.push(root::<g45::A>(r#"g45::A"#, const { &Ty::Msg(706, &[]) }, "graphs"));
to.push(root::<g45::B>(r#"g45::B"#, const { &Ty::Msg(707, &[]) }, "graphs"));
to.push(root::<g46::A>(r#"g46::A"#, const { &Ty::Msg(708, &[]) }, "graphs"));
to.push(root::<g46::B>(r#"g46::B"#, const { &Ty::Msg(709, &[]) }, "graphs"));
to.push(root::<g47::A>(r#"g47::A"#, const { &Ty::Msg(710, &[]) }, "graphs"));
to.push(root::<g47::B>(r#"g47::B"#, const { &Ty::Msg(711, &[]) }, "graphs"));
to.push(state_root::<g48::A>(r#"g48::A"#, const { &Ty::Msg(712, &[]) }, "graphs"));
to.push(state_root::<g48::B>(r#"g48::B"#, const { &Ty::Msg(713, &[]) }, "graphs"));
to.push(state_root::<g49::A>(r#"g49::A"#, const { &Ty::Msg(714, &[]) }, "graphs"));
to.push(state_root::<g49::B>(r#"g49::B"#, const { &Ty::Msg(715, &[]) }, "graphs"));
to.push(state_root::<g50::A>(r#"g50::A"#, const { &Ty::Msg(716, &[]) }, "graphs"));
to.push(state_root::<g50::B>(r#"g50::B"#, const { &Ty::Msg(717, &[]) }, "graphs"));
to.push(state_root::<g51::A>(r#"g51::A"#, const { &Ty::Msg(718, &[]) }, "graphs"));
to.push(state_root::<g51::B>(r#"g51::B"#, const { &Ty::Msg(719, &[]) }, "graphs"));
to.push(state_root::<g52::A>(r#"g52::A"#, const { &Ty::Msg(720, &[]) }, "graphs"));
to.push(state_root::<g52::B>(r#"g52::B"#, const { &Ty::Msg(721, &[]) }, "graphs"));
to.push(state_root::<g53::A>(r#"g53::A"#, const { &Ty::Msg(722, &[]) }, "graphs"));
to.push(state_root::<g53::B>(r#"g53::B"#, const { &Ty::Msg(723, &[]) }, "graphs"));
to.push(state_root::<g54::A>(r#"g54::A"#, const { &Ty::Msg(724, &[]) }, "graphs"));
to.push(state_root::<g54::B>(r#"g54::B"#, const { &Ty::Msg(725, &[]) }, "graphs"));
to.push(state_root::<g55::A>(r#"g55::A"#, const { &Ty::Msg(726, &[]) }, "graphs"));
to.push(state_root::<g55::B>(r#"g55::B"#, const { &Ty::Msg(727, &[]) }, "graphs"));
to.push(root::<g56::A>(r#"g56::A"#, const { &Ty::Msg(728, &[]) }, "graphs"));
to.push(root::<g56::B>(r#"g56::B"#, const { &Ty::Msg(729, &[]) }, "graphs"));
to.push(root::<g57::A>(r#"g57::A"#, const { &Ty::Msg(730, &[]) }, "graphs"));
to.push(root::<g57::B>(r#"g57::B"#, const { &Ty::Msg(731, &[]) }, "graphs"));
to.push(root::<g58::A>(r#"g58::A"#, const { &Ty::Msg(732, &[]) }, "graphs"));
to.push(root::<g58::B>(r#"g58::B"#, const { &Ty::Msg(733, &[]) }, "graphs"));
to.push(root::<g59::A>(r#"g59::A"#, const { &Ty::Msg(734, &[]) }, "graphs"));
to.push(root::<g59::B>(r#"g59::B"#, const { &Ty::Msg(735, &[]) }, "graphs"));
to.push(root::<g60::A>(r#"g60::A"#, const { &Ty::Msg(736, &[]) }, "graphs"));
to.push(root::<g60::B>(r#"g60::B"#, const { &Ty::Msg(737, &[]) }, "graphs"));
to.push(root::<g61::A>(r#"g61::A"#, const { &Ty::Msg(738, &[]) }, "graphs"));
to.push(root::<g61::B>(r#"g61::B"#, const { &Ty::Msg(739, &[]) }, "graphs"));
to.push(root::<g62::A>(r#"g62::A"#, const { &Ty::Msg(740, &[]) }, "graphs"));
to.push(root::<g62::B>(r#"g62::B"#, const { &Ty::Msg(741, &[]) }, "graphs"));
to.push(root::<g63::A>(r#"g63::A"#, const { &Ty::Msg(742, &[]) }, "graphs"));
to.push(root::<g63::B>(r#"g63::B"#, const { &Ty::Msg(743, &[]) }, "graphs"));
to.push(root::<g64::A>(r#"g64::A"#, const { &Ty::Msg(744, &[]) }, "graphs"));
to.push(root::<g64::B>(r#"g64::B"#, const { &Ty::Msg(745, &[]) }, "graphs"));
to.push(root::<g65::A>(r#"g65::A"#, const { &Ty::Msg(746, &[]) }, "graphs"));
to.push(root::<g65::B>(r#"g65::B"#, const { &Ty::Msg(747, &[]) }, "graphs"));
}
fn roots9(to: &mut Vec<Root>) {
to.push(root::<g66::A>(r#"g66::A"#, const { &Ty::Msg(748, &[]) }, "graphs"));
to.push(root::<g66::B>(r#"g66::B"#, const { &Ty::Msg(749, &[]) }, "graphs"));
to.push(root::<g67::A>(r#"g67::A"#, const { &Ty::Msg(750, &[]) }, "graphs"));
to.push(root::<g67::B>(r#"g67::B"#, const { &Ty::Msg(751, &[]) }, "graphs"));
to.push(state_root::<g68::A>(r#"g68::A"#, const { &Ty::Msg(752, &[]) }, "graphs"));
to.push(state_root::<g68::B>(r#"g68::B"#, const { &Ty::Msg(753, &[]) }, "graphs"));
to.push(state_root::<g69::A>(r#"g69::A"#, const { &Ty::Msg(754, &[]) }, "graphs"));
to.push(state_root::<g69::B>(r#"g69::B"#, const { &Ty::Msg(755, &[]) }, "graphs"));
to.push(state_root::<g70::A>(r#"g70::A"#, const { &Ty::Msg(756, &[]) }, "graphs"));
to.push(state_root::<g70::B>(r#"g70::B"#, const { &Ty::Msg(757, &[]) }, "graphs"));
to.push(state_root::<g71::A>(r#"g71::A"#, const { &Ty::Msg(758, &[]) }, "graphs"));
to.push(state_root::<g71::B>(r#"g71::B"#, const { &Ty::Msg(759, &[]) }, "graphs"));
to.push(state_root::<g72::A>(r#"g72::A"#, const { &Ty::Msg(760, &[]) }, "graphs"));
to.push(state_root::<g72::B>(r#"g72::B"#, const { &Ty::Msg(761, &[]) }, "graphs"));
to.push(state_root::<g73::A>(r#"g73::A"#, const { &Ty::Msg(762, &[]) }, "graphs"));
to.push(state_root::<g73::B>(r#"g73::B"#, const { &Ty::Msg(763, &[]) }, "graphs"));
to.push(state_root::<g74::A>(r#"g74::A"#, const { &Ty::Msg(764, &[]) }, "graphs"));
to.push(state_root::<g74::B>(r#"g74::B"#, const { &Ty::Msg(765, &[]) }, "graphs"));
to.push(state_root::<g75::A>(r#"g75::A"#, const { &Ty::Msg(766, &[]) }, "graphs"));
to.push(state_root::<g75::B>(r#"g75::B"#, const { &Ty::Msg(767, &[]) }, "graphs"));
to.push(root::<g76::A>(r#"g76::A"#, const { &Ty::Msg(768, &[]) }, "graphs"));
to.push(root::<g76::B>(r#"g76::B"#, const { &Ty::Msg(769, &[]) }, "graphs"));
to.push(root::<g77::A>(r#"g77::A"#, const { &Ty::Msg(770, &[]) }, "graphs"));
to.push(root::<g77::B>(r#"g77::B"#, const { &Ty::Msg(771, &[]) }, "graphs"));
to.push(root::<g78::A>(r#"g78::A"#, const { &Ty::Msg(772, &[]) }, "graphs"));
to.push(root::<g78::B>(r#"g78::B"#, const { &Ty::Msg(773, &[]) }, "graphs"));
to.push(root::<g79::A>(r#"g79::A"#, const { &Ty::Msg(774, &[]) }, "graphs"));
to.push(root::<g79::B>(r#"g79::B"#, const { &Ty::Msg(775, &[]) }, "graphs"));
to.push(root::<g80::A>(r#"g80::A"#, const { &Ty::Msg(776, &[]) }, "graphs"));
to.push(root::<g80::B>(r#"g80::B"#, const { &Ty::Msg(777, &[]) }, "graphs"));
to.push(root::<g81::A>(r#"g81::A"#, const { &Ty::Msg(778, &[]) }, "graphs"));
to.push(root::<g81::B>(r#"g81::B"#, const { &Ty::Msg(779, &[]) }, "graphs"));
to.push(root::<g82::A>(r#"g82::A"#, const { &Ty::Msg(780, &[]) }, "graphs"));
to.push(root::<g82::B>(r#"g82::B"#, const { &Ty::Msg(781, &[]) }, "graphs"));
to.push(root::<g83::A>(r#"g83::A"#, const { &Ty::Msg(782, &[]) }, "graphs"));
to.push(root::<g83::B>(r#"g83::B"#, const { &Ty::Msg(783, &[]) }, "graphs"));
to.push(root::<g84::A>(r#"g84::A"#, const { &Ty::Msg(784, &[]) }, "graphs"));
to.push(root::<g84::B>(r#"g84::B"#, const { &Ty::Msg(785, &[]) }, "graphs"));
to.push(root::<g85::A>(r#"g85::A"#, const { &Ty::Msg(786, &[]) }, "graphs"));
to.push(root::<g85::B>(r#"g85::B"#, const { &Ty::Msg(787, &[]) }, "graphs"));
to.push(root::<g86::A>(r#"g86::A"#, const { &Ty::Msg(788, &[]) }, "graphs"));
to.push(root::<g86::B>(r#"g86::B"#, const { &Ty::Msg(789, &[]) }, "graphs"));
to.push(root::<g87::A>(r#"g87::A"#, const { &Ty::Msg(790, &[]) }, "graphs"));
to.push(root::<g87::B>(r#"g87::B"#, const { &Ty::Msg(791, &[]) }, "graphs"));
to.push(state_root::<g88::A>(r#"g88::A"#, const { &Ty::Msg(792, &[]) }, "graphs"));
to.push(state_root::<g88::B>(r#"g88::B"#, const { &Ty::Msg(793, &[]) }, "graphs"));
to.push(state_root::<g89::A>(r#"g89::A"#, const { &Ty::Msg(794, &[]) }, "graphs"));
to.push(state_root::<g89::B>(r#"g89::B"#, const { &Ty::Msg(795, &[]) }, "graphs"));
to.push(state_root::<g90::A>(r#"g90::A"#, const { &Ty::Msg(796, &[]) }, "graphs"));
to.push(state_root::<g90::B>(r#"g90::B"#, const { &Ty::Msg(797, &[]) }, "graphs"));
to.push(state_root::<g91::A>(r#"g91::A"#, const { &Ty::Msg(798, &[]) }, "graphs"));
to.push(state_root::<g91::B>(r#"g91::B"#, const { &Ty::Msg(799, &[]) }, "graphs"));
to.push(state_root::<g92::A>(r#"g92::A"#, const { &Ty::Msg(800, &[]) }, "graphs"));
to.push(state_root::<g92::B>(r#"g92::B"#, const { &Ty::Msg(801, &[]) }, "graphs"));
to.push(state_root::<g93::A>(r#"g93::A"#, const { &Ty::Msg(802, &[]) }, "graphs"));
to.push(state_root::<g93::B>(r#"g93::B"#, const { &Ty::Msg(803, &[]) }, "graphs"));
to.push(state_root::<g94::A>(r#"g94::A"#, const { &Ty::Msg(804, &[]) }, "graphs"));
to.push(state_root::<g94::B>(r#"g94::B"#, const { &Ty::Msg(805, &[]) }, "graphs"));
to.push(state_root::<g95::A>(r#"g95::A"#, const { &Ty::Msg(806, &[]) }, "graphs"));
to.push(state_root::<g95::B>(r#"g95::B"#, const { &Ty::Msg(807, &[]) }, "graphs"));
to.push(root::<g96::A>(r#"g96::A"#, const { &Ty::Msg(808, &[]) }, "graphs"));
to.push(root::<g96::B>(r#"g96::B"#, const { &Ty::Msg(809, &[]) }, "graphs"));
to.push(root::<g97::A>(r#"g97::A"#, const { &Ty::Msg(810, &[]) }, "graphs"));
to.push(root::<g97::B>(r#"g97::B"#, const { &Ty::Msg(811, &[]) }, "graphs"));
to.push(root::<g98::A>(r#"g98::A"#, const { &Ty::Msg(812, &[]) }, "graphs"));
to.push(root::<g98::B>(r#"g98::B"#, const { &Ty::Msg(813, &[]) }, "graphs"));
to.push(root::<g99::A>(r#"g99::A"#, const { &Ty::Msg(814, &[]) }, "graphs"));
to.push(root::<g99::B>(r#"g99::B"#, const { &Ty::Msg(815, &[]) }, "graphs"));
to.push(root::<g100::A>(r#"g100::A"#, const { &Ty::Msg(816, &[]) }, "graphs"));
to.push(root::<g100::B>(r#"g100::B"#, const { &Ty::Msg(817, &[]) }, "graphs"));
to.push(root::<g101::A>(r#"g101::A"#, const { &Ty::Msg(818, &[]) }, "graphs"));
to.push(root::<g101::B>(r#"g101::B"#, const { &Ty::Msg(819, &[]) }, "graphs"));
to.push(root::<g102::A>(r#"g102::A"#, const { &Ty::Msg(820, &[]) }, "graphs"));
to.push(root::<g102::B>(r#"g102::B"#, const { &Ty::Msg(821, &[]) }, "graphs"));
to.push(root::<g103::A>(r#"g103::A"#, const { &Ty::Msg(822, &[]) }, "graphs"));
to.push(root::<g103::B>(r#"g103::B"#, const { &Ty::Msg(823, &[]) }, "graphs"));
to.push(root::<g104::A>(r#"g104::A"#, const { &Ty::Msg(824, &[]) }, "graphs"));
to.push(root::<g104::B>(r#"g104::B"#, const { &Ty::Msg(825, &[]) }, "graphs"));
to.push(root::<g105::A>(r#"g105::A"#, const { &Ty::Msg(826, &[]) }, "graphs"));
to.push(root::<g105::B>(r#"g105::B"#, const { &Ty::Msg(827, &[]) }, "graphs"));
to.push(root::<g106::A>(r#"g106::A"#, const { &Ty::Msg(828, &[]) }, "graphs"));
to.push(root::<g106::B>(r#"g106::B"#, const { &Ty::Msg(829, &[]) }, "graphs"));
to.push(root::<g107::A>(r#"g107::A"#, const { &Ty::Msg(830, &[]) }, "graphs"));
to.push(root::<g107::B>(r#"g107::B"#, const { &Ty::Msg(831, &[]) }, "graphs"));
to.push(state_root::<g108::A>(r#"g108::A"#, const { &Ty::Msg(832, &[]) }, "graphs"));
to.push(state_root::<g108::B>(r#"g108::B"#, const { &Ty::Msg(833, &[]) }, "graphs"));
to.push(state_root::<g109::A>(r#"g109::A"#, const { &Ty::Msg(834, &[]) }, "graphs"));
to.push(state_root::<g109::B>(r#"g109::B"#, const { &Ty::Msg(835, &[]) }, "graphs"));
to.push(state_root::<g110::A>(r#"g110::A"#, const { &Ty::Msg(836, &[]) }, "graphs"));
to.push(state_root::<g110::B>(r#"g110::B"#, const { &Ty::Msg(837, &[]) }, "graphs"));
to.push(state_root::<g111::A>(r#"g111::A"#, const { &Ty::Msg(838, &[]) }, "graphs"));
to.push(state_root::<g111::B>(r#"g111::B"#, const { &Ty::Msg(839, &[]) }, "graphs"));
to.push(state_root::<g112::A>(r#"g112::A"#, const { &Ty::Msg(840, &[]) }, "graphs"));
to.push(state_root::<g112::B>(r#"g112::B"#, const { &Ty::Msg(841, &[]) }, "graphs"));
to.push(state_root::<g113::A>(r#"g113::A"#, const { &Ty::Msg(842, &[]) }, "graphs"));
to.push(state_root::<g113::B>(r#"g113::B"#, const { &Ty::Msg(843, &[]) }, "graphs"));
to.push(state_root::<g114::A>(r#"g114::A"#, const { &Ty::Msg(844, &[]) }, "graphs"));
to.push(state_root::<g114::B>(r#"g114::B"#, const { &Ty::Msg(845, &[]) }, "graphs"));
to.push(state_root::<g115::A>(r#"g115::A"#, const { &Ty::Msg(846, &[]) }, "graphs"));
to.push(state_root::<g115::B>(r#"g115::B"#, const { &Ty::Msg(847, &[]) }, "graphs"));
}
fn roots10(to: &mut Vec<Root>) {
to.push(root::<g116::A>(r#"g116::A"#, const { &Ty::Msg(848, &[]) }, "graphs"));
to.push(root::<g116::B>(r#"g116::B"#, const { &Ty::Msg(849, &[]) }, "graphs"));
to.push(root::<g117::A>(r#"g117::A"#, const { &Ty::Msg(850, &[]) }, "graphs"));
to.push(root::<g117::B>(r#"g117::B"#, const { &Ty::Msg(851, &[]) }, "graphs"));
to.push(root::<g118::A>(r#"g118::A"#, const { &Ty::Msg(852, &[]) }, "graphs"));
to.push(root::<g118::B>(r#"g118::B"#, const { &Ty::Msg(853, &[]) }, "graphs"));
to.push(root::<g119::A>(r#"g119::A"#, const { &Ty::Msg(854, &[]) }, "graphs"));
to.push(root::<g119::B>(r#"g119::B"#, const { &Ty::Msg(855, &[]) }, "graphs"));
to.push(root::<g120::A>(r#"g120::A"#, const { &Ty::Msg(856, &[]) }, "graphs"));
to.push(root::<g120::B>(r#"g120::B"#, const { &Ty::Msg(857, &[]) }, "graphs"));
to.push(root::<g121::A>(r#"g121::A"#, const { &Ty::Msg(858, &[]) }, "graphs"));
to.push(root::<g121::B>(r#"g121::B"#, const { &Ty::Msg(859, &[]) }, "graphs"));
to.push(root::<g122::A>(r#"g122::A"#, const { &Ty::Msg(860, &[]) }, "graphs"));
to.push(root::<g122::B>(r#"g122::B"#, const { &Ty::Msg(861, &[]) }, "graphs"));
to.push(root::<g123::A>(r#"g123::A"#, const { &Ty::Msg(862, &[]) }, "graphs"));
to.push(root::<g123::B>(r#"g123::B"#, const { &Ty::Msg(863, &[]) }, "graphs"));
to.push(root::<g124::A>(r#"g124::A"#, const { &Ty::Msg(864, &[]) }, "graphs"));
to.push(root::<g124::B>(r#"g124::B"#, const { &Ty::Msg(865, &[]) }, "graphs"));
to.push(root::<g125::A>(r#"g125::A"#, const { &Ty::Msg(866, &[]) }, "graphs"));
to.push(root::<g125::B>(r#"g125::B"#, const { &Ty::Msg(867, &[]) }, "graphs"));
to.push(root::<g126::A>(r#"g126::A"#, const { &Ty::Msg(868, &[]) }, "graphs"));
to.push(root::<g126::B>(r#"g126::B"#, const { &Ty::Msg(869, &[]) }, "graphs"));
to.push(root::<g127::A>(r#"g127::A"#, const { &Ty::Msg(870, &[]) }, "graphs"));
to.push(root::<g127::B>(r#"g127::B"#, const { &Ty::Msg(871, &[]) }, "graphs"));
to.push(state_root::<g128::A>(r#"g128::A"#, const { &Ty::Msg(872, &[]) }, "graphs"));
to.push(state_root::<g128::B>(r#"g128::B"#, const { &Ty::Msg(873, &[]) }, "graphs"));
to.push(state_root::<g129::A>(r#"g129::A"#, const { &Ty::Msg(874, &[]) }, "graphs"));
to.push(state_root::<g129::B>(r#"g129::B"#, const { &Ty::Msg(875, &[]) }, "graphs"));
to.push(state_root::<g130::A>(r#"g130::A"#, const { &Ty::Msg(876, &[]) }, "graphs"));
to.push(state_root::<g130::B>(r#"g130::B"#, const { &Ty::Msg(877, &[]) }, "graphs"));
to.push(state_root::<g131::A>(r#"g131::A"#, const { &Ty::Msg(878, &[]) }, "graphs"));
to.push(state_root::<g131::B>(r#"g131::B"#, const { &Ty::Msg(879, &[]) }, "graphs"));
to.push(state_root::<g132::A>(r#"g132::A"#, const { &Ty::Msg(880, &[]) }, "graphs"));
to.push(state_root::<g132::B>(r#"g132::B"#, const { &Ty::Msg(881, &[]) }, "graphs"));
to.push(state_root::<g133::A>(r#"g133::A"#, const { &Ty::Msg(882, &[]) }, "graphs"));
to.push(state_root::<g133::B>(r#"g133::B"#, const { &Ty::Msg(883, &[]) }, "graphs"));
to.push(state_root::<g134::A>(r#"g134::A"#, const { &Ty::Msg(884, &[]) }, "graphs"));
to.push(state_root::<g134::B>(r#"g134::B"#, const { &Ty::Msg(885, &[]) }, "graphs"));
to.push(state_root::<g135::A>(r#"g135::A"#, const { &Ty::Msg(886, &[]) }, "graphs"));
to.push(state_root::<g135::B>(r#"g135::B"#, const { &Ty::Msg(887, &[]) }, "graphs"));
to.push(root::<g136::A>(r#"g136::A"#, const { &Ty::Msg(888, &[]) }, "graphs"));
to.push(root::<g136::B>(r#"g136::B"#, const { &Ty::Msg(889, &[]) }, "graphs"));
to.push(root::<g137::A>(r#"g137::A"#, const { &Ty::Msg(890, &[]) }, "graphs"));
to.push(root::<g137::B>(r#"g137::B"#, const { &Ty::Msg(891, &[]) }, "graphs"));
to.push(root::<g138::A>(r#"g138::A"#, const { &Ty::Msg(892, &[]) }, "graphs"));
to.push(root::<g138::B>(r#"g138::B"#, const { &Ty::Msg(893, &[]) }, "graphs"));
to.push(root::<g139::A>(r#"g139::A"#, const { &Ty::Msg(894, &[]) }, "graphs"));
to.push(root::<g139::B>(r#"g139::B"#, const { &Ty::Msg(895, &[]) }, "graphs"));
to.push(root::<g140::A>(r#"g140::A"#, const { &Ty::Msg(896, &[]) }, "graphs"));
to.push(root::<g140::B>(r#"g140::B"#, const { &Ty::Msg(897, &[]) }, "graphs"));
to.push(root::<g141::A>(r#"g141::A"#, const { &Ty::Msg(898, &[]) }, "graphs"));
to.push(root::<g141::B>(r#"g141::B"#, const { &Ty::Msg(899, &[]) }, "graphs"));
to.push(root::<g142::A>(r#"g142::A"#, const { &Ty::Msg(900, &[]) }, "graphs"));
to.push(root::<g142::B>(r#"g142::B"#, const { &Ty::Msg(901, &[]) }, "graphs"));
to.push(root::<g143::A>(r#"g143::A"#, const { &Ty::Msg(902, &[]) }, "graphs"));
to.push(root::<g143::B>(r#"g143::B"#, const { &Ty::Msg(903, &[]) }, "graphs"));
to.push(root::<g144::A>(r#"g144::A"#, const { &Ty::Msg(904, &[]) }, "graphs"));
to.push(root::<g144::B>(r#"g144::B"#, const { &Ty::Msg(905, &[]) }, "graphs"));
to.push(root::<g145::A>(r#"g145::A"#, const { &Ty::Msg(906, &[]) }, "graphs"));
to.push(root::<g145::B>(r#"g145::B"#, const { &Ty::Msg(907, &[]) }, "graphs"));
to.push(root::<g146::A>(r#"g146::A"#, const { &Ty::Msg(908, &[]) }, "graphs"));
to.push(root::<g146::B>(r#"g146::B"#, const { &Ty::Msg(909, &[]) }, "graphs"));
to.push(root::<g147::A>(r#"g147::A"#, const { &Ty::Msg(910, &[]) }, "graphs"));
to.push(root::<g147::B>(r#"g147::B"#, const { &Ty::Msg(911, &[]) }, "graphs"));
to.push(state_root::<g148::A>(r#"g148::A"#, const { &Ty::Msg(912, &[]) }, "graphs"));
to.push(state_root::<g148::B>(r#"g148::B"#, const { &Ty::Msg(913, &[]) }, "graphs"));
to.push(state_root::<g149::A>(r#"g149::A"#, const { &Ty::Msg(914, &[]) }, "graphs"));
to.push(state_root::<g149::B>(r#"g149::B"#, const { &Ty::Msg(915, &[]) }, "graphs"));
to.push(state_root::<g150::A>(r#"g150::A"#, const { &Ty::Msg(916, &[]) }, "graphs"));
to.push(state_root::<g150::B>(r#"g150::B"#, const { &Ty::Msg(917, &[]) }, "graphs"));
to.push(state_root::<g151::A>(r#"g151::A"#, const { &Ty::Msg(918, &[]) }, "graphs"));
to.push(state_root::<g151::B>(r#"g151::B"#, const { &Ty::Msg(919, &[]) }, "graphs"));
to.push(state_root::<g152::A>(r#"g152::A"#, const { &Ty::Msg(920, &[]) }, "graphs"));
to.push(state_root::<g152::B>(r#"g152::B"#, const { &Ty::Msg(921, &[]) }, "graphs"));
to.push(state_root::<g153::A>(r#"g153::A"#, const { &Ty::Msg(922, &[]) }, "graphs"));
to.push(state_root::<g153::B>(r#"g153::B"#, const { &Ty::Msg(923, &[]) }, "graphs"));
to.push(state_root::<g154::A>(r#"g154::A"#, const { &Ty::Msg(924, &[]) }, "graphs"));
to.push(state_root::<g154::B>(r#"g154::B"#, const { &Ty::Msg(925, &[]) }, "graphs"));
to.push(state_root::<g155::A>(r#"g155::A"#, const { &Ty::Msg(926, &[]) }, "graphs"));
to.push(state_root::<g155::B>(r#"g155::B"#, const { &Ty::Msg(927, &[]) }, "graphs"));
to.push(root::<g156::A>(r#"g156::A"#, const { &Ty::Msg(928, &[]) }, "graphs"));
to.push(root::<g156::B>(r#"g156::B"#, const { &Ty::Msg(929, &[]) }, "graphs"));
to.push(root::<g157::A>(r#"g157::A"#, const { &Ty::Msg(930, &[]) }, "graphs"));
to.push(root::<g157::B>(r#"g157::B"#, const { &Ty::Msg(931, &[]) }, "graphs"));
to.push(root::<g158::A>(r#"g158::A"#, const { &Ty::Msg(932, &[]) }, "graphs"));
to.push(root::<g158::B>(r#"g158::B"#, const { &Ty::Msg(933, &[]) }, "graphs"));
to.push(root::<g159::A>(r#"g159::A"#, const { &Ty::Msg(934, &[]) }, "graphs"));
to.push(root::<g159::B>(r#"g159::B"#, const { &Ty::Msg(935, &[]) }, "graphs"));
to.push(root::<g160::A>(r#"g160::A"#, const { &Ty::Msg(936, &[]) }, "graphs"));
to.push(root::<g160::B>(r#"g160::B"#, const { &Ty::Msg(937, &[]) }, "graphs"));
to.push(root::<g161::A>(r#"g161::A"#, const { &Ty::Msg(938, &[]) }, "graphs"));
to.push(root::<g161::B>(r#"g161::B"#, const { &Ty::Msg(939, &[]) }, "graphs"));
to.push(root::<g162::A>(r#"g162::A"#, const { &Ty::Msg(940, &[]) }, "graphs"));
to.push(root::<g162::B>(r#"g162::B"#, const { &Ty::Msg(941, &[]) }, "graphs"));
to.push(root::<g163::A>(r#"g163::A"#, const { &Ty::Msg(942, &[]) }, "graphs"));
to.push(root::<g163::B>(r#"g163::B"#, const { &Ty::Msg(943, &[]) }, "graphs"));
to.push(root::<g164::A>(r#"g164::A"#, const { &Ty::Msg(944, &[]) }, "graphs"));
to.push(root::<g164::B>(r#"g164::B"#, const { &Ty::Msg(945, &[]) }, "graphs"));
to.push(root::<g165::A>(r#"g165::A"#, const { &Ty::Msg(946, &[]) }, "graphs"));
to.push(root::<g165::B>(r#"g165::B"#, const { &Ty::Msg(947, &[]) }, "graphs"));
}
fn roots11(to: &mut Vec<Root>) {
to.push(root::<g166::A>(r#"g166::A"#, const { &Ty::Msg(948, &[]) }, "graphs"));
to.push(root::<g166::B>(r#"g166::B"#, const { &Ty::Msg(949, &[]) }, "graphs"));
to.push(root::<g167::A>(r#"g167::A"#, const { &Ty::Msg(950, &[]) }, "graphs"));
to.push(root::<g167::B>(r#"g167::B"#, const { &Ty::Msg(951, &[]) }, "graphs"));
to.push(state_root::<g168::A>(r#"g168::A"#, const { &Ty::Msg(952, &[]) }, "graphs"));
to.push(state_root::<g168::B>(r#"g168::B"#, const { &Ty::Msg(953, &[]) }, "graphs"));
to.push(state_root::<g169::A>(r#"g169::A"#, const { &Ty::Msg(954, &[]) }, "graphs"));
to.push(state_root::<g169::B>(r#"g169::B"#, const { &Ty::Msg(955, &[]) }, "graphs"));
to.push(state_root::<g170::A>(r#"g170::A"#, const { &Ty::Msg(956, &[]) }, "graphs"));
to.push(state_root::<g170::B>(r#"g170::B"#, const { &Ty::Msg(957, &[]) }, "graphs"));
to.push(state_root::<g171::A>(r#"g171::A"#, const { &Ty::Msg(958, &[]) }, "graphs"));
to.push(state_root::<g171::B>(r#"g171::B"#, const { &Ty::Msg(959, &[]) }, "graphs"));
to.push(state_root::<g172::A>(r#"g172::A"#, const { &Ty::Msg(960, &[]) }, "graphs"));
to.push(state_root::<g172::B>(r#"g172::B"#, const { &Ty::Msg(961, &[]) }, "graphs"));
to.push(state_root::<g173::A>(r#"g173::A"#, const { &Ty::Msg(962, &[]) }, "graphs"));
to.push(state_root::<g173::B>(r#"g173::B"#, const { &Ty::Msg(963, &[]) }, "graphs"));
to.push(state_root::<g174::A>(r#"g174::A"#, const { &Ty::Msg(964, &[]) }, "graphs"));
to.push(state_root::<g174::B>(r#"g174::B"#, const { &Ty::Msg(965, &[]) }, "graphs"));
to.push(state_root::<g175::A>(r#"g175::A"#, const { &Ty::Msg(966, &[]) }, "graphs"));
to.push(state_root::<g175::B>(r#"g175::B"#, const { &Ty::Msg(967, &[]) }, "graphs"));
to.push(root::<g176::A>(r#"g176::A"#, const { &Ty::Msg(968, &[]) }, "graphs"));
to.push(root::<g176::B>(r#"g176::B"#, const { &Ty::Msg(969, &[]) }, "graphs"));
to.push(root::<g177::A>(r#"g177::A"#, const { &Ty::Msg(970, &[]) }, "graphs"));
to.push(root::<g177::B>(r#"g177::B"#, const { &Ty::Msg(971, &[]) }, "graphs"));
to.push(root::<g178::A>(r#"g178::A"#, const { &Ty::Msg(972, &[]) }, "graphs"));
to.push(root::<g178::B>(r#"g178::B"#, const { &Ty::Msg(973, &[]) }, "graphs"));
to.push(root::<g179::A>(r#"g179::A"#, const { &Ty::Msg(974, &[]) }, "graphs"));
to.push(root::<g179::B>(r#"g179::B"#, const { &Ty::Msg(975, &[]) }, "graphs"));
to.push(root::<g180::A>(r#"g180::A"#, const { &Ty::Msg(976, &[]) }, "graphs"));
to.push(root::<g180::B>(r#"g180::B"#, const { &Ty::Msg(977, &[]) }, "graphs"));
to.push(root::<g181::A>(r#"g181::A"#, const { &Ty::Msg(978, &[]) }, "graphs"));
to.push(root::<g181::B>(r#"g181::B"#, const { &Ty::Msg(979, &[]) }, "graphs"));
to.push(root::<g182::A>(r#"g182::A"#, const { &Ty::Msg(980, &[]) }, "graphs"));
to.push(root::<g182::B>(r#"g182::B"#, const { &Ty::Msg(981, &[]) }, "graphs"));
to.push(root::<g183::A>(r#"g183::A"#, const { &Ty::Msg(982, &[]) }, "graphs"));
to.push(root::<g183::B>(r#"g183::B"#, const { &Ty::Msg(983, &[]) }, "graphs"));
to.push(root::<g184::A>(r#"g184::A"#, const { &Ty::Msg(984, &[]) }, "graphs"));
to.push(root::<g184::B>(r#"g184::B"#, const { &Ty::Msg(985, &[]) }, "graphs"));
to.push(root::<g185::A>(r#"g185::A"#, const { &Ty::Msg(986, &[]) }, "graphs"));
to.push(root::<g185::B>(r#"g185::B"#, const { &Ty::Msg(987, &[]) }, "graphs"));
to.push(root::<g186::A>(r#"g186::A"#, const { &Ty::Msg(988, &[]) }, "graphs"));
to.push(root::<g186::B>(r#"g186::B"#, const { &Ty::Msg(989, &[]) }, "graphs"));
to.push(root::<g187::A>(r#"g187::A"#, const { &Ty::Msg(990, &[]) }, "graphs"));
to.push(root::<g187::B>(r#"g187::B"#, const { &Ty::Msg(991, &[]) }, "graphs"));
to.push(state_root::<g188::A>(r#"g188::A"#, const { &Ty::Msg(992, &[]) }, "graphs"));
to.push(state_root::<g188::B>(r#"g188::B"#, const { &Ty::Msg(993, &[]) }, "graphs"));
to.push(state_root::<g189::A>(r#"g189::A"#, const { &Ty::Msg(994, &[]) }, "graphs"));
to.push(state_root::<g189::B>(r#"g189::B"#, const { &Ty::Msg(995, &[]) }, "graphs"));
to.push(state_root::<g190::A>(r#"g190::A"#, const { &Ty::Msg(996, &[]) }, "graphs"));
to.push(state_root::<g190::B>(r#"g190::B"#, const { &Ty::Msg(997, &[]) }, "graphs"));
to.push(state_root::<g191::A>(r#"g191::A"#, const { &Ty::Msg(998, &[]) }, "graphs"));
to.push(state_root::<g191::B>(r#"g191::B"#, const { &Ty::Msg(999, &[]) }, "graphs"));
to.push(state_root::<g192::A>(r#"g192::A"#, const { &Ty::Msg(1000, &[]) }, "graphs"));
to.push(state_root::<g192::B>(r#"g192::B"#, const { &Ty::Msg(1001, &[]) }, "graphs"));
to.push(state_root::<g193::A>(r#"g193::A"#, const { &Ty::Msg(1002, &[]) }, "graphs"));
to.push(state_root::<g193::B>(r#"g193::B"#, const { &Ty::Msg(1003, &[]) }, "graphs"));
to.push(state_root::<g194::A>(r#"g194::A"#, const { &Ty::Msg(1004, &[]) }, "graphs"));
to.push(state_root::<g194::B>(r#"g194::B"#, const { &Ty::Msg(1005, &[]) }, "graphs"));
to.push(state_root::<g195::A>(r#"g195::A"#, const { &Ty::Msg(1006, &[]) }, "graphs"));
to.push(state_root::<g195::B>(r#"g195::B"#, const { &Ty::Msg(1007, &[]) }, "graphs"));
to.push(root::<g196::A>(r#"g196::A"#, const { &Ty::Msg(1008, &[]) }, "graphs"));
to.push(root::<g196::B>(r#"g196::B"#, const { &Ty::Msg(1009, &[]) }, "graphs"));
to.push(root::<g197::A>(r#"g197::A"#, const { &Ty::Msg(1010, &[]) }, "graphs"));
to.push(root::<g197::B>(r#"g197::B"#, const { &Ty::Msg(1011, &[]) }, "graphs"));
to.push(root::<g198::A>(r#"g198::A"#, const { &Ty::Msg(1012, &[]) }, "graphs"));
to.push(root::<g198::B>(r#"g198::B"#, const { &Ty::Msg(1013, &[]) }, "graphs"));
to.push(root::<g199::A>(r#"g199::A"#, const { &Ty::Msg(1014, &[]) }, "graphs"));
to.push(root::<g199::B>(r#"g199::B"#, const { &Ty::Msg(1015, &[]) }, "graphs"));
to.push(root::<g200::A>(r#"g200::A"#, const { &Ty::Msg(1016, &[]) }, "graphs"));
to.push(root::<g200::B>(r#"g200::B"#, const { &Ty::Msg(1017, &[]) }, "graphs"));
to.push(root::<g201::A>(r#"g201::A"#, const { &Ty::Msg(1018, &[]) }, "graphs"));
to.push(root::<g201::B>(r#"g201::B"#, const { &Ty::Msg(1019, &[]) }, "graphs"));
to.push(root::<g202::A>(r#"g202::A"#, const { &Ty::Msg(1020, &[]) }, "graphs"));
to.push(root::<g202::B>(r#"g202::B"#, const { &Ty::Msg(1021, &[]) }, "graphs"));
to.push(root::<g203::A>(r#"g203::A"#, const { &Ty::Msg(1022, &[]) }, "graphs"));
to.push(root::<g203::B>(r#"g203::B"#, const { &Ty::Msg(1023, &[]) }, "graphs"));
to.push(root::<g204::A>(r#"g204::A"#, const { &Ty::Msg(1024, &[]) }, "graphs"));
to.push(root::<g204::B>(r#"g204::B"#, const { &Ty::Msg(1025, &[]) }, "graphs"));
to.push(root::<g205::A>(r#"g205::A"#, const { &Ty::Msg(1026, &[]) }, "graphs"));
to.push(root::<g205::B>(r#"g205::B"#, const { &Ty::Msg(1027, &[]) }, "graphs"));
to.push(root::<g206::A>(r#"g206::A"#, const { &Ty::Msg(1028, &[]) }, "graphs"));
to.push(root::<g206::B>(r#"g206::B"#, const { &Ty::Msg(1029, &[]) }, "graphs"));
to.push(root::<g207::A>(r#"g207::A"#, const { &Ty::Msg(1030, &[]) }, "graphs"));
to.push(root::<g207::B>(r#"g207::B"#, const { &Ty::Msg(1031, &[]) }, "graphs"));
to.push(state_root::<g208::A>(r#"g208::A"#, const { &Ty::Msg(1032, &[]) }, "graphs"));
to.push(state_root::<g208::B>(r#"g208::B"#, const { &Ty::Msg(1033, &[]) }, "graphs"));
to.push(state_root::<g209::A>(r#"g209::A"#, const { &Ty::Msg(1034, &[]) }, "graphs"));
to.push(state_root::<g209::B>(r#"g209::B"#, const { &Ty::Msg(1035, &[]) }, "graphs"));
to.push(state_root::<g210::A>(r#"g210::A"#, const { &Ty::Msg(1036, &[]) }, "graphs"));
to.push(state_root::<g210::B>(r#"g210::B"#, const { &Ty::Msg(1037, &[]) }, "graphs"));
to.push(state_root::<g211::A>(r#"g211::A"#, const { &Ty::Msg(1038, &[]) }, "graphs"));
to.push(state_root::<g211::B>(r#"g211::B"#, const { &Ty::Msg(1039, &[]) }, "graphs"));
to.push(state_root::<g212::A>(r#"g212::A"#, const { &Ty::Msg(1040, &[]) }, "graphs"));
to.push(state_root::<g212::B>(r#"g212::B"#, const { &Ty::Msg(1041, &[]) }, "graphs"));
to.push(state_root::<g213::A>(r#"g213::A"#, const { &Ty::Msg(1042, &[]) }, "graphs"));
to.push(state_root::<g213::B>(r#"g213::B"#, const { &Ty::Msg(1043, &[]) }, "graphs"));
to.push(state_root::<g214::A>(r#"g214::A"#, const { &Ty::Msg(1044, &[]) }, "graphs"));
to.push(state_root::<g214::B>(r#"g214::B"#, const { &Ty::Msg(1045, &[]) }, "graphs"));
to.push(state_root::<g215::A>(r#"g215::A"#, const { &Ty::Msg(1046, &[]) }, "graphs"));
to.push(state_root::<g215::B>(r#"g215::B"#, const { &Ty::Msg(1047, &[]) }, "graphs"));
}
fn roots12(to: &mut Vec<Root>) {
to.push(root::<g216::A>(r#"g216::A"#, const { &Ty::Msg(1048, &[]) }, "graphs"));
to.push(root::<g216::B>(r#"g216::B"#, const { &Ty::Msg(1049, &[]) }, "graphs"));
to.push(root::<g217::A>(r#"g217::A"#, const { &Ty::Msg(1050, &[]) }, "graphs"));
to.push(root::<g217::B>(r#"g217::B"#, const { &Ty::Msg(1051, &[]) }, "graphs"));
to.push(root::<g218::A>(r#"g218::A"#, const { &Ty::Msg(1052, &[]) }, "graphs"));
to.push(root::<g218::B>(r#"g218::B"#, const { &Ty::Msg(1053, &[]) }, "graphs"));
to.push(root::<g219::A>(r#"g219::A"#, const { &Ty::Msg(1054, &[]) }, "graphs"));
to.push(root::<g219::B>(r#"g219::B"#, const { &Ty::Msg(1055, &[]) }, "graphs"));
to.push(root::<g220::A>(r#"g220::A"#, const { &Ty::Msg(1056, &[]) }, "graphs"));
to.push(root::<g220::B>(r#"g220::B"#, const { &Ty::Msg(1057, &[]) }, "graphs"));
to.push(root::<g221::A>(r#"g221::A"#, const { &Ty::Msg(1058, &[]) }, "graphs"));
to.push(root::<g221::B>(r#"g221::B"#, const { &Ty::Msg(1059, &[]) }, "graphs"));
to.push(root::<g222::A>(r#"g222::A"#, const { &Ty::Msg(1060, &[]) }, "graphs"));
to.push(root::<g222::B>(r#"g222::B"#, const { &Ty::Msg(1061, &[]) }, "graphs"));
to.push(root::<g223::A>(r#"g223::A"#, const { &Ty::Msg(1062, &[]) }, "graphs"));
to.push(root::<g223::B>(r#"g223::B"#, const { &Ty::Msg(1063, &[]) }, "graphs"));
to.push(root::<g224::A>(r#"g224::A"#, const { &Ty::Msg(1064, &[]) }, "graphs"));
to.push(root::<g224::B>(r#"g224::B"#, const { &Ty::Msg(1065, &[]) }, "graphs"));
to.push(root::<g225::A>(r#"g225::A"#, const { &Ty::Msg(1066, &[]) }, "graphs"));
to.push(root::<g225::B>(r#"g225::B"#, const { &Ty::Msg(1067, &[]) }, "graphs"));
to.push(root::<g226::A>(r#"g226::A"#, const { &Ty::Msg(1068, &[]) }, "graphs"));
to.push(root::<g226::B>(r#"g226::B"#, const { &Ty::Msg(1069, &[]) }, "graphs"));
to.push(root::<g227::A>(r#"g227::A"#, const { &Ty::Msg(1070, &[]) }, "graphs"));
to.push(root::<g227::B>(r#"g227::B"#, const { &Ty::Msg(1071, &[]) }, "graphs"));
to.push(state_root::<g228::A>(r#"g228::A"#, const { &Ty::Msg(1072, &[]) }, "graphs"));
to.push(state_root::<g228::B>(r#"g228::B"#, const { &Ty::Msg(1073, &[]) }, "graphs"));
to.push(state_root::<g229::A>(r#"g229::A"#, const { &Ty::Msg(1074, &[]) }, "graphs"));
to.push(state_root::<g229::B>(r#"g229::B"#, const { &Ty::Msg(1075, &[]) }, "graphs"));
to.push(state_root::<g230::A>(r#"g230::A"#, const { &Ty::Msg(1076, &[]) }, "graphs"));
to.push(state_root::<g230::B>(r#"g230::B"#, const { &Ty::Msg(1077, &[]) }, "graphs"));
to.push(state_root::<g231::A>(r#"g231::A"#, const { &Ty::Msg(1078, &[]) }, "graphs"));
to.push(state_root::<g231::B>(r#"g231::B"#, const { &Ty::Msg(1079, &[]) }, "graphs"));
to.push(state_root::<g232::A>(r#"g232::A"#, const { &Ty::Msg(1080, &[]) }, "graphs"));
to.push(state_root::<g232::B>(r#"g232::B"#, const { &Ty::Msg(1081, &[]) }, "graphs"));
to.push(state_root::<g233::A>(r#"g233::A"#, const { &Ty::Msg(1082, &[]) }, "graphs"));
to.push(state_root::<g233::B>(r#"g233::B"#, const { &Ty::Msg(1083, &[]) }, "graphs"));
to.push(state_root::<g234::A>(r#"g234::A"#, const { &Ty::Msg(1084, &[]) }, "graphs"));
to.push(state_root::<g234::B>(r#"g234::B"#, const { &Ty::Msg(1085, &[]) }, "graphs"));
to.push(state_root::<g235::A>(r#"g235::A"#, const { &Ty::Msg(1086, &[]) }, "graphs"));
to.push(state_root::<g235::B>(r#"g235::B"#, const { &Ty::Msg(1087, &[]) }, "graphs"));
to.push(root::<g236::A>(r#"g236::A"#, const { &Ty::Msg(1088, &[]) }, "graphs"));
to.push(root::<g236::B>(r#"g236::B"#, const { &Ty::Msg(1089, &[]) }, "graphs"));
to.push(root::<g237::A>(r#"g237::A"#, const { &Ty::Msg(1090, &[]) }, "graphs"));
to.push(root::<g237::B>(r#"g237::B"#, const { &Ty::Msg(1091, &[]) }, "graphs"));
to.push(root::<g238::A>(r#"g238::A"#, const { &Ty::Msg(1092, &[]) }, "graphs"));
to.push(root::<g238::B>(r#"g238::B"#, const { &Ty::Msg(1093, &[]) }, "graphs"));
to.push(root::<g239::A>(r#"g239::A"#, const { &Ty::Msg(1094, &[]) }, "graphs"));
to.push(root::<g239::B>(r#"g239::B"#, const { &Ty::Msg(1095, &[]) }, "graphs"));
to.push(root::<g240::A>(r#"g240::A"#, const { &Ty::Msg(1096, &[]) }, "graphs"));
to.push(root::<g240::B>(r#"g240::B"#, const { &Ty::Msg(1097, &[]) }, "graphs"));
to.push(root::<g241::A>(r#"g241::A"#, const { &Ty::Msg(1098, &[]) }, "graphs"));
to.push(root::<g241::B>(r#"g241::B"#, const { &Ty::Msg(1099, &[]) }, "graphs"));
to.push(root::<g242::A>(r#"g242::A"#, const { &Ty::Msg(1100, &[]) }, "graphs"));
to.push(root::<g242::B>(r#"g242::B"#, const { &Ty::Msg(1101, &[]) }, "graphs"));
to.push(root::<g243::A>(r#"g243::A"#, const { &Ty::Msg(1102, &[]) }, "graphs"));
to.push(root::<g243::B>(r#"g243::B"#, const { &Ty::Msg(1103, &[]) }, "graphs"));
to.push(root::<g244::A>(r#"g244::A"#, const { &Ty::Msg(1104, &[]) }, "graphs"));
to.push(root::<g244::B>(r#"g244::B"#, const { &Ty::Msg(1105, &[]) }, "graphs"));
to.push(root::<g245::A>(r#"g245::A"#, const { &Ty::Msg(1106, &[]) }, "graphs"));
to.push(root::<g245::B>(r#"g245::B"#, const { &Ty::Msg(1107, &[]) }, "graphs"));
to.push(root::<g246::A>(r#"g246::A"#, const { &Ty::Msg(1108, &[]) }, "graphs"));
to.push(root::<g246::B>(r#"g246::B"#, const { &Ty::Msg(1109, &[]) }, "graphs"));
to.push(root::<g247::A>(r#"g247::A"#, const { &Ty::Msg(1110, &[]) }, "graphs"));
to.push(root::<g247::B>(r#"g247::B"#, const { &Ty::Msg(1111, &[]) }, "graphs"));
to.push(state_root::<g248::A>(r#"g248::A"#, const { &Ty::Msg(1112, &[]) }, "graphs"));
to.push(state_root::<g248::B>(r#"g248::B"#, const { &Ty::Msg(1113, &[]) }, "graphs"));
to.push(state_root::<g249::A>(r#"g249::A"#, const { &Ty::Msg(1114, &[]) }, "graphs"));
to.push(state_root::<g249::B>(r#"g249::B"#, const { &Ty::Msg(1115, &[]) }, "graphs"));
to.push(state_root::<g250::A>(r#"g250::A"#, const { &Ty::Msg(1116, &[]) }, "graphs"));
to.push(state_root::<g250::B>(r#"g250::B"#, const { &Ty::Msg(1117, &[]) }, "graphs"));
to.push(state_root::<g251::A>(r#"g251::A"#, const { &Ty::Msg(1118, &[]) }, "graphs"));
to.push(state_root::<g251::B>(r#"g251::B"#, const { &Ty::Msg(1119, &[]) }, "graphs"));
to.push(state_root::<g252::A>(r#"g252::A"#, const { &Ty::Msg(1120, &[]) }, "graphs"));
to.push(state_root::<g252::B>(r#"g252::B"#, const { &Ty::Msg(1121, &[]) }, "graphs"));
to.push(state_root::<g253::A>(r#"g253::A"#, const { &Ty::Msg(1122, &[]) }, "graphs"));
to.push(state_root::<g253::B>(r#"g253::B"#, const { &Ty::Msg(1123, &[]) }, "graphs"));
to.push(state_root::<g254::A>(r#"g254::A"#, const { &Ty::Msg(1124, &[]) }, "graphs"));
to.push(state_root::<g254::B>(r#"g254::B"#, const { &Ty::Msg(1125, &[]) }, "graphs"));
to.push(state_root::<g255::A>(r#"g255::A"#, const { &Ty::Msg(1126, &[]) }, "graphs"));
to.push(state_root::<g255::B>(r#"g255::B"#, const { &Ty::Msg(1127, &[]) }, "graphs"));
to.push(root::<g256::A>(r#"g256::A"#, const { &Ty::Msg(1128, &[]) }, "graphs"));
to.push(root::<g256::B>(r#"g256::B"#, const { &Ty::Msg(1129, &[]) }, "graphs"));
to.push(root::<g257::A>(r#"g257::A"#, const { &Ty::Msg(1130, &[]) }, "graphs"));
to.push(root::<g257::B>(r#"g257::B"#, const { &Ty::Msg(1131, &[]) }, "graphs"));
to.push(root::<g258::A>(r#"g258::A"#, const { &Ty::Msg(1132, &[]) }, "graphs"));
to.push(root::<g258::B>(r#"g258::B"#, const { &Ty::Msg(1133, &[]) }, "graphs"));
to.push(root::<g259::A>(r#"g259::A"#, const { &Ty::Msg(1134, &[]) }, "graphs"));
to.push(root::<g259::B>(r#"g259::B"#, const { &Ty::Msg(1135, &[]) }, "graphs"));
to.push(root::<g260::A>(r#"g260::A"#, const { &Ty::Msg(1136, &[]) }, "graphs"));
to.push(root::<g260::B>(r#"g260::B"#, const { &Ty::Msg(1137, &[]) }, "graphs"));
to.push(root::<g261::A>(r#"g261::A"#, const { &Ty::Msg(1138, &[]) }, "graphs"));
to.push(root::<g261::B>(r#"g261::B"#, const { &Ty::Msg(1139, &[]) }, "graphs"));
to.push(root::<g262::A>(r#"g262::A"#, const { &Ty::Msg(1140, &[]) }, "graphs"));
to.push(root::<g262::B>(r#"g262::B"#, const { &Ty::Msg(1141, &[]) }, "graphs"));
to.push(root::<g263::A>(r#"g263::A"#, const { &Ty::Msg(1142, &[]) }, "graphs"));
to.push(root::<g263::B>(r#"g263::B"#, const { &Ty::Msg(1143, &[]) }, "graphs"));
to.push(root::<g264::A>(r#"g264::A"#, const { &Ty::Msg(1144, &[]) }, "graphs"));
to.push(root::<g264::B>(r#"g264::B"#, const { &Ty::Msg(1145, &[]) }, "graphs"));
to.push(root::<g265::A>(r#"g265::A"#, const { &Ty::Msg(1146, &[]) }, "graphs"));
to.push(root::<g265::B>(r#"g265::B"#, const { &Ty::Msg(1147, &[]) }, "graphs"));
}
fn roots13(to: &mut Vec<Root>) {
to.push(root::<g266::A>(r#"g266::A"#, const { &Ty::Msg(1148, &[]) }, "graphs"));
to.push(root::<g266::B>(r#"g266::B"#, const { &Ty::Msg(1149, &[]) }, "graphs"));
to.push(root::<g267::A>(r#"g267::A"#, const { &Ty::Msg(1150, &[]) }, "graphs"));
to.push(root::<g267::B>(r#"g267::B"#, const { &Ty::Msg(1151, &[]) }, "graphs"));
to.push(state_root::<g268::A>(r#"g268::A"#, const { &Ty::Msg(1152, &[]) }, "graphs"));
to.push(state_root::<g268::B>(r#"g268::B"#, const { &Ty::Msg(1153, &[]) }, "graphs"));
to.push(state_root::<g269::A>(r#"g269::A"#, const { &Ty::Msg(1154, &[]) }, "graphs"));
to.push(state_root::<g269::B>(r#"g269::B"#, const { &Ty::Msg(1155, &[]) }, "graphs"));
to.push(state_root::<g270::A>(r#"g270::A"#, const { &Ty::Msg(1156, &[]) }, "graphs"));
to.push(state_root::<g270::B>(r#"g270::B"#, const { &Ty::Msg(1157, &[]) }, "graphs"));
to.push(state_root::<g271::A>(r#"g271::A"#, const { &Ty::Msg(1158, &[]) }, "graphs"));
to.push(state_root::<g271::B>(r#"g271::B"#, const { &Ty::Msg(1159, &[]) }, "graphs"));
to.push(state_root::<g272::A>(r#"g272::A"#, const { &Ty::Msg(1160, &[]) }, "graphs"));
to.push(state_root::<g272::B>(r#"g272::B"#, const { &Ty::Msg(1161, &[]) }, "graphs"));
to.push(state_root::<g273::A>(r#"g273::A"#, const { &Ty::Msg(1162, &[]) }, "graphs"));
to.push(state_root::<g273::B>(r#"g273::B"#, const { &Ty::Msg(1163, &[]) }, "graphs"));
to.push(state_root::<g274::A>(r#"g274::A"#, const { &Ty::Msg(1164, &[]) }, "graphs"));
to.push(state_root::<g274::B>(r#"g274::B"#, const { &Ty::Msg(1165, &[]) }, "graphs"));
to.push(state_root::<g275::A>(r#"g275::A"#, const { &Ty::Msg(1166, &[]) }, "graphs"));
to.push(state_root::<g275::B>(r#"g275::B"#, const { &Ty::Msg(1167, &[]) }, "graphs"));
to.push(root::<g276::A>(r#"g276::A"#, const { &Ty::Msg(1168, &[]) }, "graphs"));
to.push(root::<g276::B>(r#"g276::B"#, const { &Ty::Msg(1169, &[]) }, "graphs"));
to.push(root::<g277::A>(r#"g277::A"#, const { &Ty::Msg(1170, &[]) }, "graphs"));
to.push(root::<g277::B>(r#"g277::B"#, const { &Ty::Msg(1171, &[]) }, "graphs"));
to.push(root::<g278::A>(r#"g278::A"#, const { &Ty::Msg(1172, &[]) }, "graphs"));
to.push(root::<g278::B>(r#"g278::B"#, const { &Ty::Msg(1173, &[]) }, "graphs"));
to.push(root::<g279::A>(r#"g279::A"#, const { &Ty::Msg(1174, &[]) }, "graphs"));
to.push(root::<g279::B>(r#"g279::B"#, const { &Ty::Msg(1175, &[]) }, "graphs"));
to.push(root::<g280::A>(r#"g280::A"#, const { &Ty::Msg(1176, &[]) }, "graphs"));
to.push(root::<g280::B>(r#"g280::B"#, const { &Ty::Msg(1177, &[]) }, "graphs"));
to.push(root::<g281::A>(r#"g281::A"#, const { &Ty::Msg(1178, &[]) }, "graphs"));
to.push(root::<g281::B>(r#"g281::B"#, const { &Ty::Msg(1179, &[]) }, "graphs"));
to.push(root::<g282::A>(r#"g282::A"#, const { &Ty::Msg(1180, &[]) }, "graphs"));
to.push(root::<g282::B>(r#"g282::B"#, const { &Ty::Msg(1181, &[]) }, "graphs"));
to.push(root::<g283::A>(r#"g283::A"#, const { &Ty::Msg(1182, &[]) }, "graphs"));
to.push(root::<g283::B>(r#"g283::B"#, const { &Ty::Msg(1183, &[]) }, "graphs"));
to.push(root::<g284::A>(r#"g284::A"#, const { &Ty::Msg(1184, &[]) }, "graphs"));
to.push(root::<g284::B>(r#"g284::B"#, const { &Ty::Msg(1185, &[]) }, "graphs"));
to.push(root::<g285::A>(r#"g285::A"#, const { &Ty::Msg(1186, &[]) }, "graphs"));
to.push(root::<g285::B>(r#"g285::B"#, const { &Ty::Msg(1187, &[]) }, "graphs"));
to.push(root::<g286::A>(r#"g286::A"#, const { &Ty::Msg(1188, &[]) }, "graphs"));
to.push(root::<g286::B>(r#"g286::B"#, const { &Ty::Msg(1189, &[]) }, "graphs"));
to.push(root::<g287::A>(r#"g287::A"#, const { &Ty::Msg(1190, &[]) }, "graphs"));
to.push(root::<g287::B>(r#"g287::B"#, const { &Ty::Msg(1191, &[]) }, "graphs"));
to.push(state_root::<g288::A>(r#"g288::A"#, const { &Ty::Msg(1192, &[]) }, "graphs"));
to.push(state_root::<g288::B>(r#"g288::B"#, const { &Ty::Msg(1193, &[]) }, "graphs"));
to.push(state_root::<g289::A>(r#"g289::A"#, const { &Ty::Msg(1194, &[]) }, "graphs"));
to.push(state_root::<g289::B>(r#"g289::B"#, const { &Ty::Msg(1195, &[]) }, "graphs"));
to.push(state_root::<g290::A>(r#"g290::A"#, const { &Ty::Msg(1196, &[]) }, "graphs"));
to.push(state_root::<g290::B>(r#"g290::B"#, const { &Ty::Msg(1197, &[]) }, "graphs"));
to.push(state_root::<g291::A>(r#"g291::A"#, const { &Ty::Msg(1198, &[]) }, "graphs"));
to.push(state_root::<g291::B>(r#"g291::B"#, const { &Ty::Msg(1199, &[]) }, "graphs"));
to.push(state_root::<g292::A>(r#"g292::A"#, const { &Ty::Msg(1200, &[]) }, "graphs"));
to.push(state_root::<g292::B>(r#"g292::B"#, const { &Ty::Msg(1201, &[]) }, "graphs"));
to.push(state_root::<g293::A>(r#"g293::A"#, const { &Ty::Msg(1202, &[]) }, "graphs"));
to.push(state_root::<g293::B>(r#"g293::B"#, const { &Ty::Msg(1203, &[]) }, "graphs"));
to.push(state_root::<g294::A>(r#"g294::A"#, const { &Ty::Msg(1204, &[]) }, "graphs"));
to.push(state_root::<g294::B>(r#"g294::B"#, const { &Ty::Msg(1205, &[]) }, "graphs"));
to.push(state_root::<g295::A>(r#"g295::A"#, const { &Ty::Msg(1206, &[]) }, "graphs"));
to.push(state_root::<g295::B>(r#"g295::B"#, const { &Ty::Msg(1207, &[]) }, "graphs"));
to.push(root::<g296::A>(r#"g296::A"#, const { &Ty::Msg(1208, &[]) }, "graphs"));
to.push(root::<g296::B>(r#"g296::B"#, const { &Ty::Msg(1209, &[]) }, "graphs"));
to.push(root::<g297::A>(r#"g297::A"#, const { &Ty::Msg(1210, &[]) }, "graphs"));
to.push(root::<g297::B>(r#"g297::B"#, const { &Ty::Msg(1211, &[]) }, "graphs"));
to.push(root::<g298::A>(r#"g298::A"#, const { &Ty::Msg(1212, &[]) }, "graphs"));
to.push(root::<g298::B>(r#"g298::B"#, const { &Ty::Msg(1213, &[]) }, "graphs"));
to.push(root::<g299::A>(r#"g299::A"#, const { &Ty::Msg(1214, &[]) }, "graphs"));
to.push(root::<g299::B>(r#"g299::B"#, const { &Ty::Msg(1215, &[]) }, "graphs"));
to.push(root::<g300::A>(r#"g300::A"#, const { &Ty::Msg(1216, &[]) }, "graphs"));
to.push(root::<g300::B>(r#"g300::B"#, const { &Ty::Msg(1217, &[]) }, "graphs"));
to.push(root::<g300::C>(r#"g300::C"#, const { &Ty::Msg(1218, &[]) }, "graphs"));
to.push(state_root::<g301::A>(r#"g301::A"#, const { &Ty::Msg(1219, &[]) }, "graphs"));
to.push(state_root::<g301::B>(r#"g301::B"#, const { &Ty::Msg(1220, &[]) }, "graphs"));
to.push(state_root::<g301::C>(r#"g301::C"#, const { &Ty::Msg(1221, &[]) }, "graphs"));
to.push(root::<g302::A>(r#"g302::A"#, const { &Ty::Msg(1222, &[]) }, "graphs"));
to.push(root::<g302::B>(r#"g302::B"#, const { &Ty::Msg(1223, &[]) }, "graphs"));
to.push(root::<g302::C>(r#"g302::C"#, const { &Ty::Msg(1224, &[]) }, "graphs"));
to.push(root::<g303::A>(r#"g303::A"#, const { &Ty::Msg(1225, &[]) }, "graphs"));
to.push(root::<g303::B>(r#"g303::B"#, const { &Ty::Msg(1226, &[]) }, "graphs"));
to.push(root::<g303::C>(r#"g303::C"#, const { &Ty::Msg(1227, &[]) }, "graphs"));
to.push(state_root::<g304::A>(r#"g304::A"#, const { &Ty::Msg(1228, &[]) }, "graphs"));
to.push(state_root::<g304::B>(r#"g304::B"#, const { &Ty::Msg(1229, &[]) }, "graphs"));
to.push(state_root::<g304::C>(r#"g304::C"#, const { &Ty::Msg(1230, &[]) }, "graphs"));
to.push(root::<g305::A>(r#"g305::A"#, const { &Ty::Msg(1231, &[]) }, "graphs"));
to.push(root::<g305::B>(r#"g305::B"#, const { &Ty::Msg(1232, &[]) }, "graphs"));
to.push(root::<g305::C>(r#"g305::C"#, const { &Ty::Msg(1233, &[]) }, "graphs"));
to.push(root::<g306::A>(r#"g306::A"#, const { &Ty::Msg(1234, &[]) }, "graphs"));
to.push(root::<g306::B>(r#"g306::B"#, const { &Ty::Msg(1235, &[]) }, "graphs"));
to.push(root::<g306::C>(r#"g306::C"#, const { &Ty::Msg(1236, &[]) }, "graphs"));
to.push(state_root::<g307::A>(r#"g307::A"#, const { &Ty::Msg(1237, &[]) }, "graphs"));
to.push(state_root::<g307::B>(r#"g307::B"#, const { &Ty::Msg(1238, &[]) }, "graphs"));
to.push(state_root::<g307::C>(r#"g307::C"#, const { &Ty::Msg(1239, &[]) }, "graphs"));
to.push(root::<g308::A>(r#"g308::A"#, const { &Ty::Msg(1240, &[]) }, "graphs"));
to.push(root::<g308::B>(r#"g308::B"#, const { &Ty::Msg(1241, &[]) }, "graphs"));
to.push(root::<g308::C>(r#"g308::C"#, const { &Ty::Msg(1242, &[]) }, "graphs"));
to.push(root::<g309::A>(r#"g309::A"#, const { &Ty::Msg(1243, &[]) }, "graphs"));
to.push(root::<g309::B>(r#"g309::B"#, const { &Ty::Msg(1244, &[]) }, "graphs"));
to.push(root::<g309::C>(r#"g309::C"#, const { &Ty::Msg(1245, &[]) }, "graphs"));
to.push(state_root::<g310::A>(r#"g310::A"#, const { &Ty::Msg(1246, &[]) }, "graphs"));
to.push(state_root::<g310::B>(r#"g310::B"#, const { &Ty::Msg(1247, &[]) }, "graphs"));
}
fn roots14(to: &mut Vec<Root>) {
to.push(state_root::<g310::C>(r#"g310::C"#, const { &Ty::Msg(1248, &[]) }, "graphs"));
to.push(root::<g311::A>(r#"g311::A"#, const { &Ty::Msg(1249, &[]) }, "graphs"));
to.push(root::<g311::B>(r#"g311::B"#, const { &Ty::Msg(1250, &[]) }, "graphs"));
to.push(root::<g311::C>(r#"g311::C"#, const { &Ty::Msg(1251, &[]) }, "graphs"));
to.push(root::<g312::A>(r#"g312::A"#, const { &Ty::Msg(1252, &[]) }, "graphs"));
to.push(root::<g312::B>(r#"g312::B"#, const { &Ty::Msg(1253, &[]) }, "graphs"));
to.push(root::<g312::C>(r#"g312::C"#, const { &Ty::Msg(1254, &[]) }, "graphs"));
to.push(state_root::<g313::A>(r#"g313::A"#, const { &Ty::Msg(1255, &[]) }, "graphs"));
to.push(state_root::<g313::B>(r#"g313::B"#, const { &Ty::Msg(1256, &[]) }, "graphs"));
to.push(state_root::<g313::C>(r#"g313::C"#, const { &Ty::Msg(1257, &[]) }, "graphs"));
to.push(root::<g314::A>(r#"g314::A"#, const { &Ty::Msg(1258, &[]) }, "graphs"));
to.push(root::<g314::B>(r#"g314::B"#, const { &Ty::Msg(1259, &[]) }, "graphs"));
to.push(root::<g314::C>(r#"g314::C"#, const { &Ty::Msg(1260, &[]) }, "graphs"));
to.push(root::<g315::A>(r#"g315::A"#, const { &Ty::Msg(1261, &[]) }, "graphs"));
to.push(root::<g315::B>(r#"g315::B"#, const { &Ty::Msg(1262, &[]) }, "graphs"));
to.push(root::<g315::C>(r#"g315::C"#, const { &Ty::Msg(1263, &[]) }, "graphs"));
to.push(state_root::<g316::A>(r#"g316::A"#, const { &Ty::Msg(1264, &[]) }, "graphs"));
to.push(state_root::<g316::B>(r#"g316::B"#, const { &Ty::Msg(1265, &[]) }, "graphs"));
to.push(state_root::<g316::C>(r#"g316::C"#, const { &Ty::Msg(1266, &[]) }, "graphs"));
to.push(root::<g317::A>(r#"g317::A"#, const { &Ty::Msg(1267, &[]) }, "graphs"));
to.push(root::<g317::B>(r#"g317::B"#, const { &Ty::Msg(1268, &[]) }, "graphs"));
to.push(root::<g317::C>(r#"g317::C"#, const { &Ty::Msg(1269, &[]) }, "graphs"));
to.push(root::<g318::A>(r#"g318::A"#, const { &Ty::Msg(1270, &[]) }, "graphs"));
to.push(root::<g318::B>(r#"g318::B"#, const { &Ty::Msg(1271, &[]) }, "graphs"));
to.push(root::<g318::C>(r#"g318::C"#, const { &Ty::Msg(1272, &[]) }, "graphs"));
to.push(state_root::<g319::A>(r#"g319::A"#, const { &Ty::Msg(1273, &[]) }, "graphs"));
to.push(state_root::<g319::B>(r#"g319::B"#, const { &Ty::Msg(1274, &[]) }, "graphs"));
to.push(state_root::<g319::C>(r#"g319::C"#, const { &Ty::Msg(1275, &[]) }, "graphs"));
to.push(root::<g320::A>(r#"g320::A"#, const { &Ty::Msg(1276, &[]) }, "graphs"));
to.push(root::<g320::B>(r#"g320::B"#, const { &Ty::Msg(1277, &[]) }, "graphs"));
to.push(root::<g320::C>(r#"g320::C"#, const { &Ty::Msg(1278, &[]) }, "graphs"));
to.push(root::<g321::A>(r#"g321::A"#, const { &Ty::Msg(1279, &[]) }, "graphs"));
to.push(root::<g321::B>(r#"g321::B"#, const { &Ty::Msg(1280, &[]) }, "graphs"));
to.push(root::<g321::C>(r#"g321::C"#, const { &Ty::Msg(1281, &[]) }, "graphs"));
to.push(state_root::<g322::A>(r#"g322::A"#, const { &Ty::Msg(1282, &[]) }, "graphs"));
to.push(state_root::<g322::B>(r#"g322::B"#, const { &Ty::Msg(1283, &[]) }, "graphs"));
to.push(state_root::<g322::C>(r#"g322::C"#, const { &Ty::Msg(1284, &[]) }, "graphs"));
to.push(root::<g323::A>(r#"g323::A"#, const { &Ty::Msg(1285, &[]) }, "graphs"));
to.push(root::<g323::B>(r#"g323::B"#, const { &Ty::Msg(1286, &[]) }, "graphs"));
to.push(root::<g323::C>(r#"g323::C"#, const { &Ty::Msg(1287, &[]) }, "graphs"));
to.push(root::<g324::A>(r#"g324::A"#, const { &Ty::Msg(1288, &[]) }, "graphs"));
to.push(root::<g324::B>(r#"g324::B"#, const { &Ty::Msg(1289, &[]) }, "graphs"));
to.push(root::<g324::C>(r#"g324::C"#, const { &Ty::Msg(1290, &[]) }, "graphs"));
to.push(state_root::<g325::A>(r#"g325::A"#, const { &Ty::Msg(1291, &[]) }, "graphs"));
to.push(state_root::<g325::B>(r#"g325::B"#, const { &Ty::Msg(1292, &[]) }, "graphs"));
to.push(state_root::<g325::C>(r#"g325::C"#, const { &Ty::Msg(1293, &[]) }, "graphs"));
to.push(root::<g326::A>(r#"g326::A"#, const { &Ty::Msg(1294, &[]) }, "graphs"));
to.push(root::<g326::B>(r#"g326::B"#, const { &Ty::Msg(1295, &[]) }, "graphs"));
to.push(root::<g326::C>(r#"g326::C"#, const { &Ty::Msg(1296, &[]) }, "graphs"));
to.push(root::<g327::A>(r#"g327::A"#, const { &Ty::Msg(1297, &[]) }, "graphs"));
to.push(root::<g327::B>(r#"g327::B"#, const { &Ty::Msg(1298, &[]) }, "graphs"));
to.push(root::<g327::C>(r#"g327::C"#, const { &Ty::Msg(1299, &[]) }, "graphs"));
to.push(state_root::<g328::A>(r#"g328::A"#, const { &Ty::Msg(1300, &[]) }, "graphs"));
to.push(state_root::<g328::B>(r#"g328::B"#, const { &Ty::Msg(1301, &[]) }, "graphs"));
to.push(state_root::<g328::C>(r#"g328::C"#, const { &Ty::Msg(1302, &[]) }, "graphs"));
to.push(root::<g329::A>(r#"g329::A"#, const { &Ty::Msg(1303, &[]) }, "graphs"));
to.push(root::<g329::B>(r#"g329::B"#, const { &Ty::Msg(1304, &[]) }, "graphs"));
to.push(root::<g329::C>(r#"g329::C"#, const { &Ty::Msg(1305, &[]) }, "graphs"));
to.push(root::<g330::A>(r#"g330::A"#, const { &Ty::Msg(1306, &[]) }, "graphs"));
to.push(root::<g330::B>(r#"g330::B"#, const { &Ty::Msg(1307, &[]) }, "graphs"));
to.push(root::<g330::C>(r#"g330::C"#, const { &Ty::Msg(1308, &[]) }, "graphs"));
to.push(state_root::<g331::A>(r#"g331::A"#, const { &Ty::Msg(1309, &[]) }, "graphs"));
to.push(state_root::<g331::B>(r#"g331::B"#, const { &Ty::Msg(1310, &[]) }, "graphs"));
to.push(state_root::<g331::C>(r#"g331::C"#, const { &Ty::Msg(1311, &[]) }, "graphs"));
to.push(root::<g332::A>(r#"g332::A"#, const { &Ty::Msg(1312, &[]) }, "graphs"));
to.push(root::<g332::B>(r#"g332::B"#, const { &Ty::Msg(1313, &[]) }, "graphs"));
to.push(root::<g332::C>(r#"g332::C"#, const { &Ty::Msg(1314, &[]) }, "graphs"));
to.push(root::<g333::A>(r#"g333::A"#, const { &Ty::Msg(1315, &[]) }, "graphs"));
to.push(root::<g333::B>(r#"g333::B"#, const { &Ty::Msg(1316, &[]) }, "graphs"));
to.push(root::<g333::C>(r#"g333::C"#, const { &Ty::Msg(1317, &[]) }, "graphs"));
to.push(state_root::<g334::A>(r#"g334::A"#, const { &Ty::Msg(1318, &[]) }, "graphs"));
to.push(state_root::<g334::B>(r#"g334::B"#, const { &Ty::Msg(1319, &[]) }, "graphs"));
to.push(state_root::<g334::C>(r#"g334::C"#, const { &Ty::Msg(1320, &[]) }, "graphs"));
to.push(root::<g335::A>(r#"g335::A"#, const { &Ty::Msg(1321, &[]) }, "graphs"));
to.push(root::<g335::B>(r#"g335::B"#, const { &Ty::Msg(1322, &[]) }, "graphs"));
to.push(root::<g335::C>(r#"g335::C"#, const { &Ty::Msg(1323, &[]) }, "graphs"));
to.push(root::<g336::A>(r#"g336::A"#, const { &Ty::Msg(1324, &[]) }, "graphs"));
to.push(root::<g336::B>(r#"g336::B"#, const { &Ty::Msg(1325, &[]) }, "graphs"));
to.push(root::<g336::C>(r#"g336::C"#, const { &Ty::Msg(1326, &[]) }, "graphs"));
to.push(state_root::<g337::A>(r#"g337::A"#, const { &Ty::Msg(1327, &[]) }, "graphs"));
to.push(state_root::<g337::B>(r#"g337::B"#, const { &Ty::Msg(1328, &[]) }, "graphs"));
to.push(state_root::<g337::C>(r#"g337::C"#, const { &Ty::Msg(1329, &[]) }, "graphs"));
to.push(root::<g338::A>(r#"g338::A"#, const { &Ty::Msg(1330, &[]) }, "graphs"));
to.push(root::<g338::B>(r#"g338::B"#, const { &Ty::Msg(1331, &[]) }, "graphs"));
to.push(root::<g338::C>(r#"g338::C"#, const { &Ty::Msg(1332, &[]) }, "graphs"));
to.push(root::<g339::A>(r#"g339::A"#, const { &Ty::Msg(1333, &[]) }, "graphs"));
to.push(root::<g339::B>(r#"g339::B"#, const { &Ty::Msg(1334, &[]) }, "graphs"));
to.push(root::<g339::C>(r#"g339::C"#, const { &Ty::Msg(1335, &[]) }, "graphs"));
to.push(state_root::<g340::A>(r#"g340::A"#, const { &Ty::Msg(1336, &[]) }, "graphs"));
to.push(state_root::<g340::B>(r#"g340::B"#, const { &Ty::Msg(1337, &[]) }, "graphs"));
to.push(state_root::<g340::C>(r#"g340::C"#, const { &Ty::Msg(1338, &[]) }, "graphs"));
to.push(root::<g341::A>(r#"g341::A"#, const { &Ty::Msg(1339, &[]) }, "graphs"));
to.push(root::<g341::B>(r#"g341::B"#, const { &Ty::Msg(1340, &[]) }, "graphs"));
to.push(root::<g341::C>(r#"g341::C"#, const { &Ty::Msg(1341, &[]) }, "graphs"));
to.push(root::<g342::A>(r#"g342::A"#, const { &Ty::Msg(1342, &[]) }, "graphs"));
to.push(root::<g342::B>(r#"g342::B"#, const { &Ty::Msg(1343, &[]) }, "graphs"));
to.push(root::<g342::C>(r#"g342::C"#, const { &Ty::Msg(1344, &[]) }, "graphs"));
to.push(state_root::<g343::A>(r#"g343::A"#, const { &Ty::Msg(1345, &[]) }, "graphs"));
to.push(state_root::<g343::B>(r#"g343::B"#, const { &Ty::Msg(1346, &[]) }, "graphs"));
to.push(state_root::<g343::C>(r#"g343::C"#, const { &Ty::Msg(1347, &[]) }, "graphs"));
}
fn roots15(to: &mut Vec<Root>) {
to.push(root::<g344::A>(r#"g344::A"#, const { &Ty::Msg(1348, &[]) }, "graphs"));
to.push(root::<g344::B>(r#"g344::B"#, const { &Ty::Msg(1349, &[]) }, "graphs"));
to.push(root::<g344::C>(r#"g344::C"#, const { &Ty::Msg(1350, &[]) }, "graphs"));
to.push(root::<g345::A>(r#"g345::A"#, const { &Ty::Msg(1351, &[]) }, "graphs"));
to.push(root::<g345::B>(r#"g345::B"#, const { &Ty::Msg(1352, &[]) }, "graphs"));
to.push(root::<g345::C>(r#"g345::C"#, const { &Ty::Msg(1353, &[]) }, "graphs"));
to.push(state_root::<g346::A>(r#"g346::A"#, const { &Ty::Msg(1354, &[]) }, "graphs"));
to.push(state_root::<g346::B>(r#"g346::B"#, const { &Ty::Msg(1355, &[]) }, "graphs"));
to.push(state_root::<g346::C>(r#"g346::C"#, const { &Ty::Msg(1356, &[]) }, "graphs"));
to.push(root::<g347::A>(r#"g347::A"#, const { &Ty::Msg(1357, &[]) }, "graphs"));
to.push(root::<g347::B>(r#"g347::B"#, const { &Ty::Msg(1358, &[]) }, "graphs"));
to.push(root::<g347::C>(r#"g347::C"#, const { &Ty::Msg(1359, &[]) }, "graphs"));
to.push(root::<g348::A>(r#"g348::A"#, const { &Ty::Msg(1360, &[]) }, "graphs"));
to.push(root::<g348::B>(r#"g348::B"#, const { &Ty::Msg(1361, &[]) }, "graphs"));
to.push(root::<g348::C>(r#"g348::C"#, const { &Ty::Msg(1362, &[]) }, "graphs"));
to.push(state_root::<g349::A>(r#"g349::A"#, const { &Ty::Msg(1363, &[]) }, "graphs"));
to.push(state_root::<g349::B>(r#"g349::B"#, const { &Ty::Msg(1364, &[]) }, "graphs"));
to.push(state_root::<g349::C>(r#"g349::C"#, const { &Ty::Msg(1365, &[]) }, "graphs"));
to.push(root::<g350::A>(r#"g350::A"#, const { &Ty::Msg(1366, &[]) }, "graphs"));
to.push(root::<g350::B>(r#"g350::B"#, const { &Ty::Msg(1367, &[]) }, "graphs"));
to.push(root::<g350::C>(r#"g350::C"#, const { &Ty::Msg(1368, &[]) }, "graphs"));
to.push(root::<g351::A>(r#"g351::A"#, const { &Ty::Msg(1369, &[]) }, "graphs"));
to.push(root::<g351::B>(r#"g351::B"#, const { &Ty::Msg(1370, &[]) }, "graphs"));
to.push(root::<g351::C>(r#"g351::C"#, const { &Ty::Msg(1371, &[]) }, "graphs"));
to.push(state_root::<g352::A>(r#"g352::A"#, const { &Ty::Msg(1372, &[]) }, "graphs"));
to.push(state_root::<g352::B>(r#"g352::B"#, const { &Ty::Msg(1373, &[]) }, "graphs"));
to.push(state_root::<g352::C>(r#"g352::C"#, const { &Ty::Msg(1374, &[]) }, "graphs"));
to.push(root::<g353::A>(r#"g353::A"#, const { &Ty::Msg(1375, &[]) }, "graphs"));
to.push(root::<g353::B>(r#"g353::B"#, const { &Ty::Msg(1376, &[]) }, "graphs"));
to.push(root::<g353::C>(r#"g353::C"#, const { &Ty::Msg(1377, &[]) }, "graphs"));
to.push(root::<g354::A>(r#"g354::A"#, const { &Ty::Msg(1378, &[]) }, "graphs"));
to.push(root::<g354::B>(r#"g354::B"#, const { &Ty::Msg(1379, &[]) }, "graphs"));
to.push(root::<g354::C>(r#"g354::C"#, const { &Ty::Msg(1380, &[]) }, "graphs"));
to.push(state_root::<g355::A>(r#"g355::A"#, const { &Ty::Msg(1381, &[]) }, "graphs"));
to.push(state_root::<g355::B>(r#"g355::B"#, const { &Ty::Msg(1382, &[]) }, "graphs"));
to.push(state_root::<g355::C>(r#"g355::C"#, const { &Ty::Msg(1383, &[]) }, "graphs"));
to.push(root::<g356::A>(r#"g356::A"#, const { &Ty::Msg(1384, &[]) }, "graphs"));
to.push(root::<g356::B>(r#"g356::B"#, const { &Ty::Msg(1385, &[]) }, "graphs"));
to.push(root::<g356::C>(r#"g356::C"#, const { &Ty::Msg(1386, &[]) }, "graphs"));
to.push(root::<g357::A>(r#"g357::A"#, const { &Ty::Msg(1387, &[]) }, "graphs"));
to.push(root::<g357::B>(r#"g357::B"#, const { &Ty::Msg(1388, &[]) }, "graphs"));
to.push(root::<g357::C>(r#"g357::C"#, const { &Ty::Msg(1389, &[]) }, "graphs"));
to.push(state_root::<g358::A>(r#"g358::A"#, const { &Ty::Msg(1390, &[]) }, "graphs"));
to.push(state_root::<g358::B>(r#"g358::B"#, const { &Ty::Msg(1391, &[]) }, "graphs"));
to.push(state_root::<g358::C>(r#"g358::C"#, const { &Ty::Msg(1392, &[]) }, "graphs"));
to.push(root::<g359::A>(r#"g359::A"#, const { &Ty::Msg(1393, &[]) }, "graphs"));
to.push(root::<g359::B>(r#"g359::B"#, const { &Ty::Msg(1394, &[]) }, "graphs"));
to.push(root::<g359::C>(r#"g359::C"#, const { &Ty::Msg(1395, &[]) }, "graphs"));
to.push(root::<g360::A>(r#"g360::A"#, const { &Ty::Msg(1396, &[]) }, "graphs"));
to.push(root::<g360::B>(r#"g360::B"#, const { &Ty::Msg(1397, &[]) }, "graphs"));
to.push(root::<g360::C>(r#"g360::C"#, const { &Ty::Msg(1398, &[]) }, "graphs"));
to.push(state_root::<g361::A>(r#"g361::A"#, const { &Ty::Msg(1399, &[]) }, "graphs"));
to.push(state_root::<g361::B>(r#"g361::B"#, const { &Ty::Msg(1400, &[]) }, "graphs"));
to.push(state_root::<g361::C>(r#"g361::C"#, const { &Ty::Msg(1401, &[]) }, "graphs"));
to.push(root::<g362::A>(r#"g362::A"#, const { &Ty::Msg(1402, &[]) }, "graphs"));
to.push(root::<g362::B>(r#"g362::B"#, const { &Ty::Msg(1403, &[]) }, "graphs"));
to.push(root::<g362::C>(r#"g362::C"#, const { &Ty::Msg(1404, &[]) }, "graphs"));
to.push(root::<g363::A>(r#"g363::A"#, const { &Ty::Msg(1405, &[]) }, "graphs"));
to.push(root::<g363::B>(r#"g363::B"#, const { &Ty::Msg(1406, &[]) }, "graphs"));
to.push(root::<g363::C>(r#"g363::C"#, const { &Ty::Msg(1407, &[]) }, "graphs"));
to.push(state_root::<g364::A>(r#"g364::A"#, const { &Ty::Msg(1408, &[]) }, "graphs"));
to.push(state_root::<g364::B>(r#"g364::B"#, const { &Ty::Msg(1409, &[]) }, "graphs"));
to.push(state_root::<g364::C>(r#"g364::C"#, const { &Ty::Msg(1410, &[]) }, "graphs"));
to.push(root::<g365::A>(r#"g365::A"#, const { &Ty::Msg(1411, &[]) }, "graphs"));
to.push(root::<g365::B>(r#"g365::B"#, const { &Ty::Msg(1412, &[]) }, "graphs"));
to.push(root::<g365::C>(r#"g365::C"#, const { &Ty::Msg(1413, &[]) }, "graphs"));
to.push(root::<g366::A>(r#"g366::A"#, const { &Ty::Msg(1414, &[]) }, "graphs"));
to.push(root::<g366::B>(r#"g366::B"#, const { &Ty::Msg(1415, &[]) }, "graphs"));
to.push(root::<g366::C>(r#"g366::C"#, const { &Ty::Msg(1416, &[]) }, "graphs"));
to.push(state_root::<g367::A>(r#"g367::A"#, const { &Ty::Msg(1417, &[]) }, "graphs"));
to.push(state_root::<g367::B>(r#"g367::B"#, const { &Ty::Msg(1418, &[]) }, "graphs"));
to.push(state_root::<g367::C>(r#"g367::C"#, const { &Ty::Msg(1419, &[]) }, "graphs"));
to.push(root::<g368::A>(r#"g368::A"#, const { &Ty::Msg(1420, &[]) }, "graphs"));
to.push(root::<g368::B>(r#"g368::B"#, const { &Ty::Msg(1421, &[]) }, "graphs"));
to.push(root::<g368::C>(r#"g368::C"#, const { &Ty::Msg(1422, &[]) }, "graphs"));
to.push(root::<g369::A>(r#"g369::A"#, const { &Ty::Msg(1423, &[]) }, "graphs"));
to.push(root::<g369::B>(r#"g369::B"#, const { &Ty::Msg(1424, &[]) }, "graphs"));
to.push(root::<g369::C>(r#"g369::C"#, const { &Ty::Msg(1425, &[]) }, "graphs"));
to.push(state_root::<g370::A>(r#"g370::A"#, const { &Ty::Msg(1426, &[]) }, "graphs"));
to.push(state_root::<g370::B>(r#"g370::B"#, const { &Ty::Msg(1427, &[]) }, "graphs"));
to.push(state_root::<g370::C>(r#"g370::C"#, const { &Ty::Msg(1428, &[]) }, "graphs"));
to.push(root::<g371::A>(r#"g371::A"#, const { &Ty::Msg(1429, &[]) }, "graphs"));
to.push(root::<g371::B>(r#"g371::B"#, const { &Ty::Msg(1430, &[]) }, "graphs"));
to.push(root::<g371::C>(r#"g371::C"#, const { &Ty::Msg(1431, &[]) }, "graphs"));
to.push(root::<g372::A>(r#"g372::A"#, const { &Ty::Msg(1432, &[]) }, "graphs"));
to.push(root::<g372::B>(r#"g372::B"#, const { &Ty::Msg(1433, &[]) }, "graphs"));
to.push(root::<g372::C>(r#"g372::C"#, const { &Ty::Msg(1434, &[]) }, "graphs"));
to.push(state_root::<g373::A>(r#"g373::A"#, const { &Ty::Msg(1435, &[]) }, "graphs"));
to.push(state_root::<g373::B>(r#"g373::B"#, const { &Ty::Msg(1436, &[]) }, "graphs"));
to.push(state_root::<g373::C>(r#"g373::C"#, const { &Ty::Msg(1437, &[]) }, "graphs"));
to.push(root::<g374::A>(r#"g374::A"#, const { &Ty::Msg(1438, &[]) }, "graphs"));
to.push(root::<g374::B>(r#"g374::B"#, const { &Ty::Msg(1439, &[]) }, "graphs"));
to.push(root::<g374::C>(r#"g374::C"#, const { &Ty::Msg(1440, &[]) }, "graphs"));
to.push(root::<g375::A>(r#"g375::A"#, const { &Ty::Msg(1441, &[]) }, "graphs"));
to.push(root::<g375::B>(r#"g375::B"#, const { &Ty::Msg(1442, &[]) }, "graphs"));
to.push(root::<g375::C>(r#"g375::C"#, const { &Ty::Msg(1443, &[]) }, "graphs"));
to.push(state_root::<g376::A>(r#"g376::A"#, const { &Ty::Msg(1444, &[]) }, "graphs"));
to.push(state_root::<g376::B>(r#"g376::B"#, const { &Ty::Msg(1445, &[]) }, "graphs"));
to.push(state_root::<g376::C>(r#"g376::C"#, const { &Ty::Msg(1446, &[]) }, "graphs"));
to.push(root::<g377::A>(r#"g377::A"#, const { &Ty::Msg(1447, &[]) }, "graphs"));
}
fn roots16(to: &mut Vec<Root>) {
to.push(root::<g377::B>(r#"g377::B"#, const { &Ty::Msg(1448, &[]) }, "graphs"));
to.push(root::<g377::C>(r#"g377::C"#, const { &Ty::Msg(1449, &[]) }, "graphs"));
to.push(root::<g378::A>(r#"g378::A"#, const { &Ty::Msg(1450, &[]) }, "graphs"));
to.push(root::<g378::B>(r#"g378::B"#, const { &Ty::Msg(1451, &[]) }, "graphs"));
to.push(root::<g378::C>(r#"g378::C"#, const { &Ty::Msg(1452, &[]) }, "graphs"));
to.push(state_root::<g379::A>(r#"g379::A"#, const { &Ty::Msg(1453, &[]) }, "graphs"));
to.push(state_root::<g379::B>(r#"g379::B"#, const { &Ty::Msg(1454, &[]) }, "graphs"));
to.push(state_root::<g379::C>(r#"g379::C"#, const { &Ty::Msg(1455, &[]) }, "graphs"));
to.push(root::<g380::A>(r#"g380::A"#, const { &Ty::Msg(1456, &[]) }, "graphs"));
to.push(root::<g380::B>(r#"g380::B"#, const { &Ty::Msg(1457, &[]) }, "graphs"));
to.push(root::<g380::C>(r#"g380::C"#, const { &Ty::Msg(1458, &[]) }, "graphs"));
to.push(root::<g381::A>(r#"g381::A"#, const { &Ty::Msg(1459, &[]) }, "graphs"));
to.push(root::<g381::B>(r#"g381::B"#, const { &Ty::Msg(1460, &[]) }, "graphs"));
to.push(root::<g381::C>(r#"g381::C"#, const { &Ty::Msg(1461, &[]) }, "graphs"));
to.push(state_root::<g382::A>(r#"g382::A"#, const { &Ty::Msg(1462, &[]) }, "graphs"));
to.push(state_root::<g382::B>(r#"g382::B"#, const { &Ty::Msg(1463, &[]) }, "graphs"));
to.push(state_root::<g382::C>(r#"g382::C"#, const { &Ty::Msg(1464, &[]) }, "graphs"));
to.push(root::<g383::A>(r#"g383::A"#, const { &Ty::Msg(1465, &[]) }, "graphs"));
to.push(root::<g383::B>(r#"g383::B"#, const { &Ty::Msg(1466, &[]) }, "graphs"));
to.push(root::<g383::C>(r#"g383::C"#, const { &Ty::Msg(1467, &[]) }, "graphs"));
to.push(root::<g384::A>(r#"g384::A"#, const { &Ty::Msg(1468, &[]) }, "graphs"));
to.push(root::<g384::B>(r#"g384::B"#, const { &Ty::Msg(1469, &[]) }, "graphs"));
to.push(root::<g384::C>(r#"g384::C"#, const { &Ty::Msg(1470, &[]) }, "graphs"));
to.push(state_root::<g385::A>(r#"g385::A"#, const { &Ty::Msg(1471, &[]) }, "graphs"));
to.push(state_root::<g385::B>(r#"g385::B"#, const { &Ty::Msg(1472, &[]) }, "graphs"));
to.push(state_root::<g385::C>(r#"g385::C"#, const { &Ty::Msg(1473, &[]) }, "graphs"));
to.push(root::<g386::A>(r#"g386::A"#, const { &Ty::Msg(1474, &[]) }, "graphs"));
to.push(root::<g386::B>(r#"g386::B"#, const { &Ty::Msg(1475, &[]) }, "graphs"));
to.push(root::<g386::C>(r#"g386::C"#, const { &Ty::Msg(1476, &[]) }, "graphs"));
to.push(root::<g387::A>(r#"g387::A"#, const { &Ty::Msg(1477, &[]) }, "graphs"));
to.push(root::<g387::B>(r#"g387::B"#, const { &Ty::Msg(1478, &[]) }, "graphs"));
to.push(root::<g387::C>(r#"g387::C"#, const { &Ty::Msg(1479, &[]) }, "graphs"));
to.push(state_root::<g388::A>(r#"g388::A"#, const { &Ty::Msg(1480, &[]) }, "graphs"));
to.push(state_root::<g388::B>(r#"g388::B"#, const { &Ty::Msg(1481, &[]) }, "graphs"));
to.push(state_root::<g388::C>(r#"g388::C"#, const { &Ty::Msg(1482, &[]) }, "graphs"));
to.push(root::<g389::A>(r#"g389::A"#, const { &Ty::Msg(1483, &[]) }, "graphs"));
to.push(root::<g389::B>(r#"g389::B"#, const { &Ty::Msg(1484, &[]) }, "graphs"));
to.push(root::<g389::C>(r#"g389::C"#, const { &Ty::Msg(1485, &[]) }, "graphs"));
to.push(root::<g390::A>(r#"g390::A"#, const { &Ty::Msg(1486, &[]) }, "graphs"));
to.push(root::<g390::B>(r#"g390::B"#, const { &Ty::Msg(1487, &[]) }, "graphs"));
to.push(root::<g390::C>(r#"g390::C"#, const { &Ty::Msg(1488, &[]) }, "graphs"));
to.push(state_root::<g391::A>(r#"g391::A"#, const { &Ty::Msg(1489, &[]) }, "graphs"));
to.push(state_root::<g391::B>(r#"g391::B"#, const { &Ty::Msg(1490, &[]) }, "graphs"));
to.push(state_root::<g391::C>(r#"g391::C"#, const { &Ty::Msg(1491, &[]) }, "graphs"));
to.push(root::<g392::A>(r#"g392::A"#, const { &Ty::Msg(1492, &[]) }, "graphs"));
to.push(root::<g392::B>(r#"g392::B"#, const { &Ty::Msg(1493, &[]) }, "graphs"));
to.push(root::<g392::C>(r#"g392::C"#, const { &Ty::Msg(1494, &[]) }, "graphs"));
to.push(root::<g393::A>(r#"g393::A"#, const { &Ty::Msg(1495, &[]) }, "graphs"));
to.push(root::<g393::B>(r#"g393::B"#, const { &Ty::Msg(1496, &[]) }, "graphs"));
to.push(root::<g393::C>(r#"g393::C"#, const { &Ty::Msg(1497, &[]) }, "graphs"));
to.push(state_root::<g394::A>(r#"g394::A"#, const { &Ty::Msg(1498, &[]) }, "graphs"));
to.push(state_root::<g394::B>(r#"g394::B"#, const { &Ty::Msg(1499, &[]) }, "graphs"));
to.push(state_root::<g394::C>(r#"g394::C"#, const { &Ty::Msg(1500, &[]) }, "graphs"));
to.push(root::<g395::A>(r#"g395::A"#, const { &Ty::Msg(1501, &[]) }, "graphs"));
to.push(root::<g395::B>(r#"g395::B"#, const { &Ty::Msg(1502, &[]) }, "graphs"));
to.push(root::<g395::C>(r#"g395::C"#, const { &Ty::Msg(1503, &[]) }, "graphs"));
to.push(root::<g396::A>(r#"g396::A"#, const { &Ty::Msg(1504, &[]) }, "graphs"));
to.push(root::<g396::B>(r#"g396::B"#, const { &Ty::Msg(1505, &[]) }, "graphs"));
to.push(root::<g396::C>(r#"g396::C"#, const { &Ty::Msg(1506, &[]) }, "graphs"));
to.push(state_root::<g397::A>(r#"g397::A"#, const { &Ty::Msg(1507, &[]) }, "graphs"));
to.push(state_root::<g397::B>(r#"g397::B"#, const { &Ty::Msg(1508, &[]) }, "graphs"));
to.push(state_root::<g397::C>(r#"g397::C"#, const { &Ty::Msg(1509, &[]) }, "graphs"));
to.push(root::<g398::A>(r#"g398::A"#, const { &Ty::Msg(1510, &[]) }, "graphs"));
to.push(root::<g398::B>(r#"g398::B"#, const { &Ty::Msg(1511, &[]) }, "graphs"));
to.push(root::<g398::C>(r#"g398::C"#, const { &Ty::Msg(1512, &[]) }, "graphs"));
to.push(root::<g399::A>(r#"g399::A"#, const { &Ty::Msg(1513, &[]) }, "graphs"));
to.push(root::<g399::B>(r#"g399::B"#, const { &Ty::Msg(1514, &[]) }, "graphs"));
to.push(root::<g399::C>(r#"g399::C"#, const { &Ty::Msg(1515, &[]) }, "graphs"));
to.push(state_root::<g400::A>(r#"g400::A"#, const { &Ty::Msg(1516, &[]) }, "graphs"));
to.push(state_root::<g400::B>(r#"g400::B"#, const { &Ty::Msg(1517, &[]) }, "graphs"));
to.push(state_root::<g400::C>(r#"g400::C"#, const { &Ty::Msg(1518, &[]) }, "graphs"));
to.push(root::<g401::A>(r#"g401::A"#, const { &Ty::Msg(1519, &[]) }, "graphs"));
to.push(root::<g401::B>(r#"g401::B"#, const { &Ty::Msg(1520, &[]) }, "graphs"));
to.push(root::<g401::C>(r#"g401::C"#, const { &Ty::Msg(1521, &[]) }, "graphs"));
to.push(root::<g402::A>(r#"g402::A"#, const { &Ty::Msg(1522, &[]) }, "graphs"));
to.push(root::<g402::B>(r#"g402::B"#, const { &Ty::Msg(1523, &[]) }, "graphs"));
to.push(root::<g402::C>(r#"g402::C"#, const { &Ty::Msg(1524, &[]) }, "graphs"));
to.push(state_root::<g403::A>(r#"g403::A"#, const { &Ty::Msg(1525, &[]) }, "graphs"));
to.push(state_root::<g403::B>(r#"g403::B"#, const { &Ty::Msg(1526, &[]) }, "graphs"));
to.push(state_root::<g403::C>(r#"g403::C"#, const { &Ty::Msg(1527, &[]) }, "graphs"));
to.push(root::<g404::A>(r#"g404::A"#, const { &Ty::Msg(1528, &[]) }, "graphs"));
to.push(root::<g404::B>(r#"g404::B"#, const { &Ty::Msg(1529, &[]) }, "graphs"));
to.push(root::<g404::C>(r#"g404::C"#, const { &Ty::Msg(1530, &[]) }, "graphs"));
to.push(root::<g405::A>(r#"g405::A"#, const { &Ty::Msg(1531, &[]) }, "graphs"));
to.push(root::<g405::B>(r#"g405::B"#, const { &Ty::Msg(1532, &[]) }, "graphs"));
to.push(root::<g405::C>(r#"g405::C"#, const { &Ty::Msg(1533, &[]) }, "graphs"));
to.push(state_root::<g406::A>(r#"g406::A"#, const { &Ty::Msg(1534, &[]) }, "graphs"));
to.push(state_root::<g406::B>(r#"g406::B"#, const { &Ty::Msg(1535, &[]) }, "graphs"));
to.push(state_root::<g406::C>(r#"g406::C"#, const { &Ty::Msg(1536, &[]) }, "graphs"));
to.push(root::<g407::A>(r#"g407::A"#, const { &Ty::Msg(1537, &[]) }, "graphs"));
to.push(root::<g407::B>(r#"g407::B"#, const { &Ty::Msg(1538, &[]) }, "graphs"));
to.push(root::<g407::C>(r#"g407::C"#, const { &Ty::Msg(1539, &[]) }, "graphs"));
to.push(root::<g408::A>(r#"g408::A"#, const { &Ty::Msg(1540, &[]) }, "graphs"));
to.push(root::<g408::B>(r#"g408::B"#, const { &Ty::Msg(1541, &[]) }, "graphs"));
to.push(root::<g408::C>(r#"g408::C"#, const { &Ty::Msg(1542, &[]) }, "graphs"));
to.push(state_root::<g409::A>(r#"g409::A"#, const { &Ty::Msg(1543, &[]) }, "graphs"));
to.push(state_root::<g409::B>(r#"g409::B"#, const { &Ty::Msg(1544, &[]) }, "graphs"));
to.push(state_root::<g409::C>(r#"g409::C"#, const { &Ty::Msg(1545, &[]) }, "graphs"));
to.push(root::<g410::A>(r#"g410::A"#, const { &Ty::Msg(1546, &[]) }, "graphs"));
to.push(root::<g410::B>(r#"g410::B"#, const { &Ty::Msg(1547, &[]) }, "graphs"));
}
fn roots17(to: &mut Vec<Root>) {
to.push(root::<g410::C>(r#"g410::C"#, const { &Ty::Msg(1548, &[]) }, "graphs"));
to.push(root::<g411::A>(r#"g411::A"#, const { &Ty::Msg(1549, &[]) }, "graphs"));
to.push(root::<g411::B>(r#"g411::B"#, const { &Ty::Msg(1550, &[]) }, "graphs"));
to.push(root::<g411::C>(r#"g411::C"#, const { &Ty::Msg(1551, &[]) }, "graphs"));
to.push(state_root::<g412::A>(r#"g412::A"#, const { &Ty::Msg(1552, &[]) }, "graphs"));
to.push(state_root::<g412::B>(r#"g412::B"#, const { &Ty::Msg(1553, &[]) }, "graphs"));
to.push(state_root::<g412::C>(r#"g412::C"#, const { &Ty::Msg(1554, &[]) }, "graphs"));
to.push(root::<g413::A>(r#"g413::A"#, const { &Ty::Msg(1555, &[]) }, "graphs"));
to.push(root::<g413::B>(r#"g413::B"#, const { &Ty::Msg(1556, &[]) }, "graphs"));
to.push(root::<g413::C>(r#"g413::C"#, const { &Ty::Msg(1557, &[]) }, "graphs"));
to.push(root::<g414::A>(r#"g414::A"#, const { &Ty::Msg(1558, &[]) }, "graphs"));
to.push(root::<g414::B>(r#"g414::B"#, const { &Ty::Msg(1559, &[]) }, "graphs"));
to.push(root::<g414::C>(r#"g414::C"#, const { &Ty::Msg(1560, &[]) }, "graphs"));
to.push(state_root::<g415::A>(r#"g415::A"#, const { &Ty::Msg(1561, &[]) }, "graphs"));
to.push(state_root::<g415::B>(r#"g415::B"#, const { &Ty::Msg(1562, &[]) }, "graphs"));
to.push(state_root::<g415::C>(r#"g415::C"#, const { &Ty::Msg(1563, &[]) }, "graphs"));
to.push(root::<g416::A>(r#"g416::A"#, const { &Ty::Msg(1564, &[]) }, "graphs"));
to.push(root::<g416::B>(r#"g416::B"#, const { &Ty::Msg(1565, &[]) }, "graphs"));
to.push(root::<g416::C>(r#"g416::C"#, const { &Ty::Msg(1566, &[]) }, "graphs"));
to.push(root::<g417::A>(r#"g417::A"#, const { &Ty::Msg(1567, &[]) }, "graphs"));
to.push(root::<g417::B>(r#"g417::B"#, const { &Ty::Msg(1568, &[]) }, "graphs"));
to.push(root::<g417::C>(r#"g417::C"#, const { &Ty::Msg(1569, &[]) }, "graphs"));
to.push(state_root::<g418::A>(r#"g418::A"#, const { &Ty::Msg(1570, &[]) }, "graphs"));
to.push(state_root::<g418::B>(r#"g418::B"#, const { &Ty::Msg(1571, &[]) }, "graphs"));
to.push(state_root::<g418::C>(r#"g418::C"#, const { &Ty::Msg(1572, &[]) }, "graphs"));
to.push(root::<g419::A>(r#"g419::A"#, const { &Ty::Msg(1573, &[]) }, "graphs"));
to.push(root::<g419::B>(r#"g419::B"#, const { &Ty::Msg(1574, &[]) }, "graphs"));
to.push(root::<g419::C>(r#"g419::C"#, const { &Ty::Msg(1575, &[]) }, "graphs"));
to.push(root::<g420::A>(r#"g420::A"#, const { &Ty::Msg(1576, &[]) }, "graphs"));
to.push(root::<g420::B>(r#"g420::B"#, const { &Ty::Msg(1577, &[]) }, "graphs"));
to.push(root::<g420::C>(r#"g420::C"#, const { &Ty::Msg(1578, &[]) }, "graphs"));
to.push(state_root::<g421::A>(r#"g421::A"#, const { &Ty::Msg(1579, &[]) }, "graphs"));
to.push(state_root::<g421::B>(r#"g421::B"#, const { &Ty::Msg(1580, &[]) }, "graphs"));
to.push(state_root::<g421::C>(r#"g421::C"#, const { &Ty::Msg(1581, &[]) }, "graphs"));
to.push(root::<g422::A>(r#"g422::A"#, const { &Ty::Msg(1582, &[]) }, "graphs"));
to.push(root::<g422::B>(r#"g422::B"#, const { &Ty::Msg(1583, &[]) }, "graphs"));
to.push(root::<g422::C>(r#"g422::C"#, const { &Ty::Msg(1584, &[]) }, "graphs"));
to.push(root::<g423::A>(r#"g423::A"#, const { &Ty::Msg(1585, &[]) }, "graphs"));
to.push(root::<g423::B>(r#"g423::B"#, const { &Ty::Msg(1586, &[]) }, "graphs"));
to.push(root::<g423::C>(r#"g423::C"#, const { &Ty::Msg(1587, &[]) }, "graphs"));
to.push(state_root::<g424::A>(r#"g424::A"#, const { &Ty::Msg(1588, &[]) }, "graphs"));
to.push(state_root::<g424::B>(r#"g424::B"#, const { &Ty::Msg(1589, &[]) }, "graphs"));
to.push(state_root::<g424::C>(r#"g424::C"#, const { &Ty::Msg(1590, &[]) }, "graphs"));
to.push(root::<g425::A>(r#"g425::A"#, const { &Ty::Msg(1591, &[]) }, "graphs"));
to.push(root::<g425::B>(r#"g425::B"#, const { &Ty::Msg(1592, &[]) }, "graphs"));
to.push(root::<g425::C>(r#"g425::C"#, const { &Ty::Msg(1593, &[]) }, "graphs"));
to.push(root::<g426::A>(r#"g426::A"#, const { &Ty::Msg(1594, &[]) }, "graphs"));
to.push(root::<g426::B>(r#"g426::B"#, const { &Ty::Msg(1595, &[]) }, "graphs"));
to.push(root::<g426::C>(r#"g426::C"#, const { &Ty::Msg(1596, &[]) }, "graphs"));
to.push(state_root::<g427::A>(r#"g427::A"#, const { &Ty::Msg(1597, &[]) }, "graphs"));
to.push(state_root::<g427::B>(r#"g427::B"#, const { &Ty::Msg(1598, &[]) }, "graphs"));
to.push(state_root::<g427::C>(r#"g427::C"#, const { &Ty::Msg(1599, &[]) }, "graphs"));
to.push(root::<g428::A>(r#"g428::A"#, const { &Ty::Msg(1600, &[]) }, "graphs"));
to.push(root::<g428::B>(r#"g428::B"#, const { &Ty::Msg(1601, &[]) }, "graphs"));
to.push(root::<g428::C>(r#"g428::C"#, const { &Ty::Msg(1602, &[]) }, "graphs"));
to.push(root::<g429::A>(r#"g429::A"#, const { &Ty::Msg(1603, &[]) }, "graphs"));
to.push(root::<g429::B>(r#"g429::B"#, const { &Ty::Msg(1604, &[]) }, "graphs"));
to.push(root::<g429::C>(r#"g429::C"#, const { &Ty::Msg(1605, &[]) }, "graphs"));
to.push(state_root::<g430::A>(r#"g430::A"#, const { &Ty::Msg(1606, &[]) }, "graphs"));
to.push(state_root::<g430::B>(r#"g430::B"#, const { &Ty::Msg(1607, &[]) }, "graphs"));
to.push(state_root::<g430::C>(r#"g430::C"#, const { &Ty::Msg(1608, &[]) }, "graphs"));
to.push(root::<g431::A>(r#"g431::A"#, const { &Ty::Msg(1609, &[]) }, "graphs"));
to.push(root::<g431::B>(r#"g431::B"#, const { &Ty::Msg(1610, &[]) }, "graphs"));
to.push(root::<g431::C>(r#"g431::C"#, const { &Ty::Msg(1611, &[]) }, "graphs"));
to.push(root::<g432::A>(r#"g432::A"#, const { &Ty::Msg(1612, &[]) }, "graphs"));
to.push(root::<g432::B>(r#"g432::B"#, const { &Ty::Msg(1613, &[]) }, "graphs"));
to.push(root::<g432::C>(r#"g432::C"#, const { &Ty::Msg(1614, &[]) }, "graphs"));
to.push(state_root::<g433::A>(r#"g433::A"#, const { &Ty::Msg(1615, &[]) }, "graphs"));
to.push(state_root::<g433::B>(r#"g433::B"#, const { &Ty::Msg(1616, &[]) }, "graphs"));
to.push(state_root::<g433::C>(r#"g433::C"#, const { &Ty::Msg(1617, &[]) }, "graphs"));
to.push(root::<g434::A>(r#"g434::A"#, const { &Ty::Msg(1618, &[]) }, "graphs"));
to.push(root::<g434::B>(r#"g434::B"#, const { &Ty::Msg(1619, &[]) }, "graphs"));
to.push(root::<g434::C>(r#"g434::C"#, const { &Ty::Msg(1620, &[]) }, "graphs"));
to.push(root::<g435::A>(r#"g435::A"#, const { &Ty::Msg(1621, &[]) }, "graphs"));
to.push(root::<g435::B>(r#"g435::B"#, const { &Ty::Msg(1622, &[]) }, "graphs"));
to.push(root::<g435::C>(r#"g435::C"#, const { &Ty::Msg(1623, &[]) }, "graphs"));
to.push(state_root::<g436::A>(r#"g436::A"#, const { &Ty::Msg(1624, &[]) }, "graphs"));
to.push(state_root::<g436::B>(r#"g436::B"#, const { &Ty::Msg(1625, &[]) }, "graphs"));
to.push(state_root::<g436::C>(r#"g436::C"#, const { &Ty::Msg(1626, &[]) }, "graphs"));
to.push(root::<g437::A>(r#"g437::A"#, const { &Ty::Msg(1627, &[]) }, "graphs"));
to.push(root::<g437::B>(r#"g437::B"#, const { &Ty::Msg(1628, &[]) }, "graphs"));
to.push(root::<g437::C>(r#"g437::C"#, const { &Ty::Msg(1629, &[]) }, "graphs"));
to.push(root::<g438::A>(r#"g438::A"#, const { &Ty::Msg(1630, &[]) }, "graphs"));
to.push(root::<g438::B>(r#"g438::B"#, const { &Ty::Msg(1631, &[]) }, "graphs"));
to.push(root::<g438::C>(r#"g438::C"#, const { &Ty::Msg(1632, &[]) }, "graphs"));
to.push(state_root::<g439::A>(r#"g439::A"#, const { &Ty::Msg(1633, &[]) }, "graphs"));
to.push(state_root::<g439::B>(r#"g439::B"#, const { &Ty::Msg(1634, &[]) }, "graphs"));
to.push(state_root::<g439::C>(r#"g439::C"#, const { &Ty::Msg(1635, &[]) }, "graphs"));
to.push(root::<g440::A>(r#"g440::A"#, const { &Ty::Msg(1636, &[]) }, "graphs"));
to.push(root::<g440::B>(r#"g440::B"#, const { &Ty::Msg(1637, &[]) }, "graphs"));
to.push(root::<g440::C>(r#"g440::C"#, const { &Ty::Msg(1638, &[]) }, "graphs"));
to.push(root::<g441::A>(r#"g441::A"#, const { &Ty::Msg(1639, &[]) }, "graphs"));
to.push(root::<g441::B>(r#"g441::B"#, const { &Ty::Msg(1640, &[]) }, "graphs"));
to.push(root::<g441::C>(r#"g441::C"#, const { &Ty::Msg(1641, &[]) }, "graphs"));
to.push(state_root::<g442::A>(r#"g442::A"#, const { &Ty::Msg(1642, &[]) }, "graphs"));
to.push(state_root::<g442::B>(r#"g442::B"#, const { &Ty::Msg(1643, &[]) }, "graphs"));
to.push(state_root::<g442::C>(r#"g442::C"#, const { &Ty::Msg(1644, &[]) }, "graphs"));
to.push(root::<g443::A>(r#"g443::A"#, const { &Ty::Msg(1645, &[]) }, "graphs"));
to.push(root::<g443::B>(r#"g443::B"#, const { &Ty::Msg(1646, &[]) }, "graphs"));
to.push(root::<g443::C>(r#"g443::C"#, const { &Ty::Msg(1647, &[]) }, "graphs"));
}
fn roots18(to: &mut Vec<Root>) {
to.push(root::<g444::A>(r#"g444::A"#, const { &Ty::Msg(1648, &[]) }, "graphs"));
to.push(root::<g444::B>(r#"g444::B"#, const { &Ty::Msg(1649, &[]) }, "graphs"));
to.push(root::<g444::C>(r#"g444::C"#, const { &Ty::Msg(1650, &[]) }, "graphs"));
to.push(state_root::<g445::A>(r#"g445::A"#, const { &Ty::Msg(1651, &[]) }, "graphs"));
to.push(state_root::<g445::B>(r#"g445::B"#, const { &Ty::Msg(1652, &[]) }, "graphs"));
to.push(state_root::<g445::C>(r#"g445::C"#, const { &Ty::Msg(1653, &[]) }, "graphs"));
to.push(root::<g446::A>(r#"g446::A"#, const { &Ty::Msg(1654, &[]) }, "graphs"));
to.push(root::<g446::B>(r#"g446::B"#, const { &Ty::Msg(1655, &[]) }, "graphs"));
to.push(root::<g446::C>(r#"g446::C"#, const { &Ty::Msg(1656, &[]) }, "graphs"));
to.push(root::<g447::A>(r#"g447::A"#, const { &Ty::Msg(1657, &[]) }, "graphs"));
to.push(root::<g447::B>(r#"g447::B"#, const { &Ty::Msg(1658, &[]) }, "graphs"));
to.push(root::<g447::C>(r#"g447::C"#, const { &Ty::Msg(1659, &[]) }, "graphs"));
to.push(state_root::<g448::A>(r#"g448::A"#, const { &Ty::Msg(1660, &[]) }, "graphs"));
to.push(state_root::<g448::B>(r#"g448::B"#, const { &Ty::Msg(1661, &[]) }, "graphs"));
to.push(state_root::<g448::C>(r#"g448::C"#, const { &Ty::Msg(1662, &[]) }, "graphs"));
to.push(root::<g449::A>(r#"g449::A"#, const { &Ty::Msg(1663, &[]) }, "graphs"));
to.push(root::<g449::B>(r#"g449::B"#, const { &Ty::Msg(1664, &[]) }, "graphs"));
to.push(root::<g449::C>(r#"g449::C"#, const { &Ty::Msg(1665, &[]) }, "graphs"));
to.push(root::<g450::A>(r#"g450::A"#, const { &Ty::Msg(1666, &[]) }, "graphs"));
to.push(root::<g450::B>(r#"g450::B"#, const { &Ty::Msg(1667, &[]) }, "graphs"));
to.push(root::<g450::C>(r#"g450::C"#, const { &Ty::Msg(1668, &[]) }, "graphs"));
to.push(state_root::<g451::A>(r#"g451::A"#, const { &Ty::Msg(1669, &[]) }, "graphs"));
to.push(state_root::<g451::B>(r#"g451::B"#, const { &Ty::Msg(1670, &[]) }, "graphs"));
to.push(state_root::<g451::C>(r#"g451::C"#, const { &Ty::Msg(1671, &[]) }, "graphs"));
to.push(root::<g452::A>(r#"g452::A"#, const { &Ty::Msg(1672, &[]) }, "graphs"));
to.push(root::<g452::B>(r#"g452::B"#, const { &Ty::Msg(1673, &[]) }, "graphs"));
to.push(root::<g452::C>(r#"g452::C"#, const { &Ty::Msg(1674, &[]) }, "graphs"));
to.push(root::<g453::A>(r#"g453::A"#, const { &Ty::Msg(1675, &[]) }, "graphs"));
to.push(root::<g453::B>(r#"g453::B"#, const { &Ty::Msg(1676, &[]) }, "graphs"));
to.push(root::<g453::C>(r#"g453::C"#, const { &Ty::Msg(1677, &[]) }, "graphs"));
to.push(state_root::<g454::A>(r#"g454::A"#, const { &Ty::Msg(1678, &[]) }, "graphs"));
to.push(state_root::<g454::B>(r#"g454::B"#, const { &Ty::Msg(1679, &[]) }, "graphs"));
to.push(state_root::<g454::C>(r#"g454::C"#, const { &Ty::Msg(1680, &[]) }, "graphs"));
to.push(root::<g455::A>(r#"g455::A"#, const { &Ty::Msg(1681, &[]) }, "graphs"));
to.push(root::<g455::B>(r#"g455::B"#, const { &Ty::Msg(1682, &[]) }, "graphs"));
to.push(root::<g455::C>(r#"g455::C"#, const { &Ty::Msg(1683, &[]) }, "graphs"));
to.push(root::<g456::A>(r#"g456::A"#, const { &Ty::Msg(1684, &[]) }, "graphs"));
to.push(root::<g456::B>(r#"g456::B"#, const { &Ty::Msg(1685, &[]) }, "graphs"));
to.push(root::<g456::C>(r#"g456::C"#, const { &Ty::Msg(1686, &[]) }, "graphs"));
to.push(state_root::<g457::A>(r#"g457::A"#, const { &Ty::Msg(1687, &[]) }, "graphs"));
to.push(state_root::<g457::B>(r#"g457::B"#, const { &Ty::Msg(1688, &[]) }, "graphs"));
to.push(state_root::<g457::C>(r#"g457::C"#, const { &Ty::Msg(1689, &[]) }, "graphs"));
to.push(root::<g458::A>(r#"g458::A"#, const { &Ty::Msg(1690, &[]) }, "graphs"));
to.push(root::<g458::B>(r#"g458::B"#, const { &Ty::Msg(1691, &[]) }, "graphs"));
to.push(root::<g458::C>(r#"g458::C"#, const { &Ty::Msg(1692, &[]) }, "graphs"));
to.push(root::<g459::A>(r#"g459::A"#, const { &Ty::Msg(1693, &[]) }, "graphs"));
to.push(root::<g459::B>(r#"g459::B"#, const { &Ty::Msg(1694, &[]) }, "graphs"));
to.push(root::<g459::C>(r#"g459::C"#, const { &Ty::Msg(1695, &[]) }, "graphs"));
to.push(state_root::<g460::A>(r#"g460::A"#, const { &Ty::Msg(1696, &[]) }, "graphs"));
to.push(state_root::<g460::B>(r#"g460::B"#, const { &Ty::Msg(1697, &[]) }, "graphs"));
to.push(state_root::<g460::C>(r#"g460::C"#, const { &Ty::Msg(1698, &[]) }, "graphs"));
to.push(root::<g461::A>(r#"g461::A"#, const { &Ty::Msg(1699, &[]) }, "graphs"));
to.push(root::<g461::B>(r#"g461::B"#, const { &Ty::Msg(1700, &[]) }, "graphs"));
to.push(root::<g461::C>(r#"g461::C"#, const { &Ty::Msg(1701, &[]) }, "graphs"));
to.push(root::<g462::A>(r#"g462::A"#, const { &Ty::Msg(1702, &[]) }, "graphs"));
to.push(root::<g462::B>(r#"g462::B"#, const { &Ty::Msg(1703, &[]) }, "graphs"));
to.push(root::<g462::C>(r#"g462::C"#, const { &Ty::Msg(1704, &[]) }, "graphs"));
to.push(state_root::<g463::A>(r#"g463::A"#, const { &Ty::Msg(1705, &[]) }, "graphs"));
to.push(state_root::<g463::B>(r#"g463::B"#, const { &Ty::Msg(1706, &[]) }, "graphs"));
to.push(state_root::<g463::C>(r#"g463::C"#, const { &Ty::Msg(1707, &[]) }, "graphs"));
to.push(root::<g464::A>(r#"g464::A"#, const { &Ty::Msg(1708, &[]) }, "graphs"));
to.push(root::<g464::B>(r#"g464::B"#, const { &Ty::Msg(1709, &[]) }, "graphs"));
to.push(root::<g464::C>(r#"g464::C"#, const { &Ty::Msg(1710, &[]) }, "graphs"));
to.push(root::<g465::A>(r#"g465::A"#, const { &Ty::Msg(1711, &[]) }, "graphs"));
to.push(root::<g465::B>(r#"g465::B"#, const { &Ty::Msg(1712, &[]) }, "graphs"));
to.push(root::<g465::C>(r#"g465::C"#, const { &Ty::Msg(1713, &[]) }, "graphs"));
to.push(state_root::<g466::A>(r#"g466::A"#, const { &Ty::Msg(1714, &[]) }, "graphs"));
to.push(state_root::<g466::B>(r#"g466::B"#, const { &Ty::Msg(1715, &[]) }, "graphs"));
to.push(state_root::<g466::C>(r#"g466::C"#, const { &Ty::Msg(1716, &[]) }, "graphs"));
to.push(root::<g467::A>(r#"g467::A"#, const { &Ty::Msg(1717, &[]) }, "graphs"));
to.push(root::<g467::B>(r#"g467::B"#, const { &Ty::Msg(1718, &[]) }, "graphs"));
to.push(root::<g467::C>(r#"g467::C"#, const { &Ty::Msg(1719, &[]) }, "graphs"));
to.push(root::<g468::A>(r#"g468::A"#, const { &Ty::Msg(1720, &[]) }, "graphs"));
to.push(root::<g468::B>(r#"g468::B"#, const { &Ty::Msg(1721, &[]) }, "graphs"));
to.push(root::<g468::C>(r#"g468::C"#, const { &Ty::Msg(1722, &[]) }, "graphs"));
to.push(state_root::<g469::A>(r#"g469::A"#, const { &Ty::Msg(1723, &[]) }, "graphs"));
to.push(state_root::<g469::B>(r#"g469::B"#, const { &Ty::Msg(1724, &[]) }, "graphs"));
to.push(state_root::<g469::C>(r#"g469::C"#, const { &Ty::Msg(1725, &[]) }, "graphs"));
to.push(root::<g470::A>(r#"g470::A"#, const { &Ty::Msg(1726, &[]) }, "graphs"));
to.push(root::<g470::B>(r#"g470::B"#, const { &Ty::Msg(1727, &[]) }, "graphs"));
to.push(root::<g470::C>(r#"g470::C"#, const { &Ty::Msg(1728, &[]) }, "graphs"));
to.push(root::<g471::A>(r#"g471::A"#, const { &Ty::Msg(1729, &[]) }, "graphs"));
to.push(root::<g471::B>(r#"g471::B"#, const { &Ty::Msg(1730, &[]) }, "graphs"));
to.push(root::<g471::C>(r#"g471::C"#, const { &Ty::Msg(1731, &[]) }, "graphs"));
to.push(state_root::<g472::A>(r#"g472::A"#, const { &Ty::Msg(1732, &[]) }, "graphs"));
to.push(state_root::<g472::B>(r#"g472::B"#, const { &Ty::Msg(1733, &[]) }, "graphs"));
to.push(state_root::<g472::C>(r#"g472::C"#, const { &Ty::Msg(1734, &[]) }, "graphs"));
to.push(root::<g473::A>(r#"g473::A"#, const { &Ty::Msg(1735, &[]) }, "graphs"));
to.push(root::<g473::B>(r#"g473::B"#, const { &Ty::Msg(1736, &[]) }, "graphs"));
to.push(root::<g473::C>(r#"g473::C"#, const { &Ty::Msg(1737, &[]) }, "graphs"));
to.push(root::<g474::A>(r#"g474::A"#, const { &Ty::Msg(1738, &[]) }, "graphs"));
to.push(root::<g474::B>(r#"g474::B"#, const { &Ty::Msg(1739, &[]) }, "graphs"));
to.push(root::<g474::C>(r#"g474::C"#, const { &Ty::Msg(1740, &[]) }, "graphs"));
to.push(state_root::<g475::A>(r#"g475::A"#, const { &Ty::Msg(1741, &[]) }, "graphs"));
to.push(state_root::<g475::B>(r#"g475::B"#, const { &Ty::Msg(1742, &[]) }, "graphs"));
to.push(state_root::<g475::C>(r#"g475::C"#, const { &Ty::Msg(1743, &[]) }, "graphs"));
to.push(root::<g476::A>(r#"g476::A"#, const { &Ty::Msg(1744, &[]) }, "graphs"));
to.push(root::<g476::B>(r#"g476::B"#, const { &Ty::Msg(1745, &[]) }, "graphs"));
to.push(root::<g476::C>(r#"g476::C"#, const { &Ty::Msg(1746, &[]) }, "graphs"));
to.push(root::<g477::A>(r#"g477::A"#, const { &Ty::Msg(1747, &[]) }, "graphs"));
}
fn roots19(to: &mut Vec<Root>) {
to.push(root::<g477::B>(r#"g477::B"#, const { &Ty::Msg(1748, &[]) }, "graphs"));
to.push(root::<g477::C>(r#"g477::C"#, const { &Ty::Msg(1749, &[]) }, "graphs"));
to.push(state_root::<g478::A>(r#"g478::A"#, const { &Ty::Msg(1750, &[]) }, "graphs"));
to.push(state_root::<g478::B>(r#"g478::B"#, const { &Ty::Msg(1751, &[]) }, "graphs"));
to.push(state_root::<g478::C>(r#"g478::C"#, const { &Ty::Msg(1752, &[]) }, "graphs"));
to.push(root::<g479::A>(r#"g479::A"#, const { &Ty::Msg(1753, &[]) }, "graphs"));
to.push(root::<g479::B>(r#"g479::B"#, const { &Ty::Msg(1754, &[]) }, "graphs"));
to.push(root::<g479::C>(r#"g479::C"#, const { &Ty::Msg(1755, &[]) }, "graphs"));
to.push(root::<g480::A>(r#"g480::A"#, const { &Ty::Msg(1756, &[]) }, "graphs"));
to.push(root::<g480::B>(r#"g480::B"#, const { &Ty::Msg(1757, &[]) }, "graphs"));
to.push(root::<g480::C>(r#"g480::C"#, const { &Ty::Msg(1758, &[]) }, "graphs"));
to.push(state_root::<g481::A>(r#"g481::A"#, const { &Ty::Msg(1759, &[]) }, "graphs"));
to.push(state_root::<g481::B>(r#"g481::B"#, const { &Ty::Msg(1760, &[]) }, "graphs"));
to.push(state_root::<g481::C>(r#"g481::C"#, const { &Ty::Msg(1761, &[]) }, "graphs"));
to.push(root::<g482::A>(r#"g482::A"#, const { &Ty::Msg(1762, &[]) }, "graphs"));
to.push(root::<g482::B>(r#"g482::B"#, const { &Ty::Msg(1763, &[]) }, "graphs"));
to.push(root::<g482::C>(r#"g482::C"#, const { &Ty::Msg(1764, &[]) }, "graphs"));
to.push(root::<g483::A>(r#"g483::A"#, const { &Ty::Msg(1765, &[]) }, "graphs"));
to.push(root::<g483::B>(r#"g483::B"#, const { &Ty::Msg(1766, &[]) }, "graphs"));
to.push(root::<g483::C>(r#"g483::C"#, const { &Ty::Msg(1767, &[]) }, "graphs"));
to.push(state_root::<g484::A>(r#"g484::A"#, const { &Ty::Msg(1768, &[]) }, "graphs"));
to.push(state_root::<g484::B>(r#"g484::B"#, const { &Ty::Msg(1769, &[]) }, "graphs"));
to.push(state_root::<g484::C>(r#"g484::C"#, const { &Ty::Msg(1770, &[]) }, "graphs"));
to.push(root::<g485::A>(r#"g485::A"#, const { &Ty::Msg(1771, &[]) }, "graphs"));
to.push(root::<g485::B>(r#"g485::B"#, const { &Ty::Msg(1772, &[]) }, "graphs"));
to.push(root::<g485::C>(r#"g485::C"#, const { &Ty::Msg(1773, &[]) }, "graphs"));
to.push(root::<g486::A>(r#"g486::A"#, const { &Ty::Msg(1774, &[]) }, "graphs"));
to.push(root::<g486::B>(r#"g486::B"#, const { &Ty::Msg(1775, &[]) }, "graphs"));
to.push(root::<g486::C>(r#"g486::C"#, const { &Ty::Msg(1776, &[]) }, "graphs"));
to.push(state_root::<g487::A>(r#"g487::A"#, const { &Ty::Msg(1777, &[]) }, "graphs"));
to.push(state_root::<g487::B>(r#"g487::B"#, const { &Ty::Msg(1778, &[]) }, "graphs"));
to.push(state_root::<g487::C>(r#"g487::C"#, const { &Ty::Msg(1779, &[]) }, "graphs"));
to.push(root::<g488::A>(r#"g488::A"#, const { &Ty::Msg(1780, &[]) }, "graphs"));
to.push(root::<g488::B>(r#"g488::B"#, const { &Ty::Msg(1781, &[]) }, "graphs"));
to.push(root::<g488::C>(r#"g488::C"#, const { &Ty::Msg(1782, &[]) }, "graphs"));
to.push(root::<g489::A>(r#"g489::A"#, const { &Ty::Msg(1783, &[]) }, "graphs"));
to.push(root::<g489::B>(r#"g489::B"#, const { &Ty::Msg(1784, &[]) }, "graphs"));
to.push(root::<g489::C>(r#"g489::C"#, const { &Ty::Msg(1785, &[]) }, "graphs"));
to.push(state_root::<g490::A>(r#"g490::A"#, const { &Ty::Msg(1786, &[]) }, "graphs"));
to.push(state_root::<g490::B>(r#"g490::B"#, const { &Ty::Msg(1787, &[]) }, "graphs"));
to.push(state_root::<g490::C>(r#"g490::C"#, const { &Ty::Msg(1788, &[]) }, "graphs"));
to.push(root::<g491::A>(r#"g491::A"#, const { &Ty::Msg(1789, &[]) }, "graphs"));
to.push(root::<g491::B>(r#"g491::B"#, const { &Ty::Msg(1790, &[]) }, "graphs"));
to.push(root::<g491::C>(r#"g491::C"#, const { &Ty::Msg(1791, &[]) }, "graphs"));
to.push(root::<g492::A>(r#"g492::A"#, const { &Ty::Msg(1792, &[]) }, "graphs"));
to.push(root::<g492::B>(r#"g492::B"#, const { &Ty::Msg(1793, &[]) }, "graphs"));
to.push(root::<g492::C>(r#"g492::C"#, const { &Ty::Msg(1794, &[]) }, "graphs"));
to.push(state_root::<g493::A>(r#"g493::A"#, const { &Ty::Msg(1795, &[]) }, "graphs"));
to.push(state_root::<g493::B>(r#"g493::B"#, const { &Ty::Msg(1796, &[]) }, "graphs"));
to.push(state_root::<g493::C>(r#"g493::C"#, const { &Ty::Msg(1797, &[]) }, "graphs"));
to.push(root::<g494::A>(r#"g494::A"#, const { &Ty::Msg(1798, &[]) }, "graphs"));
to.push(root::<g494::B>(r#"g494::B"#, const { &Ty::Msg(1799, &[]) }, "graphs"));
to.push(root::<g494::C>(r#"g494::C"#, const { &Ty::Msg(1800, &[]) }, "graphs"));
to.push(root::<g495::A>(r#"g495::A"#, const { &Ty::Msg(1801, &[]) }, "graphs"));
to.push(root::<g495::B>(r#"g495::B"#, const { &Ty::Msg(1802, &[]) }, "graphs"));
to.push(root::<g495::C>(r#"g495::C"#, const { &Ty::Msg(1803, &[]) }, "graphs"));
to.push(state_root::<g496::A>(r#"g496::A"#, const { &Ty::Msg(1804, &[]) }, "graphs"));
to.push(state_root::<g496::B>(r#"g496::B"#, const { &Ty::Msg(1805, &[]) }, "graphs"));
to.push(state_root::<g496::C>(r#"g496::C"#, const { &Ty::Msg(1806, &[]) }, "graphs"));
to.push(root::<g497::A>(r#"g497::A"#, const { &Ty::Msg(1807, &[]) }, "graphs"));
to.push(root::<g497::B>(r#"g497::B"#, const { &Ty::Msg(1808, &[]) }, "graphs"));
to.push(root::<g497::C>(r#"g497::C"#, const { &Ty::Msg(1809, &[]) }, "graphs"));
to.push(root::<g498::A>(r#"g498::A"#, const { &Ty::Msg(1810, &[]) }, "graphs"));
to.push(root::<g498::B>(r#"g498::B"#, const { &Ty::Msg(1811, &[]) }, "graphs"));
to.push(root::<g498::C>(r#"g498::C"#, const { &Ty::Msg(1812, &[]) }, "graphs"));
to.push(state_root::<g499::A>(r#"g499::A"#, const { &Ty::Msg(1813, &[]) }, "graphs"));
to.push(state_root::<g499::B>(r#"g499::B"#, const { &Ty::Msg(1814, &[]) }, "graphs"));
to.push(state_root::<g499::C>(r#"g499::C"#, const { &Ty::Msg(1815, &[]) }, "graphs"));
to.push(root::<g500::A>(r#"g500::A"#, const { &Ty::Msg(1816, &[]) }, "graphs"));
to.push(root::<g500::B>(r#"g500::B"#, const { &Ty::Msg(1817, &[]) }, "graphs"));
to.push(root::<g500::C>(r#"g500::C"#, const { &Ty::Msg(1818, &[]) }, "graphs"));
to.push(root::<g501::A>(r#"g501::A"#, const { &Ty::Msg(1819, &[]) }, "graphs"));
to.push(root::<g501::B>(r#"g501::B"#, const { &Ty::Msg(1820, &[]) }, "graphs"));
to.push(root::<g501::C>(r#"g501::C"#, const { &Ty::Msg(1821, &[]) }, "graphs"));
to.push(state_root::<g502::A>(r#"g502::A"#, const { &Ty::Msg(1822, &[]) }, "graphs"));
to.push(state_root::<g502::B>(r#"g502::B"#, const { &Ty::Msg(1823, &[]) }, "graphs"));
to.push(state_root::<g502::C>(r#"g502::C"#, const { &Ty::Msg(1824, &[]) }, "graphs"));
to.push(root::<g503::A>(r#"g503::A"#, const { &Ty::Msg(1825, &[]) }, "graphs"));
to.push(root::<g503::B>(r#"g503::B"#, const { &Ty::Msg(1826, &[]) }, "graphs"));
to.push(root::<g503::C>(r#"g503::C"#, const { &Ty::Msg(1827, &[]) }, "graphs"));
to.push(root::<g504::A>(r#"g504::A"#, const { &Ty::Msg(1828, &[]) }, "graphs"));
to.push(root::<g504::B>(r#"g504::B"#, const { &Ty::Msg(1829, &[]) }, "graphs"));
to.push(root::<g504::C>(r#"g504::C"#, const { &Ty::Msg(1830, &[]) }, "graphs"));
to.push(state_root::<g505::A>(r#"g505::A"#, const { &Ty::Msg(1831, &[]) }, "graphs"));
to.push(state_root::<g505::B>(r#"g505::B"#, const { &Ty::Msg(1832, &[]) }, "graphs"));
to.push(state_root::<g505::C>(r#"g505::C"#, const { &Ty::Msg(1833, &[]) }, "graphs"));
to.push(root::<g506::A>(r#"g506::A"#, const { &Ty::Msg(1834, &[]) }, "graphs"));
to.push(root::<g506::B>(r#"g506::B"#, const { &Ty::Msg(1835, &[]) }, "graphs"));
to.push(root::<g506::C>(r#"g506::C"#, const { &Ty::Msg(1836, &[]) }, "graphs"));
to.push(root::<g507::A>(r#"g507::A"#, const { &Ty::Msg(1837, &[]) }, "graphs"));
to.push(root::<g507::B>(r#"g507::B"#, const { &Ty::Msg(1838, &[]) }, "graphs"));
to.push(root::<g507::C>(r#"g507::C"#, const { &Ty::Msg(1839, &[]) }, "graphs"));
to.push(state_root::<g508::A>(r#"g508::A"#, const { &Ty::Msg(1840, &[]) }, "graphs"));
to.push(state_root::<g508::B>(r#"g508::B"#, const { &Ty::Msg(1841, &[]) }, "graphs"));
to.push(state_root::<g508::C>(r#"g508::C"#, const { &Ty::Msg(1842, &[]) }, "graphs"));
to.push(root::<g509::A>(r#"g509::A"#, const { &Ty::Msg(1843, &[]) }, "graphs"));
to.push(root::<g509::B>(r#"g509::B"#, const { &Ty::Msg(1844, &[]) }, "graphs"));
to.push(root::<g509::C>(r#"g509::C"#, const { &Ty::Msg(1845, &[]) }, "graphs"));
to.push(root::<g510::A>(r#"g510::A"#, const { &Ty::Msg(1846, &[]) }, "graphs"));
to.push(root::<g510::B>(r#"g510::B"#, const { &Ty::Msg(1847, &[]) }, "graphs"));
}
fn roots20(to: &mut Vec<Root>) {
to.push(root::<g510::C>(r#"g510::C"#, const { &Ty::Msg(1848, &[]) }, "graphs"));
to.push(state_root::<g511::A>(r#"g511::A"#, const { &Ty::Msg(1849, &[]) }, "graphs"));
to.push(state_root::<g511::B>(r#"g511::B"#, const { &Ty::Msg(1850, &[]) }, "graphs"));
to.push(state_root::<g511::C>(r#"g511::C"#, const { &Ty::Msg(1851, &[]) }, "graphs"));
to.push(root::<g512::A>(r#"g512::A"#, const { &Ty::Msg(1852, &[]) }, "graphs"));
to.push(root::<g512::B>(r#"g512::B"#, const { &Ty::Msg(1853, &[]) }, "graphs"));
to.push(root::<g512::C>(r#"g512::C"#, const { &Ty::Msg(1854, &[]) }, "graphs"));
to.push(root::<g513::A>(r#"g513::A"#, const { &Ty::Msg(1855, &[]) }, "graphs"));
to.push(root::<g513::B>(r#"g513::B"#, const { &Ty::Msg(1856, &[]) }, "graphs"));
to.push(root::<g513::C>(r#"g513::C"#, const { &Ty::Msg(1857, &[]) }, "graphs"));
to.push(state_root::<g514::A>(r#"g514::A"#, const { &Ty::Msg(1858, &[]) }, "graphs"));
to.push(state_root::<g514::B>(r#"g514::B"#, const { &Ty::Msg(1859, &[]) }, "graphs"));
to.push(state_root::<g514::C>(r#"g514::C"#, const { &Ty::Msg(1860, &[]) }, "graphs"));
to.push(root::<g515::A>(r#"g515::A"#, const { &Ty::Msg(1861, &[]) }, "graphs"));
to.push(root::<g515::B>(r#"g515::B"#, const { &Ty::Msg(1862, &[]) }, "graphs"));
to.push(root::<g515::C>(r#"g515::C"#, const { &Ty::Msg(1863, &[]) }, "graphs"));
to.push(root::<g516::A>(r#"g516::A"#, const { &Ty::Msg(1864, &[]) }, "graphs"));
to.push(root::<g516::B>(r#"g516::B"#, const { &Ty::Msg(1865, &[]) }, "graphs"));
to.push(root::<g516::C>(r#"g516::C"#, const { &Ty::Msg(1866, &[]) }, "graphs"));
to.push(state_root::<g517::A>(r#"g517::A"#, const { &Ty::Msg(1867, &[]) }, "graphs"));
to.push(state_root::<g517::B>(r#"g517::B"#, const { &Ty::Msg(1868, &[]) }, "graphs"));
to.push(state_root::<g517::C>(r#"g517::C"#, const { &Ty::Msg(1869, &[]) }, "graphs"));
to.push(root::<g518::A>(r#"g518::A"#, const { &Ty::Msg(1870, &[]) }, "graphs"));
to.push(root::<g518::B>(r#"g518::B"#, const { &Ty::Msg(1871, &[]) }, "graphs"));
to.push(root::<g518::C>(r#"g518::C"#, const { &Ty::Msg(1872, &[]) }, "graphs"));
to.push(root::<g519::A>(r#"g519::A"#, const { &Ty::Msg(1873, &[]) }, "graphs"));
to.push(root::<g519::B>(r#"g519::B"#, const { &Ty::Msg(1874, &[]) }, "graphs"));
to.push(root::<g519::C>(r#"g519::C"#, const { &Ty::Msg(1875, &[]) }, "graphs"));
to.push(state_root::<g520::A>(r#"g520::A"#, const { &Ty::Msg(1876, &[]) }, "graphs"));
to.push(state_root::<g520::B>(r#"g520::B"#, const { &Ty::Msg(1877, &[]) }, "graphs"));
to.push(state_root::<g520::C>(r#"g520::C"#, const { &Ty::Msg(1878, &[]) }, "graphs"));
to.push(root::<g521::A>(r#"g521::A"#, const { &Ty::Msg(1879, &[]) }, "graphs"));
to.push(root::<g521::B>(r#"g521::B"#, const { &Ty::Msg(1880, &[]) }, "graphs"));
to.push(root::<g521::C>(r#"g521::C"#, const { &Ty::Msg(1881, &[]) }, "graphs"));
to.push(root::<g522::A>(r#"g522::A"#, const { &Ty::Msg(1882, &[]) }, "graphs"));
to.push(root::<g522::B>(r#"g522::B"#, const { &Ty::Msg(1883, &[]) }, "graphs"));
to.push(root::<g522::C>(r#"g522::C"#, const { &Ty::Msg(1884, &[]) }, "graphs"));
to.push(state_root::<g523::A>(r#"g523::A"#, const { &Ty::Msg(1885, &[]) }, "graphs"));
to.push(state_root::<g523::B>(r#"g523::B"#, const { &Ty::Msg(1886, &[]) }, "graphs"));
to.push(state_root::<g523::C>(r#"g523::C"#, const { &Ty::Msg(1887, &[]) }, "graphs"));
to.push(root::<g524::A>(r#"g524::A"#, const { &Ty::Msg(1888, &[]) }, "graphs"));
to.push(root::<g524::B>(r#"g524::B"#, const { &Ty::Msg(1889, &[]) }, "graphs"));
to.push(root::<g524::C>(r#"g524::C"#, const { &Ty::Msg(1890, &[]) }, "graphs"));
to.push(root::<g525::A>(r#"g525::A"#, const { &Ty::Msg(1891, &[]) }, "graphs"));
to.push(root::<g525::B>(r#"g525::B"#, const { &Ty::Msg(1892, &[]) }, "graphs"));
to.push(root::<g525::C>(r#"g525::C"#, const { &Ty::Msg(1893, &[]) }, "graphs"));
to.push(state_root::<g526::A>(r#"g526::A"#, const { &Ty::Msg(1894, &[]) }, "graphs"));
to.push(state_root::<g526::B>(r#"g526::B"#, const { &Ty::Msg(1895, &[]) }, "graphs"));
to.push(state_root::<g526::C>(r#"g526::C"#, const { &Ty::Msg(1896, &[]) }, "graphs"));
to.push(root::<g527::A>(r#"g527::A"#, const { &Ty::Msg(1897, &[]) }, "graphs"));
to.push(root::<g527::B>(r#"g527::B"#, const { &Ty::Msg(1898, &[]) }, "graphs"));
to.push(root::<g527::C>(r#"g527::C"#, const { &Ty::Msg(1899, &[]) }, "graphs"));
to.push(root::<g528::A>(r#"g528::A"#, const { &Ty::Msg(1900, &[]) }, "graphs"));
to.push(root::<g528::B>(r#"g528::B"#, const { &Ty::Msg(1901, &[]) }, "graphs"));
to.push(root::<g528::C>(r#"g528::C"#, const { &Ty::Msg(1902, &[]) }, "graphs"));
to.push(state_root::<g529::A>(r#"g529::A"#, const { &Ty::Msg(1903, &[]) }, "graphs"));
to.push(state_root::<g529::B>(r#"g529::B"#, const { &Ty::Msg(1904, &[]) }, "graphs"));
to.push(state_root::<g529::C>(r#"g529::C"#, const { &Ty::Msg(1905, &[]) }, "graphs"));
to.push(root::<g530::A>(r#"g530::A"#, const { &Ty::Msg(1906, &[]) }, "graphs"));
to.push(root::<g530::B>(r#"g530::B"#, const { &Ty::Msg(1907, &[]) }, "graphs"));
to.push(root::<g530::C>(r#"g530::C"#, const { &Ty::Msg(1908, &[]) }, "graphs"));
to.push(root::<g531::A>(r#"g531::A"#, const { &Ty::Msg(1909, &[]) }, "graphs"));
to.push(root::<g531::B>(r#"g531::B"#, const { &Ty::Msg(1910, &[]) }, "graphs"));
to.push(root::<g531::C>(r#"g531::C"#, const { &Ty::Msg(1911, &[]) }, "graphs"));
to.push(state_root::<g532::A>(r#"g532::A"#, const { &Ty::Msg(1912, &[]) }, "graphs"));
to.push(state_root::<g532::B>(r#"g532::B"#, const { &Ty::Msg(1913, &[]) }, "graphs"));
to.push(state_root::<g532::C>(r#"g532::C"#, const { &Ty::Msg(1914, &[]) }, "graphs"));
to.push(root::<g533::A>(r#"g533::A"#, const { &Ty::Msg(1915, &[]) }, "graphs"));
to.push(root::<g533::B>(r#"g533::B"#, const { &Ty::Msg(1916, &[]) }, "graphs"));
to.push(root::<g533::C>(r#"g533::C"#, const { &Ty::Msg(1917, &[]) }, "graphs"));
to.push(root::<g534::A>(r#"g534::A"#, const { &Ty::Msg(1918, &[]) }, "graphs"));
to.push(root::<g534::B>(r#"g534::B"#, const { &Ty::Msg(1919, &[]) }, "graphs"));
to.push(root::<g534::C>(r#"g534::C"#, const { &Ty::Msg(1920, &[]) }, "graphs"));
to.push(state_root::<g535::A>(r#"g535::A"#, const { &Ty::Msg(1921, &[]) }, "graphs"));
to.push(state_root::<g535::B>(r#"g535::B"#, const { &Ty::Msg(1922, &[]) }, "graphs"));
to.push(state_root::<g535::C>(r#"g535::C"#, const { &Ty::Msg(1923, &[]) }, "graphs"));
to.push(root::<g536::A>(r#"g536::A"#, const { &Ty::Msg(1924, &[]) }, "graphs"));
to.push(root::<g536::B>(r#"g536::B"#, const { &Ty::Msg(1925, &[]) }, "graphs"));
to.push(root::<g536::C>(r#"g536::C"#, const { &Ty::Msg(1926, &[]) }, "graphs"));
to.push(root::<g537::A>(r#"g537::A"#, const { &Ty::Msg(1927, &[]) }, "graphs"));
to.push(root::<g537::B>(r#"g537::B"#, const { &Ty::Msg(1928, &[]) }, "graphs"));
to.push(root::<g537::C>(r#"g537::C"#, const { &Ty::Msg(1929, &[]) }, "graphs"));
to.push(state_root::<g538::A>(r#"g538::A"#, const { &Ty::Msg(1930, &[]) }, "graphs"));
to.push(state_root::<g538::B>(r#"g538::B"#, const { &Ty::Msg(1931, &[]) }, "graphs"));
to.push(state_root::<g538::C>(r#"g538::C"#, const { &Ty::Msg(1932, &[]) }, "graphs"));
to.push(root::<g539::A>(r#"g539::A"#, const { &Ty::Msg(1933, &[]) }, "graphs"));
to.push(root::<g539::B>(r#"g539::B"#, const { &Ty::Msg(1934, &[]) }, "graphs"));
to.push(root::<g539::C>(r#"g539::C"#, const { &Ty::Msg(1935, &[]) }, "graphs"));
to.push(root::<g540::A>(r#"g540::A"#, const { &Ty::Msg(1936, &[]) }, "graphs"));
to.push(root::<g540::B>(r#"g540::B"#, const { &Ty::Msg(1937, &[]) }, "graphs"));
to.push(root::<g540::C>(r#"g540::C"#, const { &Ty::Msg(1938, &[]) }, "graphs"));
to.push(state_root::<g541::A>(r#"g541::A"#, const { &Ty::Msg(1939, &[]) }, "graphs"));
to.push(state_root::<g541::B>(r#"g541::B"#, const { &Ty::Msg(1940, &[]) }, "graphs"));
to.push(state_root::<g541::C>(r#"g541::C"#, const { &Ty::Msg(1941, &[]) }, "graphs"));
to.push(root::<g542::A>(r#"g542::A"#, const { &Ty::Msg(1942, &[]) }, "graphs"));
to.push(root::<g542::B>(r#"g542::B"#, const { &Ty::Msg(1943, &[]) }, "graphs"));
to.push(root::<g542::C>(r#"g542::C"#, const { &Ty::Msg(1944, &[]) }, "graphs"));
to.push(root::<g543::A>(r#"g543::A"#, const { &Ty::Msg(1945, &[]) }, "graphs"));
to.push(root::<g543::B>(r#"g543::B"#, const { &Ty::Msg(1946, &[]) }, "graphs"));
to.push(root::<g543::C>(r#"g543::C"#, const { &Ty::Msg(1947, &[]) }, "graphs"));
}
fn roots21(to: &mut Vec<Root>) {
to.push(state_root::<g544::A>(r#"g544::A"#, const { &Ty::Msg(1948, &[]) }, "graphs"));
to.push(state_root::<g544::B>(r#"g544::B"#, const { &Ty::Msg(1949, &[]) }, "graphs"));
to.push(state_root::<g544::C>(r#"g544::C"#, const { &Ty::Msg(1950, &[]) }, "graphs"));
to.push(root::<g545::A>(r#"g545::A"#, const { &Ty::Msg(1951, &[]) }, "graphs"));
to.push(root::<g545::B>(r#"g545::B"#, const { &Ty::Msg(1952, &[]) }, "graphs"));
to.push(root::<g545::C>(r#"g545::C"#, const { &Ty::Msg(1953, &[]) }, "graphs"));
to.push(root::<g546::A>(r#"g546::A"#, const { &Ty::Msg(1954, &[]) }, "graphs"));
to.push(root::<g546::B>(r#"g546::B"#, const { &Ty::Msg(1955, &[]) }, "graphs"));
to.push(root::<g546::C>(r#"g546::C"#, const { &Ty::Msg(1956, &[]) }, "graphs"));
to.push(state_root::<g547::A>(r#"g547::A"#, const { &Ty::Msg(1957, &[]) }, "graphs"));
to.push(state_root::<g547::B>(r#"g547::B"#, const { &Ty::Msg(1958, &[]) }, "graphs"));
to.push(state_root::<g547::C>(r#"g547::C"#, const { &Ty::Msg(1959, &[]) }, "graphs"));
to.push(root::<g548::A>(r#"g548::A"#, const { &Ty::Msg(1960, &[]) }, "graphs"));
to.push(root::<g548::B>(r#"g548::B"#, const { &Ty::Msg(1961, &[]) }, "graphs"));
to.push(root::<g548::C>(r#"g548::C"#, const { &Ty::Msg(1962, &[]) }, "graphs"));
to.push(root::<g549::A>(r#"g549::A"#, const { &Ty::Msg(1963, &[]) }, "graphs"));
to.push(root::<g549::B>(r#"g549::B"#, const { &Ty::Msg(1964, &[]) }, "graphs"));
to.push(root::<g549::C>(r#"g549::C"#, const { &Ty::Msg(1965, &[]) }, "graphs"));
to.push(state_root::<g550::A>(r#"g550::A"#, const { &Ty::Msg(1966, &[]) }, "graphs"));
to.push(state_root::<g550::B>(r#"g550::B"#, const { &Ty::Msg(1967, &[]) }, "graphs"));
to.push(state_root::<g550::C>(r#"g550::C"#, const { &Ty::Msg(1968, &[]) }, "graphs"));
to.push(root::<g551::A>(r#"g551::A"#, const { &Ty::Msg(1969, &[]) }, "graphs"));
to.push(root::<g551::B>(r#"g551::B"#, const { &Ty::Msg(1970, &[]) }, "graphs"));
to.push(root::<g551::C>(r#"g551::C"#, const { &Ty::Msg(1971, &[]) }, "graphs"));
to.push(root::<g552::A>(r#"g552::A"#, const { &Ty::Msg(1972, &[]) }, "graphs"));
to.push(root::<g552::B>(r#"g552::B"#, const { &Ty::Msg(1973, &[]) }, "graphs"));
to.push(root::<g552::C>(r#"g552::C"#, const { &Ty::Msg(1974, &[]) }, "graphs"));
to.push(state_root::<g553::A>(r#"g553::A"#, const { &Ty::Msg(1975, &[]) }, "graphs"));
to.push(state_root::<g553::B>(r#"g553::B"#, const { &Ty::Msg(1976, &[]) }, "graphs"));
to.push(state_root::<g553::C>(r#"g553::C"#, const { &Ty::Msg(1977, &[]) }, "graphs"));
to.push(root::<g554::A>(r#"g554::A"#, const { &Ty::Msg(1978, &[]) }, "graphs"));
to.push(root::<g554::B>(r#"g554::B"#, const { &Ty::Msg(1979, &[]) }, "graphs"));
to.push(root::<g554::C>(r#"g554::C"#, const { &Ty::Msg(1980, &[]) }, "graphs"));
to.push(root::<g555::A>(r#"g555::A"#, const { &Ty::Msg(1981, &[]) }, "graphs"));
to.push(root::<g555::B>(r#"g555::B"#, const { &Ty::Msg(1982, &[]) }, "graphs"));
to.push(root::<g555::C>(r#"g555::C"#, const { &Ty::Msg(1983, &[]) }, "graphs"));
to.push(state_root::<g556::A>(r#"g556::A"#, const { &Ty::Msg(1984, &[]) }, "graphs"));
to.push(state_root::<g556::B>(r#"g556::B"#, const { &Ty::Msg(1985, &[]) }, "graphs"));
to.push(state_root::<g556::C>(r#"g556::C"#, const { &Ty::Msg(1986, &[]) }, "graphs"));
to.push(root::<g557::A>(r#"g557::A"#, const { &Ty::Msg(1987, &[]) }, "graphs"));
to.push(root::<g557::B>(r#"g557::B"#, const { &Ty::Msg(1988, &[]) }, "graphs"));
to.push(root::<g557::C>(r#"g557::C"#, const { &Ty::Msg(1989, &[]) }, "graphs"));
to.push(root::<g558::A>(r#"g558::A"#, const { &Ty::Msg(1990, &[]) }, "graphs"));
to.push(root::<g558::B>(r#"g558::B"#, const { &Ty::Msg(1991, &[]) }, "graphs"));
to.push(root::<g558::C>(r#"g558::C"#, const { &Ty::Msg(1992, &[]) }, "graphs"));
to.push(state_root::<g559::A>(r#"g559::A"#, const { &Ty::Msg(1993, &[]) }, "graphs"));
to.push(state_root::<g559::B>(r#"g559::B"#, const { &Ty::Msg(1994, &[]) }, "graphs"));
to.push(state_root::<g559::C>(r#"g559::C"#, const { &Ty::Msg(1995, &[]) }, "graphs"));
to.push(root::<g560::A>(r#"g560::A"#, const { &Ty::Msg(1996, &[]) }, "graphs"));
to.push(root::<g560::B>(r#"g560::B"#, const { &Ty::Msg(1997, &[]) }, "graphs"));
to.push(root::<g560::C>(r#"g560::C"#, const { &Ty::Msg(1998, &[]) }, "graphs"));
to.push(root::<g561::A>(r#"g561::A"#, const { &Ty::Msg(1999, &[]) }, "graphs"));
to.push(root::<g561::B>(r#"g561::B"#, const { &Ty::Msg(2000, &[]) }, "graphs"));
to.push(root::<g561::C>(r#"g561::C"#, const { &Ty::Msg(2001, &[]) }, "graphs"));
to.push(state_root::<g562::A>(r#"g562::A"#, const { &Ty::Msg(2002, &[]) }, "graphs"));
to.push(state_root::<g562::B>(r#"g562::B"#, const { &Ty::Msg(2003, &[]) }, "graphs"));
to.push(state_root::<g562::C>(r#"g562::C"#, const { &Ty::Msg(2004, &[]) }, "graphs"));
to.push(root::<g563::A>(r#"g563::A"#, const { &Ty::Msg(2005, &[]) }, "graphs"));
to.push(root::<g563::B>(r#"g563::B"#, const { &Ty::Msg(2006, &[]) }, "graphs"));
to.push(root::<g563::C>(r#"g563::C"#, const { &Ty::Msg(2007, &[]) }, "graphs"));
to.push(root::<g564::A>(r#"g564::A"#, const { &Ty::Msg(2008, &[]) }, "graphs"));
to.push(root::<g564::B>(r#"g564::B"#, const { &Ty::Msg(2009, &[]) }, "graphs"));
to.push(root::<g564::C>(r#"g564::C"#, const { &Ty::Msg(2010, &[]) }, "graphs"));
to.push(state_root::<g565::A>(r#"g565::A"#, const { &Ty::Msg(2011, &[]) }, "graphs"));
to.push(state_root::<g565::B>(r#"g565::B"#, const { &Ty::Msg(2012, &[]) }, "graphs"));
to.push(state_root::<g565::C>(r#"g565::C"#, const { &Ty::Msg(2013, &[]) }, "graphs"));
to.push(root::<g566::A>(r#"g566::A"#, const { &Ty::Msg(2014, &[]) }, "graphs"));
to.push(root::<g566::B>(r#"g566::B"#, const { &Ty::Msg(2015, &[]) }, "graphs"));
to.push(root::<g566::C>(r#"g566::C"#, const { &Ty::Msg(2016, &[]) }, "graphs"));
to.push(root::<g567::A>(r#"g567::A"#, const { &Ty::Msg(2017, &[]) }, "graphs"));
to.push(root::<g567::B>(r#"g567::B"#, const { &Ty::Msg(2018, &[]) }, "graphs"));
to.push(root::<g567::C>(r#"g567::C"#, const { &Ty::Msg(2019, &[]) }, "graphs"));
to.push(state_root::<g568::A>(r#"g568::A"#, const { &Ty::Msg(2020, &[]) }, "graphs"));
to.push(state_root::<g568::B>(r#"g568::B"#, const { &Ty::Msg(2021, &[]) }, "graphs"));
to.push(state_root::<g568::C>(r#"g568::C"#, const { &Ty::Msg(2022, &[]) }, "graphs"));
to.push(root::<g569::A>(r#"g569::A"#, const { &Ty::Msg(2023, &[]) }, "graphs"));
to.push(root::<g569::B>(r#"g569::B"#, const { &Ty::Msg(2024, &[]) }, "graphs"));
to.push(root::<g569::C>(r#"g569::C"#, const { &Ty::Msg(2025, &[]) }, "graphs"));
to.push(root::<g570::A>(r#"g570::A"#, const { &Ty::Msg(2026, &[]) }, "graphs"));
to.push(root::<g570::B>(r#"g570::B"#, const { &Ty::Msg(2027, &[]) }, "graphs"));
to.push(root::<g570::C>(r#"g570::C"#, const { &Ty::Msg(2028, &[]) }, "graphs"));
to.push(state_root::<g571::A>(r#"g571::A"#, const { &Ty::Msg(2029, &[]) }, "graphs"));
to.push(state_root::<g571::B>(r#"g571::B"#, const { &Ty::Msg(2030, &[]) }, "graphs"));
to.push(state_root::<g571::C>(r#"g571::C"#, const { &Ty::Msg(2031, &[]) }, "graphs"));
to.push(root::<g572::A>(r#"g572::A"#, const { &Ty::Msg(2032, &[]) }, "graphs"));
to.push(root::<g572::B>(r#"g572::B"#, const { &Ty::Msg(2033, &[]) }, "graphs"));
to.push(root::<g572::C>(r#"g572::C"#, const { &Ty::Msg(2034, &[]) }, "graphs"));
to.push(root::<g573::A>(r#"g573::A"#, const { &Ty::Msg(2035, &[]) }, "graphs"));
to.push(root::<g573::B>(r#"g573::B"#, const { &Ty::Msg(2036, &[]) }, "graphs"));
to.push(root::<g573::C>(r#"g573::C"#, const { &Ty::Msg(2037, &[]) }, "graphs"));
to.push(state_root::<g574::A>(r#"g574::A"#, const { &Ty::Msg(2038, &[]) }, "graphs"));
to.push(state_root::<g574::B>(r#"g574::B"#, const { &Ty::Msg(2039, &[]) }, "graphs"));
to.push(state_root::<g574::C>(r#"g574::C"#, const { &Ty::Msg(2040, &[]) }, "graphs"));
to.push(root::<g575::A>(r#"g575::A"#, const { &Ty::Msg(2041, &[]) }, "graphs"));
to.push(root::<g575::B>(r#"g575::B"#, const { &Ty::Msg(2042, &[]) }, "graphs"));
to.push(root::<g575::C>(r#"g575::C"#, const { &Ty::Msg(2043, &[]) }, "graphs"));
to.push(root::<g576::A>(r#"g576::A"#, const { &Ty::Msg(2044, &[]) }, "graphs"));
to.push(root::<g576::B>(r#"g576::B"#, const { &Ty::Msg(2045, &[]) }, "graphs"));
to.push(root::<g576::C>(r#"g576::C"#, const { &Ty::Msg(2046, &[]) }, "graphs"));
to.push(state_root::<g577::A>(r#"g577::A"#, const { &Ty::Msg(2047, &[]) }, "graphs"));
}
fn roots22(to: &mut Vec<Root>) {
to.push(state_root::<g577::B>(r#"g577::B"#, const { &Ty::Msg(2048, &[]) }, "graphs"));
to.push(state_root::<g577::C>(r#"g577::C"#, const { &Ty::Msg(2049, &[]) }, "graphs"));
to.push(root::<g578::A>(r#"g578::A"#, const { &Ty::Msg(2050, &[]) }, "graphs"));
to.push(root::<g578::B>(r#"g578::B"#, const { &Ty::Msg(2051, &[]) }, "graphs"));
to.push(root::<g578::C>(r#"g578::C"#, const { &Ty::Msg(2052, &[]) }, "graphs"));
to.push(root::<g579::A>(r#"g579::A"#, const { &Ty::Msg(2053, &[]) }, "graphs"));
to.push(root::<g579::B>(r#"g579::B"#, const { &Ty::Msg(2054, &[]) }, "graphs"));
to.push(root::<g579::C>(r#"g579::C"#, const { &Ty::Msg(2055, &[]) }, "graphs"));
to.push(state_root::<g580::A>(r#"g580::A"#, const { &Ty::Msg(2056, &[]) }, "graphs"));
to.push(state_root::<g580::B>(r#"g580::B"#, const { &Ty::Msg(2057, &[]) }, "graphs"));
to.push(state_root::<g580::C>(r#"g580::C"#, const { &Ty::Msg(2058, &[]) }, "graphs"));
to.push(root::<g581::A>(r#"g581::A"#, const { &Ty::Msg(2059, &[]) }, "graphs"));
to.push(root::<g581::B>(r#"g581::B"#, const { &Ty::Msg(2060, &[]) }, "graphs"));
to.push(root::<g581::C>(r#"g581::C"#, const { &Ty::Msg(2061, &[]) }, "graphs"));
to.push(root::<g582::A>(r#"g582::A"#, const { &Ty::Msg(2062, &[]) }, "graphs"));
to.push(root::<g582::B>(r#"g582::B"#, const { &Ty::Msg(2063, &[]) }, "graphs"));
to.push(root::<g582::C>(r#"g582::C"#, const { &Ty::Msg(2064, &[]) }, "graphs"));
to.push(state_root::<g583::A>(r#"g583::A"#, const { &Ty::Msg(2065, &[]) }, "graphs"));
to.push(state_root::<g583::B>(r#"g583::B"#, const { &Ty::Msg(2066, &[]) }, "graphs"));
to.push(state_root::<g583::C>(r#"g583::C"#, const { &Ty::Msg(2067, &[]) }, "graphs"));
to.push(root::<g584::A>(r#"g584::A"#, const { &Ty::Msg(2068, &[]) }, "graphs"));
to.push(root::<g584::B>(r#"g584::B"#, const { &Ty::Msg(2069, &[]) }, "graphs"));
to.push(root::<g584::C>(r#"g584::C"#, const { &Ty::Msg(2070, &[]) }, "graphs"));
to.push(root::<g585::A>(r#"g585::A"#, const { &Ty::Msg(2071, &[]) }, "graphs"));
to.push(root::<g585::B>(r#"g585::B"#, const { &Ty::Msg(2072, &[]) }, "graphs"));
to.push(root::<g585::C>(r#"g585::C"#, const { &Ty::Msg(2073, &[]) }, "graphs"));
to.push(state_root::<g586::A>(r#"g586::A"#, const { &Ty::Msg(2074, &[]) }, "graphs"));
to.push(state_root::<g586::B>(r#"g586::B"#, const { &Ty::Msg(2075, &[]) }, "graphs"));
to.push(state_root::<g586::C>(r#"g586::C"#, const { &Ty::Msg(2076, &[]) }, "graphs"));
to.push(root::<g587::A>(r#"g587::A"#, const { &Ty::Msg(2077, &[]) }, "graphs"));
to.push(root::<g587::B>(r#"g587::B"#, const { &Ty::Msg(2078, &[]) }, "graphs"));
to.push(root::<g587::C>(r#"g587::C"#, const { &Ty::Msg(2079, &[]) }, "graphs"));
to.push(root::<g588::A>(r#"g588::A"#, const { &Ty::Msg(2080, &[]) }, "graphs"));
to.push(root::<g588::B>(r#"g588::B"#, const { &Ty::Msg(2081, &[]) }, "graphs"));
to.push(root::<g588::C>(r#"g588::C"#, const { &Ty::Msg(2082, &[]) }, "graphs"));
to.push(state_root::<g589::A>(r#"g589::A"#, const { &Ty::Msg(2083, &[]) }, "graphs"));
to.push(state_root::<g589::B>(r#"g589::B"#, const { &Ty::Msg(2084, &[]) }, "graphs"));
to.push(state_root::<g589::C>(r#"g589::C"#, const { &Ty::Msg(2085, &[]) }, "graphs"));
to.push(root::<g590::A>(r#"g590::A"#, const { &Ty::Msg(2086, &[]) }, "graphs"));
to.push(root::<g590::B>(r#"g590::B"#, const { &Ty::Msg(2087, &[]) }, "graphs"));
to.push(root::<g590::C>(r#"g590::C"#, const { &Ty::Msg(2088, &[]) }, "graphs"));
to.push(root::<g591::A>(r#"g591::A"#, const { &Ty::Msg(2089, &[]) }, "graphs"));
to.push(root::<g591::B>(r#"g591::B"#, const { &Ty::Msg(2090, &[]) }, "graphs"));
to.push(root::<g591::C>(r#"g591::C"#, const { &Ty::Msg(2091, &[]) }, "graphs"));
to.push(state_root::<g592::A>(r#"g592::A"#, const { &Ty::Msg(2092, &[]) }, "graphs"));
to.push(state_root::<g592::B>(r#"g592::B"#, const { &Ty::Msg(2093, &[]) }, "graphs"));
to.push(state_root::<g592::C>(r#"g592::C"#, const { &Ty::Msg(2094, &[]) }, "graphs"));
to.push(root::<g593::A>(r#"g593::A"#, const { &Ty::Msg(2095, &[]) }, "graphs"));
to.push(root::<g593::B>(r#"g593::B"#, const { &Ty::Msg(2096, &[]) }, "graphs"));
to.push(root::<g593::C>(r#"g593::C"#, const { &Ty::Msg(2097, &[]) }, "graphs"));
to.push(root::<g594::A>(r#"g594::A"#, const { &Ty::Msg(2098, &[]) }, "graphs"));
to.push(root::<g594::B>(r#"g594::B"#, const { &Ty::Msg(2099, &[]) }, "graphs"));
to.push(root::<g594::C>(r#"g594::C"#, const { &Ty::Msg(2100, &[]) }, "graphs"));
to.push(state_root::<g595::A>(r#"g595::A"#, const { &Ty::Msg(2101, &[]) }, "graphs"));
to.push(state_root::<g595::B>(r#"g595::B"#, const { &Ty::Msg(2102, &[]) }, "graphs"));
to.push(state_root::<g595::C>(r#"g595::C"#, const { &Ty::Msg(2103, &[]) }, "graphs"));
to.push(root::<g596::A>(r#"g596::A"#, const { &Ty::Msg(2104, &[]) }, "graphs"));
to.push(root::<g596::B>(r#"g596::B"#, const { &Ty::Msg(2105, &[]) }, "graphs"));
to.push(root::<g596::C>(r#"g596::C"#, const { &Ty::Msg(2106, &[]) }, "graphs"));
to.push(root::<g597::A>(r#"g597::A"#, const { &Ty::Msg(2107, &[]) }, "graphs"));
to.push(root::<g597::B>(r#"g597::B"#, const { &Ty::Msg(2108, &[]) }, "graphs"));
to.push(root::<g597::C>(r#"g597::C"#, const { &Ty::Msg(2109, &[]) }, "graphs"));
to.push(state_root::<g598::A>(r#"g598::A"#, const { &Ty::Msg(2110, &[]) }, "graphs"));
to.push(state_root::<g598::B>(r#"g598::B"#, const { &Ty::Msg(2111, &[]) }, "graphs"));
to.push(state_root::<g598::C>(r#"g598::C"#, const { &Ty::Msg(2112, &[]) }, "graphs"));
to.push(root::<g599::A>(r#"g599::A"#, const { &Ty::Msg(2113, &[]) }, "graphs"));
to.push(root::<g599::B>(r#"g599::B"#, const { &Ty::Msg(2114, &[]) }, "graphs"));
to.push(root::<g599::C>(r#"g599::C"#, const { &Ty::Msg(2115, &[]) }, "graphs"));
to.push(root::<g600::A>(r#"g600::A"#, const { &Ty::Msg(2116, &[]) }, "graphs"));
to.push(root::<g600::B>(r#"g600::B"#, const { &Ty::Msg(2117, &[]) }, "graphs"));
to.push(root::<g600::C>(r#"g600::C"#, const { &Ty::Msg(2118, &[]) }, "graphs"));
to.push(state_root::<g601::A>(r#"g601::A"#, const { &Ty::Msg(2119, &[]) }, "graphs"));
to.push(state_root::<g601::B>(r#"g601::B"#, const { &Ty::Msg(2120, &[]) }, "graphs"));
to.push(state_root::<g601::C>(r#"g601::C"#, const { &Ty::Msg(2121, &[]) }, "graphs"));
to.push(root::<g602::A>(r#"g602::A"#, const { &Ty::Msg(2122, &[]) }, "graphs"));
to.push(root::<g602::B>(r#"g602::B"#, const { &Ty::Msg(2123, &[]) }, "graphs"));
to.push(root::<g602::C>(r#"g602::C"#, const { &Ty::Msg(2124, &[]) }, "graphs"));
}
pub fn roots() -> Vec<Root> { let mut to = Vec::new(); roots0(&mut to); roots1(&mut to); roots2(&mut to); roots3(&mut to); roots4(&mut to); roots5(&mut to); roots6(&mut to); roots7(&mut to); roots8(&mut to); roots9(&mut to); roots10(&mut to); roots11(&mut to); roots12(&mut to); roots13(&mut to); roots14(&mut to); roots15(&mut to); roots16(&mut to); roots17(&mut to); roots18(&mut to); roots19(&mut to); roots20(&mut to); roots21(&mut to); roots22(&mut to); to }
