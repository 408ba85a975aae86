//! Types and variants named like keywords of C# and what generated code calls its own.

use steit::{
    gen::{
        generators::{CSharpGenerator, CSharpSetting},
        Generator, Setting,
    },
    steit_derive,
    types::List,
};

type Gen = fn(&Setting<CSharpSetting>) -> std::io::Result<Vec<String>>;

macro_rules! named {
    ($($name:ident)*) => {
        mod structs {
            use super::*;
            $(#[steit_derive(State)]
            pub struct $name {
                #[steit(tag = 0)]
                a: u32,
                #[steit(tag = 1)]
                b: List<u32>,
            })*
        }
        mod enums {
            use super::*;
            $(#[steit_derive(State)]
            pub enum $name {
                #[steit(tag = 0)]
                One,
                #[steit(tag = 1)]
                Two(#[steit(tag = 0)] u32),
            })*
        }
        /// Generators of them, to be called for separate namespaces.
        pub fn gens() -> [Vec<Gen>; 2] {
            [
                vec![$(|s| CSharpGenerator.generate::<structs::$name>(s)),*],
                vec![$(|s| CSharpGenerator.generate::<enums::$name>(s)),*],
            ]
        }
    };
}

named! {
    Abstract As Base Bool Break Byte Case Catch Char Checked Class Const Continue Decimal Default Delegate Do Double Else Enum Event Explicit Extern False Finally Fixed Float For Foreach Goto If Implicit In Int Interface Internal Is Lock Long Namespace New Null Object Operator Out Override Params Private Protected Public Readonly Ref Return Sbyte Sealed Short Sizeof Stackalloc Static String Struct Switch This Throw True Try Typeof Uint Ulong Unchecked Unsafe Ushort Using Virtual Void Volatile While Reader Value Tag Args NewTag
}
